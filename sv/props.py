"""The claimed properties: statement, anchors and the machinery that decides each."""
PROPS = {}
NOT_APPLICABLE = {}

DC_TRUST = [
    "clang 18 front end and the soundness of LLVM 18's dataflow passes (GVN, CVP, SCCP, constraint elimination, "
    "SCEV, memory dependence, inlining), which prove FAIL points unreachable",
    "the obligation sources under /verif/ob state the property",
    "undefined behaviour (signed overflow) does not occur in the arguments of an obligation",
]
DC_EXPL = ("Each obligation is a function over symbolic arguments that calls the library from /repo's headers; the "
           "compiler's dataflow analyses over its IR must prove every FAIL point unreachable (and, for guards, a failed "
           "check must remain; for accepted inputs, none may remain). Nothing is executed.")
DC_TECH = "static analysis: dead-code (reachability) proof by compiler dataflow over LLVM IR of the headers"
EFF_TECH = "static analysis: effect analysis (store and call roots) over LLVM IR of the headers"
WIT_TECH = "static analysis: type-level witnesses (static_assert / must-not-compile programs) over the public interface"


def prop(pid, title, statement, over, text, why, files, mech, observe, parts, level="proof", tech=DC_TECH,
         note=None, expl=DC_EXPL, trusted=DC_TRUST, assumptions=(), **kw):
    PROPS[pid] = dict(title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                      observe=observe, parts=parts, level=level, tech=tech, explanation=expl, trusted=trusted,
                      assumptions=list(assumptions),
                      note=note or "Universally quantified over the symbolic arguments of each obligation; trusts "
                                   "clang/LLVM's dataflow soundness and the obligation texts.", **kw)


def na(pid, title, statement, over, text, why, files, mech, observe, reason):
    NOT_APPLICABLE[pid] = dict(title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                               observe=observe, reason=reason)


import props_list  # noqa: E402,F401
