"""Effect analysis: programs that only read must have no effect on anything but their own storage.

An effect module (/verif/eff/*.py) yields (name, code) programs over the public headers. Each becomes a function; the
translation unit is lowered to LLVM IR, everything defined in the headers is inlined into it and memory is promoted to
registers. What is left of a function after that are its effects: a store (or memory intrinsic, or atomic) whose
address is not rooted in an object that the function itself created (a local object or storage it allocated), or a call of
a function that may have effects of its own. Both are violations, reported with the library construct they come from."""
import importlib.util, os, re
import engine
from engine import VERIF, LLVM, Broken
from main import Item, Part, fn_str

HEAD = """#include <strictpp/strict.hpp>
#include <utility>
#include <vector>
using namespace spp;
template<class T> __attribute__((const)) T& L_() noexcept;
template<class T> __attribute__((const)) const T& C_() noexcept;
"""
NOEFFECT = re.compile(
    r"^(llvm\.(lifetime|dbg|assume|experimental|fabs|sqrt|fma|floor|ceil|pow|exp|log|sin|cos|rint|round|trunc|copysign|minnum|maxnum|"
    r"umul|smul|sadd|uadd|ssub|usub|abs|smax|smin|umax|umin|ctpop|ctlz|cttz|is\.fpclass|is\.constant|canonicalize|ldexp|lrint|llrint|"
    r"vector|masked\.load|fshl|fshr|objectsize|expect|invariant|stacksave|stackrestore|trap|ubsantrap|eh\.typeid|prefetch)[\w.]*"
    r"|(sin|cos|tan|asin|acos|atan|atan2|sinh|cosh|tanh|exp|exp2|expm1|log|log2|log10|log1p|sqrt|cbrt|pow|fma|fabs|floor|ceil|"
    r"round|trunc|fmod|ldexp|hypot|lround|llround|lrint|nearbyint|rint|copysign|nextafter|scalbn|ilogb)[fl]?|__powi\w+"
    r"|bcmp|memcmp|strlen|strictpp_check_failed|_ZSt\d+__throw_\w+|_Zn[aw]m\w*|_Z2[LC]_\w+|_Unwind_Resume|__gxx_personality_v0"
    r"|__cxa_(begin_catch|end_catch|rethrow|allocate_exception|throw|free_exception)|_ZSt9terminatev|__clang_call_terminate"
    r"|(aligned_alloc|malloc|posix_memalign))$")
FREES = re.compile(r"^(_Zd[al]Pv\w*|free)$")
MEM = re.compile(r"^llvm\.mem(cpy|move|set|cpy\.inline|set\.inline)\b|^mem(cpy|move|set)$")
RE_ASSIGN = re.compile(r'^\s*(%[\w.$-]+|%"[^"]+") = (.*)$')
V = r'(%[\w.$-]+|%"(?:[^"\\]|\\.)*"|@[\w.$-]+|@"(?:[^"\\]|\\.)*"|null|undef|poison)'
PASSES = ("default<O2>", ["-inline-threshold=20000", "-unroll-threshold=0"])


def load(name):
    spec = importlib.util.spec_from_file_location("eff_" + name[:-3], os.path.join(VERIF, "eff", name))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


class Roots:
    def __init__(self, lines):
        self.defs = {}
        for l in lines:
            m = RE_ASSIGN.match(l)
            if m:
                self.defs[m.group(1)] = m.group(2)

    def own(self, v, seen=None):
        """None if v is rooted in storage the function created, else what it may be rooted in"""
        seen = seen or set()
        if v in seen or v in ("null", "undef", "poison"):
            return None
        seen.add(v)
        if v.startswith("@"):
            return f"static object {v[1:]}"
        d = self.defs.get(v)
        if d is None:
            return "a parameter"
        if d.startswith("alloca"):
            return None
        m = re.match(r"getelementptr (?:inbounds |nuw |nusw )*.*?, ptr " + V, d) or re.match(r"(?:bitcast|addrspacecast|freeze) (?:ptr|.*?) " + V, d)
        if m:
            return self.own(m.group(1), seen)
        if d.startswith("phi"):
            for x in re.findall(r"\[ " + V + r", ", d):
                r = self.own(x, seen)
                if r:
                    return r
            return None
        if d.startswith("select"):
            for x in re.findall(r"ptr " + V, d):
                r = self.own(x, seen)
                if r:
                    return r
            return None
        m = engine.RE_CALL.search(d)
        if m:
            n = m.group(1).strip('"')
            if re.match(r"^(_Zn[aw]m|aligned_alloc$|malloc$|__cxa_allocate_exception$|__cxa_begin_catch$)", n):
                return None
            if re.match(r"^_Z2[LC]_", n):
                return "an operand"
            return f"the result of {n}"
        if d.startswith(("load", "extractvalue", "inttoptr", "insertvalue")):
            m = re.match(r"load ptr, ptr " + V, d)
            if m:
                r = self.own(m.group(1), set(seen))
                return f"memory held by {r}" if r else "a pointer kept in a local object"
            return "an unknown pointer"
        return "an unknown pointer"


def effects(lines, meta):
    """[(text, debug location)] effects of an optimised body on storage it did not create"""
    roots, out = Roots(lines), []
    for raw in lines:
        l = raw.strip()
        dbg = engine.RE_DBG.search(raw)
        at = dbg.group(1) if dbg else None
        m = re.match(r"store (?:atomic |volatile )*.*?, ptr " + V, l)
        if l.startswith("store"):
            r = roots.own(m.group(1)) if m else "an unknown pointer"
            if r:
                out.append((f"writes {r}", at))
            continue
        if re.match(r"(%[^ ]+ = )?(atomicrmw|cmpxchg|fence)", l):
            out.append((l.split(" ")[0] + " (atomic)", at))
            continue
        if "asm sideeffect" in l:
            out.append(("inline assembly", at))
            continue
        if not re.match(r"(%[^ ]+ = |\S+ = )?((tail|musttail|notail) )?(call|invoke)\b", l):
            continue
        c = engine.RE_CALL.search(l)
        if not c:
            out.append(("calls through a pointer", at))
            continue
        n = c.group(1).strip('"')
        if NOEFFECT.match(n):
            continue
        if MEM.match(n) or FREES.match(n):
            a = re.search(r"\(ptr (?:\w+(?:\([^)]*\))? |\"[^\"]*\" )*?" + V, l[c.start():])
            r = roots.own(a.group(1)) if a else "an unknown pointer"
            if r:
                out.append((("frees " if FREES.match(n) else "writes ") + r, at))
            continue
        out.append((f"calls {n}", at))
    return out


def shard(name, progs, workdir, k, mode):
    src = os.path.join(workdir, f"{name}.{k}.{mode}.cpp")
    with open(src, "w") as f:
        f.write(HEAD + "namespace eff {\n")
        for i, (n, code) in progs:
            f.write(f'#line 1 "e{i}"\n__attribute__((noinline)) void e{i}_() {{ {code} }}\n')
        f.write("}\n")
    ll = src.replace(".cpp", ".ll")
    cmd = [LLVM + "/clang++", *engine.BASE, *engine.MODES[mode], *engine.SHIM, *engine.INC, "-ferror-limit=0", "-Xclang",
           "-disable-llvm-passes", "-S", "-emit-llvm", src, "-o", ll]
    r = engine.sh(cmd)
    if r.returncode:
        bad = {}
        for l in r.stderr.split("\n"):
            m = re.match(r"e(\d+):1:\d+: (?:fatal )?error: (.*)", l)
            if m:
                bad.setdefault(int(m.group(1)), m.group(2))
        return cmd, {i: None for i, _ in progs}, bad, r.stderr, set()
    with open(ll) as f:
        text = engine.force_inline(f.read())
    with open(ll, "w") as f:
        f.write(text)
    out = ll.replace(".ll", ".o.ll")
    r, ocmd = engine.run_opt(ll, PASSES[0], PASSES[1], out)
    if r is None or r.returncode:
        raise Broken(f"{name}: the optimiser failed on {src}")
    with open(out) as f:
        otext = f.read()
    fns, meta = engine.split_functions(otext), engine.Meta(otext)
    files = {engine.short(x) for x in re.findall(r'!DIFile\(filename: "([^"]*strictpp/[^"]*)"', otext)}
    res = {}
    for i, (n, code) in progs:
        sym = next((s for s in fns if re.match(rf"_ZN3eff\d+e{i}_Ev$", s)), None)
        if sym is None:
            raise Broken(f"{name}: program {i} has no code")
        res[i] = [(t, locs(meta, a)) for t, a in effects(fns[sym][1], meta)]
    return cmd + ["&&"] + (ocmd if isinstance(ocmd, list) else [str(ocmd)]), res, {}, "", files


def locs(meta, at):
    return [fn_str((engine.short(f), ln, n)) for f, ln, n in meta.where(f"!dbg !{at}")] if at else []


def run(spec, tier, workdir, pool):
    """spec: list of (file, modes, min programs)"""
    part = Part()
    jobs = []
    for file, modes, minimum in spec:
        progs = list(enumerate(load(file).programs()))
        if len(progs) < minimum:
            raise Broken(f"{file}: {len(progs)} programs, expected at least {minimum}")
        step = max(40, -(-len(progs) // 48))
        for mode in modes:
            for k in range(0, len(progs), step):
                jobs.append((file, mode, progs[k:k + step], pool.submit(shard, file[:-3], progs[k:k + step], workdir, k, mode)))
    count = {}
    for file, mode, progs, fut in jobs:
        cmd, res, bad, err, files = fut.result()
        if err and not bad:
            raise Broken(f"{file}: programs do not compile:\n{err[:2000]}")
        part.files |= files
        if not part.cmds:
            part.cmds.append(" ".join(cmd))
        for i, (n, code) in progs:
            if err and i not in bad:
                continue
            e = res[i]
            ok = not err and not e
            if err:
                det, fns = "does not compile: " + bad[i], []
            else:
                det = "; ".join(dict.fromkeys(f"{t} at {loc[0]}" if loc else t for t, loc in e[:12])) if e else ""
                fns = [x for t, loc in e[:1] for x in loc]
            part.items.append(Item(f"[{mode}] {n}: `{code}`", ok, f"eff/{file}", det, fns, rule="no effect outside own storage",
                                   key=f"{file}:{n}:{code}"))
            count[file, mode] = count.get((file, mode), 0) + ok
    part.units = [{"unit": f"eff/{f} [{m}]", "programs_without_effect": c} for (f, m), c in count.items()]
    return part
