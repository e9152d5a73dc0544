"""Dead-code witness prover.

An obligation is a C++ function (namespaces guard::, total::, eq::, see inc/ob.hpp) written
against the public interface of strictpp. It is compiled, together with the headers in
/repo, to LLVM IR and handed to the optimiser's dataflow passes. The obligation is
discharged when the passes prove the marker call `ob_fail` unreachable (and, per namespace,
the failed-check call present / absent). Nothing is linked or executed.
"""
import concurrent.futures as cf
import os, re, shutil, subprocess, sys, tempfile, time

import poly

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SV_REPO", "/repo")
LLVM = "/usr/lib/llvm-18/bin"
JOBS = int(os.environ.get("SV_JOBS", "8"))


class Broken(Exception):
    """The analysis itself could not be carried out (exit 2)."""


# ---------------------------------------------------------------- compile modes
INC = ["-I" + VERIF + "/inc", "-I" + REPO, "-isystem", "/usr/include/eigen3"]
SHIM = ["-I" + VERIF + "/inc/shim"]
MODES = {
    # debug checks on, check failure = call of strictpp_check_failed
    "L": ["-fno-exceptions"],
    # as L, exceptions on: check failure / allocation may unwind
    "X": ["-fexceptions"],
    # as L, a null pointer may be dereferenced: misuse is not excused by the undefined behaviour it leads to
    "N": ["-fno-exceptions", "-fno-delete-null-pointer-checks"],
    # release: STRICT_DEBUG_OFF
    "R": ["-fno-exceptions", "-DSTRICT_DEBUG_OFF"],
    # as R, values only: what a misuse leads to is another matter
    "RV": ["-fno-exceptions", "-DSTRICT_DEBUG_OFF"],
    "RX": ["-fexceptions", "-DSTRICT_DEBUG_OFF"],
    # the library's own exception configuration
    "E": ["-fexceptions", "-DSTRICT_ERROR_EXCEPTIONS"],
    # as X, and a failed check may neither terminate nor abort: the exception reaches the caller
    "T": ["-fexceptions"],
}
TERMINATES = {"_ZSt9terminatev", "__clang_call_terminate", "abort", "__assert_fail", "exit", "_exit", "_Exit",
              "quick_exit", "__cxa_call_unexpected"}
BASE = ["-std=c++20", "-O2", "-gline-tables-only", "-w", "-fno-math-errno", "-ffp-contract=off",
        "-fno-vectorize", "-fno-slp-vectorize"]

PIPELINES = [
    ("O2", "default<O2>", ["-inline-threshold=20000", "-unroll-threshold=4000"]),
    ("O3x2", "default<O3>,default<O3>",
     ["-inline-threshold=100000", "-unroll-threshold=20000", "-unroll-max-percent-threshold-boost=1000",
      "-memdep-block-scan-limit=2000", "-memdep-block-number-limit=4000", "-available-load-scan-limit=200",
      "-gvn-max-num-deps=2000"]),
    ("early", "function(sroa,early-cse<memssa>),cgscc(inline,function(sroa,early-cse<memssa>)),"
     "function(simplifycfg,sroa,early-cse<memssa>,gvn,constraint-elimination,correlated-propagation,simplifycfg,"
     "gvn,constraint-elimination,correlated-propagation,simplifycfg),default<O3>",
     ["-inline-threshold=100000", "-unroll-threshold=20000", "-memdep-block-scan-limit=2000"]),
    # early jump threading, before conditions are folded into selects
    ("thread", "function(sroa,early-cse<memssa>),cgscc(inline,function(sroa,early-cse<memssa>)),function(jump-threading,"
     "early-cse<memssa>,sroa,jump-threading,gvn,jump-threading,correlated-propagation,simplifycfg,loop(indvars),newgvn,"
     "simplifycfg,instcombine<no-verify-fixpoint>,jump-threading,correlated-propagation,gvn,simplifycfg,"
     "jump-threading,instcombine<no-verify-fixpoint>,jump-threading,simplifycfg),default<O3>,"
     "function(newgvn,simplifycfg,instcombine<no-verify-fixpoint>,correlated-propagation,jump-threading,simplifycfg),default<O3>",
     ["-inline-threshold=20000", "-unroll-threshold=300", "-unroll-runtime=false", "-jump-threading-threshold=60"]),
    # induction variable rewriting and optimistic value numbering: two loop-carried values are proved equal by
    # induction over the iterations
    ("inductive", "default<O2>,function(newgvn,simplifycfg,gvn,instcombine<no-verify-fixpoint>,simplifycfg,loop(indvars),simplifycfg,gvn,"
     "instcombine<no-verify-fixpoint>,simplifycfg,newgvn,correlated-propagation,simplifycfg,gvn,correlated-propagation,simplifycfg,"
     "newgvn,instcombine<no-verify-fixpoint>,simplifycfg,newgvn,simplifycfg)",
     ["-inline-threshold=20000", "-unroll-threshold=300", "-unroll-runtime=false",
      "-two-entry-phi-node-folding-threshold=50", "-phi-node-folding-threshold=50"]),
    ("inductive-peel", "default<O2>,function(loop-simplify,lcssa,loop-mssa(licm),loop-unroll<peeling;no-runtime>,"
     "loop-simplify,lcssa,loop-mssa(licm),loop(indvars),instcombine<no-verify-fixpoint>,simplifycfg,gvn,newgvn,instcombine<no-verify-fixpoint>,simplifycfg,gvn,"
     "newgvn,simplifycfg,constraint-elimination,correlated-propagation,simplifycfg,gvn,correlated-propagation,"
     "simplifycfg,newgvn,simplifycfg)",
     ["-inline-threshold=20000", "-unroll-threshold=300", "-unroll-force-peel-count=1", "-unroll-runtime=false", "-two-entry-phi-node-folding-threshold=50",
      "-phi-node-folding-threshold=50"]),
]
# Loops of constant bounds (units that begin with "// engine: unroll"): callees are simplified before they are inlined, then
# every loop is unrolled, by its bound or else by a count; optimistic constant propagation shows that nothing is left.
WIDE = PIPELINES[1][2] + ["-unroll-max-upperbound=40", "-inlinecold-threshold=100000", "-inline-cold-callsite-threshold=100000"]
LAST = "function(sroa,early-cse<memssa>,gvn,instcombine<no-verify-fixpoint>,simplifycfg)"


def counted(n, limit):
    return [("default<O1>", WIDE[:1] + WIDE[3:] + ["-unroll-threshold=0", "-unroll-runtime=false", "-unroll-allow-partial=false"]),
            ("function(loop-simplify,lcssa,loop-unroll<O3;no-runtime;no-peeling;no-profile-peeling>,sccp,simplifycfg,"
             "instcombine<no-verify-fixpoint>,simplifycfg,sccp,simplifycfg)", [f"-unroll-count={n}", f"-unroll-threshold={limit}"]),
            ("default<O3>,default<O3>," + LAST, WIDE)]


UNROLL = [("unroll", [("default<O3>,default<O3>,default<O3>," + LAST, WIDE)], None),
          ("unroll by 6", counted(6, 60000), None), ("unroll by 12", counted(12, 20000), None)]
OPTCOMMON = ["-disable-loop-idiom-all", "-vectorize-loops=false", "-vectorize-slp=false", "-mandatory-inlining-first=false"]

OBNS = {"_ZN5guard": "guard", "_ZN5total": "total", "_ZN2eq": "eq"}


def obns(sym):
    for p, n in OBNS.items():
        if sym.startswith(p):
            return n
    return None


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def demangle(names):
    names = list(names)
    if not names:
        return {}
    r = subprocess.run([LLVM + "/llvm-cxxfilt"], input="\n".join(names) + "\n", stdout=subprocess.PIPE, text=True)
    out = r.stdout.split("\n")
    return dict(zip(names, out))


# ---------------------------------------------------------------- IR reading
RE_DEF = re.compile(r'^define\b.*?@("(?:[^"\\]|\\.)*"|[\w.$-]+)\s*\(')
RE_CALL = re.compile(r'\b(?:call|invoke)\b[^@"]*?(?:"[^"]*"[^@"]*?)*@("(?:[^"\\]|\\.)*"|[\w.$-]+)\s*\(')
RE_DBG = re.compile(r'!dbg !(\d+)')
RE_I32 = re.compile(r'\(i32 (?:noundef )?(-?\d+|%[\w.]+)')


def split_functions(text):
    """-> {symbol: (defline, [lines])}"""
    fns, cur, name, head = {}, None, None, None
    for line in text.split("\n"):
        if cur is None:
            if line.startswith("define"):
                m = RE_DEF.match(line)
                name, head, cur = m.group(1).strip('"'), line, []
        elif line == "}":
            fns[name] = (head, cur)
            cur = None
        else:
            cur.append(line)
    return fns


def calls_in(lines):
    for l in lines:
        if " call " in l or " invoke " in l or l.lstrip().startswith(("call ", "invoke ", "tail call", "musttail")):
            m = RE_CALL.search(l)
            if m:
                yield m.group(1).strip('"'), l


class Meta:
    """Debug locations of a textual IR module."""

    def __init__(self, text):
        self.sub, self.file, self.loc, self.lex = {}, {}, {}, {}
        self.layout = poly.Layout(text)
        for line in text.split("\n"):
            if not line.startswith("!"):
                continue
            m = re.match(r'!(\d+) = (?:distinct )?!(DI\w+)\((.*)\)$', line)
            if not m:
                continue
            k, kind, body = m.groups()
            if kind == "DIFile":
                f = re.search(r'filename: "([^"]*)"', body).group(1)
                d = re.search(r'directory: "([^"]*)"', body)
                if d and not f.startswith("/"):
                    f = os.path.join(d.group(1), f)
                self.file[k] = os.path.normpath(f)
            elif kind == "DISubprogram":
                n = re.search(r'\bname: "([^"]*)"', body)
                ln = re.search(r'\bline: (\d+)', body)
                fl = re.search(r'\bfile: !(\d+)', body)
                self.sub[k] = (n.group(1) if n else "?", fl.group(1) if fl else None, int(ln.group(1)) if ln else 0)
            elif kind == "DILocation":
                ln = re.search(r'\bline: (\d+)', body)
                sc = re.search(r'\bscope: !(\d+)', body)
                ia = re.search(r'inlinedAt: !(\d+)', body)
                self.loc[k] = (int(ln.group(1)) if ln else 0, sc.group(1), ia.group(1) if ia else None)
            elif kind in ("DILexicalBlock", "DILexicalBlockFile"):
                sc = re.search(r'\bscope: !(\d+)', body)
                fl = re.search(r'\bfile: !(\d+)', body)
                self.lex[k] = (sc.group(1), fl.group(1) if fl else None)

    def scope_sub(self, sc):
        fl = None
        while sc in self.lex:
            fl = fl or self.lex[sc][1]
            sc = self.lex[sc][0]
        if sc in self.sub:
            n, f, l = self.sub[sc]
            return n, self.file.get(fl or f, "?"), l
        return "?", "?", 0

    def where(self, line):
        """-> [(file, line, function), ...] innermost first"""
        m = RE_DBG.search(line)
        out = []
        k = m.group(1) if m else None
        while k and k in self.loc:
            ln, sc, ia = self.loc[k]
            n, f, _ = self.scope_sub(sc)
            out.append((f, ln, n))
            k = ia
        return out

    def func(self, head):
        m = RE_DBG.search(head)
        if m and m.group(1) in self.sub:
            n, f, l = self.sub[m.group(1)]
            return n, self.file.get(f, "?"), l
        return None


def short(path):
    for p in (REPO + "/", VERIF + "/"):
        if path.startswith(p):
            return path[len(p):]
    return path


# ---------------------------------------------------------------- obligations
class Obl:
    def __init__(self, unit, mode, sym, kind):
        self.unit, self.mode, self.sym, self.kind = unit, mode, sym, kind
        self.name = sym
        self.where = ("?", 0)
        self.live = set()         # LIVE lines before optimisation
        self.nfail = 0            # FAIL sites before optimisation
        self.callees = []         # (file, line, function) of /repo functions called directly
        self.reach = 0            # /repo functions reached in the call graph
        self.proved_by = None
        self.why = {}             # pipeline -> list of reasons

        self.cut = set()          # integer constants that may tell sizes apart
        self.bounded = 0          # size assignments it was decided for, when not for all sizes

    def best(self):
        return min(self.why.values(), key=len) if self.why else []

    def key(self):
        return f"{self.unit}[{self.mode}]:{self.name}"


RE_GROUP = re.compile(r'^attributes #(\d+) = \{(.*)\}$')


def force_inline(text):
    """Mark every defined helper alwaysinline, so that dataflow sees through calls however the
    headers split their work; obligations and functions declared noinline are left alone."""
    never = set()
    for line in text.split("\n"):
        m = RE_GROUP.match(line)
        if m and ("noinline" in m.group(2) or "optnone" in m.group(2)):
            never.add(m.group(1))
    out = []
    for line in text.split("\n"):
        if line.startswith("define") and "basic_string" not in line and "trace_err" not in line:
            m = re.search(r'\) (?:local_unnamed_addr |unnamed_addr )?(#(\d+))', line)
            if m and m.group(2) not in never:
                line = line[:m.start(1)] + "alwaysinline " + line[m.start(1):]
        out.append(line)
    return "\n".join(out)


def scalar_tbaa(text):
    """A copy of a wrapper class of one field carries !tbaa.struct, which alias analysis does not read. When the
    struct description is that one field, state it as a plain access tag: it is the same fact."""
    one = dict(re.findall(r'^!(\d+) = !\{i64 0, i64 \d+, !(\d+)\}$', text, re.M))
    return re.sub(r'!tbaa\.struct !(\d+)', lambda m: "!tbaa !" + one[m.group(1)] if m.group(1) in one else m.group(0),
                  text)


EFFECTS = [
    # operator new / delete touch their argument and the allocator's own state, nothing else
    (re.compile(r"@_Zn[aw]m\w*\("), "memory(inaccessiblemem: readwrite)"),
    (re.compile(r"@_Zd[al]Pv\w*\("), "memory(argmem: readwrite, inaccessiblemem: readwrite)"),
    # markers of the obligations, the reporting of a failed check, and the exception runtime: no effect on the
    # program's own objects
    (re.compile(r"@(ob_live|ob_fail|ob_may_throw|strictpp_check_failed|__cxa_begin_catch|__cxa_end_catch)\("),
     "memory(inaccessiblemem: readwrite)"),
]


def runtime_effects(text, delete_is_pure=False):
    """delete_is_pure: what is read through other pointers after a delete is not affected by it"""
    out = []
    for line in text.split("\n"):
        if line.startswith("declare") and "memory(" not in line:
            for r, eff in EFFECTS:
                if r.search(line):
                    line += " " + (eff.replace("argmem: readwrite, ", "") if delete_is_pure else eff)
        out.append(line)
    return "\n".join(out)


def drop_functions(text, syms):
    out, skip = [], False
    for line in text.split("\n"):
        if line.startswith("define"):
            skip = RE_DEF.match(line).group(1).strip('"') in syms
        if not skip:
            out.append(line)
        if line == "}":
            skip = False
    return "\n".join(out)


def is_failcall(sym):
    return sym in ("strictpp_check_failed", "__cxa_throw", "_ZSt9terminatev") or "__throw" in sym


def unit_pre(src, mode, workdir, extra):
    tag = os.path.splitext(os.path.basename(src))[0] + "." + mode
    ll = os.path.join(workdir, tag + ".pre.ll")
    shim = [] if mode == "E" else SHIM
    cmd = [LLVM + "/clang++", *BASE, *MODES[mode], *shim, *INC, *extra,
           "-DSV_MODE_" + mode, "-DSV_" + ("RELEASE" if mode[0] == "R" else "DEBUG"),
           "-Xclang", "-disable-llvm-passes", "-S", "-emit-llvm", src, "-o", ll]
    r = sh(cmd)
    return ll, r, cmd


def list_obls(src, mode, pre_text):
    fns = split_functions(pre_text)
    meta = Meta(pre_text)
    graph = {s: [c for c, _ in calls_in(ls)] for s, (h, ls) in fns.items()}
    info = {}
    for s, (h, ls) in fns.items():
        info[s] = meta.func(h)
    obls = {}
    srcname = os.path.basename(src)
    dm = demangle([s for s in fns if obns(s)])
    for s, (h, ls) in fns.items():
        k = obns(s)
        if not k or " internal " in h or "linkonce" in h or (mode in ("T", "N") and k != "guard") or (
                mode == "RV" and k == "guard"):
            continue
        o = Obl(srcname, mode, s, k)
        o.name = dm.get(s, s)
        # markers may sit in lambdas, probe types and helpers: LIVE/FAIL are counted over the reached graph
        seen, todo = set(), [s]
        while todo:
            x = todo.pop()
            if x in seen or x not in graph:
                continue
            seen.add(x)
            for c in graph[x]:
                todo.append(c)
        for x in seen:
            for c, l in calls_in(fns[x][1]):
                if c == "ob_fail":
                    o.nfail += 1
                elif c == "ob_live":
                    m = RE_I32.search(l)
                    o.live.add(m.group(1))
        direct = []
        for c in graph[s]:
            i = info.get(c)
            if i and i[1].startswith(REPO + "/"):
                t = (short(i[1]), i[2], i[0])
                if t not in direct:
                    direct.append(t)
        o.callees = direct
        o.reach = sum(1 for x in seen if info.get(x) and info[x][1].startswith(REPO + "/"))
        o.reach_files = {short(info[x][1]) for x in seen if info.get(x) and info[x][1].startswith(REPO + "/")}
        i = info.get(s)
        if i:
            o.where = (short(i[1]), i[2])
        obls[s] = o
    return obls


def judge(o, fns, meta):
    """reasons why the obligation is not discharged in this optimised body; [] = discharged"""
    why = []
    live, nfailcall = set(), 0
    seen, todo = set(), [o.sym]
    lines = []
    while todo:                       # functions the optimiser left as calls count in full
        x = todo.pop()
        if x in seen or x not in fns:
            continue
        seen.add(x)
        body = fns[x][1]
        if any("@ob_fail" in l or "@strictpp_check_failed" in l for l in body):
            body = poly.live_lines(body, meta.layout)
        lines += body
        todo += [c for c, _ in calls_in(body)]
    for c, l in calls_in(lines):
        if c == "ob_fail":
            w = meta.where(l)
            m = RE_I32.search(l)
            at = f"{short(w[-1][0])}:{w[-1][1]}" if w else "?"
            why.append(("fail", m.group(1) if m else "?", at))
        elif c == "ob_live":
            m = RE_I32.search(l)
            live.add(m.group(1))
        elif o.mode == "T" and o.kind == "guard" and c in TERMINATES:
            w = meta.where(l)
            chain = [x for x in w if x[0].startswith(REPO + "/")]
            why.append(("terminates", c, " <- ".join(f"{short(f)}:{n} ({fn})" for f, n, fn in chain[:6]) or "?"))
        elif is_failcall(c):
            nfailcall += 1
            if o.kind == "total":
                w = meta.where(l)
                chain = [x for x in w if x[0].startswith(REPO + "/")]
                why.append(("check", c, " <- ".join(f"{short(f)}:{n} ({fn})" for f, n, fn in chain[:6]) or "?"))
    if o.kind == "guard" and nfailcall == 0:
        why.append(("unguarded", "", "no failed-check call remains"))
    if o.kind in ("total", "eq"):
        for x in sorted(o.live - live):
            why.append(("dead", x, "LIVE point is unreachable"))
    return why


# ---------------------------------------------------------------- fallback: sizes and positions fixed to small constants
# Loop code that no pipeline relates to the ghost loop of its obligation for every size is decided for each of a set of
# small sizes and positions instead (the same dataflow on fully unrolled loops). That decides the obligation only when the
# code does not distinguish larger sizes: an integer constant above the bound in a comparison or in a division, remainder,
# mask or right shift of the code (a threshold, a block size) rules it out.
SMALL = 7
RE_OBFN = re.compile(r'(\bOB void [\w#]+\()((?:[^{};]|\{\})*?)(\)\s*\\?\s*\{)')
RE_CUT = re.compile(r'= (?:icmp (?:samesign )?\w+|urem|srem|udiv|sdiv|and|lshr|ashr|sdiv exact|lshr exact|ashr exact|udiv exact) i(?:64|32) %[\w.$-]+, (-?\d+)$')


def fix_source(text):
    """the obligations with a call ob_fix(k, argument) for every argument at their start"""
    def sub(m):
        depth, names, cur = 0, [], ""
        for ch in m.group(2) + ",":
            if ch == "," and depth == 0:
                n = re.search(r'([A-Za-z_]\w*)\s*\\?\s*$', cur)
                names.append((n.group(1) if n else None, cur))
                cur = ""
                continue
            depth += ch in "<(" and 1 or 0
            depth -= ch in ">)" and 1 or 0
            cur += ch
        calls = ""
        for k, (n, t) in enumerate(names):
            if n and ("&" in t or re.match(r'\s*long\b', t)):
                calls += f" REQUIRE(ob_fix({k}, {n}));"
        return m.group(1) + m.group(2) + m.group(3)[:-1].replace("\\", "\\") + "{" + calls
    return RE_OBFN.sub(sub, text)


FIX_HEAD = """
extern "C" bool ob_fix_(int id, long v) noexcept __attribute__((const));
inline bool ob_fix(int k, const long& v) { return ob_fix_(100 + k, v); }
template <class A> inline bool ob_fix(int k, const A& a) {
   if constexpr(requires { a.rows(); a.size(); }) {
      return ob_fix_(2 * k, a.rows().val()) && ob_fix_(2 * k + 1, a.cols().val());
   } else if constexpr(requires { a.size(); a.un(0); }) {
      return ob_fix_(2 * k, a.size().val());
   } else {
      return true;
   }
}
"""


def combos():
    import random
    rnd = random.Random(1)
    for s in range(64):
        n, m = 1 + s % 6, 1 + (s // 6) % 4
        t = {}
        for k in range(8):
            t[2 * k] = min(n, 4) if rnd.random() < .5 and s % 2 else n if rnd.random() < .7 else rnd.randint(0, 5)
            t[2 * k + 1] = m if rnd.random() < .7 else rnd.randint(0, 4)
            t[100 + k] = rnd.choice([0, 0, 1, 1, 2, 2, 3, n, m, n - 1, -1])
        yield t


def cutoffs(lines):
    r = set()
    for l in lines:
        m = RE_CUT.search(poly.strip(l))
        if m and SMALL < abs(int(m.group(1))) < 1 << 24:
            r.add(int(m.group(1)))
    return r


def bounded(src, mode, workdir, extra, obls, todo, deadline):
    """decide the obligations in `todo` for small sizes; returns {sym: number of size assignments it was decided for}"""
    import concurrent.futures as cf
    with open(src) as f:
        text = fix_source(f.read())
    tag = os.path.splitext(os.path.basename(src))[0]
    fsrc = os.path.join(workdir, tag + "." + mode + ".fix.cpp")
    with open(fsrc, "w") as f:
        f.write(f'#include "sv.hpp"\n{FIX_HEAD}#line 1 "{src}"\n{text}')
    ll, r, _ = unit_pre(fsrc, mode, workdir, extra)
    if r.returncode:
        return {}
    with open(ll) as f:
        pre = f.read()
    every = set(list_obls(src, None, pre))
    pre = runtime_effects(scalar_tbaa(force_inline(pre)))
    alive, done = {s for s in todo if s in every}, {s: 0 for s in todo}
    pre = drop_functions(pre, every - alive)
    pre = re.sub(r'^declare [^\n]*@ob_fix_\([^\n]*$', "", pre, flags=re.M)
    if "@ob_fix_(" not in pre:
        return {}

    def one(i, t):
        if not alive or time.time() > deadline:
            return
        sel, prev = "", "-99"
        for k, v in t.items():
            sel += f"  %c{k} = icmp eq i32 %id, {k}\n  %s{k} = select i1 %c{k}, i64 {v}, i64 {prev}\n"
            prev = f"%s{k}"
        fn = (f"define internal noundef zeroext i1 @ob_fix_(i32 %id, i64 %v) alwaysinline {{\n{sel}"
              f"  %r = icmp eq i64 %v, {prev}\n  ret i1 %r\n}}\n")
        p = os.path.join(workdir, f"{tag}.{mode}.fix{i}.ll")
        mine = set(alive)
        with open(p, "w") as f:
            f.write(drop_functions(pre, every - mine) + "\n" + fn)
        left = set(mine)
        for name in ("O3x2", "thread", "early"):
            passes, flags = next((b, c) for a, b, c in PIPELINES if a == name)
            out = p.replace(".ll", ".o.ll")
            if left != mine:
                with open(p, "w") as f:
                    f.write(drop_functions(pre, every - left) + "\n" + fn)
            r, _ = run_opt(p, passes, flags + ["-unroll-max-upperbound=40"], out)
            if r is None or r.returncode:
                continue
            with open(out) as f:
                text = f.read()
            fns, meta = split_functions(text), Meta(text)
            for s in list(left):
                if s not in fns:
                    continue
                why = judge(obls[s], fns, meta)
                if not any(w[0] in ("fail", "check", "terminates") for w in why):
                    left.discard(s)
                    if not any(w[0] == "unguarded" for w in why) and \
                            (obls[s].kind == "guard" or sum(w[0] == "dead" for w in why) < len(obls[s].live)):
                        done[s] += 1
            os.unlink(out)
            if not left:
                break
        os.unlink(p)
        for s in left:
            alive.discard(s)
    with cf.ThreadPoolExecutor(4) as ex:
        list(ex.map(lambda a: one(*a), enumerate(combos())))
    if time.time() > deadline:
        return {}
    return {s: done[s] for s in alive if done[s] >= 3}


RE_FCMP = re.compile(r"^(\s*)(%[\w.\"-]+) = fcmp (\w+) (float|double|x86_fp80|fp128) ([^ ,]+), ([^ ,]+)(.*)$")
FNEG = {"une": "oeq", "ult": "oge", "ule": "ogt", "ugt": "ole", "uge": "olt", "ueq": "one"}
FSWAP = {"ogt": "olt", "oge": "ole"}


def normal_comparisons(text):
    """Floating comparisons in one normal form, so that complementary ones are seen as such on a path: a negated predicate
    becomes xor of the plain one, > becomes <, and "x or y is NaN" (which instcombine merges) two conditions."""
    lines, forms, need = text.split("\n"), {}, False
    for l in lines:
        if l.startswith("define "):
            forms = {}
        m = RE_FCMP.match(l)
        if m:
            k, ty, a, b = m.groups()[2:6]
            if k in ("uno", "ord"):
                need |= a != b and a[0] == b[0] == "%"
                continue
            p = FNEG.get(k, k)
            key = (ty, b, a, FSWAP[p]) if p in FSWAP else (ty, *sorted((a, b)), p) if p in ("oeq", "one") else (ty, a, b, p)
            need |= forms.setdefault(key, k in FNEG) != (k in FNEG)
    if not need:
        return None
    out, n = [], 0
    for l in lines:
        m = RE_FCMP.match(l)
        if not m:
            out.append(l)
            continue
        ind, d, k, ty, a, b, rest = m.groups()
        n += 1
        if k in ("uno", "ord"):
            if a != b and a[0] == b[0] == "%":
                z = "0xK00000000000000000000" if ty == "x86_fp80" else "0xL00000000000000000000000000000000" if ty == "fp128" else "0.000000e+00"
                out += [f"{ind}%ob.c{n}a = fcmp {k} {ty} {a}, {z}", f"{ind}%ob.c{n}b = fcmp {k} {ty} {b}, {z}",
                        f"{ind}{d} = {'or' if k == 'uno' else 'and'} i1 %ob.c{n}a, %ob.c{n}b"]
            else:
                out.append(l)
            continue
        p = FNEG.get(k, k)
        if p in FSWAP:
            p, a, b = FSWAP[p], b, a
        elif p in ("oeq", "one"):
            a, b = sorted((a, b))
        if k in FNEG:
            out += [f"{ind}%ob.c{n} = fcmp {p} {ty} {a}, {b}", f"{ind}{d} = xor i1 %ob.c{n}, true"]
        else:
            out.append(f"{ind}{d} = fcmp {p} {ty} {a}, {b}")
    return "\n".join(out)


def run_opt(pre_ll, passes, flags, out):
    if not isinstance(passes, str):
        for k, (p, fl) in enumerate(passes):
            step = f"{out}.{k}.ll" if k < len(passes) - 1 else out
            r, cmd = run_opt(pre_ll, p, fl, step)
            if r is None or r.returncode:
                return r, cmd
            pre_ll = step
        return r, cmd
    cmd = [LLVM + "/opt", "-S", "-passes=" + passes, *OPTCOMMON, *flags, pre_ll, "-o", out]
    try:
        r = sh(cmd, timeout=400)
        if r.returncode == 0:
            with open(out) as f:
                text = f.read()
            norm = normal_comparisons(text) if "@ob_fail" in text else None
            if norm:
                with open(out + ".c.ll", "w") as f:
                    f.write(norm)
                r2 = sh([LLVM + "/opt", "-S", "-passes=function(early-cse,jump-threading,gvn,correlated-propagation,"
                         "simplifycfg,early-cse,jump-threading,gvn,jump-threading,simplifycfg)", out + ".c.ll", "-o", out],
                        timeout=400)
                os.unlink(out + ".c.ll")
                if r2.returncode:
                    return r2, cmd
        return r, cmd
    except subprocess.TimeoutExpired:
        return None, cmd


def prove_unit(src, mode, workdir, extra=(), thorough=False):
    """-> dict(obls=[Obl], cmd=..., err=...)"""
    t0 = time.time()
    ll, r, cmd = unit_pre(src, mode, workdir, list(extra))
    if r.returncode != 0:
        return {"src": src, "mode": mode, "err": r.stderr, "cmd": cmd, "obls": []}
    with open(ll) as f:
        pre = f.read()
    obls = list_obls(src, mode, pre)
    forced = runtime_effects(scalar_tbaa(force_inline(pre)))
    with open(ll, "w") as f:
        f.write(forced)
    meta_cmds = [" ".join(cmd)]
    open_ = set(obls)
    every = set(list_obls(src, None, pre))
    with open(src) as f:
        unroll = f.read().startswith("// engine: unroll")
    for name, passes, flags in UNROLL + PIPELINES[:4] if unroll else PIPELINES:
        if not open_:
            break
        out = ll.replace(".pre.ll", "." + name + ".ll")
        src_ll = ll
        # unrolling: callees first, each is simplified before it is inlined
        text = runtime_effects(scalar_tbaa(pre), True) if flags is None else forced
        if len(open_) < len(every) or flags is None:    # keep only what is still open
            src_ll = ll.replace(".pre.ll", ".open.ll")
            with open(src_ll, "w") as f:
                f.write(drop_functions(text, every - open_))
        r, c = run_opt(src_ll, passes, flags, out)
        meta_cmds.append(" ".join(c))
        if r is None or r.returncode != 0:
            for s in open_:
                obls[s].why[name] = [("opt", "", "pipeline failed: " + ("timeout" if r is None else r.stderr[:300]))]
            continue
        with open(out) as f:
            text = f.read()
        fns = split_functions(text)
        meta = Meta(text)
        for s in list(open_):
            if s not in fns:
                obls[s].why[name] = [("gone", "", "obligation missing from optimised IR")]
                continue
            why = judge(obls[s], fns, meta)
            if why:
                obls[s].why[name] = why
                if name == "O2":
                    obls[s].cut = cutoffs(fns[s][1])
            else:
                obls[s].proved_by = name
                open_.discard(s)
    todo = {s for s in open_ if not obls[s].cut and not any(w[0] in ("dead", "gone", "opt") for w in obls[s].best())}
    if todo and mode != "E" and not unroll:
        for s, k in bounded(src, mode, workdir, list(extra), obls, todo, time.time() + 300).items():
            obls[s].proved_by, obls[s].bounded = "small sizes", k
    return {"src": src, "mode": mode, "obls": list(obls.values()), "cmd": meta_cmds, "err": None,
            "wall": time.time() - t0}
