"""Type-level witnesses: programs that must compile and programs that must not, over the public interface.

A witness module (/verif/wit/*.py) yields groups (name, decls, pre, lines); every line is ('Y', code) or ('N', code) and
becomes the body `pre; code` of one function.  All of a translation unit's functions are handed to the compiler's front end
at once (-fsyntax-only); a diagnostic is attributed to the function it arises in or is instantiated from.
 - a Y line is violated if any error is attributed to it;
 - an N line must be rejected: one that draws no error in the batch (errors inside a shared template instantiation are
   reported once) is compiled on its own, and is violated if that succeeds.
Every group has a Y line with the same declarations, so that an N line cannot be rejected merely because the group is broken:
if any Y line of a group fails, its N lines are not counted."""
import importlib.util, os, re, subprocess
import engine
from engine import REPO, VERIF, Broken
from main import Item, Part

CLANG = [engine.LLVM + "/clang++", "-ferror-limit=0", "-fno-caret-diagnostics", "-fno-color-diagnostics",
         "-ftemplate-backtrace-limit=0", "-fmacro-backtrace-limit=1"]
GCC = ["g++", "-fmax-errors=0", "-fno-diagnostics-show-caret", "-fdiagnostics-color=never",
       "-ftemplate-backtrace-limit=0"]
COMMON = ["-std=gnu++20", "-fsyntax-only", "-w", "-I" + REPO]
HEAD = """#include <strictpp/strict.hpp>
#include <type_traits>
#include <utility>
#include <sstream>
using namespace spp;
template<class T> T& L_();                 // lvalue
template<class T> const T& C_();           // const lvalue
template<class T> T X_();                  // temporary
template<class T> constexpr bool same_(T*, T*) { return true; }
template<class A, class B> constexpr bool same_(A*, B*) { return false; }
#define TYPE(T, ...) static_assert(std::is_same_v<decltype(__VA_ARGS__), T>)
#define YES(...) static_assert(__VA_ARGS__)
"""
FLAVOURS = {
    "clang": (CLANG, []), "gcc": (GCC, []),
    "clang/nodebug": (CLANG, ["-DSTRICT_DEBUG_OFF"]),
    "clang/exceptions": (CLANG, ["-DSTRICT_ERROR_EXCEPTIONS"]),
    "gcc/quad": (GCC, ["-DSTRICT_QUAD_PRECISION", "-DWIT_QUAD"]),
    "gcc/quad/exceptions": (GCC, ["-DSTRICT_QUAD_PRECISION", "-DWIT_QUAD", "-DSTRICT_ERROR_EXCEPTIONS"]),
    "clang/nodiscard-error": (CLANG, []),
}


class G:
    def __init__(self, name, lines, pre="", decls=""):
        self.name, self.lines, self.pre, self.decls = name, lines, pre, decls


def load(name):
    p = os.path.join(VERIF, "wit", name)
    spec = importlib.util.spec_from_file_location("wit_" + name[:-3], p)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def body(k, g, code):
    # one physical line per statement, all attributed to the pseudo file w<k>
    text = (g.pre + " " + code).replace("\n", " ")
    return f'#line 1 "w{k}"\n[[maybe_unused]] static inline void w{k}_() {{ {text} }}\n'


def decl(j, g):
    return f'#line 1 "decls{j}"\n{g.decls}\n' if g.decls else ""


def attribute(text):
    """Pseudo files named in each error block -> {index: first message}"""
    hit = {}
    blocks, pend, cur = [], [], None
    # gcc prints 'In instantiation of' context before the error, clang prints notes after it
    for l in text.split("\n"):
        if re.search(r": (fatal )?error:", l):
            cur = pend + [l]
            pend = []
            blocks.append(cur)
        elif re.search(r": note:|required (from|by)|in instantiation", l) and cur is not None:
            cur.append(l)
            if "required" in l and ": note:" not in l:
                pend.append(l)
        elif re.search(r"In (instantiation|substitution|function|member|static|lambda)|required|recursively", l):
            pend.append(l)
        else:
            if cur is not None and not l.startswith(" "):
                pass
    for b in blocks:
        msg = next(l for l in b if re.search(r": (fatal )?error:", l))
        for l in b:
            for m in re.finditer(r"(?:^|\s)w(\d+):\d+", l):
                hit.setdefault(int(m.group(1)), msg)
    return hit, blocks


def compile_(flavour, src, extra=()):
    comp, defs = FLAVOURS[flavour]
    cmd = comp + COMMON + defs + list(extra) + ["-x", "c++", src]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout, cmd


def one(flavour, src_text, path):
    with open(path, "w") as f:
        f.write(src_text)
    return compile_(flavour, path)


def run_unit(fname, groups, flavour, wd, pool_submit):
    """-> list of (group, kind, code, ok, message)"""
    flat = [(j, g, k, c) for j, g in enumerate(groups) for k, c in g.lines]
    tag = f"{fname[:-3]}_{flavour.replace('/', '_')}"
    base = HEAD + "".join(decl(j, g) for j, g in enumerate(groups) if g.decls not in [h.decls for h in groups[:j]])
    drc, dout, _ = one(flavour, base, f"{wd}/{tag}_d.cpp")
    if drc:
        base = None
    hrc, hout, cmd = one(flavour, HEAD, f"{wd}/{tag}_h.cpp")
    if hrc:
        raise Broken(f"strictpp/strict.hpp does not compile ({flavour}):\n{hout[:1500]}")
    if base is None:
        raise Broken(f"the declarations of {fname} do not compile ({flavour}):\n{dout[:1500]}")
    ys = [i for i, (j, g, k, c) in enumerate(flat) if k == "Y"]
    shards = max(1, min(engine.JOBS, len(ys) // 4000))
    step = -(-len(ys) // shards) if ys else 1
    parts = [ys[s:s + step] for s in range(0, len(ys), step)] or [[]]
    futs = [pool_submit(one, flavour, base + "".join(body(i, flat[i][1], flat[i][3]) for i in part),
                        f"{wd}/{tag}_y{n}.cpp") for n, part in enumerate(parts)]
    res = {}
    for part, fut in zip(parts, futs):
        yrc, yout, cmd = fut.result()
        if not yrc:
            continue
        hit, blocks = attribute(yout)
        for i in part:
            if i in hit:
                res[i] = (False, hit[i])
        if not any(i in hit for i in part):     # an error that names no program (e.g. in a shared declaration)
            one_by_one = [(i, pool_submit(one, flavour, HEAD + decl(flat[i][0], flat[i][1]) + body(i, flat[i][1], flat[i][3]),
                                          f"{wd}/{tag}_{i}.cpp")) for i in part]
            for i, f in one_by_one:
                rc, out, _ = f.result()
                if rc:
                    e = [l for l in out.split("\n") if "error:" in l]
                    res[i] = (False, e[0] if e else out[:300])
    for i, (j, g, k, c) in enumerate(flat):
        if k == "Y" and i not in res:
            res[i] = (True, "")
    badg = {flat[i][0] for i, (ok, _) in res.items() if not ok}
    if any(k == "N" for _, _, k, _ in flat):
        left = [i for i, (j, g, k, c) in enumerate(flat) if k == "N" and j not in badg]
        # in rounds: of several lines that fail in the same template instantiation only the first is named
        for rnd in range(16):
            if len(left) <= 40:
                break
            shards = max(1, min(engine.JOBS, len(left) // 400))
            parts = [left[s::shards] for s in range(shards)]
            outs = [pool_submit(one, flavour, base + "".join(body(i, flat[i][1], flat[i][3]) for i in part),
                                f"{wd}/{tag}_n{rnd}_{s}.cpp") for s, part in enumerate(parts)]
            hit = {}
            for f in outs:
                hit.update(attribute(f.result()[1])[0])
            new = [i for i in left if i in hit]
            for i in new:
                res[i] = (True, hit[i])
            left = [i for i in left if i not in hit]
            if not new:
                break
        todo = [(i, pool_submit(one, flavour, HEAD + decl(flat[i][0], flat[i][1]) + body(i, flat[i][1], flat[i][3]),
                                f"{wd}/{tag}_{i}.cpp")) for i in left]
        found = 0
        for n, (i, fut) in enumerate(todo):
            if found and n > 200:                # enough to report; the rest stays uncounted
                fut.cancel()
                continue
            rc, out, _ = fut.result()
            res[i] = (rc != 0, "" if rc == 0 else next((l for l in out.split("\n") if "error:" in l), ""))
            found += rc == 0
    return flat, res, cmd


def callees(flavour, g, code, wd):
    """Library entities an accepted program refers to (reported with the violation)."""
    p = f"{wd}/ast.cpp"
    with open(p, "w") as f:
        f.write(HEAD + g.decls + "\n" + body(0, g, code))
    r = subprocess.run(CLANG + COMMON + ["-Xclang", "-ast-dump", "-Xclang", "-ast-dump-filter=w0_", "-x", "c++", p],
                       stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    names = []
    for m in re.finditer(r"(?:CXXMethod|Function|CXXConstructor|CXXConversion|FunctionTemplate) 0x[0-9a-f]+ '([^']+)'", r.stdout):
        if m.group(1) not in names and not m.group(1).endswith("_"):
            names.append(m.group(1))
    return names[:6]


def headers(flavour, wd):
    """Library headers the programs of this flavour are checked against (resolved on this run)."""
    p = f"{wd}/dep.cpp"
    with open(p, "w") as f:
        f.write(HEAD)
    comp, defs = FLAVOURS[flavour]
    r = subprocess.run(comp[:1] + ["-std=gnu++20", "-I" + REPO, "-MM"] + defs + [p], stdout=subprocess.PIPE, text=True,
                       stderr=subprocess.DEVNULL)
    return {os.path.relpath(os.path.realpath(x), os.path.realpath(REPO)) for x in r.stdout.replace("\\\n", " ").split()
            if "strictpp/" in x}


def run(spec, tier, workdir, pool):
    """spec: list of (file, [flavours], min Y, min N)"""
    part = Part()
    import concurrent.futures as cf
    with cf.ThreadPoolExecutor(engine.JOBS) as inner:
        jobs = []
        for file, flavours, miny, minn in spec:
            mod = load(file)
            for fl in flavours:
                groups = mod.groups(quad="quad" in fl, flavour=fl)
                ny = sum(1 for g in groups for k, _ in g.lines if k == "Y")
                nn = sum(1 for g in groups for k, _ in g.lines if k == "N")
                if ny < miny or nn < minn:
                    raise Broken(f"{file} [{fl}]: {ny} programs to accept, {nn} to reject; expected at least {miny}, {minn}")
                for g in groups:
                    if not any(k == "Y" for k, _ in g.lines):
                        raise Broken(f"{file}: group {g.name} has nothing to accept")
                jobs.append((file, fl, groups, pool.submit(run_unit, file, groups, fl, workdir, inner.submit)))
        for file, fl, groups, fut in jobs:
            flat, res, cmd = fut.result()
            part.cmds.append(" ".join(cmd))
            part.files |= headers(fl, workdir)
            acc = rej = named = 0
            for i, (j, g, k, c) in enumerate(flat):
                if i not in res:
                    continue
                ok, msg = res[i]
                name = f"[{fl}] {g.name}: {'accepts' if k == 'Y' else 'rejects'} `{c}`"
                fns = []
                if not ok and k == "N":
                    named += 1
                    fns = callees(fl, g, c, workdir) if named <= 8 else []
                    msg = "a program that must not compile is accepted: " + (g.pre + " " + c).strip()
                elif not ok:
                    msg = f"must compile / hold, but: {msg}"
                part.items.append(Item(name, ok, f"wit/{file}", "" if ok else msg, fns,
                                       rule="must compile" if k == "Y" else "must not compile",
                                       key=f"{file}:{g.name}:{c}"))
                acc += k == "Y"
                rej += k == "N"
            part.units.append({"unit": f"wit/{file} [{fl}]", "must_compile": acc, "must_not_compile": rej,
                               "held": sum(1 for i in res if res[i][0])})
    return part
