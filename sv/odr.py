"""Header rules: every header stands on its own, and everything the headers define may be defined again elsewhere.

 - each header of the library, as the only include of a translation unit, type-checks in every configuration;
 - in the LLVM IR of a unit that uses the whole interface, no function or variable of the library has strong external
   linkage (two units including the header would not link), and no variable of the library that can change has internal
   linkage or is thread-local (each unit or thread would see its own copy)."""
import os, re
import engine
from engine import REPO, VERIF, LLVM, Broken
from main import Item, Part
import eff

CONFIGS = {"clang": ([LLVM + "/clang++"], []), "clang/release": ([LLVM + "/clang++"], ["-DSTRICT_DEBUG_OFF"]),
           "clang/exceptions": ([LLVM + "/clang++"], ["-DSTRICT_ERROR_EXCEPTIONS"]),
           "gcc/quad": (["g++"], ["-DSTRICT_QUAD_PRECISION"])}
USES = """
#include <iostream>
void use_io(std::istream& is_, std::ostream& os_) {
   Array1D<double> a_(3); Array2D<double> b_(3, 3); Strict<double> x_{}; Strict<int> y_{}; StrictBool z_{};
   Array1D<int> i_(3); Array2D<bool> j_(2, 2);
   is_ >> a_ >> b_ >> i_ >> j_ >> x_ >> y_ >> z_;
   os_ << a_ << b_ << i_ << j_ << x_ << y_ << z_;
   read_from_file("f", a_); read_from_file("f", b_); print(a_); print(b_, "n"); printn(a_, b_); print_to_file("f", b_, "n");
   format.scientific(true_sb).precision(3); array_format.detailed(true_sb);
   random(a_); random(b_, Low{1._sd}, High{2._sd}); random_not0(i_); shuffle(a_);
   Array1D<double> r_ = random<double>(4);
   semi_random(a_); sort_increasing(a_);
   timer t_; t_.restart(); (void)t_.wall_time();
   STRICT_TIME(a_ = 1._sd);
}
"""


def standalone(header, cfg, workdir):
    comp, defs = CONFIGS[cfg]
    src = os.path.join(workdir, f"h_{re.sub(r'[^a-zA-Z0-9]', '_', header + cfg)}.cpp")
    with open(src, "w") as f:
        f.write(f"#include <{header}>\n")
    cmd = comp + ["-std=gnu++20", "-w", "-fsyntax-only", "-I" + REPO, "-isystem", "/usr/include/eigen3", *defs, src]
    r = engine.sh(cmd)
    e = [l for l in r.stderr.split("\n") if "error:" in l]
    return r.returncode == 0, (e[0] if e else r.stderr[:300]), " ".join(cmd)


def demangle_cached(names):
    return engine.demangle(sorted(names))


def linkage(workdir, mode, defs, uses):
    progs = eff.load("P24_reads.py").programs()
    step = max(1, len(progs) // 500)
    src = os.path.join(workdir, f"odr_{mode}.cpp")
    with open(src, "w") as f:
        f.write("#include <Eigen/Dense>\n#define STRICT_ENABLE_EIGEN\n" + eff.HEAD + uses)
        for i, (n, code) in enumerate(progs[::step]):
            f.write(f"void user{i}_() {{ {code} }}\n")
    ll = src.replace(".cpp", ".ll")
    cmd = [LLVM + "/clang++", "-std=gnu++20", "-O1", "-gline-tables-only", "-w", "-Xclang", "-disable-llvm-passes", "-I" + REPO, "-isystem",
           "/usr/include/eigen3", *defs, "-S", "-emit-llvm", src, "-o", ll]
    r = engine.sh(cmd)
    if r.returncode:
        e = [l for l in r.stderr.split("\n") if "error:" in l]
        return cmd, None, None, None, "\n".join(e[:4]) or r.stderr[:500]
    with open(ll) as f:
        text = f.read()
    meta = engine.Meta(text)
    fns, gvs = [], []
    for line in text.split("\n"):
        if line.startswith("define"):
            name = engine.RE_DEF.match(line).group(1).strip('"')
            w = meta.func(line)
            fns.append((name, line.split("@")[0].split(), (engine.short(w[1]), w[2], w[0]) if w else None))
        elif line.startswith("@"):
            m = re.match(r'@("(?:[^"\\]|\\.)*"|[\w.$-]+) = (.*)$', line)
            if m:
                gvs.append((m.group(1).strip('"'), m.group(2)))
    return cmd, fns, gvs, text, ""


def run(spec, tier, workdir, pool):
    """spec: (min headers, min functions)"""
    minh, minf = spec
    part = Part()
    hs = sorted(os.path.relpath(os.path.join(d, f), REPO) for d, _, fs in os.walk(os.path.join(REPO, "strictpp")) for f in fs
                if f.endswith((".hpp", ".h")))
    if len(hs) < minh:
        raise Broken(f"{len(hs)} headers found, expected at least {minh}")
    jobs = [(h, c, pool.submit(standalone, h, c, workdir)) for h in hs for c in CONFIGS]
    links = [(m, pool.submit(linkage, workdir, m, d, USES)) for m, d in (("debug", []), ("release", ["-DSTRICT_DEBUG_OFF"]),
                                                                    ("exceptions", ["-DSTRICT_ERROR_EXCEPTIONS"]))]
    for h, c, fut in jobs:
        ok, det, cmd = fut.result()
        part.cmds.append(cmd)
        part.files.add(h)
        part.items.append(Item(f"[{c}] {h} stands on its own", ok, h, "" if ok else det, rule="self-contained header", key=f"self:{h}:{c}"))
    for mode, fut in links:
        cmd, fns, gvs, text, err = fut.result()
        part.cmds.append(" ".join(cmd))
        if err:
            part.items.append(Item(f"[{mode}] a unit using the whole interface type-checks", False, "", err, rule="linkage"))
            continue
        nf = 0
        names = engine.demangle([n for n, _, _ in fns] + [n for n, _ in gvs])
        for n, lk, w in fns:
            inlib = w and "strictpp/" in w[0]
            if not inlib:
                continue
            nf += 1
            part.files.add(w[0])
            ok = any(k in lk for k in ("linkonce_odr", "weak_odr", "internal", "private", "available_externally", "linkonce", "weak"))
            part.items.append(Item(f"[{mode}] {names.get(n, n)[:200]} may be defined in several units", ok, f"{w[0]}:{w[1]}",
                                   "" if ok else "defined with strong external linkage: two units that include the header do not link",
                                   [f"{w[0]}:{w[1]} {w[2]}"] if not ok else [], rule="linkage", key=f"fn:{n}"))
        if nf < minf:
            raise Broken(f"linkage [{mode}]: {nf} functions of the library, expected at least {minf}")
        ng = 0
        for n, d in gvs:
            dem = names.get(n, n)
            if not re.search(r"\bspp::", dem) or dem.startswith(("vtable", "typeinfo", "VTT")):
                continue
            ng += 1
            words = d.split("{")[0].split()
            mutable = "global" in words
            bad = ""
            if "thread_local" in d.split(" global ")[0] and "guard variable" not in dem:
                bad = "thread-local: each thread sees its own copy"
            elif mutable and ("internal" in words or "private" in words):
                bad = "can change and has internal linkage: each unit sees its own copy"
            elif mutable and not any(k in words for k in ("linkonce_odr", "weak_odr", "external", "linkonce", "weak", "internal", "private")):
                bad = "strong definition in a header: two units that include it do not link"
            elif not mutable and not any(k in words for k in ("linkonce_odr", "weak_odr", "external", "internal", "private")):
                bad = "strong definition in a header: two units that include it do not link"
            part.items.append(Item(f"[{mode}] variable {dem[:200]} is one object in the whole program", not bad, "", bad, rule="linkage",
                                   key=f"gv:{n}"))
        if ng < 3:
            raise Broken(f"linkage [{mode}]: {ng} variables of the library")
        part.units.append({"unit": f"linkage [{mode}]", "functions": nf, "variables": ng})
    return part
