"""check <property>: decide one property statically from /repo's current sources."""
import concurrent.futures as cf
import importlib, json, os, shutil, subprocess, sys, tempfile, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import engine
from engine import Broken, REPO, VERIF


class Item:
    """One obligation / witness / rule instance and its verdict."""

    def __init__(self, name, ok, where="", detail="", functions=(), rule="", key=None):
        self.name, self.ok, self.where, self.detail = name, ok, where, detail
        self.functions, self.rule = list(functions), rule
        self.key = key or name


class Part:
    def __init__(self):
        self.items, self.cmds, self.units, self.notes, self.files = [], [], [], [], set()
        self.stats = {}


def fn_str(t):
    return f"{t[0]}:{t[1]} {t[2]}"


def headers_compile(workdir):
    src = os.path.join(workdir, "hdr.cpp")
    with open(src, "w") as f:
        f.write("#include <strictpp/strict.hpp>\n")
    r = engine.sh([engine.LLVM + "/clang++", "-std=c++20", "-fsyntax-only", "-w", "-I" + REPO, src])
    return r.returncode == 0, r.stderr


def part_prove(spec, tier, workdir, pool):
    """spec: list of (file, modes, min obligations per mode[, extra flags])"""
    part = Part()
    jobs = []
    for s in spec:
        file, modes, minimum = s[0], s[1], s[2]
        extra = s[3] if len(s) > 3 else []
        for m in modes:
            jobs.append((file, m, minimum, pool.submit(engine.prove_unit, os.path.join(VERIF, "ob", file), m,
                                                       workdir, extra)))
    for file, m, minimum, fut in jobs:
        r = fut.result()
        unit = f"ob/{file} [{m}]"
        part.cmds += r["cmd"] if isinstance(r["cmd"], list) and r["err"] is None else [" ".join(r["cmd"])]
        if r["err"]:
            ok, err = headers_compile(workdir)
            if not ok:
                raise Broken("strictpp/strict.hpp does not compile:\n" + err[:2000])
            lines = [l for l in r["err"].split("\n") if "error:" in l]
            part.items.append(Item(f"{unit}: type-checks", False, unit,
                                   "a valid use of the public interface no longer compiles:\n    "
                                   + "\n    ".join(lines[:8]), rule="obligations type-check"))
            continue
        if len(r["obls"]) < minimum:
            raise Broken(f"{unit}: {len(r['obls'])} obligations found, expected at least {minimum}")
        for o in r["obls"]:
            if o.nfail == 0 and o.kind != "total":
                raise Broken(f"{o.key()}: no FAIL point")
            if o.kind in ("total", "eq") and not o.live:
                raise Broken(f"{o.key()}: no LIVE point")
            part.files |= o.reach_files
            det = ""
            if not o.proved_by:
                det = describe(o)
            part.items.append(Item(f"[{m}] {o.name}", bool(o.proved_by), f"{o.where[0]}:{o.where[1]}", det,
                                   [fn_str(t) for t in o.callees],
                                   rule=f"dead-code witness, {o.kind} ({m}), by {o.proved_by}"
                                   + (f" ({o.bounded} size assignments)" if o.bounded else ""),
                                   key=f"{file}:{m}:{o.name}"))
        if not any(o.reach for o in r["obls"]):
            raise Broken(f"{unit}: reaches no function of the library")
        part.units.append({"unit": unit, "obligations": len(r["obls"]),
                           "discharged": sum(1 for o in r["obls"] if o.proved_by),
                           "by": {p: sum(1 for o in r["obls"] if o.proved_by == p)
                                  for p in {o.proved_by for o in r["obls"]} if p}})
    return part


def describe(o):
    src = {}
    out = []
    pipes = list(o.why)
    best = min(pipes, key=lambda p: len(o.why[p])) if pipes else None
    for a, b, c in (o.why.get(best) or [])[:6]:
        if a == "fail":
            line = ""
            try:
                f, n = c.rsplit(":", 1)
                with open(os.path.join(VERIF, f)) as fh:
                    line = fh.read().split("\n")[int(n) - 1].strip()
            except Exception:
                pass
            out.append(f"reachable: {c}  `{line}`")
        elif a == "check":
            out.append(f"a check can fail on valid input: {c}")
        elif a == "unguarded":
            out.append("no check rejects the invalid input")
        elif a == "dead":
            out.append(f"unreachable on valid input: LIVE at line {b} (a check always fails, or the input is never accepted)")
        else:
            out.append(f"{a}: {c}")
    return "; ".join(out)


def known_findings():
    """known_findings.txt: `KNOWN property=<id> key=<key> :: text`"""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("KNOWN "):
                head, text = l.split(" :: ", 1)
                d = dict(x.split("=", 1) for x in head.split()[1:3])
                key = head.split("key=", 1)[1]
                out.append((d["property"], key, text))
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    workdir = tempfile.mkdtemp(prefix="sv_" + pid + "_")
    try:
        rc = run(pid, tier, seed, workdir, t0)
    except Broken as e:
        print(f"ANALYSIS-BROKEN property={pid}: {e}", file=sys.stderr)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        if os.environ.get("SV_KEEP"):
            print("kept", workdir)
        else:
            shutil.rmtree(workdir, ignore_errors=True)
    sys.exit(rc)


def run(pid, tier, seed, workdir, t0):
    import props
    if pid not in props.PROPS:
        raise Broken("unknown property " + pid)
    P = props.PROPS[pid]
    parts = []
    with cf.ThreadPoolExecutor(engine.JOBS) as pool:
        for kind, spec in P["parts"]:
            if kind == "prove":
                parts.append((kind, part_prove(spec, tier, workdir, pool)))
            else:
                mod = importlib.import_module(kind)
                parts.append((kind, mod.run(spec, tier, workdir, pool)))
    items = [i for _, p in parts for i in p.items]
    if not items:
        raise Broken("no rule instances")
    known = [(k, t) for q, k, t in known_findings() if q == pid]
    bad, kf = [], []
    for i in items:
        if not i.ok:
            hit = [t for k, t in known if k == i.key]
            (kf if hit else bad).append((i, hit[0] if hit else ""))
    files = sorted(set().union(*[p.files for _, p in parts]))
    cov = {
        "obligations": len(items), "discharged": sum(1 for i in items if i.ok),
        "known_findings": len(kf),
        "checker_cmd": next((c for _, p in parts for c in p.cmds), "see units")[:600],
        "trusted_base": P.get("trusted", []),
        "explanation": P["explanation"],
        "units": [u for _, p in parts for u in p.units],
        "source_files_reached": files,
        "library_functions_named": sorted({f for i in items for f in i.functions})[:400],
        "samples": [{"obligation": i.name, "where": i.where, "rule": i.rule, "discharged": i.ok,
                     "functions": i.functions[:5]} for i in items[:: max(1, len(items) // 12)][:14]],
        "rules": sorted({i.rule for i in items if i.rule})[:60],
    }
    for _, p in parts:
        cov.update(p.stats)
    ev = {"property": pid, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed,
          "level": P["level"], "coverage": cov, "assumptions": P.get("assumptions", []),
          "wall_s": round(time.time() - t0, 2), "violations": len(bad)}
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    with open(f"{VERIF}/evidence/{pid}.json", "w") as f:
        json.dump(ev, f, indent=1)
    replay = f"{VERIF}/evidence/{pid}.violations.txt"
    if os.path.exists(replay):
        os.remove(replay)
    print(f"{pid}: {cov['discharged']}/{cov['obligations']} obligations discharged, "
          f"{len(files)} library files reached, {ev['wall_s']} s")
    for i, t in kf:
        print(f"KNOWN-FINDING: property={pid} {t}")
    if bad:
        with open(replay, "w") as f:
            f.write(f"property {pid}: {P['title']}\n\n")
            for i, _ in bad:
                f.write(f"VIOLATED {i.name}\n  stated at {i.where}\n  rule: {i.rule or '-'}\n  {i.detail}\n")
                for fn in i.functions:
                    f.write(f"  library function: {fn}\n")
                f.write("\n")
        for i, _ in bad[:10]:
            print(f"  {i.name}\n    {i.where}  {i.detail[:600]}")
            for fn in i.functions[:6]:
                print("    library function:", fn)
        if len(bad) > 10:
            print(f"  ... {len(bad) - 10} more in {replay}")
        print(f"VIOLATION property={pid} replay={replay}")
        return 1
    return 0


if __name__ == "__main__":
    main()
