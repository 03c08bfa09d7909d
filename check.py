#!/usr/bin/env python3
"""usage: check.py PROPERTY [--repo DIR] [--json OUT]   (or: check.py --all, --list)

Decides one property of /repo from its current source: export the resolved MIR with the driver,
load it, run the property's rule, compare what it found with known_findings.json."""
import importlib, json, os, subprocess, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lint"))
os.environ.setdefault("REPO", "/repo")


def extract():
    out = os.path.join(os.environ.get("MIRX_WORK", os.path.join(HERE, ".work")), "mir")
    r = subprocess.run(["bash", os.path.join(HERE, "lint", "extract.sh"), out], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        print(r.stdout[-4000:])
        print("the source under analysis does not build; nothing decided")
        sys.exit(2)
    return out


def known():
    p = os.path.join(HERE, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []


def run_one(pid, ctx, tier, seed):
    from registry import RULES
    t0 = time.time()
    mod, fun = RULES[pid]
    rep = getattr(importlib.import_module(mod), fun)(ctx)
    kn = {k["key"]: k for k in known() if k["property"] == pid and k["status"] == "known"}
    bad = rep.bad()
    viol = {k: v for k, v in bad.items() if k not in kn}
    okn = sum(1 for v in rep.obl.values() if v[0])
    for k in kn:
        if k in bad:
            print(f"KNOWN-FINDING: property={pid} {k}: {kn[k]['what']}")
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": rep.rule,
            "obligations": len(rep.obl), "discharged": okn,
            "known_findings": sorted(k for k in kn if k in bad),
            "counts": rep.counts,
            "functions_in_scope": len(ctx.prog.fns),
            "samples": [f"{k} @ {v[2]}" if v[2] else k for k, v in sorted(rep.obl.items())][:400],
            "notes": rep.notes[:50],
        },
        "assumptions": rep.assumptions,
        "wall_s": round(time.time() - t0 + ctx.load_s, 3),
        "violations": len(viol),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", f"{pid}.json"), "w"), indent=1)
    vp = os.path.join(HERE, "evidence", f"{pid}.violation.txt")
    if viol:
        with open(vp, "w") as f:
            f.write(f"property {pid}\nrule: {rep.rule}\n")
            for k, v in sorted(viol.items()):
                f.write(f"\n[{k}]\n  at {v[2]}\n  {v[1]}\n")
        for k, v in sorted(viol.items())[:20]:
            print(f"  {k}\n    at {v[2]}\n    {v[1]}")
        print(f"VIOLATION property={pid} replay={vp}")
        return 1
    if os.path.exists(vp):
        os.remove(vp)
    print(f"{pid}: {okn}/{len(rep.obl)} obligations hold ({len(bad)} known), counts {rep.counts}, "
          f"{ev['wall_s']} s")
    return 0


def main():
    args = sys.argv[1:]
    from registry import RULES
    if "--list" in args:
        print("\n".join(RULES))
        return 0
    t0 = time.time()
    from ctx import Ctx
    ctx = Ctx(extract())
    ctx.load_s = time.time() - t0
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ids = list(RULES) if "--all" in args else [a for a in args if not a.startswith("-")]
    rc = 0
    for pid in ids:
        try:
            rc |= run_one(pid, ctx, tier, seed)
        except Exception:
            traceback.print_exc()
            if len(ids) == 1:
                sys.exit(3)
            print(f"ERROR in {pid}")
            rc |= 4
    return rc


if __name__ == "__main__":
    sys.exit(main())
