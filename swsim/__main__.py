import argparse
import json
import os
import sys


def main():
    ap = argparse.ArgumentParser(prog="check")
    sub = ap.add_subparsers(dest="cmd", required=True)
    r = sub.add_parser("run")
    r.add_argument("property")
    r.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    r.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    r.add_argument("--workers", type=int, default=os.cpu_count() or 4)
    r.add_argument("--scale", type=float)
    r.add_argument("--wall", type=float)
    p = sub.add_parser("replay")
    p.add_argument("file")
    c = sub.add_parser("case")
    c.add_argument("property")
    c.add_argument("config")
    c.add_argument("index", type=int)
    c.add_argument("--seed", type=int, default=1)
    d = sub.add_parser("determinism")
    d.add_argument("properties", nargs="*")
    d.add_argument("--runs", type=int, default=40)
    h = sub.add_parser("hashes")
    h.add_argument("property")
    h.add_argument("--runs", type=int, default=40)
    h.add_argument("--seed", type=int, default=1)
    h.add_argument("--workers", type=int, default=4)
    sub.add_parser("setup")
    a = ap.parse_args()

    from . import boot
    boot.boot()
    from . import registry
    from .core import report, runner
    if a.cmd == "run":
        return report.run_check(a.property, registry.world(a.property), a.tier, a.seed, a.workers,
                                a.wall, a.scale)
    if a.cmd == "replay":
        return report.replay(a.file, registry.world)
    if a.cmd == "case":
        w = registry.world(a.property)
        case = runner.make_case(w, a.property, a.config, a.seed, a.index)
        print(json.dumps(case["plan"], indent=1)[:20000])
        res = runner.run_case(w, case, os.path.join(boot.scratch_root(), "w99"))
        print("\n".join(res["carry"]["log"]) if res.get("carry") else "")
        print(res["status"], res.get("kind"), res.get("detail"), res.get("wall"))
        return 0
    if a.cmd == "hashes":
        from . import determinism
        return determinism.hashes(a.property, a.runs, a.seed, a.workers)
    if a.cmd == "determinism":
        from . import determinism
        return determinism.main(a.properties or registry.ids(), a.runs)
    if a.cmd == "setup":
        print("swsim: ready;", len(registry.ids()), "properties,", boot.REPO)
        return 0


if __name__ == "__main__":
    code = main()
    sys.stdout.flush()
    sys.exit(code)
