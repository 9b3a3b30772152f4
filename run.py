#!/usr/bin/env python3-vt
"""run.py check <property> [quick|thorough]   |   run.py replay <file>   |   run.py setup   |   run.py list"""
import importlib, json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
if hasattr(sys, "set_int_max_str_digits"):
    sys.set_int_max_str_digits(0)
from vf import build, engine


def facets_of(pid):
    m = importlib.import_module("vf.props." + pid.lower())
    return m.FACETS, getattr(m, "ASSUMPTIONS", [])


def main(a):
    os.chdir(HERE)
    if a[0] == "check":
        tier = a[2] if len(a) > 2 else os.environ.get("VERIF_TIER", "quick")
        seed = int(os.environ.get("VERIF_SEED", "1"))
        f, ass = facets_of(a[1])
        return engine.check(a[1], f, tier, seed, ass)
    if a[0] == "replay":
        rec = json.load(open(a[1]))
        f, _ = facets_of(rec["property"])
        return engine.replay(f, rec)
    if a[0] == "setup":
        r = build.build([(d, "san") for d in ("d_field", "d_ecc")])
        bad = [str(e) for e in r.values() if isinstance(e, build.BuildFailed)]
        print("toolchain works; not building:", bad)
        return 0
    if a[0] == "list":
        for l in open("properties.jsonl"):
            p = json.loads(l)
            print(p["id"], p["title"])
        return 0
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
