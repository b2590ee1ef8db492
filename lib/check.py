"""Command line of the checks:  check.py <ID> [--tier quick|thorough] [--replay DIR]"""
import argparse
import importlib
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

import engine  # noqa: E402

MODULES = ["props_fuzz", "props_meta", "props_model", "props_order", "props_cfg", "props_cli"]


def registry():
    r = {}
    for m in MODULES:
        try:
            mod = importlib.import_module(m)
        except ModuleNotFoundError as e:
            if e.name != m:
                raise
            continue
        for p in mod.PROPERTIES:
            r[p.id] = p
    return r


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--cases", type=int)
    ap.add_argument("--seed", type=int)
    a = ap.parse_args()
    reg = registry()
    prop = reg[a.id]
    try:
        seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    if a.replay:
        with open(os.path.join(a.replay, "case.json")) as f:
            c = json.load(f)
        ex = engine.Exec(prop.flavours, prop.cpu)
        try:
            if c["choices"] and isinstance(c["choices"][0], str):
                fn = dict(prop.fixed_cases())[c["choices"][0]]
                try:
                    fn(engine.Ctx(ex, prop, c["tier"]))
                    f = None
                except engine.Fail as e:
                    f = e
            else:
                f, _ = engine.run_case(prop, ex, engine.Src(given=c["choices"]), c["tier"])
        finally:
            ex.close()
        if f is None:
            print("%s: the recorded case passes" % prop.id)
            return 0
        print("VIOLATION property=%s replay=%s" % (prop.id, a.replay))
        print("  " + f.msg)
        return 1
    return engine.run_property(prop, a.tier, seed, total=a.cases)


if __name__ == "__main__":
    sys.exit(main())
