#!/usr/bin/env python3
"""check.py PROPERTY [--replay FILE]: decides one property on /repo's working tree.  Exit 0, or 1 with a VIOLATION line."""
import json
import os
import sys
import traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "lib"))
sys.dont_write_bytecode = True
import core  # noqa: E402


def checks():
    import checks_disp
    all_checks = dict(checks_disp.CHECKS)
    assume = {k: checks_disp.ASSUME for k in all_checks}
    for m in ("checks_tuple", "checks_rpc", "checks_python"):
        try:
            mod = __import__(m)
        except ModuleNotFoundError:
            continue
        all_checks.update(mod.CHECKS)
        assume.update({k: mod.ASSUME.get(k, []) if isinstance(mod.ASSUME, dict) else mod.ASSUME for k in mod.CHECKS})
    return all_checks, assume


def replay(path):
    r = json.load(open(path))
    ck = core.Check(r["property"], "replay", 0)
    if r["kind"] == "compile":
        src = ck.path("replay.cpp")
        open(src, "w").write(r["source"])
        cmd = [src if a.endswith(".cpp") else ck.path("replay") if i and r["cmd"][i - 1] == "-o" else a for i, a in enumerate(r["cmd"])]
        c, _, err = core.run(cmd, 600)
        print(err.decode(errors="replace")[:3000])
        return 1 if c else 0
    if r["kind"] == "trace":
        ca = core.Campaign(ck, r["spec"])
        ca.add(r["name"], r["source"], r["conf"], r["script"].split("\n")[:-1], [core.Variant(**r["variant"])], r["extra"])
        ca.run()
        for p, text in ck.violations:
            print(text)
        return 1 if ck.violations else 0
    import checks_python
    return checks_python.replay(ck, r)


def setup():
    """Nothing is kept from one run to the next: makes sure that the tools work and that the specifications parse"""
    ck = core.Check("setup", "quick", 0)
    ck.control()
    for f in sorted(os.listdir(os.path.join(VERIF, "spec"))):
        if f.endswith(".tla"):
            c, out, err = core.run(["java", "-cp", core.CP, "tla2sany.SANY", os.path.join(VERIF, "spec", f)], 120, cwd=os.path.join(VERIF, "spec"))
            if c != 0:
                raise core.Broken(f + ": " + out.decode(errors="replace")[-2000:])
    return 0


def main():
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    if sys.argv[1] == "--setup":
        return setup()
    prop = sys.argv[1]
    tier, seed = os.environ.get("VERIF_TIER", "quick"), int(os.environ.get("VERIF_SEED", "1"))
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if sys.argv[2:3] == ["--tier"]:
        tier = sys.argv[3]
    all_checks, assume = checks()
    ck = core.Check(prop, tier, seed)
    ck.control()
    rule = all_checks[prop](ck)
    return ck.finish("model_checking", rule, assume[prop])


if __name__ == "__main__":
    try:
        code = main()
    except core.Broken as e:
        print("BROKEN: %s" % e, file=sys.stderr)
        code = 2
    except Exception:
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
