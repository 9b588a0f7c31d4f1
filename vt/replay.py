"""Re-runs the failing inputs of a replay file on the real code."""
import json, os, sys
from . import check, run


def main(path):
    d = json.load(open(path))
    for v in d["violations"]:
        if v.get("input") is None:
            print("[%s] %s: no failing input; see the file for the solver's output" % (v.get("proof"), v.get("what"))); continue
        cf = os.path.join(check.VERIF, "contracts", v["contract"])
        prog = run.load(cf, [])
        nat = check.Native(cf, [f.q for (_, _, f) in prog.proofs], check.existing(check.header(cf, "native") or check.header(cf, "sources")))
        if not nat.build(): print(nat.err); continue
        fails, _ = nat.run([v["proof"]], 1, 0, v["reals"] if "--reals" in v["cmd"] else (), v["ints"] if "--ints" in v["cmd"] else (), once=v["seed"])
        for f in fails: print("[%s] %s on %s" % (f["proof"], f["what"], f["input"]))
        if not fails: print("[%s] passes now" % v["proof"])
        nat.close()


if __name__ == "__main__": main(sys.argv[1])
