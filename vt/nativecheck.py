"""Runs the contract files natively (cross-check of the model; not part of the deciding step)."""
import sys, os
from . import check, run

def main(pids, secs=5):
    for pid in pids:
        for cf in check.contract_files(pid):
            prog = run.load(cf, [])
            src = check.header(cf, "native") or check.header(cf, "sources")
            nat = check.Native(cf, [f.q for (_, _, f) in prog.proofs], check.existing(src))
            if not nat.build(): print(nat.err); nat.close(); continue
            fails, runs = nat.search([], secs, 1)
            for k, v in runs.items(): print(pid, k, v)
            seen = set()
            for f in fails:
                if (f["proof"], f["what"]) in seen: continue
                seen.add((f["proof"], f["what"])); print("FAIL", f["proof"], f["what"], "|", f["input"][:300], f["confirmed"])
            nat.close()

main([a for a in sys.argv[1:] if not a.isdigit()], ([int(a) for a in sys.argv[1:] if a.isdigit()] or [5])[0])
