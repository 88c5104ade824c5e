#!/opt/veriftools/pyenv/bin/python3
"""Records the loops each annotated function had when its invariants were written
(vc/shapes.json).  check.py compares: when the loops of a function are no longer the
ones the invariants were written for, a failed proof says nothing, and the function is
undecided on that run.  Run after changing contracts, on an unchanged /repo."""
import os, sys, json, multiprocessing as mp
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE); sys.path.insert(0, os.path.join(HERE, 'vc'))
import plan, engine, cxxast
UNITS = {}
def one(a):
    n, k = a
    con = plan.contract(n)
    fns = plan.functions(UNITS[con.unit_name], con)
    if k >= len(fns):
        return n, None
    v = engine.Verifier(UNITS[con.unit_name], plan.visible(con), plan.EXTERNS)
    try:
        v.verify(fns[k], con)
    except engine.Unsupported as e:
        print(n, e)
        return n, None
    return n, v.shape
plan._load()
cons = [c for c in plan.CONTRACTS if c.loops and c.name]
for u in {c.unit_name for c in cons}:
    UNITS[u] = cxxast.Unit(os.path.join(HERE, 'vc', u))
tasks = [(c.name, k) for c in cons for k in range(max(1, min(8, len(plan.functions(UNITS[c.unit_name], c)))))]
out = {}
with mp.get_context('fork').Pool(8) as p:
    for n, s in p.imap_unordered(one, tasks):
        if s is not None and s not in out.setdefault(n, []):
            out[n].append(s)
for n in out:
    out[n].sort()
json.dump(dict(sorted(out.items())), open(os.path.join(HERE, 'vc', 'shapes.json'), 'w'), indent=0)
print(len(out), 'contracts')
