"""Writes analyzer/contract.json from the current tree's summaries.  Run by hand, and its result reviewed, never by a check."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "analyzer"))
import dump
from facts import Facts
from api import Api, NoSummary, txt
import contract
F = Facts(dump.dump())
A = Api(F)
out, miss = {}, []
for f in F.fns:
    c = contract.category(F, f)
    if c is None: continue
    try: s = A.summary(f)
    except NoSummary as e: miss.append((f["path"], str(e))); continue
    k = contract.norm(f["path"])
    if k in out: print("duplicate", k, f["path"])
    out[k] = dict(cat=c, inputs=[contract.norm(F.tstr(t)) for t in f["inputs"]], summary=contract.canon_summary(s))
for m in miss: print("no summary:", *m)
import collections
print(collections.Counter(v["cat"] for v in out.values()))
with open(contract.FILE, "w") as fh:
    fh.write("{\n" + ",\n".join("%s: %s" % (json.dumps(k), json.dumps(v)) for k, v in sorted(out.items())) + "\n}\n")
