import sys; sys.path[:0]=["/verif"]
from vp import worker
mode=sys.argv[1]
worker.setup(mode)
from vp import harness
prop,name=sys.argv[2:4]
harness.load_contracts(prop)
import json
for (p,n),c in harness.REGISTRY.items():
    if p!=prop or (name!="-" and not any(y in n for y in name.split(","))): continue
    if mode not in c.modes: continue
    for case in c.tasks():
        if len(sys.argv)>4 and sys.argv[4]!="-" and not all(any(x in str(v) for v in case.values()) for x in sys.argv[4].split(",")): continue
        fixed=json.loads(sys.argv[5]) if len(sys.argv)>5 else None
        r=harness.run_symbolic(c,case,60,fixed) if mode=="sym" else harness.run_concrete(c,case,c.trials,20,1)
        if mode=="sym":
            bad={k:(v["why"][:400],v["definite"]) for k,v in r["obligations"].items() if not v["ok"]}
            print(n,case,"OK" if not bad and not r["unsupported"] and not r["exceptions"] else "FAIL", len(r["obligations"]),"obl",r["paths"],"paths %.1fs"%r["time"],r["stats"]["queries"],"q", bad or "", r["unsupported"] or "",r["exceptions"] or "")
        else:
            print(n,case,r["trials"],r["skipped"],r["checks"],"%.2fs"%r["time"],r["violation"] or "")
