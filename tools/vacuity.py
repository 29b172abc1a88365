"""Audit: every MUST assertion, negated, has to be reported on some path (none is vacuous).  vacuity.py units_core units_ref ..."""
import sys; sys.path.insert(0, __import__('os').path.join(__import__('os').path.dirname(__file__), '..', 'lib')); sys.dont_write_bytecode=True
import importlib,re,collections
from vf import core,must,sem


neg="#define MUSTN(n, ...) do { if ((__VA_ARGS__)) obs_mark(n); } while (0)"
pos="#define MUSTN(n, ...) do { if (!(__VA_ARGS__)) obs_mark(n); } while (0)"
for k,v in list(vars(must).items()):
    if isinstance(v,str) and pos in v: setattr(must,k,v.replace(pos,neg)); print("patched",k)
w=core.Work(); tot=fire=0
for mn in sys.argv[1:]:
    mod=importlib.import_module("vf."+mn)
    for u in mod.UNITS:
        std=u.stds[0]
        try: out,ok,bad,name=must.build(w,u,std,u.scs)
        except Exception as e: print("EXC",u.name,str(e)[:300]); continue
        if not out: print("no out",u.name,[b[0] for b in bad][:5]); continue
        by={s.name:s for s in ok}; seen=collections.defaultdict(set)
        for r in out["results"]:
            for o in r["outcomes"]:
                for e in o["ev"]:
                    if e["k"]=="mark" and int(e["n"])<100000: seen[r["scenario"]].add(int(e["n"]))
        for s in ok:
            for i,c in enumerate(s.conds):
                tot+=1
                if i+1 in seen[s.name]: fire+=1
                else: print(mn,u.name,s.name,"NEVER REACHED:",c[:110])
print(fire,"of",tot); w.close()
