import sys,time; sys.path.insert(0,'/verif/engine'); sys.path.insert(0,'/verif/specs')
import build,sym
from importlib import import_module
C={}
for m in sys.argv[1].split(','): C.update(import_module(m).C)
import os; m,fm,raw=build.module(C,cpp=bool(os.environ.get("CPP")),hpp=bool(os.environ.get("HPP")))
names=sys.argv[2].split(',') if len(sys.argv)>2 else list(C)
for n in names:
    if n not in C or getattr(C[n],'trusted',True): continue
    f=[x for x in m.funcs.values() if x.base==n]
    if not f: print('MISSING',n); continue
    t0=time.time()
    ex=sym.Executor(m,C,fm,f[0],C[n])
    try: ex.run()
    except (sym.Fail,ir.IRError if 0 else sym.IRError) as e: print(n,'CANNOT',e)
    ok=sum(r.status=='ok' for r in ex.results); bad=[r for r in ex.results if r.status!='ok']
    print(f'{n}: {ok} ok, {len(bad)} failed, {time.time()-t0:.1f}s  (solver {ex.solver_t:.1f}s)',flush=True)
    for r in bad[:int(sys.argv[3]) if len(sys.argv)>3 else 6]: print('   FAIL',r.name,'line',r.line,r.detail[:300],r.path[:200])
