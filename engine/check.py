#!/usr/bin/env python3-vt
"""check.py PROPERTY [quick|thorough]: proves every obligation of the property's functions from /repo's current source."""
import sys, os, time, json, shutil, subprocess, tempfile, traceback, signal, pickle
ROOT=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0]=[ROOT+'/engine',ROOT+'/specs']
import build, sym, ir
from canon import canon
import registry as R

NPROC=int(os.environ.get('VERIF_JOBS','8'))

def prove_task(mods,task,timeout,tier):
    """one function of one reading (C / C++) or one lemma; returns a dict"""
    kind,lang,name=task
    t0=time.time()
    out=dict(task=f'{lang}:{name}' if lang else name,kind=kind,results=[],cannot=None,called=[],solver_t=0.0,n=0)
    try:
        if kind=='lemma':
            for r in R.LEMMAS[name](tier): out['results'].append(r)
        else:
            m,fm,_=mods[lang]; con=R.C[name]
            f=[x for x in m.funcs.values() if x.base==name]
            ex=sym.Executor(m,R.C,fm,f[0],con,timeout=timeout); ex.stop_on_fail=4
            try: ex.run()
            except StopIteration: pass
            except (sym.Fail,ir.IRError) as e: out['cannot']=str(e)
            except (KeyError,AttributeError,IndexError,z3err()) as e: out['cannot']='internal: '+repr(e)+' '+traceback.format_exc()[-600:]
            out['results']=[(r.name,r.status,round(r.t,3),r.line,r.detail,r.path) for r in ex.results]
            out['called']=sorted(ex.called); out['solver_t']=ex.solver_t; out['n']=ex.nchecks
            if not ex.results and not out['cannot']: out['cannot']='no obligation was generated'
    except Exception as e:
        out['cannot']='internal: '+repr(e)+' '+traceback.format_exc()[-800:]
    out['wall']=time.time()-t0
    return out
def z3err():
    import z3; return z3.Z3Exception

def run_tasks(mods,tasks,timeout,tier,deadline):
    """one forked process per task, NPROC at a time"""
    pend=list(tasks); run={}; res={}
    while pend or run:
        while pend and len(run)<NPROC:
            t=pend.pop(0); fd,fn=tempfile.mkstemp(prefix='zjt'); os.close(fd)
            pid=os.fork()
            if pid==0:
                try:
                    os.setpgid(0,0); r=prove_task(mods,t,timeout,tier); pickle.dump(r,open(fn,'wb'))
                except BaseException: pass
                os._exit(0)
            run[pid]=(t,fn,time.time())
        pid,_=os.waitpid(-1,os.WNOHANG)
        if pid==0:
            time.sleep(0.05)
            for p,(t,fn,t0) in list(run.items()):
                if time.time()>deadline:
                    try: os.killpg(p,signal.SIGKILL)
                    except OSError: pass
                    try: os.kill(p,signal.SIGKILL)
                    except OSError: pass
            continue
        if pid not in run: continue
        t,fn,t0=run.pop(pid)
        try:
            res[t]=pickle.load(open(fn,'rb'))
            if res[t]['cannot'] or any(x[1]!='ok' for x in res[t]['results']): deadline=min(deadline,time.time()+120)   # the verdict is known
        except Exception: res[t]=dict(task=':'.join(x for x in t[1:] if x),kind=t[0],results=[],cannot=f'no answer within {time.time()-t0:.0f} s (time or memory limit)',called=[],solver_t=0,n=0,wall=time.time()-t0)
        os.unlink(fn)
    return [res[t] for t in tasks]

def search(wd,prop,api,ms,seed,thorough,out):
    cmd=[wd+'/replay/driver','search','--focus',prop,'--ms',str(ms),'--seed',str(seed),'--api',api,'--out',out]+(['--thorough'] if thorough else [])
    try: p=subprocess.run(cmd,capture_output=True,text=True,errors='replace',timeout=ms/1000+90)
    except subprocess.TimeoutExpired: return dict(api=api,found=False,text='search timed out',stats={})
    st={}
    for l in p.stdout.split('\n'):
        if l.startswith('STATS'): st={k:int(v) for k,v in (x.split('=') for x in l.split()[1:])}
    sample=p.stdout.split('SAMPLE\n',1)[1][:1500] if 'SAMPLE\n' in p.stdout else ''
    return dict(api=api,found=p.returncode==1 and 'FOUND' in p.stdout,text=p.stdout[:3000],stats=st,sample=sample)

def main():
    prop=sys.argv[1]; tier=sys.argv[2] if len(sys.argv)>2 else os.environ.get('VERIF_TIER','quick')
    seed=int(os.environ.get('VERIF_SEED','1') or 1)
    t0=time.time(); wd=tempfile.mkdtemp(prefix='zjcheck')
    try: rc=check(prop,tier,seed,t0,wd)
    finally: shutil.rmtree(wd,ignore_errors=True)
    sys.exit(rc)

def check(prop,tier,seed,t0,wd):
    P=R.PROPS[prop]
    apis=P.get('apis',['c','cpp']); bounded=P.get('bounded',[])
    os.makedirs(ROOT+'/evidence/replays',exist_ok=True)
    drv=subprocess.Popen(['bash',ROOT+'/replay/build.sh',build.REPO,wd+'/replay'],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
    tasks=[]; notes=[]; same=[]; missing=[]; fatal=None; mods={}
    os.makedirs(wd+'/c'); os.makedirs(wd+'/cpp')
    try:
        mods['c']=build.module(R.C,wd=wd+'/c',keep=R.KEEP); mods['c++']=build.module(R.C,cpp=True,wd=wd+'/cpp',keep=R.KEEP)
        want=R.closure(P['functions'])
        def has(lang,n): return [f for f in mods[lang][0].funcs.values() if f.base==n]
        for n in want:
            con=R.C.get(n)
            if con is None or con.trusted: continue
            c=has('c',n); cc=has('c++',n)
            if not c and not cc: missing.append(n); continue
            if c and 'c' in con.langs: tasks.append(('fn','c',n))
            if cc and 'c++' in con.langs:
                if c and 'c' in con.langs and canon(mods['c'][0],c[0])==canon(mods['c++'][0],cc[0]): same.append(n)
                else: tasks.append(('fn','c++',n))
        for l in P.get('lemmas',[]): tasks.append(('lemma','',l))
        for x in P.get('extra',[]):
            pass
    except Exception as e:
        fatal='front end: '+repr(e)+'\n'+traceback.format_exc()[-2500:]
    if missing: notes.append('not present as functions any more (their code is verified where LLVM inlines it): '+', '.join(missing))
    timeout=20000 if tier=='quick' else 60000
    order=sorted(tasks,key=lambda t:-R.COST.get(t[2],1))
    deadline=t0+(600 if tier=='quick' else 3000)
    results=run_tasks(mods,order,timeout,tier,deadline) if not fatal else []
    extra=[]
    if not fatal:
        for x in P.get('extra',[]):
            try: extra.append(x(mods))
            except Exception as e: extra.append(dict(task=getattr(x,'__name__','extra'),kind='extra',results=[],cannot=repr(e)+traceback.format_exc()[-800:],called=[],solver_t=0,n=0,wall=0))
    results+=extra
    drv.wait(); drvout=drv.stdout.read()
    have=os.path.exists(wd+'/replay/driver')
    oblig=ok=0; bad=[]
    for r in results:
        for x in r['results']:
            oblig+=1
            if x[1]=='ok': ok+=1
            else: bad.append((r['task'],)+tuple(x))
        if r['cannot']: oblig+=1; bad.append((r['task'],r['task']+': out of the verifier\'s reach','fail',0,0,r['cannot'],''))
    if fatal: oblig+=1; bad.append(('front end','the source is readable','fail',0,0,fatal,''))
    if not have: notes.append('the replay driver could not be built: '+drvout[-600:])
    proved=not bad and (ok>0 or bool(bounded))
    # concrete side: cross-check when everything is proved, search for a failing input when an obligation fails
    found=None; searches=[]
    rp=f'{ROOT}/evidence/replays/{prop}.txt'
    if os.path.exists(rp): os.unlink(rp)
    if have:
        if proved: budget=[(a,(15000 if bounded else 4000) if tier=='quick' else 120000) for a in apis]
        else:
            q=45000 if tier=='quick' else 120000
            budget=[(a,q) for a in apis]+[(a,q) for a in apis]
        if proved:
            from concurrent.futures import ThreadPoolExecutor
            with ThreadPoolExecutor(4) as tp: searches=list(tp.map(lambda b: search(wd,prop,b[0],b[1],seed,tier!='quick',f'{wd}/found_{b[0]}'),budget))
        else:
            from concurrent.futures import ThreadPoolExecutor
            jobs=[(a,ms,seed+i) for i,(a,ms) in enumerate(budget)]
            with ThreadPoolExecutor(6) as tp: searches=list(tp.map(lambda b: search(wd,prop,b[0],b[1],b[2],tier!='quick',f'{wd}/found_{b[0]}_{b[2]}'),jobs))
            for s,(a,ms,sd) in zip(searches,jobs): s['file']=f'{wd}/found_{a}_{sd}'
        for s in searches:
            if s['found'] and not found: found=s
        if found and 'file' not in found: found['file']=f'{wd}/found_{found["api"]}'
    violation=bool(bad) or bool(found)
    wall=time.time()-t0
    fns=sorted({r['task'] for r in results if r['kind']=='fn'})
    used={c for r in results for c in r['called']}
    trusted=[R.trusted_text(n) for n in sorted(used) if n in R.C and R.C[n].trusted]
    ev=dict(property=prop,tier=tier,seed=seed,level='other' if bounded else 'proof',
      coverage=dict(**(dict(explanation='contracts decide the functions listed under functions_under_contract; the functions listed under bounded_stand_ins are not yet under contract and are only checked on concrete scripts (see cross_check), bounded, not proved',bounded_stand_ins=bounded) if bounded else {}),obligations=oblig,discharged=ok,checker_cmd=f'python3-vt engine/check.py {prop} {tier}',
        trusted_base=R.TRUSTED+trusted,
        functions_under_contract=fns,same_code_in_cpp=same,lemmas=[r['task'] for r in results if r['kind']!='fn'],
        back_end=R.backend(),solver_queries=sum(r['n'] for r in results),solver_s=round(sum(r['solver_t'] for r in results),1),
        slowest=[f"{r['task']} {r['wall']:.1f} s" for r in sorted(results,key=lambda r:-r['wall'])[:5]],
        samples=[f'{x[0]} ({x[1]})' for r in results for x in r['results']][:40:4],
        failed=[f'{b[1]} (line {b[4]})' for b in bad][:40],
        cross_check=dict(note='concrete cross-check of the same property on the real code; not what decides it',runs=[dict(api=s['api'],**s['stats']) for s in searches],sample=(searches[0].get('sample','') if searches else ''))),
      assumptions=R.ASSUMPTIONS+P.get('assumptions',[])+notes,wall_s=round(wall,1),violations=1 if violation else 0)
    json.dump(ev,open(f'{ROOT}/evidence/{prop}.json','w'),indent=1)
    for k in R.known(prop): print(f'KNOWN-FINDING: property={prop} {k}')
    print(f'{prop} {tier}: {ok}/{oblig} obligations discharged for {len(fns)} function bodies, {len([r for r in results if r["kind"]!="fn"])} lemmas; '
          f'{sum(s["stats"].get("scripts",0) for s in searches)} concrete scripts; {wall:.1f} s')
    for n in notes: print('note: '+n)
    if not violation: return 0
    with open(rp,'w') as f:
        if found:
            f.write(f'# failing input for property {prop} on the real code; replay with: replay/replay.sh {rp}\n')
            f.write(open(found['file'],errors='surrogateescape').read() if os.path.exists(found['file']) else '')
            f.write('\n')
        f.write(f'# failed obligations ({len(bad)}):\n')
        for b in bad[:60]: f.write(f'#   {b[1]} [{b[0]}] line {b[4]}\n#      {str(b[5])[:1500]}\n#      {b[6][:300]}\n'.replace('\n#      \n','\n'))
        if not bad: f.write('#   none: every obligation was discharged; the failing input was found by the concrete cross-check\n')
        if not found:
            f.write('# no failing input was found by the concrete search:\n')
            for s in searches: f.write('#   '+s['api']+': '+s['text'].strip().replace('\n','\n#   ')[:800]+'\n')
    for b in bad[:8]: print(f'failed obligation: {b[1]} [{b[0]}] line {b[4]}: {str(b[5])[:200]}')
    if found: print(found['text'].strip()[:600])
    print(f'VIOLATION property={prop} replay={rp}'+('' if found else ' no-failing-input-found'))
    return 1
if __name__=='__main__': main()
