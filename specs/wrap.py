"""All spellings of an operation (C17): every short name, member function and wrapper-class function is under the contract 'on every
path exactly one call of the operation it names, with exactly the arguments given, and exactly its result (wrapped one to one)'.
The operations themselves are opaque here: each call is recorded, changes everything it could change, and returns anything."""
import z3, os, shutil, tempfile, time
import ir, sym, build
from sym import *
from sym import Result
OPS='''NewAllocator ReleaseAllocator NewValue ParseFast ParseLen Parse Stringify GetStrFast GetUnEscapeStr GetStr GetNumFast GetNumStr GetNum GetDouble GetInt GetLong GetLongLong
GetBool IsNull GetKey GetUnEscapeKey GetKeyFast ObjGet ObjGetLen Type SizeOf ArrayGet Begin Next Copy Move SetNull SetBool SetNumStrFast SetNumStrLenFast SetNumStr SetNumStrLen
SetNum SetDouble SetInt SetLong SetLongLong SetStrFast SetStrLenFast SetStr SetStrLen SetStrEscape SetStrLenEscape SetKeyFast SetKeyLenFast SetKey SetKeyLen SetKeyEscape
SetKeyLenEscape SetArray SetObj SetFast Set ObjAddFast ObjAdd ArrayAddFast ArrayAdd ArrayDel ObjDel'''.split()
VALUES={'NewValue','ObjGet','ObjGetLen','ArrayGet','Begin','Next','Copy'}      # results that are values
TWO={'SetFast','Set','ObjAddFast','ObjAdd','ArrayAddFast','ArrayAdd'}
NOOBJ={'NewAllocator','ReleaseAllocator'}
CORE={'zj_'+o for o in OPS}|{'zj_allocatorAlloc'}
WV,WA='hpp_Value','hpp_Allocator'

class Trace(sym.Executor):
    """executor in which the operations are opaque"""
    def need_obj(self,st,struct,base,line,why): pass
    def do_call(self,st,ins,fn):
        base=self.mod.funcs[fn].base if fn in self.mod.funcs else fn
        if base in CORE and (fn not in self.mod.funcs or '::' not in self.mod.funcs[fn].qual.split('(')[0].replace('zj::zj_','zj_')):
            args=[self.val(st,t,v) for t,v in ins.args if t!='metadata']
            args=[self.addr(st,a) if isinstance(a,(GPtr,FieldPtr)) else a for a in args]
            ret=None
            if ins.res is not None:
                if ins.ty=='i1': ret=fresh(base,B)
                else:
                    ret=fresh(base,I); st.assume(ret>=0); st.assume(ret<(2**47 if ins.ty=='ptr' else 1<<self.bits(ins.ty)))
                st.env[ins.res]=ret
                if base=='zj_NewValue': st.assume(ret>0)     # its contract
            if base!='zj_allocatorAlloc':
                for s in self.fm.structs:
                    if s in(WV,WA): continue           # the wrapper objects are not known to the operations
                    for f in self.fm.fields(s):
                        if (s,f)!=('zj_Value','A'): st.havoc(f'{s}.{f}')    # no operation changes the allocator of an existing value (frame of every contract)
                for c in('M','rd','wr','s.i32','s.i64','s.f64'): st.havoc(c)
            else: st.assume(ret>0)
            st.tags['trace']=st.tags.get('trace',())+((base,args,ret),)
            self.called.add(base)
            return
        return super().do_call(st,ins,fn)
    def do_ret(self,st,r,line):
        self.rets+=1; self.live_rets+=1
        tr=st.tags.get('trace',()); core=[t for t in tr if t[0]!='zj_allocatorAlloc']; al=[t for t in tr if t[0]=='zj_allocatorAlloc']
        want=self.spec['core']; g=[]
        names=', '.join(t[0] for t in core) or 'nothing'
        g.append((f'exactly one operation, {want}',z3.BoolVal(len(core)==1 and core[0][0]==want)))
        if len(core)==1 and core[0][0]==want:
            _,args,ret=core[0]; ex=self.spec['args'](self)
            g.append(('number of arguments',z3.BoolVal(len(ex)==len(args))))
            for i,(a,b) in enumerate(zip(args,ex)): g.append((f'argument {i+1} handed on unchanged',self.eq(a,b)))
            if self.spec['wrap']:
                g.append(('null stays null, nothing else does',(ret==0)==(r==0)))
                g.append(('the result is wrapped one to one',z3.Implies(r!=0,z3.Select(st.h(WV+'.val'),r)==ret)))
                A=lambda v: z3.Select(st.h('zj_Value.A'),v)
                ok=[z3.BoolVal(len(al)<=1)]
                for _,(a,n),x in al:
                    ok+=[z3.Or(a==A(ret),a==self.spec['alloc'](self)),n>=8,r==x]
                g.append(('the wrapper object comes from the allocator of the value',z3.And(*ok)))
                g.append(('only a new wrapper object is written',z3.Or(r==0,z3.BoolVal(len(al)==1))))
                k=fresh('k',I); g.append(('other wrapper objects stay',z3.Or(k==r,z3.Select(st.h(WV+'.val'),k)==z3.Select(self.entry_comp(WV+'.val'),k))))
            else:
                if self.spec['ctor'] is not None: g.append(('the allocator is kept',z3.Select(st.h(self.spec['ctor'][0]),self.args['this'])==ret))
                elif (r is None)!=(ret is None): g.append(('result',z3.BoolVal(False)))
                elif r is not None: g.append(('result handed on unchanged',self.eq(r,ret)))
                g.append(('no further memory is obtained',z3.BoolVal(not al)))
        fr=[]
        for comp,v in st.heap.items():
            if comp.split('.')[0] in(WV,WA) and not self.spec['wrap'] and self.spec['ctor'] is None and not v.eq(self.entry_comp(comp)): k=fresh('k',I); fr.append((comp+' unchanged',z3.Select(v,k)==z3.Select(self.entry_comp(comp),k)))
        # nothing is written between the calls: the state after the operation is the one it left
        self.prove_many(st,g+fr,'ensures',line)
    def store(self,st,ty,val,p,line):
        if isinstance(p,FieldPtr) and p.struct in(WV,WA) or isinstance(p,Cell): return super().store(st,ty,val,p,line)
        self.results.append(Result(f'{self.con.name}:frame:a wrapper writes nothing itself','fail',0,line,f'store {ty}')); self.failed=True
    def eq(self,a,b):
        if z3.is_bool(a) and not z3.is_bool(b): a=z3.If(a,z3.IntVal(1),z3.IntVal(0))
        if z3.is_bool(b) and not z3.is_bool(a): b=z3.If(b,z3.IntVal(1),z3.IntVal(0))
        return a==b

def source(api):
    return '#include "%s/%s"\n'%(build.REPO,'zzzjson.hpp' if api=='hpp' else 'zzzjson.h')
def load(api,wd):
    cpp=api!='cshort'
    t=ir.compile_ll(source(api),cpp,wd,'w'+api); m=ir.Module(t,cpp)
    keep=set()
    for n,f in m.funcs.items():
        q=f.qual.split('(')[0]
        if f.base in CORE and q in(f.base,'zj::'+f.base): keep.add(n)      # the operations
        f.wname=wname(api,f)
    wr={n for n,f in m.funcs.items() if f.wname}
    if api!='cshort':      # constructor and destructor of the allocator are part of NewAllocator / ReleaseAllocator
        pass
    t2=ir.simplify(t,set(m.funcs)-keep-wr,wd,'w'+api); m2=ir.Module(t2,cpp)
    for f in m2.funcs.values(): f.wname=wname(api,f)
    off=build.offsets(cpp,wd); irn={s:('zj::'+s if cpp else s) for s in off}
    fm=FieldMap(m2,off,irn)
    if api=='hpp':
        for s,n,f in((WV,'Value','val'),(WA,'Allocator','alloc')):
            ty='%class.zzzjson::'+n
            if m.structs.get(ty)!=['ptr']: raise Fail(ty+' has changed: '+str(m.structs.get(ty)))
            m2.structs[ty]=['ptr']
            fm._pl[ty]=s; fm._ir[s]='zzzjson::'+n; fm._names[s]=[f]; fm.structs.append(s)
    return m2,fm
def wname(api,f):
    """the operation a function is a spelling of"""
    q=f.qual.split('(')[0].split(' ')[-1]
    if api=='cshort': return f.base if f.base in OPS else None
    if api=='cppshort': return q[4:] if q.startswith('zj::') and q[4:] in OPS else None
    if api=='member': return q[14:] if q.startswith('zj::zj_Value::') and q[14:] in OPS else None
    if q.startswith('zzzjson::Value::'):
        n={'Size':'SizeOf'}.get(q[16:],q[16:]); return n if n in OPS and not f.name.startswith('_ZN7zzzjson5ValueC') else None
    if f.name=='_ZN7zzzjson9AllocatorC2Ev': return 'NewAllocator'
    if f.name=='_ZN7zzzjson9AllocatorD2Ev': return 'ReleaseAllocator'
    return None
EXPECT={'cshort':set(OPS),'cppshort':set(OPS),'member':set(OPS)-NOOBJ,'hpp':set(OPS)}
def spec(api,op,f):
    """parameters of the spelling and the call it stands for"""
    ps=[]; kinds=[]
    for i,(ty,n) in enumerate(f.params):
        nm='this' if i==0 and n=='this' else f'a{i}'
        ps.append((nm,{'ptr':'ptr','i1':'bool','double':'dbl'}.get(ty,'int')))
    names=[n for n,_ in ps]
    sp=dict(core='zj_'+op,wrap=False,ctor=None)
    if api!='hpp': sp['args']=lambda ex: [ex.args[n] for n in names]
    else:
        val=lambda ex,n: z3.Select(ex.entry_comp(WV+'.val'),ex.args[n])
        sp['wrap']=op in VALUES
        if op=='NewAllocator': sp['args']=lambda ex: []; sp['ctor']=(WA+'.alloc',)
        elif op=='ReleaseAllocator': sp['args']=lambda ex:[z3.Select(ex.entry_comp(WA+'.alloc'),ex.args['this'])]
        elif op=='NewValue':
            if names[0]=='this': a=lambda ex: z3.Select(ex.entry_comp('zj_Value.A'),val(ex,'this'))
            else: a=lambda ex: z3.Select(ex.entry_comp(WA+'.alloc'),ex.args[names[0]])
            sp['args']=lambda ex:[a(ex)]; sp['alloc']=a
        else:
            sp['args']=lambda ex:[val(ex,n) if n=='this' or (op in TWO and n==names[1]) else ex.args[n] for n in names]
            sp['alloc']=lambda ex: z3.Select(ex.old.h('zj_Value.A'),val(ex,'this'))
    return ps,sp
def check_api(api,timeout=20000):
    def run(tier=None):
        wd=tempfile.mkdtemp(prefix='zjw'); out=[]
        try:
            try: m,fm=load(api,wd)
            except (ir.IRError,Fail) as e: return [(f'{api}: the source is readable','fail',0,0,str(e)[-1500:],'')]
            have=set()
            for f in sorted(m.funcs.values(),key=lambda f:f.name):
                if not f.wname: continue
                have.add(f.wname)
                ps,sp=spec(api,f.wname,f)
                con=Contract(f'{api}:{f.qual.split("(")[0]}',ps,langs=('c',))
                ex=Trace(m,{},fm,f,con,timeout=timeout); ex.spec=sp
                try: ex.run()
                except (Fail,ir.IRError) as e: out.append((con.name+': out of the verifier\'s reach','fail',0,0,str(e),''))
                out+=[(r.name,r.status,round(r.t,3),r.line,r.detail,r.path) for r in ex.results]
            miss=EXPECT[api]-have
            if miss: out.append((f'{api}: every operation has this spelling','fail',0,0,'missing: '+' '.join(sorted(miss)),''))
        finally: shutil.rmtree(wd,ignore_errors=True)
        return out
    return run
LEMMAS={f'spelling {a}':check_api(a) for a in EXPECT}
def readings(mods):
    """the C and the C++ reading of the header give the same code for every operation (those that differ must be proved in both)"""
    from canon import canon
    import registry as R
    t0=time.time(); out=[]
    mods={'c':build.module(R.C,keep=CORE),'c++':build.module(R.C,cpp=True,keep=CORE)}
    for op in sorted(CORE):
        c=[f for f in mods['c'][0].funcs.values() if f.base==op]; d=[f for f in mods['c++'][0].funcs.values() if f.base==op and f.qual.split('(')[0] in('zj::'+op,op)]
        if not c or not d: out.append((f'readings:{op} exists in C and C++','fail',0,0,'missing','')); continue
        same=canon(mods['c'][0],c[0])==canon(mods['c++'][0],d[0])
        if not same and op in R.PROPS['C17']['functions']: continue      # proved against its contract in both readings
        out.append((f'readings:{op} is the same code in C and C++','ok' if same else 'fail',0,0,'' if same else 'the simplified code differs',''))
    return dict(task='C and C++ readings',kind='extra',results=out,cannot=None,called=[],solver_t=0,n=0,wall=time.time()-t0)
C={}
if __name__=='__main__':
    import sys
    for a in sys.argv[1:] or list(EXPECT):
        t0=time.time(); r=check_api(a)(); bad=[x for x in r if x[1]!='ok']
        print(a,len(r),'obligations',len(bad),'failed',round(time.time()-t0,1),'s')
        for b in bad[:10]: print('   ',b)
