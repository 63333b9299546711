"""Deductive verifier core: symbolic execution of LLVM IR functions against contracts.
Loops are cut at their headers with inductive invariants, calls to functions with a contract use only that contract,
everything is discharged by z3 (quantifiers by e-matching on explicit patterns, recursive spec functions by bounded
unfolding of their defining equations)."""
import z3, re, itertools, time, os, sys, pickle, tempfile
from ir import Module, IRError

I=z3.IntSort(); B=z3.BoolSort(); AI=z3.ArraySort(I,I); AB=z3.ArraySort(I,B); AAI=z3.ArraySort(I,AI)
F64=z3.FPSort(11,53)

class Fail(Exception):
    """the function cannot be executed symbolically (outside the verifier's reach)"""

class Cell:
    def __init__(self,name,ty): self.name=name; self.ty=ty
    def __repr__(self): return f'Cell({self.name})'
class FieldPtr:
    def __init__(self,struct,base,field,fty): self.struct=struct; self.base=base; self.field=field; self.fty=fty
class GPtr:
    def __init__(self,name,idx=None,field=None,ety=None): self.name=name; self.idx=idx; self.field=field; self.ety=ety
class Undef: pass

# ------------------------------------------------------------------ spec functions
class SpecFun:
    reg={}
    def __init__(self,name,sorts,body=None,inst=None,rec=True):
        self.rec=rec; self.name=name; self.decl=z3.Function(name,*sorts); self.body=body; self.inst=inst
        SpecFun.reg[name]=self
    def __call__(self,*a): return self.decl(*a)

def walk_apps(terms,seen,out):
    st=list(terms)
    while st:
        t=st.pop()
        if t.get_id() in seen: continue
        seen.add(t.get_id())
        if z3.is_quantifier(t): continue
        if z3.is_app(t):
            if t.num_args():
                n=t.decl().name()
                if n in SpecFun.reg and t.decl().kind()==z3.Z3_OP_UNINTERPRETED: out.append(t)
                st.extend(t.children())

def has_var(t,cache={}):
    return False

def unfold(terms,rounds=2,limit=600,opaque=()):
    """instances of the defining equations of the spec functions that occur (ground) in terms; recursive definitions are
    unfolded `rounds` times, non-recursive ones always"""
    seen=set(); res=[]; done=set(); keep=[]
    level=[list(terms)]+[[] for _ in range(rounds)]
    for r in range(rounds+1):
        while level[r]:
            apps=[]; walk_apps(level[r],seen,apps); level[r]=[]
            for a in apps:
                if a.get_id() in done: continue
                sf=SpecFun.reg[a.decl().name()]
                if sf.name in opaque: continue
                isrec=sf.rec and sf.body is not None
                if isrec and r>=rounds: continue
                done.add(a.get_id()); keep.append(a)
                args=[a.arg(i) for i in range(a.num_args())]
                if sf.body is not None:
                    e=(a==sf.body(*args)); res.append(e); level[r+1 if isrec else r].append(e)
                if sf.inst is not None:
                    for e in sf.inst(a,*args): res.append(e); level[r].append(e)
                if len(res)>limit: return res
    return res

# ------------------------------------------------------------------ heap components
class Comps:
    """sorts of the heap components; struct fields default to Array(Int,Int)"""
    sorts={'M':AI,'rd':AB,'wr':AB,'s.f64':z3.ArraySort(I,F64)}
    rng={}      # component -> upper bound (exclusive) or None
    @classmethod
    def sort(cls,c): return AB if c.startswith('is.') or c.startswith('sc.') else cls.sorts.get(c,AI)

_fresh=itertools.count()
def fresh(name,sort): return z3.Const(f'{name}!{next(_fresh)}',sort)

class State:
    __slots__=('env','cells','heap','pc','pending','lines','ex','tags')
    def __init__(s,ex):
        s.env={}; s.cells={}; s.heap={}; s.pc=[]; s.pending=[]; s.lines=[]; s.ex=ex; s.tags={}
    def copy(s):
        n=State(s.ex); n.env=dict(s.env); n.cells=dict(s.cells); n.heap=dict(s.heap); n.pc=list(s.pc); n.pending=list(s.pending); n.lines=list(s.lines); n.tags=dict(s.tags)
        return n
    # views used by contracts
    def h(s,c):
        if c not in s.heap:
            v=s.ex.entry_comp(c); s.heap[c]=v
        return s.heap[c]
    def f(s,fld,x): return z3.Select(s.h(fld),x)
    def cell(s,p): return s.cells[p]
    def assume(s,*fs):
        for f in fs:
            if f is None: continue
            if isinstance(f,(list,tuple)): s.assume(*f)
            else: s.pc.append(f)
    def havoc(s,c):
        v=fresh(c,Comps.sort(c)); s.heap[c]=v
        r=s.ex.range_axiom(c,v)
        if r is not None: s.pc.append(r)
        return v
    def set(s,c,v):
        # every version of the heap gets a name, so that it can be used in patterns
        if z3.is_const(v): s.heap[c]=v; return
        # (defined pointwise: an equation would be solved away by the preprocessor, and the patterns with it)
        n=fresh(c,v.sort()); s.heap[c]=n; s.ex.hdef[n.get_id()]=(n,v); x=z3.Int('x!s')
        if z3.is_app(v) and v.decl().kind()==z3.Z3_OP_STORE and z3.is_const(v.arg(0)):
            o,i,w=v.children()
            s.pc.append(z3.Select(n,i)==w); s.pc.append(z3.ForAll([x],z3.Or(x==i,z3.Select(n,x)==z3.Select(o,x)),patterns=[z3.Select(n,x),z3.Select(o,x)]))
        else: s.pc.append(z3.ForAll([x],z3.Select(n,x)==z3.Select(v,x),patterns=[z3.Select(n,x)]))
    def rd_field(s,c,base):
        """field value, resolved through the stores where that is syntactically possible"""
        h=s.h(c); t=h
        while t.get_id() in s.ex.hdef:
            v=s.ex.hdef[t.get_id()][1]
            if not (z3.is_app(v) and v.decl().kind()==z3.Z3_OP_STORE): break
            i=v.arg(1)
            if i.eq(base) or simp(i).eq(simp(base)): return v.arg(2)
            d=simp(i-base)
            if z3.is_int_value(d) and d.as_long()!=0: t=v.arg(0); continue
            break
        return z3.Select(h,base)

def simp(t): return z3.simplify(t)
_TRB=z3.Function('tr.b',B,B); _TRI=z3.Function('tr.i',I,B)
def tr(*ts):
    """always true; makes the terms visible to e-matching"""
    return z3.And(*[_TRB(t) if z3.is_bool(t) else _TRI(t) for t in ts])
_tb=z3.Bool('x!tb'); _ti=z3.Int('x!ti')
TRAX=[z3.ForAll([_tb],_TRB(_tb),patterns=[_TRB(_tb)]),z3.ForAll([_ti],_TRI(_ti),patterns=[_TRI(_ti)])]
def upd(n,o,i,w):
    """n is o except that n[i]=w (pointwise, so that the solver keeps both names)"""
    x=z3.Int('x!u')
    return z3.And(z3.Select(n,i)==w,z3.ForAll([x],z3.Or(x==i,z3.Select(n,x)==z3.Select(o,x)),patterns=[z3.Select(n,x),z3.Select(o,x)]))

class Contract:
    """requires(c) -> [(label,formula)]; ensures(c) -> [(label,formula)]; modifies: heap components; modcells: params
    params: list of (name, kind) with kind in int/ptr/cell/bool/dbl"""
    def __init__(self,name,params,requires=None,ensures=None,modifies=(),modcells=(),loops=(),ghost_exit=None,setup=None,
                 hooks=None,trusted=False,ret=None,rounds=1,post_assume=None,props=None,inline=(),split=True,timeout=None,uses=None,assume_exit=None,lemmas=None,
                 hidden=(),hidden_req=None,hidden_ens=None,doc='',langs=None,lemma_fn=None,opaque=(),drop=None,exact=False,together=True,par=False,cases=None):
        self.par=par              # discharge obligations in forked processes
        self.cases=cases          # [(label,condition(c))]: the function is verified once for each
        self.together=together    # try all formulas of a group in one query first
        self.exact=exact      # ask the solver whether additions and shifts can wrap, and leave the wrapped case out where they cannot
        self.opaque=opaque; self.drop=drop      # drop(label,fact): leave this hypothesis out when proving label
        self.name=name; self.params=params; self.requires=requires or (lambda c:[]); self.ensures=ensures or (lambda c:[])
        self.modifies=list(modifies); self.modcells=list(modcells); self.loops=list(loops); self.ghost_exit=ghost_exit
        self.setup=setup; self.hooks=hooks or {}; self.trusted=trusted; self.ret=ret; self.rounds=rounds
        self.post_assume=post_assume; self.inline=set(inline); self.timeout=timeout; self.assume_exit=assume_exit
        self.lemmas=lemmas; self.hidden=list(hidden); self.hidden_req=hidden_req or (lambda c:[]); self.hidden_ens=hidden_ens or (lambda c:[])
        self.doc=doc; self.lemma_fn=lemma_fn
        if langs: self.langs=langs

class Loop:
    """inv(c) -> [(label,formula)], variant(c) -> Int term or None; roles: {role:(hint,type)}"""
    def __init__(self,inv,variant=None,roles=None,modifies=None,ghost=(),hint=None,arrive=None,marks=None,forget=False):
        self.forget=forget      # inner loop: what is known of the state at the outer header is left out (the invariant says what is needed)
        self.arrive=arrive; self.marks=marks      # arrive(c): ghost update on every arrival at the header
        self.inv=inv; self.variant=variant; self.roles=roles or {}; self.modifies=modifies; self.ghost=list(ghost); self.hint=hint

class Ctx:
    goal=False        # the formulas asked for are to be proved (they may carry further patterns as hints)
    """what contracts see"""
    def __init__(self,old,st,a,ret=None,ex=None,roles=None,pre=None,g=None):
        self.old=old; self.st=st; self.a=a; self.ret=ret; self.ex=ex; self.roles=roles or {}; self.pre=pre; self.g=g if g is not None else {}
    def __getattr__(self,k):
        if k in self.__dict__.get('a',{}): return self.a[k]
        raise AttributeError(k)
    def v(self,role):
        x=self.roles[role]
        return self.st.cells[x] if isinstance(x,Cell) else self.st.env[x]
    def pv(self,role):
        x=self.roles[role]
        return self.pre.cells[x] if isinstance(x,Cell) else self.pre.env.get(x)

class Result:
    def __init__(self,name,status,t,line=0,detail='',path=''):
        self.name=name; self.status=status; self.t=t; self.line=line; self.detail=detail; self.path=path

def mk_solver(timeout_ms,mbqi=False):
    s=z3.SimpleSolver()
    s.set('timeout',timeout_ms)
    s.set('auto_config',False); s.set('mbqi',mbqi)
    s.set('random_seed',int(os.environ.get('VSEED','7')))
    return s

def skolem(g,hints):
    """goal with the universal quantifiers in positive position replaced by fresh constants; the instantiated pattern terms go to
    hints (they are asserted as always-true markers, so that e-matching sees them)"""
    if z3.is_quantifier(g) and g.is_forall():
        cs=[fresh(g.var_name(i)+'!sk',g.var_sort(i)) for i in range(g.num_vars())]
        sub=list(reversed(cs))
        for i in range(g.num_patterns()):
            p=g.pattern(i)
            for j in range(p.num_args()):
                t=z3.substitute_vars(p.arg(j),*sub)
                if z3.is_int(t) or z3.is_bool(t): hints.append(t)
        return skolem(z3.substitute_vars(g.body(),*sub),hints)
    if z3.is_app(g) and z3.is_bool(g) and g.num_args():
        k=g.decl().kind()
        if k==z3.Z3_OP_AND: return z3.And(*[skolem(c,hints) for c in g.children()])
        if k==z3.Z3_OP_OR: return z3.Or(*[skolem(c,hints) for c in g.children()])
        if k==z3.Z3_OP_IMPLIES: return z3.Implies(g.arg(0),skolem(g.arg(1),hints))
    return g
class Executor:
    def __init__(self,mod,contracts,fieldmap,fn,con,axioms=(),timeout=20000,lits=None,only=None,stats=None):
        self.mod=mod; self.contracts=contracts; self.fm=fieldmap; self.fn=fn; self.con=con
        self.axioms=list(axioms)+TRAX; self.timeout=con.timeout or timeout
        self.results=[]; self.entry={}; self.entry_facts=[]; self.lits={}; self.base_to_ir={}
        self.reach=0; self.solver_t=0.0; self.notes=[]; self.failed=False
        self.kids={}; self.nchecks=0; self.called=set(); self.stop_on_fail=False; self.quiet=False
        self.tabs={}; self.hdef={}

    # ---------- entry components, ranges
    def entry_comp(self,c):
        if c not in self.entry:
            v=z3.Const(f'{c}@0',Comps.sort(c)); self.entry[c]=v
            r=self.range_axiom(c,v)
            if r is not None: self.entry_facts.append(r)
        return self.entry[c]
    def range_axiom(self,c,v):
        if c=='M': ub=256
        elif c in self.fm.ftypes:
            t=self.fm.ftypes[c]; ub={'i32':2**32,'i8':256,'i64':2**64,'ptr':2**47}.get(t)
        elif c in ('s.i32',): ub=2**32
        elif c in('s.i64',): ub=2**64
        else: return None
        if ub is None: return None
        x=z3.Int('x!r')
        return z3.ForAll([x],z3.And(z3.Select(v,x)>=0,z3.Select(v,x)<ub),patterns=[z3.Select(v,x)])

    # ---------- solving
    def facts(self,st,extra=()):
        return self.axioms+self.entry_facts+st.pc+list(extra)
    def check(self,st,goal,rounds=None,timeout=None):
        t0=time.time()
        fs=self.facts(st)
        if self.con.drop: lab=getattr(self,'_lab',''); fs=[g for f in fs for g in conj(f) if not self.con.drop(lab,g)]
        fs=fs+[z3.Not(goal)]
        if self.con.lemmas: fs=fs+list(self.con.lemmas)
        u=unfold(fs,rounds or self.con.rounds,opaque=self.con.opaque)
        hints=[]; g2=skolem(goal,hints)
        if hints: fs=fs[:-1]+[z3.Not(g2)]+[tr(h) for h in hints]
        fs=fs+u
        s=mk_solver(timeout or self.timeout)
        s.add(*fs)
        r=s.check()
        if r==z3.unknown and timeout is None:                # the same question again, in another order and with other seeds
            if os.environ.get('VERB'): print(f'   retry {getattr(self,"_lab","")} {time.time()-t0:.1f}s {s.reason_unknown()} {dedup(st.lines)[-5:]}',flush=True)
            txt=s.to_smt2()
            quick=time.time()-t0<0.5*self.timeout/1000       # no more instances: a term was not regarded as relevant
            for seed,rel in((0,0),(11,2),(23,1),(47,2)) if quick else ((11,2),(23,2),(47,2),(5,0)) if self.con.par else ((11,2),(23,0)):
                s2=z3.SimpleSolver(ctx=s.ctx); s2.set('timeout',self.timeout); s2.set('auto_config',False); s2.set('mbqi',False); s2.set('random_seed',seed); s2.set('relevancy',rel)
                s2.from_string(txt); c0=time.process_time(); w0=time.time(); r2=s2.check()
                if r2==z3.unknown and time.time()-w0>0.9*self.timeout/1000 and time.process_time()-c0<0.7*self.timeout/1000:      # the machine is busy: it did not get its time
                    s2.set('timeout',2*self.timeout); r2=s2.check()
                if r2==z3.unsat: r,s=r2,s2; break
        dt=time.time()-t0; self.solver_t+=dt; self.nchecks+=1
        if os.environ.get('VERB') and (dt>0.5 or r!=z3.unsat): print(f'   [{self.nchecks}] {r} {dt:.1f}s {getattr(self,"_lab","")} {dedup(st.lines)[-5:]}',flush=True)
        if os.environ.get('VDUMP') and (r!=z3.unsat or os.environ.get('VDUMPRE') and re.search(os.environ['VDUMPRE'],getattr(self,'_lab',''))) and (timeout is None):
            open(f"/tmp/w/dump_{self.con.name}_{re.sub('[^a-zA-Z0-9]+','-',getattr(self,'_lab',''))}_{os.getpid()}_{self.nchecks}.smt2",'w').write(s.to_smt2())
        return r,s,dt
    def feasible(self,st,cond=None):
        fs=self.facts(st,[cond] if cond is not None else [])
        if self.con.par and cond is not None: fs=[g for f in fs for g in conj(f) if not z3.is_quantifier(g)]     # branches: only what is known without quantifiers
        s=mk_solver(300); s.add(*fs)
        t0=time.time(); r=s.check(); self.solver_t+=time.time()-t0
        if os.environ.get('VERB'): print(f'   feas {r} {time.time()-t0:.2f}')
        return r!=z3.unsat
    def prove_many(self,st,goals,kind,line=0):
        """goals: [(label,formula)]; each becomes a named obligation"""
        if not self.con.par or kind=='sync': return self.prove_now(st,goals,kind,line)
        self.reap(8)
        fd,fn=tempfile.mkstemp(prefix='zjo'); os.close(fd); sys.stdout.flush()
        pid=os.fork()
        if pid==0:
            try:
                self.results=[]; self.failed=False; self.stop_on_fail=False; self.solver_t=0; self.nchecks=0
                self.prove_now(st,goals,kind,line)
                pickle.dump((self.results,self.solver_t,self.nchecks),open(fn,'wb'))
            except BaseException as e:
                pickle.dump(([Result(f'{self.con.name}:{kind}:{goals[0][0]}','fail',0,line,'internal: '+repr(e))],0,0),open(fn,'wb'))
            sys.stdout.flush(); os._exit(0)
        self.kids[pid]=(fn,f'{self.con.name}:{kind}:{goals[0][0] if goals else ""}',line); return True
    def reap(self,limit=1):
        """collect the results of forked provers until fewer than limit are left"""
        while len(self.kids)>=limit:
            pid,_=os.wait()
            if pid not in self.kids: continue
            fn,lab,line=self.kids.pop(pid)
            try: rs,t,n=pickle.load(open(fn,'rb'))
            except Exception: rs,t,n=[Result(lab,'fail',0,line,'the prover process ended without an answer (memory or time limit)')],0,0
            os.unlink(fn)
            self.results+=rs; self.solver_t+=t; self.nchecks+=n
            bad=sum(r.status!='ok' for r in rs)
            if bad:
                self.failed=True; self.nfail=getattr(self,'nfail',0)+bad
                if self.stop_on_fail and self.nfail>=self.stop_on_fail and limit>1: self.reap(1); raise StopIteration
    def prove_now(self,st,goals,kind,line=0):
        if os.environ.get('VONLY'): goals=[(l,g) for l,g in goals if re.search(os.environ['VONLY'],f'{kind}:{l} {",".join(map(str,dedup(st.lines)[-12:]))}')]
        goals=[(l,g) for l,g in goals if g is not None]
        todo=[]
        for l,g in goals:
            if isinstance(g,bool): g=z3.BoolVal(g)
            sg=simp(g)
            if z3.is_true(sg): self.results.append(Result(f'{self.con.name}:{kind}:{l}','ok',0.0,line)); continue
            todo.append((l,g))
        if not todo: return True
        okall=True
        self._lab=kind+':'+(todo[0][0] if len(todo)==1 else f'all {len(todo)}')
        tog=self.con.together
        if isinstance(tog,tuple):                # all but these in one query
            grp=[x for x in todo if not any(k in x[0] for k in tog)]
            if len(grp)>1:
                r,s,dt=self.check(st,z3.And(*[g for _,g in grp]),timeout=min(self.timeout,5000))
                if r==z3.unsat:
                    for l,g in grp: self.results.append(Result(f'{self.con.name}:{kind}:{l}','ok',dt/len(grp),line))
                    todo=[x for x in todo if any(k in x[0] for k in tog)]
        elif callable(tog):                      # one query for each class; the class is the label seen by drop
            cl={}
            for x in todo: cl.setdefault(tog(kind,x[0]),[]).append(x)
            done=set()
            for k,grp in cl.items():
                if len(grp)<2 or k is None: continue
                self._lab=f'{kind}:{k}'
                r,s,dt=self.check(st,z3.And(*[g for _,g in grp]),timeout=min(self.timeout,6000))
                if r==z3.unsat:
                    for l,g in grp: self.results.append(Result(f'{self.con.name}:{kind}:{l}','ok',dt/len(grp),line)); done.add(l)
            todo=[x for x in todo if x[0] not in done]
        elif len(todo)>1 and tog:
            r,s,dt=self.check(st,z3.And(*[g for _,g in todo]),timeout=min(self.timeout,10000))
            if r==z3.unsat:
                for l,g in todo: self.results.append(Result(f'{self.con.name}:{kind}:{l}','ok',dt/len(todo),line))
                return True
        for l,g in todo:
            self._lab=kind+':'+l
            r,s,dt=self.check(st,g)
            if r==z3.unsat: self.results.append(Result(f'{self.con.name}:{kind}:{l}','ok',dt,line))
            else:
                okall=False; self.failed=True
                det=f'{r}'
                try:
                    if r==z3.sat or r==z3.unknown:
                        m=s.model(); det+=' candidate model: '+', '.join(sorted(f'{d.name()}={m[d]}' for d in m.decls() if d.arity()==0 and z3.is_int_value(m[d]))[:60])
                except Exception: pass
                if r==z3.unknown: det+=' ('+s.reason_unknown()+')'
                self.results.append(Result(f'{self.con.name}:{kind}:{l}','fail',dt,line,det,'lines '+'>'.join(map(str,dedup(st.lines)))))
                self.nfail=getattr(self,'nfail',0)+1
                if self.stop_on_fail and self.nfail>=self.stop_on_fail: raise StopIteration
                if os.environ.get('STOPF'): break
        if not okall and os.environ.get('STOPF'):
            for r in self.results:
                if r.status!='ok': print('   FAIL',r.name,r.detail[:200],r.path,flush=True)
            os._exit(1)
        return okall

    # ---------- values
    def val(self,st,ty,v):
        k,x=v
        if k=='reg':
            if x not in st.env: raise Fail(f'undefined register {x}')
            return st.env[x]
        if k=='int':
            if ty=='i1': return z3.BoolVal(x!=0)
            n=self.bits(ty)
            return z3.IntVal(x%(1<<n)) if ty!='ptr' else z3.IntVal(x)
        if k=='glob': return GPtr(x)
        if k=='undef': return fresh('undef',B if ty=='i1' else (F64 if ty=='double' else I))
        if k=='fp':
            if x.startswith('0x'):
                import struct
                return z3.FPVal(struct.unpack('>d',bytes.fromhex(x[2:].zfill(16)))[0],F64)
            return z3.FPVal(float(x),F64)
        raise Fail(f'constant {v}')
    def bits(self,ty):
        if ty=='ptr': return 64
        m=re.fullmatch(r'i(\d+)',ty)
        if not m: raise Fail('int type '+ty)
        return int(m.group(1))

    def addr(self,st,p):
        """pointer as an integer address"""
        if isinstance(p,z3.ArithRef): return p
        if isinstance(p,GPtr) and p.idx is None and p.field is None: return self.lit_addr(p.name)
        if isinstance(p,FieldPtr):
            off=self.fm.offset(p.struct,p.field); return p.base+off
        raise Fail(f'address of {p}')

    def lit_addr(self,name):
        if name not in self.lits:
            a=z3.Int('lit.'+name); self.lits[name]=a
            g=self.mod.globals.get(name)
            fs=[a>0,a<2**46,z3.Function('ST',I,B)(a)]
            if g and re.match(r'\[\d+ x i8\]$',g['ty']):
                bs=lit_bytes(g)
                rd=self.entry_comp('rd'); M=self.entry_comp('M')
                for j,b in enumerate(bs): fs+= [z3.Select(rd,a+j),z3.Select(M,a+j)==b, z3.Not(z3.Select(self.entry_comp('wr'),a+j))]
            elif g and re.fullmatch(r'-?\d+|zeroinitializer',g['init']) and g['ty'] in('i8','i32','i64') and name not in self.mod.written:
                val=0 if g['init']=='zeroinitializer' else int(g['init'])
                if g['ty']=='i8': fs+=[z3.Select(self.entry_comp('rd'),a),z3.Select(self.entry_comp('M'),a)==val%256,z3.Not(z3.Select(self.entry_comp('wr'),a))]
                else: fs+=[z3.Select(self.entry_comp('s.'+g['ty']),a)==val%(1<<self.bits(g['ty'])),z3.Select(self.entry_comp('sc.'+g['ty']),a)]
            self.entry_facts+=fs
        return self.lits[name]

    # ---------- memory
    def is_t(self,struct): return 'is.'+struct
    def need_obj(self,st,struct,base,line,why):
        """obligation: base is a live object of type struct (tagging a fresh raw block on first use)"""
        key=(struct,base.get_id())
        if st.tags.get(key) is not None and st.tags[key].eq(st.h(self.is_t(struct))): return
        c=self.is_t(struct)
        sb=simp(base)
        for i,(r,size,known) in enumerate(st.pending):
            same=sb.eq(simp(r))
            if not same and not z3.is_int_value(sb):
                rr,_,_=self.check(st,base==r,timeout=1000) if len(st.pending)<4 else (None,None,None)
                same = rr==z3.unsat
            if same:
                sz=self.mod.sizeof('%struct.'+self.fm.irname(struct)) if True else 0
                if not self.prove_many(st,[(f'{struct} fits block',size>=sz)],'safety',line): pass
                st.pending.pop(i)
                self.tag(st,struct,r,size,sz)
                st.tags[(struct,base.get_id())]=st.h(c); st.tags[('keep',base.get_id())]=base
                return
        self.prove_many(st,[(f'{why} is a live {struct}',z3.Select(st.h(c),base))],'safety',line)
        st.tags[key]=st.h(c); st.tags[('keep',base.get_id())]=base
    def tag(self,st,struct,r,size,sz):
        c=self.is_t(struct)
        st.set(c,z3.Store(st.h(c),r,True))
        # the object's bytes are no longer plain bytes
        for comp in('rd','wr'):
            o=st.h(comp); n=fresh(comp,AB); x=z3.Int('x!t')
            st.assume(z3.ForAll([x],z3.And(tr(z3.Select(o,x)),z3.Select(n,x)==z3.And(z3.Select(o,x),z3.Not(z3.And(r<=x,x<r+sz)))),patterns=[z3.Select(n,x)]))
            st.set(comp,n)
        rest=simp(size-sz)
        if not (z3.is_int_value(rest) and rest.as_long()<=0): st.pending.append((simp(r+sz),rest,False))
        self.con_hook(st,'tag',(struct,r))
    def con_hook(self,st,ev,info): 
        h=self.con.hooks.get(ev)
        if h: h(self.ctx(st),info)

    def load(self,st,ty,p,line):
        if isinstance(p,Cell):
            v=st.cells.get(p)
            if v is None: raise Fail('uninitialised local')
            return v
        if isinstance(p,FieldPtr):
            self.need_obj(st,p.struct,p.base,line,'read of .'+p.field)
            comp=f'{p.struct}.{p.field}'
            v=st.rd_field(comp,p.base)
            self.range(st,ty,v)
            return v
        if isinstance(p,GPtr): return self.load_global(st,ty,p,line)
        if isinstance(p,z3.ArithRef):
            if ty=='i8':
                self.prove_many(st,[('byte read in bounds',z3.Select(st.h('rd'),p))],'safety',line)
                v=z3.Select(st.h('M'),p); st.assume(v>=0,v<256)
                return v
            if ty in('i16','i32','i64'):
                n=self.bits(ty)//8
                self.prove_many(st,[('word read in bounds',z3.And(*[z3.Select(st.h('rd'),p+i) for i in range(n)]))],'safety',line)
                bs=[z3.Select(st.h('M'),p+i) for i in range(n)]
                for b in bs: st.assume(b>=0,b<256)
                return sum((bs[i]*(256**i) for i in range(1,n)),bs[0])
            raise Fail(f'load {ty} through plain pointer')
        raise Fail(f'load through {p}')
    def range(self,st,ty,v):
        if ty=='ptr': st.assume(v>=0)
        elif ty in('i8','i16','i32','i64') and not z3.is_int_value(v): st.assume(v>=0,v<(1<<self.bits(ty)))

    def load_global(self,st,ty,p,line):
        g=self.mod.globals.get(p.name)
        if g is None: raise Fail('global '+p.name)
        if p.name in self.mod.written:
            raise Fail(f'read of mutable global {p.name}')
        if p.idx is None:
            init=g['init']
            if ty=='ptr':
                m=re.match(r'@"?([^"\s]+)"?$',init)
                if m: return self.lit_addr(m.group(1))
                if init=='null': return z3.IntVal(0)
            if g['ty']==ty or (ty=='i8' and g['ty']=='i8'):
                if re.fullmatch(r'-?\d+',init): return z3.IntVal(int(init)%(1<<self.bits(ty)))
                if init=='zeroinitializer': return z3.IntVal(0)
            if ty=='i8' and re.match(r'\[\d+ x i8\]$',g['ty']):
                return self.load(st,ty,self.lit_addr(p.name),line)
            raise Fail('load of global '+p.name)
        # table access
        t=self.table(p.name)
        n=len(t['rows'])
        self.prove_many(st,[(f'index into {p.name} in bounds',z3.And(p.idx>=0,p.idx<n))],'safety',line)
        fidx=p.field if p.field is not None else 0
        key=(p.name,fidx)
        fn=z3.Function(f'tab.{gbase(p.name)}.{fidx}',I,I)
        v=fn(p.idx)
        if ty=='ptr': st.assume(v>0)
        else: self.range(st,ty,v)
        spec=self.con_tab(p.name)
        return v
    def con_tab(self,name):
        if name in self.tabs: return
        self.tabs[name]=True
        tf=self.contracts.get('#tables',{}).get(gbase(name))
        if tf: self.entry_facts+=tf(self,name)
    def table(self,name):
        return parse_table(self.mod,name)

    def store(self,st,ty,val,p,line):
        if isinstance(p,Cell): st.cells[p]=val; return
        if isinstance(p,FieldPtr):
            self.need_obj(st,p.struct,p.base,line,'write of .'+p.field)
            comp=f'{p.struct}.{p.field}'
            if not isinstance(val,z3.ExprRef): val=self.addr(st,val)
            st.set(comp,z3.Store(st.h(comp),p.base,val)); return
        if isinstance(p,GPtr):
            self.results.append(Result(f'{self.con.name}:frame:no static storage is written ({p.name})','fail',0,line,'store to global'))
            self.failed=True
            return
        if isinstance(p,z3.ArithRef):
            if ty=='i8':
                self.prove_many(st,[('byte write in bounds',z3.Select(st.h('wr'),p))],'safety',line)
                st.set('M',z3.Store(st.h('M'),p,val)); return
            comp={'i32':'s.i32','i64':'s.i64','double':'s.f64'}.get(ty)
            if comp:
                # scalar object in a fresh raw block
                sb=simp(p)
                for i,(r,size,known) in enumerate(st.pending):
                    if sb.eq(simp(r)):
                        self.prove_many(st,[('scalar fits block',size>=self.mod.sizeof(ty))],'safety',line)
                        st.pending.pop(i)
                        st.set(comp,z3.Store(st.h(comp),p,val)); return
                raise Fail(f'store {ty} through plain pointer')
        raise Fail(f'store {ty} through {p}')

    # ---------- main
    def ctx(self,st,ret=None,roles=None,pre=None): return Ctx(self.old,st,self.args,ret,self,roles,pre,self.g)

    def run(self):
        for case in self.con.cases or [None]:
            self.case=case; self._active={}
            for k in('_firstfail','_more_roles'):
                if hasattr(self,k): delattr(self,k)
            try: self.run1()
            finally: self.reap(1)
    def run1(self):
        f=self.fn
        self.base_to_ir={}
        for n,x in self.mod.funcs.items(): self.base_to_ir.setdefault(x.base,n)
        st=State(self)
        self.args={}; self.g={}
        ps=self.con.params
        if len(ps)!=len(f.params): raise Fail(f'{f.base}: {len(f.params)} parameters, contract has {len(ps)}')
        for (nm,kind),(ty,irn) in zip(ps,f.params):
            if kind=='cell': v=Cell(nm,'i32'); st.cells[v]=fresh('*'+nm,I); st.assume(st.cells[v]>=0,st.cells[v]<2**32)
            elif kind=='cellu': v=Cell(nm,'i32'); st.cells[v]=fresh('*'+nm,I)
            elif kind=='ptr':
                v=z3.Int('p.'+nm); st.assume(v>=0,v<2**47)
            elif kind=='int':
                v=z3.Int('p.'+nm); st.assume(v>=0,v<(1<<self.bits(ty)))
            elif kind=='bool': v=z3.Bool('p.'+nm)
            elif kind=='dbl': v=z3.Const('p.'+nm,F64)
            else: raise Fail(kind)
            st.env[irn]=v; self.args[nm]=v
        self.old=st.copy(); self.old.ex=self
        if self.con.setup: self.con.setup(self.ctx(st)); self.old=st.copy()
        st.assume(*[x for _,x in self.con.requires(self.ctx(st))])
        st.assume(*[x for _,x in self.con.hidden_req(self.ctx(st))])
        if self.case: st.assume(self.case[1](self.ctx(st)))
        self.old.pc=list(st.pc)
        if not self.feasible(st): self.results.append(Result(f'{self.con.name}:vacuity:precondition is satisfiable','fail',0,0,'precondition is contradictory')); self.failed=True; return
        self.find_loops()
        self.arrivals={h:[] for h in self.headers}
        self.rets=0; self.live_rets=0
        self.explore(st,f.order[0],None,None)
        for h in self.headers:
            self.do_loop(h)
        if self.rets==0 or self.live_rets==0:
            self.results.append(Result(f'{self.con.name}:vacuity:some path returns','fail',0,0,'no feasible return path')); self.failed=True

    def find_loops(self):
        f=self.fn
        succ={}
        for b in f.order:
            t=f.blocks[b][-1]
            if t.op=='br': succ[b]=list(t.extra)
            elif t.op=='switch': succ[b]=[t.extra[0]]+[c for _,c in t.extra[1]]
            elif t.op=='invoke': succ[b]=[t.extra[1]]
            else: succ[b]=[]
        # dfs
        color={};rpo=[];back=[]
        def dfs(b):
            color[b]=1
            for s in succ[b]:
                if s not in color: dfs(s)
                elif color[s]==1: back.append((b,s))
            color[b]=2; rpo.append(b)
        import sys; sys.setrecursionlimit(10000)
        dfs(f.order[0]); rpo.reverse()
        pos={b:i for i,b in enumerate(rpo)}
        preds={}
        for b in succ:
            for s in succ[b]: preds.setdefault(s,[]).append(b)
        loops={}
        for (u,h) in back:
            body=loops.setdefault(h,{h})
            st=[u]
            while st:
                x=st.pop()
                if x in body: continue
                body.add(x)
                st.extend(p for p in preds.get(x,[]) if p in color)
        self.loops=loops; self.headers=sorted(loops,key=lambda h:pos[h]); self.succ=succ; self.rposn=pos
        if len(self.headers)!=len(self.con.loops):
            raise Fail(f'{f.base}: {len(self.headers)} loops, contract has {len(self.con.loops)} invariants')
        self.loopspec=dict(zip(self.headers,self.con.loops))

    def loop_mods(self,h):
        """cells and heap components possibly changed in the loop (syntactic over-approximation)"""
        comps=set(); cells=set()
        f=self.fn
        for b in self.loops[h]:
            for ins in f.blocks[b]:
                if ins.op=='store':
                    t,v=ins.args[1]
                    if v[0]=='reg': self._mod_ptr(v[1],ins.args[0][0],comps,cells)
                elif ins.op in('call','invoke'):
                    fn=ins.extra if ins.op=='call' else ins.extra[0]
                    self.mod_call(fn,ins,comps,cells)
        # blocks become objects only in loops that obtain memory (blocks still raw at loop entry are forgotten there)
        tagged={c for c in comps if c[0]=='?'}; comps-=tagged
        if 'rd' in comps or 'wr' in comps: comps|={c[1:] for c in tagged}|{'rd','wr'}
        return comps,cells
    def _mod_ptr(self,reg,ty,comps,cells):
        d=self.defs().get(reg)
        if d is None: # parameter
            for (nm,k),(t,irn) in zip(self.con.params,self.fn.params):
                if irn==reg:
                    if k in('cell','cellu'): cells.add(self.args[nm])
                    else: comps.add('M' if ty=='i8' else {'i32':'s.i32','i64':'s.i64','double':'s.f64'}.get(ty,'M'))
            return
        if d.op=='alloca':
            if d.ty.startswith('['): comps.add('M')
            else: cells.add(('alloca',reg))
            return
        if d.op=='getelementptr' and d.extra in self.mod.structs and len(d.args)==3:
            s=self.fm.plain(d.extra)
            comps.add(f'{s}.{self.fm.fname(s,int(d.args[2][1][1]))}')
            comps.add('?is.'+s)
            return
        if ty=='i8': comps.add('M'); return
        comps.add({'i32':'s.i32','i64':'s.i64','double':'s.f64'}.get(ty,'M'))
    def defs(self):
        if not hasattr(self,'_defs'):
            self._defs={}
            for b in self.fn.blocks.values():
                for i in b:
                    if i.res: self._defs[i.res]=i
        return self._defs
    def mod_call(self,fn,ins,comps,cells):
        base=self.mod.funcs[fn].base if fn in self.mod.funcs else fn
        if fn.startswith('llvm.memcpy'):
            d=ins.args[0][1]; n=ins.args[2][1]
            comps.add('M')
            if n[0]=='int':
                for s in self.fm.structs:
                    if self.mod.sizeof('%struct.'+self.fm.irname(s))==n[1]:
                        comps.update(f'{s}.{x}' for x in self.fm.fields(s)); comps.add('?is.'+s)
                if n[1]==8:
                    dd=self.defs().get(d[1]) if d[0]=='reg' else None
                    if dd is not None and dd.op=='getelementptr' and dd.extra in self.mod.structs:
                        s=self.fm.plain(dd.extra); comps.add(f'{s}.{self.fm.fname(s,int(dd.args[2][1][1]))}')
            return
        if fn.startswith('llvm.memset'): comps.add('M'); return
        con=self.contracts.get(base)
        if con is None: return
        comps.update(con.modifies)
        if self.con.hidden: comps.update(con.hidden)
        for i,(nm,k) in enumerate(con.params):
            if nm in con.modcells:
                v=ins.args[i][1]
                if v[0]=='reg': self._mod_ptr(v[1],'i32',comps,cells)

    def do_loop(self,h):
        arr=self.arrivals[h]
        if not arr:
            return
        spec=self.loopspec[h]
        # merge arrivals
        m=arr[0].copy(); kept=set()
        for a in arr[1:]:
            for k in list(m.env):
                x,y=m.env[k],a.env.get(k)
                if y is None: del m.env[k]; continue
                if isinstance(x,z3.ExprRef) and isinstance(y,z3.ExprRef):
                    if not x.eq(y): m.env[k]=fresh(k,x.sort())
                elif x is not y and not (isinstance(x,GPtr) and isinstance(y,GPtr) and x.name==y.name and x.idx is y.idx):
                    if isinstance(x,FieldPtr) and isinstance(y,FieldPtr) and x.struct==y.struct and x.field==y.field and x.base.eq(y.base): continue
                    del m.env[k]
            for k in list(m.cells):
                x,y=m.cells[k],a.cells.get(k)
                if y is None or x is None: m.cells[k]=None
                elif not x.eq(y): m.cells[k]=fresh(k.name,x.sort())
            ids={x.get_id() for x in a.pc}
            m.pc=[x for x in m.pc if x.get_id() in ids or x.get_id() in kept]
            for c in sorted(set(m.heap)|set(a.heap)):
                x=m.h(c); y=a.h(c)
                if not x.eq(y):
                    k=len(m.pc); m.havoc(c); kept|={f.get_id() for f in m.pc[k:]}     # its range is known
            m.pending=[p for p in m.pending if any(p[0].eq(q[0]) for q in a.pending)]
            m.tags={k:v for k,v in m.tags.items() if k in('bufs','v.rd','v.wr') or str(k).startswith('g.') and a.tags.get(k) is v}
        # facts known at entry always survive
        ids={x.get_id() for x in m.pc}
        m.pc=[x for x in self.old.pc if x.get_id() not in ids]+m.pc
        if spec.forget:
            gone=set()
            for q in getattr(self,'_active',{}).values():
                gone|={v.get_id() for k,v in q[3].heap.items() if k in q[5]}
            m.pc=[x for x in m.pc if z3.is_quantifier(x) and x.var_name(0)=='x!r' or not (consts(x)&gone)]
        pre=m.copy()
        comps,cells=self.loop_mods(h)
        comps|=set(spec.ghost)
        cur=m
        for c in sorted(comps): cur.havoc(c)
        cur.tags={k:v for k,v in cur.tags.items() if k in('bufs','v.rd','v.wr') or str(k).startswith('g.')}; cur.pending=[]
        cellobjs=set()
        for c in cells:
            if isinstance(c,tuple): cellobjs.add(cur.env[c[1]])
            else: cellobjs.add(c)
        for c in sorted(cellobjs,key=lambda c:c.name):
            v=fresh('*'+c.name,cur.cells[c].sort() if cur.cells.get(c) is not None else I)
            cur.cells[c]=v
            if v.sort()==I: cur.assume(v>=0,v<2**32)
        phis=[i for i in self.fn.blocks[h] if i.op=='phi']
        for p in phis:
            if p.ty=='i1': v=fresh(p.res,B)
            elif p.ty=='double': v=fresh(p.res,F64)
            else:
                v=fresh(p.res,I); cur.assume(v>=0)
                if p.ty!='ptr': cur.assume(v<(1<<self.bits(p.ty)))
            cur.env[p.res]=v
        # role assignment
        for roles in self.role_choices(spec,h,phis,cur,cellobjs):
            save=(len(self.results),self.failed)
            ok=self.try_loop(h,spec,roles,arr,pre,cur.copy(),phis)
            if ok: return
            last=(self.results[save[0]:],self.failed)
            if not hasattr(self,'_firstfail'): self._firstfail={}
            self._firstfail.setdefault(h,last[0])
            nxt=getattr(self,'_more_roles',False)
            if not nxt: return
            self.results=self.results[:save[0]]; self.failed=save[1]
        self.results+=self._firstfail.get(h,[]); self.failed=True

    def role_choices(self,spec,h,phis,cur,cellobjs):
        cand=[]
        roles=list(spec.roles)
        for r in roles:
            hint,ty=spec.roles[r]
            opts=[]
            for p in phis:
                if p.ty==ty or (ty=='idx' and p.ty in('i32','i64')): opts.append(p.res)
            if ty in('i32','idx'):
                for c in sorted(cellobjs,key=lambda c:c.name): opts.append(c)
            nm=lambda o:(o.name if isinstance(o,Cell) else o)
            opts.sort(key=lambda o:(0 if re.match(re.escape(hint)+r'(\.|$|\d|\.addr)',nm(o)) else 1))
            cand.append(opts)
        combos=[c for c in itertools.product(*cand) if len(set(map(id,c)))==len(c) or len(set(str(x) for x in c))==len(c)]
        if not combos and roles: raise Fail(f'{self.con.name}: no loop variable for roles {roles}')
        combos=combos[:24]
        for i,c in enumerate(combos):
            self._more_roles = i+1<len(combos)
            yield dict(zip(roles,c))

    def try_loop(self,h,spec,roles,arr,pre,cur,phis):
        line=next((i.line for i in self.fn.blocks[h] if i.line),0)
        idx=self.headers.index(h)+1
        nfail0=sum(r.status=='fail' for r in self.results)
        for a in arr:
            if spec.arrive: a=a.copy()
            c=self.ctx(a,roles=roles,pre=a)
            if spec.arrive: spec.arrive(c)
            c.goal=True
            if not self.prove_many(a,spec.inv(c),f'loop{idx}:inv:init',line) and getattr(self,'_more_roles',False): return False
        c=self.ctx(cur,roles=roles,pre=pre)
        cur.assume(*[x for _,x in spec.inv(c)])
        if spec.marks: cur.assume(*spec.marks(c))
        if not self.feasible(cur):
            self.results.append(Result(f'{self.con.name}:loop{idx}:vacuity','fail',0,line,'invariant is contradictory')); self.failed=True; return False
        cur.lines.append(line)
        self._active=getattr(self,'_active',{})
        self._active[h]=(spec,roles,pre,cur.copy(),idx,self.loop_mods(h)[0]|set(spec.ghost))
        sub={x:list(v) for x,v in self.arrivals.items()}
        self.explore(cur,h,None,h)
        ok=sum(r.status=='fail' for r in self.results)==nfail0
        if not ok and getattr(self,'_more_roles',False): self.arrivals=sub
        return ok

    # ---------- path exploration
    def explore(self,st,block,pred,start):
        """depth-first over all paths from block up to loop headers / returns"""
        work=[(st,block,pred,start)]
        while work:
            st,b,pred,start=work.pop()
            if b in self.loops and start!=b:
                # arriving at a header: evaluate phis
                self.do_phis(st,b,pred)
                if hasattr(self,'_active') and b in self._active and pred in self.loops[b]:
                    self.back_edge(st,b)
                else:
                    if pred is not None and pred in self.loops[b]: raise Fail('irreducible loop')
                    self.arrivals[b].append(st)
                continue
            if start!=b: self.do_phis(st,b,pred)
            outs=self.exec_block(st,b)
            for (s2,nb) in outs: work.append((s2,nb,b,None))

    def do_phis(self,st,b,pred):
        new={}
        for ins in self.fn.blocks[b]:
            if ins.op!='phi': break
            for v,p in ins.args:
                if p==pred:
                    x=self.val(st,ins.ty,v)
                    if isinstance(x,GPtr) and x.idx is None and x.field is None and ins.ty=='ptr':
                        x=self.lit_addr(x.name)
                    new[ins.res]=x; break
            else: raise Fail('phi')
        st.env.update(new)

    def back_edge(self,st,h):
        spec,roles,pre,hd,idx,_=self._active[h]
        line=next((i.line for i in self.fn.blocks[h] if i.line),0)
        c=self.ctx(st,roles=roles,pre=pre)
        if spec.arrive: spec.arrive(c)
        if spec.hint: st.assume(*spec.hint(c,hd))
        c.goal=True
        self.prove_many(st,spec.inv(c),f'loop{idx}:inv:preserve',line)
        if spec.variant:
            v1=spec.variant(c); c0=self.ctx(hd,roles=roles,pre=pre); v0=spec.variant(c0)
            if isinstance(v0,tuple):
                dec=z3.BoolVal(False)
                for a0,a1 in reversed(list(zip(v0,v1))): dec=z3.Or(a1<a0,z3.And(a1==a0,dec)) if not z3.is_false(dec) else a1<a0
                self.prove_many(st,[('decreases',z3.And(dec,*[a>=0 for a in v0]))],f'loop{idx}:variant',line)
            else:
                self.prove_many(st,[('decreases',z3.And(v0>=0,v1<v0))],f'loop{idx}:variant',line)

    def exec_block(self,st,b):
        for ins in self.fn.blocks[b]:
            if ins.line and (not st.lines or st.lines[-1]!=ins.line): st.lines.append(ins.line)
            op=ins.op
            if op=='phi': continue
            if op=='br':
                if not ins.args: return [(st,ins.extra[0])]
                c=self.val(st,'i1',ins.args[0]); c=simp(c)
                return self.branch(st,[(c,ins.extra[0]),(simp(z3.Not(c)),ins.extra[1])])
            if op=='switch':
                v=self.val(st,ins.ty,ins.args[0]); n=self.bits(ins.ty)
                by={}
                for k,t in ins.extra[1]: by.setdefault(t,[]).append(v==(k%(1<<n)))
                alts=[(simp(z3.Or(*cs)) if len(cs)>1 else simp(cs[0]),t) for t,cs in by.items() if t!=ins.extra[0]]
                others=[x for t,cs in by.items() if t!=ins.extra[0] for x in cs]
                alts.append((simp(z3.Not(z3.Or(*others))) if others else z3.BoolVal(True),ins.extra[0]))
                return self.branch(st,alts)
            if op=='ret':
                r=None
                if ins.args:
                    r=self.val(st,ins.ty,ins.args[0])
                    if isinstance(r,(GPtr,FieldPtr)):
                        if isinstance(r,GPtr): st.tags['retglobal']=r.name; g=r; r=self.lit_addr(r.name)
                        else: r=self.addr(st,r)
                self.do_ret(st,r,ins.line)
                return []
            if op=='unreachable':
                self.prove_many(st,[('unreachable code is not reached',z3.BoolVal(False))],'safety',ins.line); return []
            if op=='invoke':
                self.do_call(st,ins,ins.extra[0]); return [(st,ins.extra[1])]
            self.step(st,ins)
        raise Fail('block without terminator')

    def branch(self,st,alts):
        live=[(c,t) for c,t in alts if not z3.is_false(c)]
        if len(live)==1:
            if not z3.is_true(live[0][0]): st.assume(live[0][0])
            return [(st,live[0][1])]
        out=[]
        for c,t in live:
            s2=st.copy()
            if not z3.is_true(c):
                if not self.feasible(s2,c): continue
                s2.pc.append(c)
            out.append((s2,t))
        return out

    def do_ret(self,st,r,line):
        self.rets+=1
        if self.live_rets==0 and self.feasible(st): self.live_rets+=1
        for b,n in st.tags.get('bufs',()):        # local arrays cease to exist
            for comp in('rd','wr'):
                o=st.h(comp); v=fresh(comp,AB); x=z3.Int('x!t')
                st.assume(z3.ForAll([x],z3.And(tr(z3.Select(o,x)),z3.Select(v,x)==z3.And(z3.Select(o,x),z3.Not(z3.And(b<=x,x<b+n)))),patterns=[z3.Select(v,x)])); st.set(comp,v)
        if self.con.assume_exit: self.con.assume_exit(self.ctx(st,ret=r))
        if self.con.ghost_exit: self.con.ghost_exit(self.ctx(st,ret=r))
        c=self.ctx(st,ret=r)
        if os.environ.get('VACU'):
            rr,_,_=self.check(st,z3.BoolVal(False),timeout=3000); print('path to line',line,'contradictory' if rr==z3.unsat else 'ok',self.con.name,dedup(st.lines)[-6:])
        goals=list(self.con.ensures(c))+list(self.con.hidden_ens(c))
        # frame: every component not listed in modifies is unchanged
        fr=[]
        for comp,v in st.heap.items():
            if comp in self.con.modifies or comp in self.con.hidden: continue
            o=self.old.h(comp) if comp in self.old.heap else self.entry_comp(comp)
            if not v.eq(o): k=fresh('k',I); fr.append((f'{comp} unchanged',z3.Select(v,k)==z3.Select(o,k)))
        for (nm,k) in self.con.params:
            if k=='cell' and nm not in self.con.modcells:
                cell=self.args[nm]
                if not st.cells[cell].eq(self.old.cells[cell]): fr.append((f'*{nm} unchanged',st.cells[cell]==self.old.cells[cell]))
        first=[(l,g) for l,g in goals if l.startswith('!') and g is not None]
        if first:
            # proved first, then available to the others
            self.prove_many(st,first,'ensures',line); st.assume(*[g for _,g in first if not isinstance(g,bool)])
        self.prove_many(st,[(l,g) for l,g in goals if not l.startswith('!')],'ensures',line)
        self.prove_many(st,fr,'frame',line)

    # ---------- instructions
    def step(self,st,ins):
        op=ins.op; E=st.env
        V=lambda ty,v: self.val(st,ty,v)
        if op=='alloca':
            if ins.ty.startswith('['):
                m=re.match(r'\[(\d+) x i8\]$',ins.ty)
                if not m: raise Fail('alloca '+ins.ty)
                n=int(m.group(1)); r=fresh('buf',I)
                st.assume(r>0,r<2**46)
                self.fresh_block(st,r,z3.IntVal(n)); st.tags['bufs']=st.tags.get('bufs',())+((r,n),)
                E[ins.res]=r
            else:
                c=Cell(ins.res,ins.ty); st.cells[c]=None; E[ins.res]=c
            return
        if op=='load': E[ins.res]=self.to_ty(self.load(st,ins.ty,V(*ins.args[0]),ins.line),ins.ty); return
        if op=='store':
            ty,v=ins.args[0]; x=V(ty,v)
            if isinstance(x,GPtr): x=self.lit_addr(x.name) if x.idx is None else x
            self.store(st,ty,x,V(*ins.args[1]),ins.line); return
        if op=='getelementptr': E[ins.res]=self.gep(st,ins); return
        if op=='icmp': E[ins.res]=self.icmp(st,ins); return
        if op in('add','sub','mul','shl','lshr','ashr','and','or','xor','udiv','urem','sdiv','srem'):
            E[ins.res]=self.arith(st,op,ins.ty,V(ins.ty,ins.args[0]),V(ins.ty,ins.args[1])); return
        if op in('zext','sext','trunc','ptrtoint','inttoptr','bitcast','freeze'):
            src=ins.extra; a=V(src if src else ins.ty,ins.args[0])
            E[ins.res]=self.cast(st,op,src,ins.ty,a); return
        if op=='select':
            c=V('i1',ins.args[0]); a=V(ins.ty,ins.args[1]); b2=V(ins.ty,ins.args[2])
            if ins.ty=='ptr': a=self.addr(st,a); b2=self.addr(st,b2)
            E[ins.res]=simp(z3.If(c,a,b2)); return
        if op in('fsub','fadd','fmul','fdiv'):
            a=V(ins.ty,ins.args[0]); b2=V(ins.ty,ins.args[1]); rm=z3.RNE()
            E[ins.res]={'fsub':z3.fpSub,'fadd':z3.fpAdd,'fmul':z3.fpMul,'fdiv':z3.fpDiv}[op](rm,a,b2); return
        if op=='fcmp':
            a=V('double',ins.args[0]); b2=V('double',ins.args[1]); p=ins.extra
            base={'eq':z3.fpEQ,'lt':z3.fpLT,'gt':z3.fpGT,'le':z3.fpLEQ,'ge':z3.fpGEQ}
            nan=z3.Or(z3.fpIsNaN(a),z3.fpIsNaN(b2))
            if p=='ord': r=z3.Not(nan)
            elif p=='uno': r=nan
            elif p[1:]=='ne': r=z3.Not(z3.fpEQ(a,b2)) if p[0]=='u' else z3.And(z3.Not(nan),z3.Not(z3.fpEQ(a,b2)))
            else:
                r=base[p[1:]](a,b2)
                if p[0]=='u': r=z3.Or(nan,r)
            E[ins.res]=r; return
        if op=='call': self.do_call(st,ins,ins.extra); return
        raise Fail(f'instruction {ins.text}')
    def to_ty(self,v,ty):
        if ty=='i1' and not z3.is_bool(v): return v!=0
        return v
    def gep(self,st,ins):
        p=self.val(st,*ins.args[0]); ety=ins.extra
        idx=[self.val(st,t,v) for t,v in ins.args[1:]]
        if ety in self.mod.structs:
            if isinstance(p,GPtr):
                if len(idx)==1: return GPtr(p.name,simp((p.idx if p.idx is not None else z3.IntVal(0))+self.sgn(idx[0],ins.args[1][0])),p.field,ety)
                return GPtr(p.name,simp((p.idx if p.idx is not None else z3.IntVal(0))+self.sgn(idx[0],ins.args[1][0])),simp(idx[1]).as_long(),ety)
            if len(idx)==1:
                p=self.addr(st,p)
                return simp(p+self.mod.sizeof(ety)*self.sgn(idx[0],ins.args[1][0]))
            if isinstance(p,FieldPtr):
                p=self.addr(st,p)
            if not (z3.is_int_value(simp(idx[0])) and simp(idx[0]).as_long()==0):
                p=simp(self.addr(st,p)+self.mod.sizeof(ety)*self.sgn(idx[0],ins.args[1][0]))
            if isinstance(p,Cell): raise Fail('struct local')
            k=simp(idx[1]).as_long()
            if ety.startswith('%union'): return p
            s=self.fm.plain(ety)
            return FieldPtr(s,p,self.fm.fname(s,k),self.mod.structs[ety][k])
        if ety.startswith('['):
            m=re.match(r'\[(\d+) x (.*)\]$',ety); el=m.group(2)
            if isinstance(p,GPtr) and el!='i8': return GPtr(p.name,simp(self.sgn(idx[1],ins.args[2][0])),None,el)
            a=self.addr(st,p)
            if len(idx)==1: return simp(a+self.mod.sizeof(ety)*self.sgn(idx[0],ins.args[1][0]))
            return simp(a+self.mod.sizeof(el)*self.sgn(idx[1],ins.args[2][0]))
        sz=self.mod.sizeof(ety)
        if isinstance(p,Cell): raise Fail('pointer arithmetic on a local')
        a=self.addr(st,p)
        return simp(a+sz*self.sgn(idx[0],ins.args[1][0]))
    _sg={}
    def sgn(self,x,ty):
        """signed value of an unsigned-canonical term"""
        n=self.bits(ty)
        if z3.is_int_value(x):
            v=x.as_long(); return z3.IntVal(v-(1<<n) if v>=1<<(n-1) else v)
        k=(x.get_id(),n)
        if k in self._sgn: return self._sgn[k][0]
        return z3.If(x>=(1<<(n-1)),x-(1<<n),x)
    @property
    def _sgn(self):
        if not hasattr(self,'_sgm'): self._sgm={}
        return self._sgm
    def cast(self,st,op,src,dst,a):
        if op in('inttoptr','bitcast','freeze'): return a
        if op=='ptrtoint': return self.addr(st,a)
        if op=='zext':
            if src=='i1': r=simp(z3.If(a,1,0)); self._sgn[(r.get_id(),self.bits(dst))]=(r,r); return r
            self._sgn[(a.get_id(),self.bits(dst))]=(a,a)
            return a
        if op=='sext':
            n,m=self.bits(src) if src!='i1' else 1,self.bits(dst)
            if src=='i1': r=z3.If(a,z3.IntVal((1<<m)-1),z3.IntVal(0)); return simp(r)
            if z3.is_int_value(a):
                v=a.as_long(); return z3.IntVal((v-(1<<n))%(1<<m) if v>=1<<(n-1) else v)
            s=self.sgn(a,src)
            if s.eq(a):
                self._sgn[(a.get_id(),m)]=(a,a); return a
            r=z3.If(a>=(1<<(n-1)),a+((1<<m)-(1<<n)),a)
            self._sgn[(r.get_id(),m)]=(s,r)
            return r
        if op=='trunc':
            m=self.bits(dst)
            if m==1: return simp(a%2==1)
            # trunc of a sign extension of the same width
            if z3.is_int_value(a): return z3.IntVal(a.as_long()%(1<<m))
            if z3.is_app(a) and a.decl().kind()==z3.Z3_OP_ITE and z3.is_bool(a.arg(0)):
                x=a.arg(2)
                if (1<<m)>=256 and src!='i1':
                    s=simp(a-x)
                    # ite(x>=k, x+c, x) with c multiple of 2^m  -> x mod 2^m
                    d=simp(a.arg(1)-x)
                    if z3.is_int_value(d) and d.as_long()%(1<<m)==0: a=x
            if self.con.exact and self.valid(st,z3.And(a>=0,a<(1<<m))): return a
            t=a%(1<<m)
            return z3.If(z3.And(a>=0,a<(1<<m)),a,t)
        raise Fail(op)
    def icmp(self,st,ins):
        ty=ins.ty; a=self.val(st,ty,ins.args[0]); b=self.val(st,ty,ins.args[1]); p=ins.extra
        if ty=='i1':
            return simp(a==b) if p=='eq' else simp(a!=b) if p=='ne' else (_ for _ in ()).throw(Fail('i1 cmp'))
        if ty=='ptr':
            isnull=lambda z: isinstance(z,z3.ArithRef) and z3.is_int_value(z) and z.as_long()==0
            if isinstance(a,(Cell,GPtr)) and isnull(b) or isinstance(b,(Cell,GPtr)) and isnull(a): return z3.BoolVal(p=='ne')
            if isinstance(a,Cell) or isinstance(b,Cell): raise Fail('cell compare')
            a=self.addr(st,a); b=self.addr(st,b)
        if p=='eq': r=a==b
        elif p=='ne': r=a!=b
        elif p[0]=='u': r={'ult':a<b,'ule':a<=b,'ugt':a>b,'uge':a>=b}[p]
        else:
            x,y=self.sgn(a,ty),self.sgn(b,ty); r={'slt':x<y,'sle':x<=y,'sgt':x>y,'sge':x>=y}[p]
        return simp(r)
    def arith(self,st,op,ty,a,b):
        if ty=='i1':
            if op=='xor': return simp(z3.Xor(a,b))
            if op=='and': return simp(z3.And(a,b))
            if op=='or': return simp(z3.Or(a,b))
            raise Fail(op+' i1')
        n=self.bits(ty); W=1<<n
        ca=a.as_long() if z3.is_int_value(a) else None; cb=b.as_long() if z3.is_int_value(b) else None
        if ca is not None and cb is not None:
            r={'add':ca+cb,'sub':ca-cb,'mul':ca*cb,'and':ca&cb,'or':ca|cb,'xor':ca^cb}.get(op)
            if op=='shl': r=ca<<cb
            if op=='lshr': r=ca>>cb
            if op=='udiv': r=ca//cb
            if op=='urem': r=ca%cb
            if r is not None: return z3.IntVal(r%W)
        if op in('add','mul','and','or','xor') and ca is not None: a,b,ca,cb=b,a,cb,ca
        if op=='add':
            if cb is not None:
                if cb==0: return a
                if cb>=W//2:
                    k=W-cb
                    if self.con.exact and self.valid(st,a>=k): return a-k
                    return self.nm(st,z3.If(a>=k,a-k,a-k+W))
                if self.con.exact and not z3.is_int_value(a) and self.valid(st,a+cb<W): return a+cb
                return self.nm(st,z3.If(a+cb<W,a+cb,a+(cb-W)))
            if self.con.exact and self.valid(st,a+b<W): return a+b
            return self.nm(st,z3.If(a+b<W,a+b,a+b-W))
        if op=='sub':
            if cb==0: return a
            return self.nm(st,z3.If(a>=b,a-b,a-b+W))
        if op=='mul':
            if cb is not None:
                if cb==0: return z3.IntVal(0)
                if cb==1: return a
                if cb==2: return self.nm(st,z3.If(2*a<W,2*a,2*a-W))
                return self.nm(st,z3.If(a*cb<W,a*cb,(a*cb)%W))
            return self.nm(st,(a*b)%W)
        if op=='shl' and cb is not None:
            if cb>=8 or self.con.exact:
                if self.valid(st,a*(1<<cb)<W): r=a*(1<<cb)
                else: r=z3.If(a*(1<<cb)<W,a*(1<<cb),(a*(1<<cb))%W)
                self._tz[r.get_id()]=(r,cb); return r
            return self.nm(st,z3.If(a*(1<<cb)<W,a*(1<<cb),(a*(1<<cb))%W))
        if op=='lshr' and cb is not None: return a/(1<<cb)
        if op=='udiv' and cb: return a/cb
        if op=='urem' and cb: return a%cb
        if op=='and' and cb is not None:
            if self.con.exact and (cb&(cb+1))==0 and self.valid(st,a<=cb): return a
            r=z3.IntVal(0)
            for lo,hi in runs(cb):
                t=a/(1<<lo) if lo else a
                if hi<n: t=t%(1<<(hi-lo))
                r=r+t*(1<<lo)
            return simp(r)
        if op=='or' and cb is not None:
            if self.con.exact and cb and self.valid(st,a<(cb&-cb)): return a+cb
            r=a
            for lo,hi in runs(cb):
                t=a/(1<<lo) if lo else a
                if hi<n: t=t%(1<<(hi-lo))
                r=r-t*(1<<lo)+(((1<<(hi-lo))-1)<<lo)
            return r
        if op=='or':
            for u,v in((a,b),(b,a)):
                z=self._tz.get(u.get_id())
                if z and self.valid(st,z3.And(v>=0,v<(1<<z[1]))): return u+v
            bor=z3.Function(f'bor{n}',I,I,I); r=bor(a,b); st.assume(r>=a,r>=b,r<W,r<=a+b)
            for k in(4,6,8,10,12,16):
                st.assume(z3.Implies(z3.And(a%(1<<k)==0,b<(1<<k)),r==a+b),z3.Implies(z3.And(b%(1<<k)==0,a<(1<<k)),r==a+b))
            return r
        if op in('sdiv','ashr') and cb is not None:
            k=cb if op=='sdiv' else 1<<cb
            s=self.sgn(a,ty)
            q=z3.If(s>=0,s/k,(-((-s)/k)) if op=='sdiv' else s/k)
            return self.nm(st,z3.If(q<0,q+W,q))
        uf=z3.Function(f'{op}{n}',I,I,I); r=uf(a,b); st.assume(r>=0,r<W)
        return r
    @property
    def _tz(self):
        if not hasattr(self,'_tzm'): self._tzm={}
        return self._tzm
    def valid(self,st,f):
        """side question used to simplify a term (no obligation)"""
        lab=getattr(self,'_lab',''); self._lab='simplify'
        r,_,_=self.check(st,f,timeout=3000); self._lab=lab
        return r==z3.unsat
    def nm(self,st,t):
        return t

    # ---------- calls
    def fresh_block(self,st,r,size):
        """[r,r+size) becomes readable/writable raw bytes that were in no use before"""
        for comp in('rd','wr'):
            o=st.h(comp); n=fresh(comp,AB); x=z3.Int('x!b')
            st.assume(z3.ForAll([x],z3.And(tr(z3.Select(o,x)),z3.Select(n,x)==z3.Or(z3.Select(o,x),z3.And(r<=x,x<r+size))),patterns=[z3.Select(n,x)]))
            st.assume(z3.ForAll([x],z3.Implies(z3.And(r<=x,x<r+size),z3.Not(z3.Select(o,x))),patterns=[z3.Select(o,x),z3.Select(n,x)]))
            st.set(comp,n)
            st.tags['v.'+comp]=st.tags.get('v.'+comp,())+(o,n)
        for s in self.fm.structs:
            o=st.h(self.is_t(s)); x=z3.Int('x!b')
            st.assume(z3.ForAll([x],z3.Implies(z3.And(r<=x,x<r+size),z3.Not(z3.Select(o,x))),patterns=[z3.Select(o,x)]))
    def do_call(self,st,ins,fn):
        base=self.mod.funcs[fn].base if fn in self.mod.funcs else fn
        args=[self.val(st,t,v) for t,v in ins.args if t!='metadata']
        if fn.startswith('llvm.memcpy'): return self.memcpy(st,args[0],args[1],args[2],ins)
        if fn.startswith('llvm.memset'): return self.memset(st,args[0],args[1],args[2],ins)
        if fn.startswith('llvm.expect'): st.env[ins.res]=args[0]; return
        if fn.startswith('llvm.'): raise Fail('intrinsic '+fn)
        con=self.contracts.get(base)
        if con is None: raise Fail(f'call of {base}: no contract')
        self.called.add(base)
        self.apply(st,con,args,ins)
    def apply(self,st,con,args,ins):
        a={}
        if len(con.params)!=len(args) and not con.params[-1:]==[('...','...')]: raise Fail(f'call of {con.name} with {len(args)} arguments')
        for (nm,k),v in zip(con.params,args):
            if k in('cell','cellu'):
                if not isinstance(v,Cell): raise Fail(f'{con.name}: {nm} must be the address of a local')
                if st.cells.get(v) is None: st.cells[v]=fresh('undef',I); st.assume(st.cells[v]>=0,st.cells[v]<2**32)
            elif k=='...': a['rest']=args[len(con.params)-1:]; break
            elif isinstance(v,(GPtr,FieldPtr)): v=self.addr(st,v)
            a[nm]=v
        h=self.con.hooks.get('before:'+con.name)
        if h: h(self.ctx(st),a)
        pre=st.copy()
        c0=Ctx(pre,pre,a,None,self); c0.caller=self
        hid=bool(self.con.hidden) and bool(con.hidden)
        self.prove_many(pre,[(l,g) for l,g in con.requires(c0)]+(list(con.hidden_req(c0)) if hid else []),f'call {con.name}:requires',ins.line)
        for comp in con.modifies: st.havoc(comp)
        if hid:
            for comp in con.hidden: st.havoc(comp)
        for nm in con.modcells:
            v=fresh('*'+nm,I); st.cells[a[nm]]=v; st.assume(v>=0,v<2**32)
        ret=None
        rt=con.ret or ins.ty
        if ins.res is not None or rt!='void':
            if rt=='i1': ret=fresh(con.name,B)
            elif rt=='double': ret=fresh(con.name,F64)
            elif rt!='void':
                ret=fresh(con.name,I); st.assume(ret>=0)
                if rt=='ptr': st.assume(ret<2**47)
                else: st.assume(ret<(1<<self.bits(rt)))
        if ins.res: st.env[ins.res]=ret
        c=Ctx(pre,st,a,ret,self); c.g={}
        if con.post_assume: con.post_assume(c)
        st.assume(*[g for _,g in con.ensures(c) if g is not None and not isinstance(g,bool)])
        if hid: st.assume(*[g for _,g in con.hidden_ens(c) if g is not None and not isinstance(g,bool)])
        h=self.con.hooks.get('after:'+con.name)
        if h: h(self.ctx(st),dict(a,ret=ret,pre=pre))

    def struct_for_copy(self,st,d,s,n):
        """memcpy of a whole struct?"""
        if not z3.is_int_value(n): return None
        for sn in self.fm.structs:
            if self.mod.sizeof('%struct.'+self.fm.irname(sn))==n.as_long():
                for p in(s,d):
                    if isinstance(p,z3.ArithRef):
                        if any(simp(p).eq(simp(r)) for r,_,_ in st.pending): continue
                        r,_,_=self.check(st,z3.Select(st.h('is.'+sn),p),timeout=2000)
                        if r==z3.unsat: return sn
        return None
    def memcpy(self,st,d,s,n,ins):
        n=simp(n)
        if isinstance(d,FieldPtr) and isinstance(s,FieldPtr) and z3.is_int_value(n) and n.as_long()==8:
            st2=self.load(st,'ptr',s,ins.line); self.store(st,'ptr',st2,d,ins.line); return
        if z3.is_int_value(n) and n.as_long()>=16:
            sn=self.struct_for_copy(st,d,s,n)
            if sn:
                self.need_obj(st,sn,s,ins.line,'struct read'); self.need_obj(st,sn,d,ins.line,'struct write')
                for fl in self.fm.fields(sn):
                    comp=f'{sn}.{fl}'; h=st.h(comp); st.set(comp,z3.Store(h,d,z3.Select(h,s)))
                return
        d=self.addr(st,d); s=self.addr(st,s)
        self.copy_bytes(st,d,s,n,ins.line)
    def copy_bytes(self,st,d,s,n,line):
        x=z3.Int('x!m')
        k=fresh('k',I)
        goals=[('memcpy source readable',z3.Implies(z3.And(0<=k,k<n),z3.Select(st.h('rd'),s+k))),
               ('memcpy target writable',z3.Implies(z3.And(0<=k,k<n),z3.Select(st.h('wr'),d+k))),
               ('memcpy ranges disjoint',z3.Or(n==0,d+n<=s,s+n<=d))]
        st.assume(tr(*[z3.Select(st.h(w),q) for w in('rd','wr') for q in(s,d)]))
        self.prove_many(st,goals,'safety',line)
        M=st.h('M'); M2=st.havoc('M')
        st.assume(z3.ForAll([x],z3.And(tr(z3.Select(M,x)),z3.Select(M2,x)==z3.If(z3.And(d<=x,x<d+n),z3.Select(M,s+(x-d)),z3.Select(M,x))),patterns=[z3.Select(M2,x)]))
        self.con_hook(st,'copy',(d,s,n,M,M2))
    def memset(self,st,d,v,n,ins):
        x=z3.Int('x!m'); k=fresh('k',I)
        d=self.addr(st,d)
        self.prove_many(st,[('memset target writable',z3.Implies(z3.And(0<=k,k<n),z3.Select(st.h('wr'),d+k)))],'safety',ins.line)
        M=st.h('M'); M2=st.havoc('M')
        st.assume(z3.ForAll([x],z3.Select(M2,x)==z3.If(z3.And(d<=x,x<d+n),v,z3.Select(M,x)),patterns=[z3.Select(M2,x)]))

def runs(c):
    out=[];i=0
    while c>>i:
        if (c>>i)&1:
            j=i
            while (c>>j)&1: j+=1
            out.append((i,j)); i=j
        else: i+=1
    return out
_cs={}
def consts(f):
    k=f.get_id()
    if k not in _cs:
        out=set(); st=[f]; seen=set()
        while st:
            t=st.pop()
            if t.get_id() in seen: continue
            seen.add(t.get_id())
            if z3.is_quantifier(t): st.append(t.body())
            elif z3.is_app(t):
                if t.num_args()==0: out.add(t.get_id())
                else: st.extend(t.children())
        _cs[k]=(f,out)
    return _cs[k][1]
def conj(f):
    if z3.is_and(f): return [g for x in f.children() for g in conj(x)]
    return [f]
def dedup(l):
    o=[]
    for x in l:
        if not o or o[-1]!=x: o.append(x)
    return o

def lit_bytes(g):
    init=g['init']
    n=int(re.match(r'\[(\d+) x i8\]',g['ty']).group(1))
    if init.startswith('zeroinitializer'): return [0]*n
    m=re.match(r'c"(.*)"$',init,re.S)
    s=m.group(1);out=[];i=0
    while i<len(s):
        if s[i:i+2]=='\\\\': out.append(92); i+=2
        elif s[i]=='\\': out.append(int(s[i+1:i+3],16)); i+=3
        else: out.append(ord(s[i])); i+=1
    assert len(out)==n,(out,n)
    return out

def gbase(name):
    """source name of a (mangled) global"""
    m=re.match(r'_ZN(?:2zj)?L?(?:\d+)(\w+)E$',name) or re.match(r'_ZL\d+(\w+)$',name)
    return m.group(1) if m else name
def parse_table(mod,name):
    """constant array of {ptr,i32} structs -> rows [(literal bytes, len)]"""
    g=mod.globals[name]
    if 'rows' in g: return g
    rows=[]
    for m in re.finditer(r'\{ ptr @("?[^",]+"?), i32 (\d+)',g['init']):
        rows.append((lit_bytes(mod.globals[m.group(1).strip('"')]),int(m.group(2))))
    g['rows']=rows
    return g

class FieldMap:
    """field names by offset, taken from the real headers with offsetof"""
    NAMES={'zj_node':['Type','Key','KeyLen','Value','Len','Next','Prev','Father','End'],'zj_Value':['N','A'],'zj_Allocator':['Root','End'],
           'zj_aNode':['Data','SizeOf','Pos','Next'],'zj_string':['Data','Pos','SizeOf','A']}
    def __init__(self,mod,offsets,irnames=None):
        self.mod=mod; self.off=offsets; self.structs=list(offsets); self._ir=irnames or {s:s for s in offsets}
        self._pl={'%struct.'+v:k for k,v in self._ir.items()}
        self.ftypes={}; self._names={}
        for s in self.structs:
            t='%struct.'+self._ir[s]
            if t not in mod.structs: continue
            offs,_=mod.layout(t)
            inv={o:n for n,o in offsets[s].items()}
            self._names[s]=[inv.get(o,f'f{i}') for i,o in enumerate(offs)]
            for i,nm in enumerate(self._names[s]):
                ft=mod.structs[t][i]
                if ft.startswith('%union'): ft='ptr'
                self.ftypes[f'{s}.{nm}']=ft
    def irname(self,s): return self._ir[s]
    def plain(self,irty):
        if irty not in self._pl: raise Fail('struct '+irty)
        return self._pl[irty]
    def fname(self,s,k): return self._names[s][k]
    def fields(self,s): return self._names[s]
    def offset(self,s,f): return self.off[s][f]
