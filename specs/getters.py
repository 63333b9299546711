"""Typed getters, number conversion, lookups."""
import z3
from sym import *
from text import *
from tree import *
import tree, mem
from mem import FA, upd, And, Or, Not, Imp, If, touch_frame, MAXTEXT, SF, STRUCTS
from setters import sl_fact, VH, base_req, setter, SETMOD, base_exit, OPQ, is_new
from lemmas import body_facts, num_facts
C={}
def con(*a,**k):
    c=Contract(*a,**k); C[c.name]=c; return c
Z=z3.IntVal(0)
_base_req=base_req
def base_req(c):
    n=N(c.old,c.h); o=c.old
    return _base_req(c)+[('',tr(nf(o,'Value',n),nf(o,'Len',n),nf(o,'Key',n)))]
def kind(c,t): n=N(c.old,c.h); return And(n!=0,nf(c.old,'Type',n)==t)
def haskey(c): n=N(c.old,c.h); return And(n!=0,nf(c.old,'Key',n)!=0)
CHB=('h','ptr')
# ---------------------------------------------------------------- reading in place
for nm,ok,pf,lf in(('zj_GetStrFast',lambda c:kind(c,T_STR),'Value','Len'),('zj_GetNumFast',lambda c:kind(c,T_NUM),'Value','Len'),('zj_GetKeyFast',haskey,'Key','KeyLen')):
    def ens(c,ok=ok,pf=pf,lf=lf):
        o=c.old; n=N(o,c.h)
        return [('null unless the content is there',(c.ret==0)==Not(ok(c))),('the stored text',Imp(ok(c),c.ret==nf(o,pf,n))),('its length',Imp(ok(c),c.st.cell(c.len)==nf(o,lf,n)))]
    con(nm,[CHB,('len','cell')],base_req,ens,modcells=['len'],ret='ptr')
con('zj_IsNull',[CHB],base_req,lambda c:[('true iff null',c.ret==kind(c,T_NULL))],ret='i1')
con('zj_SizeOf',[CHB],base_req,lambda c:[('number of children',c.ret==If(Or(kind(c,T_ARR),kind(c,T_OBJ)),nf(c.old,'Len',N(c.old,c.h)),0))],ret='i32')
def LBD(c):
    a=(c.old.h('M'),nf(c.old,'Value',N(c.old,c.h)),nf(c.old,'Len',N(c.old,c.h)))
    return LB(*a)==LB.body(*a)
con('zj_GetBool',[CHB],lambda c:base_req(c)+[('',And(tr(c.old.f('rd',nf(c.old,'Value',N(c.old,c.h)))),LBD(c)))],lambda c:[('null unless a boolean',(c.ret==0)==Not(kind(c,T_BOOL))),('the value',Imp(kind(c,T_BOOL),c.old.f('M',c.ret)==If(nf(c.old,'Len',N(c.old,c.h))==4,1,0)))],
    ret='ptr')
con('zj_Type',[CHB],base_req,lambda c:[('null iff empty',(c.ret==0)==(N(c.old,c.h)==0)),('the kind',Imp(N(c.old,c.h)!=0,c.old.f('s.i32',c.ret)==nf(c.old,'Type',N(c.old,c.h))))],ret='ptr')

# ---------------------------------------------------------------- NUL-terminated copies
AMOD=['rd','wr','touch','M']
def alloc_frame(c):
    return WF(c.st)+mem_frame(c)+touch_frame(c,A(c.old,c.h))
def fresh_text(c,r,p,n):
    o,s=c.old,c.st; k=z3.Int('k!c')
    return [('the bytes',FA([k],Imp(And(r<=k,k<r+n),s.f('M',k)==o.f('M',p+(k-r))),s.f('M',k))),('terminator',s.f('M',r+n)==0)]+fresh_mem(c,r,n+1)
def fresh_mem(c,r,n):
    o,s=c.old,c.st; k=z3.Int('k!c')
    return [('in memory that nobody used before',FA([k],Imp(And(r<=k,k<r+n),And(Not(o.f('rd',k)),s.f('rd',k))),o.f('rd',k),s.f('rd',k)))]
for nm,ok,pf,lf in(('zj_GetStr',lambda c:kind(c,T_STR),'Value','Len'),('zj_GetNumStr',lambda c:kind(c,T_NUM),'Value','Len'),('zj_GetKey',haskey,'Key','KeyLen')):
    def ens(c,ok=ok,pf=pf,lf=lf):
        o=c.old; n=N(o,c.h)
        return [('null unless the content is there',(c.ret==0)==Not(ok(c)))]+[(l,Imp(ok(c),f)) for l,f in fresh_text(c,c.ret,nf(o,pf,n),nf(o,lf,n))]+alloc_frame(c)
    con(nm,[CHB],base_req,ens,modifies=AMOD,ghost_exit=exit_frames,opaque=OPQ,ret='ptr')

# ---------------------------------------------------------------- numbers
ATOI=z3.Function('ATOI',AI,I); ATOL=z3.Function('ATOL',AI,I); ATOLL=z3.Function('ATOLL',AI,I); ATOF=z3.Function('ATOF',AI,F64)
for nm,f,rt in(('atoi',ATOI,'i32'),('atol',ATOL,'i64'),('atoll',ATOLL,'i64'),('atof',ATOF,'double'),('strtod',ATOF,'double')):
    ps=[('s','ptr')]+([('end','ptr')] if nm=='strtod' else [])
    con(nm,ps,lambda c:nul_text(c.old,c.s),(lambda f,rt: lambda c:[('the number written in the text',c.ret==f(TN(c.old,c.s)[0]))]+([('',And(f(TN(c.old,c.s)[0])>=0,f(TN(c.old,c.s)[0])<2**int(rt[1:])))] if rt!='double' else []))(f,rt),
        trusted=True,ret=rt,doc='the number that the C standard defines for the NUL-terminated text, a function of the text only')
_eqd=z3.Function('eqd',AI,AI,I)
def ext(T1,T2,*mark):
    """lemma: array extensionality"""
    d=_eqd(T1,T2); return Or(T1==T2,And(tr(At(T1,d),At(T2,d)),At(T1,d)!=At(T2,d)))
def conv_hook(c,a):
    s,o=c.st,c.old; M=s.h('M'); n=c.a['len']; p=c.a['str']
    s.assume(*sl_fact(M,a['s'],n))
    s.assume(tr(At(M,a['s']+n),At(M,a['s']+SL(M,a['s']))))
    T1,T2=NORM(M,a['s'],SL(M,a['s'])),NORM(o.h('M'),p,n)
    s.assume(ext(T1,T2),*num_facts(o.h('M'),p,n))
def conv_req(c):
    return [('a valid number',VN(c.old.h('M'),c.a['str'],c.len)),('length limit',And(c.a['str']>0,c.a['str']+c.len<2**47,c.len<=MAXTEXT))]+readable(c.old,c.a['str'],c.len,'text')
def temp_ens(c):
    b=z3.Int('b!q'); o,s=c.old,c.st
    return [('temporary memory is given back',FA([b],s.f('mlive',b)==o.f('mlive',b),s.f('mlive',b),o.f('mlive',b))),('owner map',FA([b],s.f('mo',b)==o.f('mo',b),s.f('mo',b),o.f('mo',b)))]
for nm,f,rt,lib in(('zj_strToInt',ATOI,'i32','atoi'),('zj_strToLong',ATOL,'i64','atol'),('zj_strToLongLong',ATOLL,'i64','atoll'),('zj_strToDouble',ATOF,'double','atof')):
    def ens(c,f=f,rt=rt):
        T=NORM(c.old.h('M'),c.a['str'],c.len)
        return [('the number written in exactly these bytes',c.ret==f(T))]+mem_frame(c)+([('',And(f(T)>=0,f(T)<2**int(rt[1:])))] if rt!='double' and c.ex.con.name!='x' and False else [])+\
            [('objects',And(*[FA([x],c.st.f('is.'+t,x)==c.old.f('is.'+t,x),c.st.f('is.'+t,x),c.old.f('is.'+t,x)) for t in STRUCTS]))]
    con(nm,[('str','ptr'),('len','int')],conv_req,ens,modifies=['rd','wr','M']+['is.'+t for t in STRUCTS],hidden=['mlive','msz','mo'],hidden_ens=temp_ens,hooks={'before:'+l:conv_hook for l in('atoi','atol','atoll','atof','strtod')},opaque=OPQ,ret=rt)
for nm,f,comp in(('zj_GetInt',ATOI,'s.i32'),('zj_GetLong',ATOL,'s.i64'),('zj_GetLongLong',ATOLL,'s.i64'),('zj_GetDouble',ATOF,'s.f64'),('zj_GetNum',ATOF,'s.f64')):
    def ens(c,f=f,comp=comp):
        o,s=c.old,c.st; n=N(o,c.h); ok=kind(c,T_NUM)
        return [('null unless a number',(c.ret==0)==Not(ok)),('the number written in exactly the stored bytes',Imp(ok,s.f(comp,c.ret)==f(NORM(o.h('M'),nf(o,'Value',n),nf(o,'Len',n))))),
                ('other results are unchanged',FA([x],Or(x==c.ret,s.f(comp,x)==o.f(comp,x)),s.f(comp,x)))]+alloc_frame(c)+obj_same(c)+[(l,Imp(ok,f)) for l,f in fresh_mem_sc(c,comp)]
    con(nm,[CHB],base_req,ens,modifies=AMOD+[comp,'sc.'+{'s.i32':'i32','s.i64':'i64','s.f64':'double'}[comp]]+['is.'+t for t in STRUCTS],ghost_exit=exit_frames,opaque=OPQ,ret='ptr')
def obj_same(c):
    o,s=c.old,c.st
    return [('objects',And(*[FA([x],s.f('is.'+t,x)==o.f('is.'+t,x),s.f('is.'+t,x),o.f('is.'+t,x)) for t in STRUCTS]))]
def fresh_mem_sc(c,comp): return []
# ---------------------------------------------------------------- numbers to text
def lit_text(c,a):
    """the literal at address a (a string constant of the program), or None"""
    for n,t in c.ex.lits.items():
        if t.eq(a):
            g=c.ex.mod.globals.get(n)
            try: return bytes(lit_bytes(g)).split(b'\0')[0].decode()
            except Exception: return None
    return None
FMT={'%d':(11,'i32'),'%ld':(20,'i64'),'%lld':(20,'i64'),'%.17g':(24,'double')}
def fmt(c):
    f=lit_text(c,c.fmt)
    if f=='%i': f='%d'
    if f=='%li': f='%ld'
    if f not in FMT or len(c.rest)!=1: raise Fail(f'snprintf with format {f!r}')
    return f
def signed(v,n): return If(v>=2**(n-1),v-2**n,v)
def uns(v,n): return If(v<0,v+2**n,v)
def pr_req(c):
    f=fmt(c); k=z3.Int('k!q'); n=FMT[f][0]
    return [('the buffer takes the longest result',c.size>=n+1),('the target is writable',FA([k],Imp(And(c.buf<=k,k<c.buf+n+1),And(c.old.f('wr',k),c.old.f('rd',k))),c.old.f('wr',k),c.old.f('rd',k)))]
def pr_ens(c):
    f=fmt(c); n,ty=FMT[f]; o,s=c.old,c.st; k=z3.Int('k!q'); v=c.rest[0]
    T=NORM(s.h('M'),c.buf,c.ret); g=[('nothing else is written',FA([k],And(tr(o.f('M',k)),Imp(Not(And(c.buf<=k,k<c.buf+n+1)),s.f('M',k)==o.f('M',k))),s.f('M',k))),('',And(c.ret>=1,c.ret<=n)),('',s.f('M',c.buf+c.ret)==0)]
    if ty=='double':
        fin=Not(Or(z3.fpIsNaN(v),z3.fpIsInf(v)))
        return g+[('a number',Imp(fin,VN(s.h('M'),c.buf,c.ret))),('that reads back',Imp(fin,ATOF(T)==v))]
    w=int(ty[1:]); x=signed(v,w)
    return g+[('a number',VN(s.h('M'),c.buf,c.ret)),('that reads back',And(ATOL(T)==uns(x,64),ATOLL(T)==uns(x,64),Imp(And(x>=-2**31,x<2**31),ATOI(T)==uns(x,32))))]
con('snprintf',[('buf','ptr'),('size','int'),('fmt','ptr'),('...','...')],pr_req,pr_ens,modifies=['M'],trusted=True,ret='i32',
    doc='formats %d, %ld, %lld, %.17g only: writes the decimal text of the number, at most 11, 20, 20, 24 characters, as a JSON number that reads back as the same number')
def num_content(f,to):
    def ct(c,n):
        s=c.st; T=NORM(s.h('M'),nf(s,'Value',n),nf(s,'Len',n))
        return [('the number reads back',f(T)==to(c.a['d']))]
    return ct
FIN=lambda c: Not(Or(z3.fpIsNaN(c.d),z3.fpIsInf(c.d)))
for nm,f,k,to,ok in(('zj_SetInt',ATOI,'int',lambda v:v,lambda c:TRUE),('zj_SetLong',ATOL,'int',lambda v:v,lambda c:TRUE),('zj_SetLongLong',ATOLL,'int',lambda v:v,lambda c:TRUE),('zj_SetDouble',ATOF,'dbl',lambda v:v,FIN),('zj_SetNum',ATOF,'dbl',lambda v:v,FIN)):
    setter(nm,[('d',k)],None,ok,T_NUM,num_content(f,to),ghost_exit=lambda c:base_exit(c,False),opaque=OPQ)
import setters as _s
C.update({k:v for k,v in _s.C.items() if k in('zj_SetInt','zj_SetLong','zj_SetLongLong','zj_SetDouble','zj_SetNum')})
