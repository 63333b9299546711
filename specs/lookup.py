"""New handles, comparison of keys, lookup and iteration."""
import z3
from sym import *
from text import *
from tree import *
import tree, mem
from mem import FA, upd, And, Or, Not, Imp, If, touch_frame, MAXTEXT, SF, STRUCTS
from setters import OPQ
from getters import base_req, kind, CHB, AMOD
from lemmas import body_facts
C={}
def con(*a,**k):
    c=Contract(*a,**k); C[c.name]=c; return c
# ---------------------------------------------------------------- equal bytes
EQB=SpecFun('EQB',[AI,I,I,I,B]); _eqd=z3.Function('eqb.d',AI,I,I,I,I)
def eqb_def(M,p,q,n):
    """the definition of EQB: n bytes at p and at q are the same"""
    k=z3.Int('k!e'); d=_eqd(M,p,q,n)
    return [Imp(EQB(M,p,q,n),FA([k],Imp(And(p<=k,k<p+n),At(M,k)==At(M,q+(k-p))),At(M,k))),Or(EQB(M,p,q,n),And(0<=d,d<n,tr(At(M,p+d),At(M,q+d)),At(M,p+d)!=At(M,q+d)))]
def eq_loop(n):
    def inv(c):
        o=c.old; i=c.v('i'); k=z3.Int('k!e')
        return [('in range',And(0<=i,i<=n(c))),('equal so far',FA([k],Imp(And(c.a['a']<=k,k<c.a['a']+i),o.f('M',k)==o.f('M',c.b+(k-c.a['a']))),o.f('M',k)))]
    return Loop(inv,lambda c:n(c)-c.v('i'),roles={'i':('i','idx')})
def eq_exit(c):
    o=c.old; c.st.assume(*eqb_def(o.h('M'),c.a['a'],c.b,c.len))
def no_nul(o,b,n):
    k=z3.Int('k!e'); return ('no NUL in the key',FA([k],Imp(And(b<=k,k<b+n),o.f('M',k)!=0),o.f('M',k)))
con('zj_strIsEqual',[('a','ptr'),('b','ptr'),('len','int')],lambda c:nul_text(c.old,c.a['a'])+readable(c.old,c.b,c.len,'key')+[('key in memory',And(c.b>0,c.b+c.len<2**47)),no_nul(c.old,c.b,c.len)],
    lambda c:[('true iff the texts are equal',c.ret==And(SL(c.old.h('M'),c.a['a'])==c.len,EQB(c.old.h('M'),c.a['a'],c.b,c.len)))],assume_exit=eq_exit,loops=[eq_loop(lambda c:c.len)],ret='i1',opaque=OPQ,
    setup=lambda c:None)
def eql_exit(c): c.st.assume(*eqb_def(c.old.h('M'),c.a['a'],c.b,c.b_len))
con('zj_strIsEqualLen',[('a','ptr'),('a_len','int'),('b','ptr'),('b_len','int')],
    lambda c:readable(c.old,c.a['a'],c.a_len,'text')+readable(c.old,c.b,c.b_len,'key')+[('in memory',And(c.b>=0,c.b+c.b_len<2**47,c.a['a']>=0,c.a['a']+c.a_len<2**47))],
    lambda c:[('true iff the texts are equal',c.ret==And(c.a_len==c.b_len,EQB(c.old.h('M'),c.a['a'],c.b,c.b_len)))],assume_exit=eql_exit,loops=[eq_loop(lambda c:c.b_len)],ret='i1',opaque=OPQ)
# ---------------------------------------------------------------- handles
HF=['zj_Value.N','zj_Value.A']
HMOD=['rd','wr','touch','is.zj_Value']+HF
def doc_same(c): return WF(c.st)+mem_frame(c)+touch_frame(c,A(c.old,c.h))
def handle_ens(c,ok,n,a,al=None):
    """null unless ok; otherwise a new handle for node n; nothing else changes"""
    o,s=c.old,c.st; r=c.ret; k=z3.Int('k!h')
    return [('null unless there is one',(r!=0)==ok),('it refers to that very value',Imp(ok,And(r>0,s.f(HF[0],r)==n,s.f(HF[1],r)==a))),
            ('a new handle',And(Imp(ok,Not(o.f('is.zj_Value',r))),FA([k],s.f('is.zj_Value',k)==Or(o.f('is.zj_Value',k),And(ok,k==r)),s.f('is.zj_Value',k),o.f('is.zj_Value',k)))),
            ('other handles',And(*[FA([k],Or(And(ok,k==r),s.f(f,k)==o.f(f,k)),s.f(f,k),o.f(f,k)) for f in HF]))]+WF(s)+mem_frame(c)+touch_frame(c,a)
con('zj_NewValue',[('alloc','ptr')],lambda c:[('the allocator is alive',c.old.f('alive',c.alloc))]+WF(c.old),lambda c:handle_ens(c,TRUE,z3.IntVal(0),c.alloc),modifies=HMOD,ghost_exit=exit_frames,opaque=OPQ,ret='ptr')
con('zj_Begin',[CHB],base_req,lambda c:handle_ens(c,And(Or(kind(c,T_ARR),kind(c,T_OBJ)),nf(c.old,'Len',N(c.old,c.h))>0),at(c.old,N(c.old,c.h),0),A(c.old,c.h)),modifies=HMOD,opaque=OPQ,ret='ptr')
def next_ok(c):
    o=c.old; n=N(o,c.h); f=nf(o,'Father',n)
    return And(n!=0,f!=0,o.f('pos',n)+1<nf(o,'Len',f))
con('zj_Next',[CHB],lambda c:base_req(c)+[('',tr(nf(c.old,'Next',N(c.old,c.h))))],lambda c:handle_ens(c,next_ok(c),at(c.old,nf(c.old,'Father',N(c.old,c.h)),c.old.f('pos',N(c.old,c.h))+1),A(c.old,c.h)),modifies=HMOD,opaque=OPQ,ret='ptr')
def jpos(c): 
    n=c.v('next'); o=c.old; return If(n==0,nf(o,'Len',N(o,c.h)),o.f('pos',n))
def child_inv(c):
    o=c.old; n=c.v('next'); p=N(o,c.h)
    return [('next is a child or null',Or(n==0,And(o.f('V',n),nf(o,'Father',n)==p,tr(o.f('pos',n),nf(o,'Key',n),nf(o,'Next',n)))))]
def arr_loop():
    return Loop(lambda c:child_inv(c)+[('index',c.v('i')==jpos(c))]+[('before the index',c.v('i')<=c.index)],lambda c:nf(c.old,'Len',N(c.old,c.h))-jpos(c),roles={'next':('next','ptr'),'i':('i','i32')})
con('zj_ArrayGet',[CHB,('index','int')],base_req,lambda c:handle_ens(c,And(kind(c,T_ARR),c.index<nf(c.old,'Len',N(c.old,c.h))),at(c.old,N(c.old,c.h),c.index),A(c.old,c.h)),modifies=HMOD,loops=[arr_loop()],opaque=OPQ,ret='ptr')
# ---------------------------------------------------------------- lookup by key
def klen(c): return c.len if 'len' in c.a else SL(c.old.h('M'),c.key)
def match(c,x):
    o=c.old; return And(nf(o,'KeyLen',x)==klen(c),EQB(o.h('M'),c.key,nf(o,'Key',x),nf(o,'KeyLen',x)))
def none_before(c,j):
    i=z3.Int('i!m'); n=N(c.old,c.h)
    return FA([i],Imp(And(0<=i,i<j),Not(match(c,at(c.old,n,i)))),at(c.old,n,i))
def key_req(c):
    if 'len' in c.a: return base_req(c)+readable(c.old,c.key,c.len,'key')+[('key',And(c.key>=0,c.key+c.len<2**47))]
    return base_req(c)+nul_text(c.old,c.key)
def key_hook(c,a):
    o=c.old; c.st.assume(*body_facts(o.h('M'),a['b'],a.get('len',a.get('b_len'))))
def key_loop():
    return Loop(lambda c:child_inv(c)+[('no match so far',none_before(c,jpos(c)))],lambda c:nf(c.old,'Len',N(c.old,c.h))-jpos(c),roles={'next':('next','ptr')})
def found_ens(c):
    o,s=c.old,c.st; n=N(o,c.h); r=c.ret; x=s.f(HF[0],r); ok=r!=0; k=z3.Int('k!h'); a=A(o,c.h)
    return [('null unless an object',Imp(ok,kind(c,T_OBJ))),('null only if no key matches',Imp(And(Not(ok),kind(c,T_OBJ)),none_before(c,nf(o,'Len',n)))),
            ('a member of this object',Imp(ok,And(o.f('V',x),nf(o,'Father',x)==n,at(o,n,o.f('pos',x))==x,s.f(HF[1],r)==a,r>0))),('whose key matches',Imp(ok,match(c,x))),('the first one',Imp(ok,none_before(c,o.f('pos',x)))),
            ('a new handle',And(Imp(ok,Not(o.f('is.zj_Value',r))),FA([k],s.f('is.zj_Value',k)==Or(o.f('is.zj_Value',k),And(ok,k==r)),s.f('is.zj_Value',k),o.f('is.zj_Value',k)))),
            ('other handles',And(*[FA([k],Or(And(ok,k==r),s.f(f,k)==o.f(f,k)),s.f(f,k),o.f(f,k)) for f in HF]))]+WF(s)+mem_frame(c)+touch_frame(c,a)
for nm,ps in(('zj_ObjGet',[]),('zj_ObjGetLen',[('len','int')])):
    con(nm,[CHB,('key','ptr')]+ps,key_req,found_ens,modifies=HMOD,loops=[key_loop()],hooks={'before:zj_strIsEqual':key_hook,'before:zj_strIsEqualLen':key_hook},opaque=OPQ,ret='ptr')
