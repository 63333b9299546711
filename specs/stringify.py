"""Stringify. The expected text is given by the mutually recursive functions VIS / AFT over the abstract tree: VIS(T,R,n,j): the text T
from offset j on is what printing the value R still has to produce when node n comes next; AFT(T,R,n,j): the same when n has just been
printed. VIS(T,R,R,0) therefore says that T is exactly the compact JSON text of R, followed by a NUL."""
import z3
from sym import *
from text import *
from tree import *
import tree, mem
from mem import FA, upd, And, Or, Not, Imp, If, touch_frame, MAXTEXT, SF, STRUCTS
from getters import base_req, CHB, AMOD, alloc_frame, fresh_mem
from setters import OPQ
C={}
def con(*a,**k):
    c=Contract(*a,**k); C[c.name]=c; return c
SEQ=SpecFun('SEQ',[AI,I,AI,I,I,B])       # SEQ(T,j,M,p,n): T[j..j+n) are the n bytes at p in M
AG=SpecFun('AG',[AI,AI,I,I,B])           # AG(T,M,D,P): T[0..P) are the P bytes at D in M
def _sh_inst(a,M,p):
    i=z3.Int('i!h'); return [FA([i],At(a,i)==At(M,p+i),At(a,i))]
SH=SpecFun('SH',[AI,I,AI],inst=_sh_inst)   # the memory from p on, as a text
_sd=z3.Function('sd',AI,I,AI,I,I,I); _ad=z3.Function('ad',AI,AI,I,I,I); _ssd=z3.Function('ssd',AI,I,AI,AI,I,I,I)
DOCF=['at','pos',ND+'Type',ND+'Key',ND+'KeyLen',ND+'Value',ND+'Len',ND+'Father']
DS=[AAI,AI,AI,AI,AI,AI,AI,AI]
def doc(s): return [s.h(f) for f in DOCF]
def opening(ty): return If(ty==T_ARR,91,123)
def closing(ty): return If(ty==T_ARR,93,125)
def _parts(d,n):
    a,pos,ty,ke,kl,va,ln,fa=d
    return a,At(pos,n),At(ty,n),At(ke,n),At(kl,n),At(va,n),At(ln,n),At(fa,n)
def _vis(*x):
    d=x[:8]; M,T,R,n,j=x[8:]; a,p,ty,k,kl,v,l,f=_parts(d,n)
    return If(And(n!=R,At(d[2],f)==T_OBJ),And(At(T,j)==34,SEQ(T,j+1,M,k,kl),At(T,j+1+kl)==34,At(T,j+2+kl)==58,CON(*d,M,T,R,n,j+3+kl)),CON(*d,M,T,R,n,j))
def _con(*x):
    d=x[:8]; M,T,R,n,j=x[8:]; a,p,ty,k,kl,v,l,f=_parts(d,n)
    return If(ty==T_STR,And(At(T,j)==34,SEQ(T,j+1,M,v,l),At(T,j+1+l)==34,AFT(*d,M,T,R,n,j+2+l)),
           If(Or(ty==T_ARR,ty==T_OBJ),And(At(T,j)==opening(ty),If(l==0,And(At(T,j+1)==closing(ty),AFT(*d,M,T,R,n,j+2)),VIS(*d,M,T,R,At(At(a,n),0),j+1))),
              And(SEQ(T,j,M,v,l),AFT(*d,M,T,R,n,j+l))))
def _aft(*x):
    d=x[:8]; M,T,R,n,j=x[8:]; a,p,ty,k,kl,v,l,f=_parts(d,n)
    return If(n==R,At(T,j)==0,If(p+1<At(d[6],f),And(At(T,j)==44,VIS(*d,M,T,R,At(At(a,f),p+1),j+1)),And(At(T,j)==closing(At(d[2],f)),AFT(*d,M,T,R,f,j+1))))
VIS=SpecFun('VIS',DS+[AI,AI,I,I,I,B],_vis); CON=SpecFun('CON',DS+[AI,AI,I,I,I,B],_con,rec=False); AFT=SpecFun('AFT',DS+[AI,AI,I,I,I,B],_aft)
# the number of bytes still to come (without the NUL)
def _lv(*x):
    d=x[:8]; R,n=x[8:]; a,p,ty,k,kl,v,l,f=_parts(d,n)
    return If(And(n!=R,At(d[2],f)==T_OBJ),3+kl,0)+If(ty==T_STR,2+l+LA(*d,R,n),If(Or(ty==T_ARR,ty==T_OBJ),If(l==0,2+LA(*d,R,n),1+LV(*d,R,At(At(a,n),0))),l+LA(*d,R,n)))
def _la(*x):
    d=x[:8]; R,n=x[8:]; a,p,ty,k,kl,v,l,f=_parts(d,n)
    return If(n==R,0,If(p+1<At(d[6],f),1+LV(*d,R,At(At(a,f),p+1)),1+LA(*d,R,f)))
LV=SpecFun('LV',DS+[I,I,I],_lv); LA=SpecFun('LA',DS+[I,I,I],_la)
STRLIM=MAXTEXT-1
def lens_pos(o,R):
    """a finite document has a finite, non-negative number of bytes still to come at every node"""
    x=z3.Int('x!l'); d=doc(o); In=And(o.f('V',x),Or(x==R,At(DESCS(o.h(ND+'Father'),R),x)))
    return [FA([x],Imp(In,LV(*d,R,x)>=0),LV(*d,R,x)),FA([x],Imp(In,LA(*d,R,x)>=0),LA(*d,R,x))]
def below_facts(o,R):
    D=DESCS(o.h(ND+'Father'),R); x=z3.Int('x!d'); F=o.h(ND+'Father')
    return [FA([x],At(D,x)==And(At(F,x)!=0,Or(At(F,x)==R,At(D,At(F,x)))),At(D,x)),
            FA([x],Imp(And(At(D,x),o.f('V',x)),o.f('rank',R)<o.f('rank',x)),At(D,x)),      # lemma no_cycle
            Not(At(D,R))]
def sy_req(c):
    o=c.old; R=N(o,c.h)
    return base_req(c)+[('resource limit: a finite document of at most 256 MiB of text',And(LV(*doc(o),R,R)<=STRLIM,*lens_pos(o,R)))]
def sy_setup(c):
    c.ex.g['T']=fresh('T',AI); o=c.old; R=N(o,c.h); c.st.assume(Imp(R!=0,And(*below_facts(o,R))))
def sy_new(c,a):
    c.ex.g['str']=a['ret']; c.st.tags['g.str']=a['ret']
    s=c.st; s.assume(AG(c.ex.g['T'],s.h('M'),s.f(SF[0],a['ret']),0))       # nothing to agree on
def sy_app(c,a):
    """lemma append_agree, and the definition of SEQ with a witness"""
    s,o=c.st,a['pre']; T=c.ex.g['T']; t=a['str']; D0,P0=o.f(SF[0],t),o.f(SF[1],t); D1,P1=s.f(SF[0],t),s.f(SF[1],t); M0,M1=o.h('M'),s.h('M'); Mo=c.old.h('M')
    if 'size' in a:
        p,n=a['s'],a['size']; what=SEQ(T,P0,M0,p,n); w=_ssd(T,P0,M0,Mo,p,n)
        if not M0.eq(Mo):
            s.assume(Or(SEQ(T,P0,M0,p,n)==SEQ(T,P0,Mo,p,n),And(0<=w,w<n,tr(c.old.f('rd',p+w),At(M0,p+w)),At(M0,p+w)!=At(Mo,p+w))))
            g=SEQ(T,P0,M0,p,n)==SEQ(T,P0,Mo,p,n); c.ex.prove_many(s,[('the appended text is the one of the document',g)],'assert'); s.assume(g)
        ns=simp(n)
        if z3.is_int_value(ns) and ns.as_long()<=16:
            m=ns.as_long(); s.assume(SEQ(T,P0,Mo,p,n)==And(*[And(tr(c.old.f('rd',p+i)),At(T,P0+i)==At(Mo,p+i)) for i in range(m)]))
    else: what=At(T,P0)==a['ch']
    s.assume(Imp(AG(T,M1,D1,P1),And(AG(T,M0,D0,P0),what)))
def builder_inv(c):
    o,s=c.old,c.st; t=c.ex.g['str']; k=z3.Int('k!q'); D,P,Z,A_=[s.f(f,t) for f in SF]
    return S_OKr(s,t)+[('builder: allocator',A_==A(o,c.h)),('builder: memory is new',FA([k],Imp(o.f('rd',k),Not(And(D<=k,k<D+Z))),o.f('rd',k))),
       ('builder: it is new',Not(o.f('is.zj_string',t))),
       ('bytes of the document stay',FA([k],Imp(o.f('rd',k),s.f('M',k)==o.f('M',k)),s.f('M',k))),('readable memory stays readable',FA([k],Imp(o.f('rd',k),s.f('rd',k)),o.f('rd',k),s.f('rd',k))),
       ('writable memory stays writable',FA([k],Imp(o.f('wr',k),s.f('wr',k)),o.f('wr',k),s.f('wr',k))),('other builders',And(*[FA([k],Imp(o.f('is.zj_string',k),s.f(f,k)==o.f(f,k)),s.f(f,k)) for f in SF]))]+touch_frame(c,A(o,c.h))
def S_OKr(s,t): return mem.S_OK(s,t)
def sy_node(c,n):
    o=c.old; R=N(o,c.h); D=DESCS(o.h(ND+'Father'),R)
    return [('in the value',And(o.f('V',n),Or(n==R,At(D,n))))]
def sy_loop(outer):
    def nxt(c,n,j,T):
        o=c.old; R=N(o,c.h); d=doc(o); M=o.h('M')
        a=AFT(*d,M,T,R,n,j); return If(n==R,a,VIS(*d,M,T,R,n,j)) if outer else a
    def left(c,n):
        o=c.old; R=N(o,c.h); d=doc(o); return If(n==R,LA(*d,R,n),LV(*d,R,n)) if outer else LA(*d,R,n)
    def inv(c):
        o,s=c.old,c.st; R=N(o,c.h); n=c.v('node'); t=c.ex.g['str']; T=c.ex.g['T']; D,P=s.f(SF[0],t),s.f(SF[1],t); d=doc(o); M=o.h('M')
        return sy_node(c,n)+builder_inv(c)+[('room',And(P+left(c,n)==LV(*d,R,R),*([P>=s.tags['g.P0']] if not outer and 'g.P0' in s.tags else []))),
          ('printed so far',Imp(AG(T,s.h('M'),D,P),VIS(*d,M,T,R,R,0)==nxt(c,n,P,T)))]
    return Loop(inv,lambda c: If(c.v('node')==N(c.old,c.h),0,1+left(c,c.v('node'))),roles={'node':('node','ptr')},
        marks=lambda c:[mark_P(c,outer),tr(*[nf(c.old,f,c.v('node')) for f in('Father','Value','Key','Next','Type','Len')])])
def mark_P(c,outer):
    if outer: c.st.tags['g.P0']=c.st.f(SF[1],c.ex.g['str'])
_syms={}
def syms(f):
    if f.get_id() in _syms: return _syms[f.get_id()][1]
    out=set(); st=[f]; seen=set()
    while st:
        t=st.pop()
        if t.get_id() in seen: continue
        seen.add(t.get_id())
        if z3.is_quantifier(t): st.append(t.body()); continue
        if z3.is_app(t):
            if t.num_args()==0 and z3.is_array(t): out.add(t.decl().name().split('!')[0].split('@')[0])
            st.extend(t.children())
    _syms[f.get_id()]=(f,out); return out
HEAVY={'M','rd','wr','touch','alive'}|set(SF)|{'is.'+t for t in STRUCTS if t!='zj_node'}
def sy_drop(lab,f): return 'printed so far' in lab and has_q(f) and bool(syms(f)&HEAVY)
def has_q(f): return z3.is_quantifier(f) or z3.is_app(f) and any(has_q(x) for x in f.children()) if not z3.is_const(f) else False
def sy_exit(c):
    s,o=c.st,c.old; T=c.ex.g['T']; t=c.ex.g.get('str')
    if 'g.str' in s.tags: s.assume(T==SH(s.h('M'),c.ret),AG(T,s.h('M'),c.ret,s.f(SF[1],t)))     # T was arbitrary: take the result
    exit_frames(c)
def sy_ens(c):
    o,s=c.old,c.st; R=N(o,c.h); d=doc(o); k=z3.Int('k!c'); L=LV(*d,R,R)
    return [('not null',c.ret>0),('the empty text for an empty value',Imp(R==0,s.f('M',c.ret)==0)),('exactly the compact JSON text of the value',Imp(R!=0,VIS(*d,o.h('M'),SH(s.h('M'),c.ret),R,R,0))),
            ('strings',FA([x],Imp(o.f('is.zj_string',x),s.f('is.zj_string',x)),o.f('is.zj_string',x)))]+[(l,Imp(R!=0,f)) for l,f in fresh_mem(c,c.ret,L+1)]+alloc_frame(c)
con('zj_Stringify',[CHB],sy_req,sy_ens,modifies=AMOD+['is.zj_string']+SF,setup=sy_setup,loops=[sy_loop(True),sy_loop(False)],hooks={'after:zj_newString':sy_new,'after:zj_appendStr':sy_app,'after:zj_appendChar':sy_app},
    ghost_exit=sy_exit,opaque=OPQ,drop=sy_drop,together=('printed so far','exactly the compact'),ret='ptr')

# ---------------------------------------------------------------- lemmas
import lemmas as _l
LEMMAS={}
class FS:
    """an arbitrary state"""
    def __init__(s,n): s.n=n; s.tags={}
    def h(s,c): return z3.Const(f'{c}@{s.n}',Comps.sort(c))
    def f(s,c,x): return At(s.h(c),x)
def ag_def(T,M,D,P):
    k=z3.Int('k!ag'); w=_ad(T,M,D,P)
    return [FA([k],Imp(And(AG(T,M,D,P),0<=k,k<P),At(T,k)==At(M,D+k)),At(T,k),At(M,D+k)),Or(AG(T,M,D,P),And(0<=w,w<P,tr(At(T,w),At(M,D+w)),At(T,w)!=At(M,D+w)))]
def seq_def(T,j,M,p,n):
    w=_sd(T,j,M,p,n); return Or(SEQ(T,j,M,p,n),And(0<=w,w<n,tr(At(T,j+w)),At(T,j+w)!=At(M,p+w)))
def append_agree(tier):
    """what append promises implies: if T agrees with the builder afterwards, it did before, and the appended bytes are next in T"""
    T=z3.Const('T!aa',AI); t,p,n,ch=z3.Ints('t!aa p!aa n!aa ch!aa')
    for lab,a,size,byte,extra in(('string',dict(str=t,s=p,size=n),lambda c:c.size,lambda c,j:c.old.f('M',c.s+j),lambda o,P:[]),('byte',dict(str=t,ch=ch),lambda c:1,lambda c,j:c.ch,lambda o,P:[])):
        o,s=FS('a0'),FS('a1'); c=Ctx(o,s,a,None,None)
        hy=[g for _,g in mem.app_ens(size,byte)(c)]+[o.f(SF[1],t)>=0,n>=0]
        M0,M1=o.h('M'),s.h('M'); D0,P0,D1,P1=o.f(SF[0],t),o.f(SF[1],t),s.f(SF[0],t),s.f(SF[1],t)
        hy+=ag_def(T,M1,D1,P1)+ag_def(T,M0,D0,P0)+[AG(T,M1,D1,P1)]
        goals=[('earlier bytes',AG(T,M0,D0,P0)),('appended bytes',SEQ(T,P0,M0,p,n) if lab=='string' else At(T,P0)==ch)]
        if lab=='string': hy+=[seq_def(T,P0,M0,p,n)]
        else: hy+=[tr(At(T,P0),At(M1,D1+P0))]
        for l,g in goals: yield _l.step(f'append_agree:{lab}:{l}',hy,g,1)
LEMMAS['append_agree']=append_agree
