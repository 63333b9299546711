"""The document tree: well-formedness (WF) as an invariant over all live nodes, and what the operations have in common."""
import z3
from sym import *
from text import *
from text import _escape
import mem
from mem import FA, upd, And, Or, Not, Imp, If, touch_frame, MAXTEXT
C={}
def con(*a,**k):
    c=Contract(*a,**k); C[c.name]=c; return c
Comps.sorts['V']=AB; Comps.sorts['at']=AAI; Comps.sorts['pos']=AI; Comps.sorts['rank']=AI
x,n_,c_,i_,k_=z3.Ints('x!w n!w c!w i!w k!w')
TRUE,FALSE=z3.BoolVal(True),z3.BoolVal(False)
ND='zj_node.'
NF=['Type','Key','KeyLen','Value','Len','Next','Prev','Father','End']
T_BOOL,T_ARR,T_OBJ,T_STR,T_NULL,T_NUM=1,2,3,4,5,6
VS=SpecFun('VS',[AI,I,I,B],rec=False,body=lambda M,p,n: BODY(NORM(M,p,n),0)==n)     # valid string body
VN=SpecFun('VN',[AI,I,I,B],rec=False,body=lambda M,p,n: NUM(NORM(M,p,n),0)==n)      # valid number
def bytesM(M,p,word): return And(*[At(M,p+j)==ord(ch) for j,ch in enumerate(word)])
LN=SpecFun('LN',[AI,I,I,B],rec=False,body=lambda M,p,n: And(n==4,bytesM(M,p,'null')))
LB=SpecFun('LB',[AI,I,I,B],rec=False,body=lambda M,p,n: Or(And(n==4,bytesM(M,p,'true')),And(n==5,bytesM(M,p,'false'))))
ST=z3.Function('ST',I,B)                 # static storage (literals of the program)
DESCS=SpecFun('DESCS',[AI,I,AB])       # DESCS(Father,n): the strict descendants of n

def nf(s,f,n): return s.f(ND+f,n)
def cont(s,n): return Or(nf(s,'Type',n)==T_ARR,nf(s,'Type',n)==T_OBJ)
def bytes_at(s,p,word): return And(*[s.f('M',p+j)==ord(ch) for j,ch in enumerate(word)])
def at(s,n,i): return At(s.f('at',n),i)
def WF(s):
    V=s.f('V',n_); Vc=s.f('V',c_); g=lambda f,n: nf(s,f,n)
    ch=at(s,n_,i_); f=g('Father',c_); p=s.f('pos',c_); ty=g('Type',n_); v=g('Value',n_); ln=g('Len',n_); K,KL=g('Key',c_),g('KeyLen',c_)
    return [
     ('wf: node',FA([n_],Imp(V,And(n_>0,s.f('is.zj_node',n_),ty>=1,ty<=6,s.f('rank',n_)>=0)),V)),
     ('wf: children',FA([n_,i_],Imp(And(V,cont(s,n_),0<=i_,i_<ln),And(s.f('V',ch),g('Father',ch)==n_,s.f('pos',ch)==i_,(ty==T_OBJ)==(g('Key',ch)!=0))),ch)),
     ('wf: first child',FA([n_],Imp(And(V,cont(s,n_)),v==If(ln==0,0,at(s,n_,0))),v)),
     ('wf: last child',FA([n_],Imp(And(V,cont(s,n_),ln>0),g('End',n_)==at(s,n_,ln-1)),g('End',n_))),
     ('wf: father',FA([c_],Imp(And(Vc,f!=0),And(s.f('V',f),cont(s,f),0<=p,p<g('Len',f),at(s,f,p)==c_,s.f('rank',f)<s.f('rank',c_))),f)),
     ('wf: next',FA([c_],Imp(Vc,g('Next',c_)==If(And(f!=0,p+1<g('Len',f)),at(s,f,p+1),0)),g('Next',c_))),
     ('wf: previous',FA([c_],Imp(Vc,g('Prev',c_)==If(And(f!=0,p>0),at(s,f,p-1),0)),g('Prev',c_))),
     ('wf: text readable',FA([n_,k_],Imp(And(V,Not(cont(s,n_)),v<=k_,k_<v+ln),s.f('rd',k_)),(v,s.f('rd',k_)))),
     ('wf: text',FA([n_],Imp(And(V,Not(cont(s,n_))),And(v>0,v+ln<2**47,ln<=MAXTEXT,
          Imp(ty==T_STR,VS(s.h('M'),v,ln)),Imp(ty==T_NUM,VN(s.h('M'),v,ln)),
          Imp(ty==T_NULL,And(ST(v),LN(s.h('M'),v,ln))),Imp(ty==T_BOOL,And(ST(v),LB(s.h('M'),v,ln))))),v)),
     ('wf: key readable',FA([c_,k_],Imp(And(Vc,K!=0,K<=k_,k_<K+KL),s.f('rd',k_)),(K,s.f('rd',k_)))),
     ('wf: key',FA([c_],Imp(And(Vc,K!=0),And(K+KL<2**47,KL<=MAXTEXT,VS(s.h('M'),K,KL))),K)),
    ]
WFC=['V','at','pos','rank','M','rd','is.zj_node']+[ND+f for f in NF]
def HV(s,h):
    N=s.f('zj_Value.N',h)
    return [('handle',And(h>0,s.f('is.zj_Value',h))),('handle: allocator alive',s.f('alive',s.f('zj_Value.A',h))),('handle: empty or a live node',Or(N==0,s.f('V',N)))]
def N(s,h): return s.f('zj_Value.N',h)
def A(s,h): return s.f('zj_Value.A',h)

# ---------------------------------------------------------------- memory frame and text frame
_dif=z3.Function('dif',AI,AI,I,I,I)
def text_frame(M2,M1,rd):
    """lemma (extensionality): a text is valid in M2 iff in M1, unless some byte of it differs"""
    p,n=z3.Ints('p!f n!f'); d=_dif(M2,M1,p,n); bad=And(0<=d,d<n,tr(At(M2,p+d),At(rd,p+d)),At(M2,p+d)!=At(M1,p+d))
    return [FA([p,n],And(tr(F(M1,p,n)),Or(F(M2,p,n)==F(M1,p,n),bad)),F(M2,p,n)) for F in(VS,VN,LN,LB)]
def mem_frame(c):
    """readable memory stays readable and keeps its bytes"""
    o,s=c.old,c.st; k=z3.Int('k!q')
    vers=s.tags.get('v.rd',()) if c.ex is not None and c.old is c.ex.old else ()
    return [('!readable memory keeps its bytes',FA([k],Imp(And(o.f('rd',k),*[tr(At(v,k)) for v in vers]),s.f('M',k)==o.f('M',k)),s.f('M',k))),('!readable memory stays readable',FA([k],Imp(o.f('rd',k),s.f('rd',k)),o.f('rd',k),s.f('rd',k))),
            ('!writable memory stays writable',FA([k],Imp(o.f('wr',k),s.f('wr',k)),o.f('wr',k),s.f('wr',k)))]
def exit_frames(c):
    s,o=c.st,c.old
    if not s.h('M').eq(o.h('M')): s.assume(*text_frame(s.h('M'),o.h('M'),o.h('rd')))
def obj_mono(c,t='zj_node',new=None):
    o,s=c.old,c.st; k=z3.Int('k!q'); comp='is.'+t
    return FA([k],s.f(comp,k)==(Or(o.f(comp,k),k==new) if new is not None else o.f(comp,k)),s.f(comp,k),o.f(comp,k))
def same(c,comps,but=None):
    o,s=c.old,c.st
    return And(*[FA([x],(Or(x==but,s.f(f,x)==o.f(f,x)) if but is not None else s.f(f,x)==o.f(f,x)),s.f(f,x),o.f(f,x)) for f in comps])
def old_nodes_same(c,fields,but=None):
    """fields of the nodes that existed before (except but) are unchanged"""
    o,s=c.old,c.st
    return And(*[FA([x],Imp(And(o.f('is.zj_node',x),(x!=but if but is not None else TRUE)),s.f(ND+f,x)==o.f(ND+f,x)),s.f(ND+f,x),o.f(ND+f,x)) for f in fields])

# ---------------------------------------------------------------- ghost updates
def drop_below(c,Nd,new):
    """V' = V minus the strict descendants of Nd, or V plus Nd when Nd is new"""
    s,o=c.st,c.old
    D=DESCS(o.h(ND+'Father'),Nd); V2=fresh('V',AB); F=o.h(ND+'Father')
    s.assume(FA([x],And(tr(At(D,x)),At(V2,x)==If(new,Or(o.f('V',x),x==Nd),And(o.f('V',x),Not(At(D,x))))),At(V2,x)))
    s.assume(FA([x],At(D,x)==And(At(F,x)!=0,Or(At(F,x)==Nd,At(D,At(F,x)))),At(V2,x)))
    s.assume(Imp(Not(new),Not(At(D,Nd))))                 # lemma 'no cycle'
    s.set('V',V2)
def ens_drop(c,Nd,new):
    s,o=c.st,c.old; D=DESCS(o.h(ND+'Father'),Nd)
    return ('live nodes: only what was below the value goes',FA([x],s.f('V',x)==If(new,Or(o.f('V',x),x==Nd),And(o.f('V',x),Not(At(D,x)))),s.f('V',x)))
