"""Parsing. The grammar is the recursive one of RFC 8259 as functions over the text: GV(T,i) is the position after the value that starts
at i, GA(T,b) / GO(T,b) the position after the elements / members that start at b and their closing bracket; -1 if there is none.
Ghost state: bt are the nodes of the tree being built, bs where in the text an element begins (after the bracket or comma), ts where its
value begins, dep its depth, op the containers that are still open."""
import z3
from sym import *
from text import *
from tree import *
import tree, mem
from mem import FA, upd, And, Or, Not, Imp, If, touch_frame, MAXTEXT, SF, STRUCTS
from setters import OPQ, sl_fact
from lists import at2, ddef, mark
from deepcopy import names
from getters import ext
C={}
def con(*a,**k):
    c=Contract(*a,**k); C[c.name]=c; return c
for g in('bs','ts','dep'): Comps.sorts[g]=AI
for g in('op','bt'): Comps.sorts[g]=AB
x,y,i,K_=z3.Ints('x!p y!p i!p k!p')
GV=SpecFun('GV',[AI,I,I]); GA=SpecFun('GA',[AI,I,I]); GO=SpecFun('GO',[AI,I,I])
def word(T,i,w): return And(*[At(T,i+k)==ord(ch) for k,ch in enumerate(w)])
def gv_def(T,i):
    b=At(T,i); w=WS(T,i+1)
    return GV(T,i)==If(b==91,If(At(T,w)==93,w+1,GA(T,w)),If(b==123,If(At(T,w)==125,w+1,GO(T,w)),
      If(b==110,If(word(T,i+1,'ull'),i+4,-1),If(b==102,If(word(T,i+1,'alse'),i+5,-1),If(b==116,If(word(T,i+1,'rue'),i+4,-1),If(b==34,STR(T,i+1),NUM(T,i)))))))
def rest(T,e,F,close):
    w=WS(T,e); return If(e<0,-1,If(At(T,w)==44,F(T,w+1),If(At(T,w)==close,w+1,-1)))
def ga_def(T,b): return GA(T,b)==rest(T,GV(T,WS(T,b)),GA,93)
def key_q(T,b): return WS(T,b)
def key_e(T,b): return STR(T,WS(T,b)+1)
def key_ok(T,b): return And(At(T,WS(T,b))==34,key_e(T,b)>=0,At(T,WS(T,key_e(T,b)))==58)
def member_value(T,b): return WS(T,WS(T,key_e(T,b))+1)
def go_def(T,b): return GO(T,b)==If(key_ok(T,b),rest(T,GV(T,member_value(T,b)),GO,125),-1)
def GG(ty,T,b): return If(ty==T_OBJ,GO(T,b),GA(T,b))
def KT(b): return If(b==91,T_ARR,If(b==123,T_OBJ,If(b==110,T_NULL,If(Or(b==102,b==116),T_BOOL,If(b==34,T_STR,T_NUM)))))
def closing(ty): return If(ty==T_OBJ,125,93)
def ACC(T):
    e=GV(T,WS(T,0)); return And(e>=0,At(T,WS(T,e))==0)
def quote(T,i): return Imp(At(T,i)==34,STR(T,i)==i+1)          # definition of STR
def text(c): return TN(c.old,c.s)
def R_(c,s=None): return N(s or c.st,c.h)
def S_(c): return c.ex.g.get('S',z3.IntVal(0))
# ---------------------------------------------------------------- the tree mirrors the text
MK=z3.Function('mk',I,B)                # marks the nodes for which the facts about the text are wanted
def mirror(s,M,rd,T,n,sp,R,filled,closed,pt=lambda t:MK(x)):
    f=nf(s,'Father',x); ty=nf(s,'Type',x); ts=s.f('ts',x); bs=s.f('bs',x); v,ln=nf(s,'Value',x),nf(s,'Len',x); e=nf(s,'End',x); w=WS(T,ts+1); F=filled(x); bt=s.f('bt',x)
    obj=nf(s,'Type',f)==T_OBJ; q=key_q(T,bs); p=s.f('pos',x); pr=at(s,f,p-1); ge=GV(T,s.f('ts',pr))
    return [('places',FA([x],Imp(And(bt,x!=R),ts==If(obj,member_value(T,bs),WS(T,bs))),pt(ts))),('counts',FA([x],Imp(And(bt,x!=R),And(p<bs,bs<=n,Imp(f!=R,s.f('bs',f)<bs))),pt(p))),('place of the root',s.f('ts',R)==WS(T,0)),
      ('kinds',FA([x],Imp(F,And(ty==KT(At(T,ts)),0<=ts,ts<=n)),pt(ty))),
      ('strings',FA([x],Imp(And(F,ty==T_STR),And(STR(T,ts+1)>ts+1,STR(T,ts+1)<=n,ln==STR(T,ts+1)-ts-2,v>=sp,Or(v==sp+ts+1,And(ln==0,v<=sp+n)))),pt(v))),
      ('numbers',FA([x],Imp(And(F,ty==T_NUM),And(NUM(T,ts)>ts,NUM(T,ts)<=n,ln==NUM(T,ts)-ts,v==sp+ts)),pt(v))),
      ('literals',FA([x],Imp(F,And(Imp(ty==T_NULL,And(ln==4,v>0,v<2**46,ST(v),LN(M,v,ln))),Imp(ty==T_BOOL,And((ln==4)==(At(T,ts)==116),Or(ln==4,ln==5),v>0,v<2**46,ST(v),LB(M,v,ln))))),pt(v))),
      ('text of the values is readable',FA([x,K_],Imp(And(F,Not(cont(s,x)),v<=K_,K_<v+ln),rd(K_)),(pt(v),rd(K_)))),
      ('keys',FA([x],Imp(And(F,x!=R),If(obj,And(key_ok(T,bs),nf(s,'Key',x)==sp+q+1,nf(s,'KeyLen',x)==key_e(T,bs)-q-2,q>=0,key_e(T,bs)>q+1,key_e(T,bs)<=n),nf(s,'Key',x)==0)),pt(nf(s,'Key',x)))),('has a key in objects only',FA([x],Imp(And(F,x!=R),obj==(nf(s,'Key',x)!=0)),pt(nf(s,'Key',x)))),
      ('first elements',FA([x],Imp(And(F,cont(s,x)),If(ln==0,At(T,w)==closing(ty),And(At(T,w)!=closing(ty),s.f('bs',v)==w))),pt(v))),
      ('commas',FA([x],Imp(And(bt,x!=R,p>0),And(ge>=0,ge<=n,At(T,WS(T,ge))==44,bs==WS(T,ge)+1)),pt(bs))),
      ('ends',FA([x],Imp(closed(x),And(GV(T,ts)>=0,GV(T,ts)<=n)),pt(ts))),
      ('closing brackets',FA([x],Imp(And(closed(x),cont(s,x),ln>0),And(At(T,WS(T,GV(T,s.f('ts',e))))==closing(ty),GV(T,ts)==WS(T,GV(T,s.f('ts',e)))+1)),pt(e)))]
def links(s,R,filled,closed,nd=None):
    f=nf(s,'Father',x); p=s.f('pos',x); bt=s.f('bt',x); F=filled(x); ch=at(s,x,i); ln=nf(s,'Len',x)
    nx=closed(x) if nd is None else And(closed(x),x!=nd)
    return [('new: father',FA([x],Imp(And(bt,x!=R),And(f>0,s.f('bt',f),filled(f),cont(s,f))),f)),
      ('new: place in the father',FA([x],Imp(And(bt,x!=R),And(0<=p,p<nf(s,'Len',f),at(s,f,p)==x,s.f('dep',x)==s.f('dep',f)+1)),f)),
      ('new: children',FA([x,i],Imp(And(F,cont(s,x),0<=i,i<ln),And(s.f('bt',ch),nf(s,'Father',ch)==x,s.f('pos',ch)==i,ch!=R)),ch)),
      ('new: first child',FA([x],Imp(And(F,cont(s,x)),nf(s,'Value',x)==If(ln==0,0,at(s,x,0))),nf(s,'Value',x))),
      ('new: last child',FA([x],Imp(And(F,cont(s,x),ln>0),nf(s,'End',x)==at(s,x,ln-1)),nf(s,'End',x))),
      ('new: previous',FA([x],Imp(And(bt,x!=R),nf(s,'Prev',x)==If(p>0,at(s,f,p-1),0)),nf(s,'Prev',x))),
      ('new: next',FA([x],Imp(And(nx,x!=R),nf(s,'Next',x)==If(p+1<nf(s,'Len',f),at(s,f,p+1),0)),nf(s,'Next',x)))]
def new_nodes(c,R):
    o,s=c.old,c.st; bt=s.f('bt',x)
    return [('new: nodes',FA([x],Imp(bt,And(x>0,s.f('is.zj_node',x),Or(x==R,Not(o.f('is.zj_node',x))),x!=S_(c),s.f('dep',x)>=0,(s.f('dep',x)==0)==(x==R))),bt))]
def frame(c,loop=True):
    o,s=c.old,c.st; st=[] if loop else [o]; R=R_(c); N0=N(o,c.h); k=z3.Int('k!q'); empty=c.ex.case[0]=='empty' if c.ex is not None and getattr(c.ex,'case',None) else None
    same=[(f'old nodes: {f}',FA([x],Imp(And(o.f('is.zj_node',x),x!=R),nf(s,f,x)==nf(o,f,x)),nf(s,f,x),*[nf(z,f,x) for z in st])) for f in NF]
    if loop:
        kept=[nf(s,f,R)==(z3.IntVal(0) if empty else nf(o,f,R)) for f in('Key','Next','Prev','Father')]+([] if empty else [nf(s,'KeyLen',R)==nf(o,'KeyLen',R)])
        same+=[('the root keeps its key and place',And(*kept))]
        if not empty: same+=[('the saved content',And(S_(c)>0,s.f('is.zj_node',S_(c)),Not(o.f('is.zj_node',S_(c))),*[nf(s,f,S_(c))==nf(o,f,R) for f in NF]))]
        same+=[('old sequences',FA([x,i],Imp(And(o.f('is.zj_node',x),x!=R),at(s,x,i)==at(o,x,i)),at(s,x,i))),('old positions',FA([x],Imp(o.f('is.zj_node',x),s.f('pos',x)==o.f('pos',x)),s.f('pos',x)))]
    return same+[('nodes stay',FA([x],Imp(o.f('is.zj_node',x),s.f('is.zj_node',x)),s.f('is.zj_node',x),*[z.f('is.zj_node',x) for z in st])),
       ('readable memory stays readable',FA([k],Imp(o.f('rd',k),s.f('rd',k)),o.f('rd',k),s.f('rd',k))),('writable memory stays writable',FA([k],Imp(o.f('wr',k),s.f('wr',k)),o.f('wr',k),s.f('wr',k)))]+touch_frame(c,A(o,c.h))
def p_loop(inner):
    def inv(c):
        o,s=c.old,c.st; T,n=text(c); R=R_(c); nd,ix=c.v('node'),c.v('i'); M=o.h('M')
        full=TRUE if inner else nd==R
        filled=lambda z: And(s.f('bt',z),Or(z!=nd,full)) if not inner else s.f('bt',z)
        closed=lambda z: And(filled(z),Not(s.f('op',z)))
        op=lambda z: s.f('op',z)
        k=s.f('dep',nd); e=nf(s,'End',x); f=nf(s,'Father',x); ty=nf(s,'Type',x); fn=nf(s,'Father',nd)
        early=[s.tags['g.I0']<ix] if inner and 'g.I0' in s.tags else []
        return [('position',And(0<=ix,ix<=n,s.f('bt',nd),s.f('bt',R),nd>0,R>0,Not(op(nd)),Imp(full,ix==GV(T,s.f('ts',nd))),Imp(Not(full),ix==s.f('bs',nd)),Imp(And(full,nd!=R),s.f('bs',nd)<ix),*early)),
          ('present node',Imp(nd!=R,And(op(fn),nf(s,'End',fn)==nd))),
          ('open nodes',FA([x],Imp(op(x),And(s.f('bt',x),cont(s,x),nf(s,'Len',x)>0,Or(e==nd,op(e)),nf(s,'Father',e)==x,e!=R)),(op(x),e))),
          ('open nodes are above',FA([x],Imp(op(x),s.f('dep',x)<k),op(x))),('one open node for each depth',FA([x,y],Imp(And(op(x),op(y),s.f('dep',x)==s.f('dep',y)),x==y),(op(x),op(y)))),
          ('fathers of open nodes',FA([x],Imp(And(op(x),x!=R),And(op(f),nf(s,'End',f)==x)),(op(x),f))),
          ('open values',FA([x],Imp(op(x),GV(T,s.f('ts',x))==GG(ty,T,s.f('bs',e))),(op(x),e))),
          ('verdict',And(Imp(nd!=R,Imp(GG(nf(s,'Type',fn),T,s.f('bs',nd))<0,GV(T,s.f('ts',R))<0)),FA([x],Imp(And(op(x),x!=R),Imp(GG(nf(s,'Type',f),T,s.f('bs',x))<0,GV(T,s.f('ts',R))<0)),(op(x),s.f('bs',x)))))]+\
          new_nodes(c,R)+links(s,R,filled,closed,nd)+mirror(s,M,lambda k: o.f('rd',k),T,n,c.s,R,filled,closed)+frame(c)
    def arrive(c):
        o,s=c.old,c.st; T,n=text(c); R=R_(c); nd,ix=c.v('node'),c.v('i'); f=nf(s,'Father',nd)
        O1=s.h('op'); O2=fresh('op',AB)
        s.assume(FA([x],At(O2,x)==And(x!=nd,Or(At(O1,x),And(nd!=R,x==f))),At(O2,x),At(O1,x))); s.set('op',O2)
        s.assume(tr(*[F(o.h('M'),nf(s,'Value',nd),nf(s,'Len',nd)) for F in(LN,LB)]))
        if inner: return
        child=nd!=R; p=nf(s,'Len',f)-1; obj=nf(s,'Type',f)==T_OBJ
        s.set('bt',z3.Store(s.h('bt'),R,True)); s.set('bt',z3.Store(s.h('bt'),nd,True))
        s.set('dep',z3.Store(s.h('dep'),R,0)); s.set('dep',z3.Store(s.h('dep'),nd,If(child,s.f('dep',f)+1,0)))
        s.set('pos',z3.Store(s.h('pos'),nd,If(child,p,s.f('pos',nd))))
        s.set('bs',z3.Store(s.h('bs'),nd,If(child,ix,s.f('bs',nd))))
        s.set('ts',z3.Store(s.h('ts'),R,WS(T,0))); s.set('ts',z3.Store(s.h('ts'),nd,If(child,If(obj,member_value(T,ix),WS(T,ix)),WS(T,0))))
        A2=fresh('at',AAI); A1=s.h('at')
        s.assume(FA([x,i],at2(A2,x,i)==If(And(child,x==f,i==p),nd,at2(A1,x,i)),at2(A2,x,i),at2(A1,x,i))); s.set('at',A2)
    def marks(c):
        o,s=c.old,c.st; T,n=text(c); nd=c.v('node'); b=s.f('bs',nd); t=s.f('ts',nd); f=nf(s,'Father',nd)
        if not inner: s.tags['g.I0']=c.v('i')
        return [gv_def(T,t),ga_def(T,b),go_def(T,b),quote(T,t+1),quote(T,WS(T,b)+1),ws_idem(T,n,GV(T,t)),tr(MK(nd),MK(f),nf(s,'Type',f),nf(s,'End',f),s.f('bs',nd),nf(s,'Father',f),s.f('op',f),s.f('bs',f),s.f('op',nd),nf(s,'Next',nd),nf(s,'Prev',nd),nf(s,'Len',f),nf(s,'Value',f),nf(s,'Key',nd),nf(s,'Type',nd),at(s,f,s.f('pos',nd)),nf(s,'End',nf(s,'Father',f)))]
    return Loop(inv,lambda c: text(c)[1]-c.v('i'),roles={'node':('node','ptr'),'i':('index','i32')},ghost=['bt','bs','ts','dep','op','at','pos'],arrive=arrive,marks=marks,forget=inner)
def ws_idem(T,n,i_): return Imp(And(0<=i_,i_<=n),WS(T,WS(T,i_))==WS(T,i_))      # lemma ws_idem
GH=['bt','bs','ts','dep','op']
def p_setup(c):
    s=c.st; T,n=text(c); s.assume(gv_def(T,WS(T,0)),quote(T,WS(T,0)+1))
    for g in('bt','op'):
        G=fresh(g,AB); s.assume(FA([x],Not(At(G,x)),At(G,x))); s.set(g,G)
def p_req(c):
    o=c.old; T,n=text(c)
    return WF(o)+HV(o,c.h)+nul_text(o,c.s)+[('length limit',n<=MAXTEXT-1)]+mark(c,c.h)
def p_alloc(c,a):
    if c.ex.case[0]!='empty' and 'S' not in c.ex.g: c.ex.g['S']=a['ret']
def live(c,V2,ok):
    """what was below the value goes, the new tree is added"""
    o,s=c.old,c.st; N0=N(o,c.h); D=DESCS(o.h(ND+'Father'),N0)
    return At(V2,x)==If(ok,Or(And(o.f('V',x),Or(N0==0,Not(At(D,x)))),s.f('bt',x)),o.f('V',x))
def p_exit(c):
    s,o=c.st,c.old; N0=N(o,c.h); r=simp(c.ret)
    if z3.is_false(r):
        for g in('at','pos','V','rank'): s.set(g,o.h(g))
        return
    R=R_(c); D=DESCS(o.h(ND+'Father'),N0); V2=fresh('V',AB); K=fresh('rank',AI)
    s.assume(FA([x],And(live(c,V2,TRUE),ddef(o,N0,x)),At(V2,x)),Imp(N0!=0,Not(At(D,N0))))         # lemma no_cycle
    s.assume(FA([x],At(K,x)==If(s.f('bt',x),s.f('dep',x)+If(N0==0,0,o.f('rank',R)),o.f('rank',x)),At(K,x)))
    s.set('V',V2); s.set('rank',K)
    T,n=text(c); M=o.h('M'); k=z3.Int('k!v')
    s.assume(*valid_axioms(M,T,n,c.s),FA([x],tr(MK(x)),s.f('V',x)))
def valid_axioms(M,T,n,sp):
    """lemmas str_valid, num_valid"""
    k=z3.Int('k!v')
    return [FA([k],VS(M,k,0),VS(M,k,0)),FA([k],Imp(And(0<=k,k<=n,STR(T,k)>=0),And(k<STR(T,k),STR(T,k)<=n,VS(M,sp+k,STR(T,k)-1-k))),STR(T,k)),FA([k],Imp(And(0<=k,k<=n,NUM(T,k)>=0),And(k<NUM(T,k),VN(M,sp+k,NUM(T,k)-k))),NUM(T,k))]
PMOD=['zj_Value.N','rd','wr','touch','is.zj_node','V','at','pos','rank']+GH+[ND+f for f in NF]
def p_ens(c):
    T,n=text(c); return [('true iff the text is a JSON text',c.ret==ACC(T))]+p_rel(c,T,n,c.s,c.old.h('M'),lambda k: c.old.f('rd',k))
def p_rel(c,T,n,sp,M,rd):
    """what parsing the text T, whose bytes are at sp, has done; M, rd: memory and readable memory"""
    o,s=c.old,c.st; N0=N(o,c.h); R=R_(c); ok=c.ret; k=z3.Int('k!q')
    full=lambda z: And(ok,s.f('bt',z)); imp=lambda l: [(a,Imp(ok,f)) for a,f in l]
    return [('handles',upd(s.h('zj_Value.N'),o.h('zj_Value.N'),c.h,If(ok,R,N0))),
       ('the value refers to its old node or to a new one',Imp(ok,And(R>0,s.f('bt',R),Imp(N0!=0,R==N0),Imp(N0==0,Not(o.f('is.zj_node',R)))))),
       ('the value keeps its key and place',Imp(And(ok,N0!=0),And(*[nf(s,f,R)==nf(o,f,R) for f in('Key','KeyLen','Next','Prev','Father')]))),
       ('a new value is detached',Imp(And(ok,N0==0),And(*[nf(s,f,R)==0 for f in('Key','Next','Prev','Father')]))),
       ('on failure the value is as it was',Imp(Not(ok),old_nodes_same(c,NF))),
       ('live nodes: what was below the value goes, the new tree is added',FA([x],live(c,s.h('V'),ok),s.f('V',x))),
       ('other values are unchanged',And(*[FA([x],Imp(And(o.f('is.zj_node',x),Or(Not(ok),x!=R)),nf(s,f,x)==nf(o,f,x)),nf(s,f,x),nf(o,f,x)) for f in NF])),
       ('other sequences',FA([x,i],Imp(And(o.f('is.zj_node',x),Or(Not(ok),x!=R)),at(s,x,i)==at(o,x,i)),at(s,x,i),at(o,x,i))),('other positions',FA([x],Imp(o.f('is.zj_node',x),s.f('pos',x)==o.f('pos',x)),s.f('pos',x),o.f('pos',x))),
       ('nodes stay',FA([x],Imp(o.f('is.zj_node',x),s.f('is.zj_node',x)),s.f('is.zj_node',x),o.f('is.zj_node',x))),
       ('new nodes are new',FA([x],Imp(full(x),Or(x==R,Not(o.f('is.zj_node',x)))),s.f('bt',x))),
       ('ranks',FA([x],Imp(And(o.f('is.zj_node',x),Or(Not(ok),x!=R)),s.f('rank',x)==o.f('rank',x)),s.f('rank',x))),
       ('readable memory stays readable',FA([k],Imp(o.f('rd',k),s.f('rd',k)),o.f('rd',k),s.f('rd',k))),('writable memory stays writable',FA([k],Imp(o.f('wr',k),s.f('wr',k)),o.f('wr',k),s.f('wr',k)))]+touch_frame(c,A(o,c.h))+WF(s)+\
       imp(mirror(s,M,rd,T,n,sp,R,full,full))
TEXTL=('places','has a key','counts','place of the root','kinds','strings','numbers','literals','keys','first elements','commas','ends','closing brackets','position','open values','verdict','true iff')
MEMC={'rd','wr','touch','alive'}|{'is.'+t for t in STRUCTS if t!='zj_node'}|{'zj_aNode.'+f for f in('Data','SizeOf','Pos','Next')}|{'zj_Allocator.Root','zj_Allocator.End'}
LINKC={'at','pos','dep','op','bt','bs','ts',ND+'Father',ND+'Prev',ND+'Next',ND+'End',ND+'Value',ND+'Len',ND+'Key',ND+'KeyLen',ND+'Type'}
GRAM={'NORM','GV','WS','ts','bs','GA','GO','STR','NUM'}
def p_class(kind,l):
    if not kind.startswith('loop'): return 'mem' if kind.startswith('call') else None
    if any(l.startswith(t) for t in TEXTL): return None
    if 'is readable' in l: return None
    if 'memory' in l: return 'memory'
    if l.startswith('old ') or 'stay' in l or 'saved' in l or 'keeps' in l: return 'frame'
    return 'links'
def p_drop(lab,f):
    """relevance: hypotheses left out for an obligation (leaving out is always sound)"""
    if not z3.is_quantifier(f): return False
    ns=names(f); k=lab.split(':')[-1].strip()
    if lab.startswith('ensures'):
        if 'wf: children' in lab: return bool(ns&(GRAM|MEMC|{'M','op',ND+'Prev',ND+'Next',ND+'End',ND+'Value'}))
        if 'wf' in lab: return any(t in lab for t in('node','text','key')) and bool(ns&{ND+'Prev',ND+'Next',ND+'End','op','at','touch'})
        if 'true iff' in lab: return 'V' in ns or bool(ns&{'at','pos',ND+'Prev',ND+'Next',ND+'Key',ND+'KeyLen','DESCS'}) or bool(ns&MEMC) and 'M' not in ns
        return False
    if 'V' in ns: return not ns<={'V','is.zj_node','rank',ND+'Type'}
    if 'live zj_node' in lab: return bool(ns&(GRAM|{'rd','wr','M'}))
    if lab.startswith('call') or lab.startswith('safety'): return bool(ns&LINKC) and not ns&{'is.zj_node'}
    if 'is readable' in k: return bool(ns&((MEMC-{'rd'})|GRAM|{'at','op','pos','dep',ND+'Prev',ND+'Next',ND+'End',ND+'Key',ND+'KeyLen'}))
    if any(k.startswith(t) for t in('places','kinds','strings','numbers','literals','keys','has a key','verdict')) and ns&{'at','dep'}: return True
    if any(k.startswith(t) for t in TEXTL): return bool(ns&MEMC) and 'M' not in ns or bool(ns&{ND+'Prev',ND+'Next'}) or 'is.zj_node' in ns and bool(ns&set(ND+g for g in NF))
    if 'memory' in k: return bool(ns&(LINKC|GRAM))
    if 'bs' in ns and not ns&{'ts','GV','WS','NORM'}: return False
    if k=='frame' or k.startswith('old ') or 'stay' in k or 'saved' in k or 'keeps' in k: return bool(ns&(GRAM|{'rd','wr','touch'})) or 'bt' in ns and bool(ns&{ND+g for g in('Prev','Next','End','Value')}|ns&{'op'})
    return bool(ns&({'M'}|GRAM)) or bool(ns&MEMC)
POPQ=OPQ+('STR','DIG','WS','EXP','FRAC','INTP','EXPD','HX')
con('zj_ParseFast',[('h','ptr'),('s','ptr')],p_req,p_ens,modifies=PMOD,setup=p_setup,loops=[p_loop(False),p_loop(True)],ghost_exit=p_exit,hooks={'after:zj_allocatorAlloc':p_alloc},opaque=POPQ,par=True,drop=p_drop,together=p_class,
    cases=[('empty',lambda c:N(c.old,c.h)==0),('filled',lambda c:N(c.old,c.h)!=0)],ret='i1')

# ---------------------------------------------------------------- the same from a copy of the text
con('strlen',[('s','ptr')],lambda c:nul_text(c.old,c.s),lambda c:[('length',c.ret==SL(c.old.h('M'),c.s))],trusted=True,ret='i64',doc='the number of bytes before the first NUL')
def chr_ens(c):
    o=c.old; k=z3.Int('k!q'); M=o.h('M'); b=c.ch%256
    return [('found inside',Imp(c.ret!=0,And(c.s<=c.ret,c.ret<c.s+c.n,At(M,c.ret)==b))),('nothing before it',FA([k],Imp(And(c.s<=k,k<If(c.ret==0,c.s+c.n,c.ret)),At(M,k)!=b),At(M,k)))]
con('memchr',[('s','ptr'),('ch','int'),('n','int')],lambda c:readable(c.old,c.s,c.n,'bytes'),chr_ens,trusted=True,ret='ptr',doc='the address of the first such byte among the n given ones, NULL if there is none')
_first0=z3.Function('first0',AI,I,I,I)
def first0(M,s,n):
    """definition: the first NUL among the n bytes at s, n if there is none"""
    k=z3.Int('k!z'); f=_first0(M,s,n)
    return Imp(n>=0,And(0<=f,f<=n,Imp(f<n,At(M,s+f)==0))),FA([k],Imp(And(n>=0,s<=k,k<s+f),At(M,k)!=0),At(M,k))
for g in('psp',): Comps.sorts[g]=AI
def pl_txt(c): 
    s=c.s; return s,(c.a['len'] if 'len' in c.a else SL(c.old.h('M'),s))
def pl_req(c):
    o=c.old; s,n=pl_txt(c)
    r=readable(o,s,n,'text') if 'len' in c.a else nul_text(o,s)
    return WF(o)+HV(o,c.h)+r+[('length limit',And(s>0,s+n<2**47,n<=MAXTEXT-1))]+[('',f) for f in first0(o.h('M'),s,n)]
def pl_hook(c,a):
    s,o=c.st,c.old; M=s.h('M'); t=a['s']; p,n=pl_txt(c); c.ex.g['psp']=t
    s.assume(*text_frame(M,o.h('M'),o.h('rd')),*sl_fact(M,t,n)); s.assume(tr(At(M,t+n),At(M,t+SL(M,t))))
    s.assume(ext(NORM(M,t,SL(M,t)),NORM(o.h('M'),p,n)))
def pl_exit(c):
    g=c.ex.g
    if 'psp' in g: c.st.set('psp',z3.Store(c.old.h('psp'),c.h,g['psp']))
def pl_ens(c):
    o,s=c.old,c.st; p,n=pl_txt(c); T=NORM(o.h('M'),p,n); sp=s.f('psp',c.h); k=z3.Int('k!q')
    return [('true iff the text has no NUL and is a JSON text',c.ret==And(_first0(o.h('M'),p,n)==n,ACC(T)))]+mem_frame(c)+\
       [(l,Imp(c.ret,f)) for l,f in [('a copy of the text',FA([k],Imp(And(sp<=k,k<sp+n),s.f('M',k)==o.f('M',p+(k-sp))),s.f('M',k))),('in memory that nobody used before',FA([k],Imp(And(sp<=k,k<sp+n),Not(o.f('rd',k))),o.f('rd',k)))]]+\
       p_rel(c,T,n,sp,s.h('M'),lambda k: s.f('rd',k))
for nm,ps in(('zj_ParseLen',[('h','ptr'),('s','ptr'),('len','int')]),('zj_Parse',[('h','ptr'),('s','ptr')])):
    con(nm,ps,pl_req,pl_ens,modifies=PMOD+['M','psp'],ghost_exit=pl_exit,hooks={'before:zj_ParseFast':pl_hook},opaque=POPQ+('GV','GA','GO','VS','VN','LN','LB','first0'),ret='i1',exact=True)
