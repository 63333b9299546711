"""Deep copy. Ghost state: src maps every new node to the node it is a copy of, dep is its depth, op the open nodes (whose children
are still being made: the nodes above the one being filled)."""
import z3, re
from sym import *
from text import *
from tree import *
import tree, mem
from mem import FA, upd, And, Or, Not, Imp, If, touch_frame, MAXTEXT, SF, STRUCTS
from setters import OPQ
from lists import at2, ddef, mark, keep, hreq
from lookup import HF
from getters import kind
from stringify import LV, LA, doc, lens_pos
C={}
def con(*a,**k):
    c=Contract(*a,**k); C[c.name]=c; return c
for g in('src','dep'): Comps.sorts[g]=AI
Comps.sorts['op']=AB
x,y,i,j=z3.Ints('x!c y!c i!c j!c')
def cr(o,s,x): return And(s.f('is.zj_node',x),Not(o.f('is.zj_node',x)))
TEQ=z3.Function('TEQ',AI,I,AI,I,I,B)     # TEQ(M,p,M0,q,n): the n bytes at p in M are those at q in M0
RNG=z3.Function('RNG',AB,I,I,B)          # RNG(rd,p,n): the n bytes at p are in rd
NEW=z3.Function('NEW',AB,I,I,B)          # NEW(rd,p,n): none of the n bytes at p is in rd
_tdif=z3.Function('tdif',AI,I,AI,I,I,I); _rdif=z3.Function('rdif',AB,I,I,I)
def vers(s): return s.tags.get('v.rd',())
def teq_def(M2,p,M0,q,n):
    e=_tdif(M2,p,M0,q,n); return Or(TEQ(M2,p,M0,q,n),And(0<=e,e<n,tr(At(M2,p+e)),At(M2,p+e)!=At(M0,q+e)))
def rng_def(rd,p,n):
    g=_rdif(rd,p,n); return Or(RNG(rd,p,n),And(0<=g,g<n,Not(At(rd,p+g))))
def new_def(rd,p,n,vs):
    g=_rdif(rd,p,n); return And(*[tr(At(v,p+g)) for v in vs],Or(NEW(rd,p,n),And(0<=g,g<n,At(rd,p+g))))
def teq_frame(M2,M1,M0,rd1,vs):
    p,q,n=z3.Ints('p!t q!t n!t'); d=_tdif(M2,p,M1,p,n)
    return FA([p,q,n],And(tr(TEQ(M1,p,M0,q,n),RNG(rd1,p,n),*[At(v,p+d) for v in vs]),Or(TEQ(M2,p,M0,q,n)==TEQ(M1,p,M0,q,n),And(0<=d,d<n,Imp(RNG(rd1,p,n),At(rd1,p+d)),At(M2,p+d)!=At(M1,p+d)))),TEQ(M2,p,M0,q,n))
def rng_frame(rd2,rd1,vs):
    p,n=z3.Ints('p!t n!t'); g=_rdif(rd2,p,n)
    return FA([p,n],And(tr(RNG(rd1,p,n),*[At(v,p+g) for v in vs]),Or(RNG(rd2,p,n),And(0<=g,g<n,Not(At(rd2,p+g)),Imp(RNG(rd1,p,n),At(rd1,p+g))))),RNG(rd2,p,n))
def frames(c):
    """lemmas (definitions of TEQ, RNG with a witness for the failing byte): what was equal and readable still is"""
    s=c.st
    for rd in s.tags.get('hR',()):
        if not rd.eq(s.h('rd')): s.assume(rng_frame(s.h('rd'),rd,vers(s)))
def on_alloc(c,a):
    """the new block holds nothing that was there before"""
    o,s=c.old,c.st; p,n=a['ret'],a['size']
    s.assume(new_def(o.h('rd'),p,n,vers(s))); g=[('the block is new memory',NEW(o.h('rd'),p,n))]
    c.ex.prove_many(s,g,'assert'); s.assume(g[0][1])
def on_copy(c,a):
    o,s=c.old,c.st; d,q,n,M1,M2=a; rd=s.h('rd')
    g=[('the text is copied',TEQ(M2,d,o.h('M'),q,n)),('the copy is readable',RNG(rd,d,n))]
    hr=s.tags.get('hR',())
    s.assume(teq_def(M2,d,o.h('M'),q,n),rng_def(rd,d,n)); c.ex.prove_many(s,g,'assert'); s.assume(*[x for _,x in g])
    for r in hr: s.assume(teq_frame(M2,M1,o.h('M'),r,vers(s)))
    s.tags['hR']=hr+(rd,)
def rng_use(rd):
    p,n,k=z3.Ints('p!t n!t k!t')
    return [FA([p,n,k],Imp(And(RNG(rd,p,n),p<=k,k<p+n),At(rd,k)),(RNG(rd,p,n),At(rd,k)))]
def teq_text(M2,M0):
    """lemma (extensionality): equal bytes are equally valid"""
    p,q,n=z3.Ints('p!t q!t n!t')
    return [FA([p,q,n],Imp(TEQ(M2,p,M0,q,n),And(VS(M2,p,n)==VS(M0,q,n),VN(M2,p,n)==VN(M0,q,n))),TEQ(M2,p,M0,q,n))]
def same_text(o,s,x,pf,lf,cond,lab,P=lambda t:t):
    """the text pf/lf of new node x is a copy, in new memory, of the one of its source"""
    p=nf(s,pf,x); q=nf(o,pf,s.f('src',x)); L=nf(s,lf,x)
    return [(lab+': bytes',FA([x],Imp(cond,TEQ(s.h('M'),p,o.h('M'),q,L)),P(p))),(lab+': readable',FA([x],Imp(cond,RNG(s.h('rd'),p,L)),P(p))),(lab+': in new memory',FA([x],Imp(cond,NEW(o.h('rd'),p,L)),P(p))),
            (lab+': place',FA([x],Imp(cond,And(p>0,p+L<2**47)),P(p)))]
def filled_inv(o,s,fl,kf=None,P=lambda t:t):
    """fl(x): x is a new node whose content is there (kf(x): and its key too)"""
    sx=s.f('src',x); g=lambda f:nf(s,f,x); h=lambda f:nf(o,f,sx); F=fl(x); KF=(kf or fl)(x)
    leaf=Or(h('Type')==T_STR,h('Type')==T_NUM)
    return [('copy: kind',FA([x],Imp(F,g('Type')==h('Type')),P(g('Type')))),('copy: length',FA([x],Imp(F,g('Len')==h('Len')),P(g('Len')))),
            ('copy: key',FA([x],Imp(KF,And((g('Key')==0)==(h('Key')==0),Imp(g('Key')!=0,g('KeyLen')==h('KeyLen')))),P(g('Key')))),
            ('copy: literal',FA([x],Imp(And(F,Not(leaf),Not(cont(o,sx))),g('Value')==h('Value')),P(g('Value'))))]+\
            same_text(o,s,x,'Key','KeyLen',And(KF,g('Key')!=0),'copied key',P)+same_text(o,s,x,'Value','Len',And(F,leaf),'copied text',P)
def by_src(s): return lambda t:(s.f('src',x),t)      # instances only for nodes whose source is talked about (no chain of sources)
def link_inv(o,s,fl,r,op,de=None,inner=None):
    """links among the new nodes; op(x): children still being made"""
    X=cr(o,s,x); sx=s.f('src',x); f=nf(s,'Father',x); p=s.f('pos',x); ch=at(s,x,i); lim=s.f('pos',nf(s,'End',x)); ln=nf(o,'Len',sx)
    F=fl(x); done=And(F,Not(op(x)))
    out=[('new: father',FA([x],Imp(X,If(x==r,f==0,And(f!=0,cr(o,s,f),F_ok(fl,f),s.f('src',f)==nf(o,'Father',sx),cont(o,s.f('src',f)),s.f('dep',x)==s.f('dep',f)+1,at(s,f,p)==x,p==o.f('pos',sx),Imp(op(f),p<=s.f('pos',nf(s,'End',f)))))),f)),
         ('new: children',FA([x,i],Imp(And(F,cont(o,sx),0<=i,i<ln,Imp(op(x),i<=lim)),And(cr(o,s,ch),nf(s,'Father',ch)==x,s.f('src',ch)==at(o,sx,i),s.f('pos',ch)==i)),ch)),
         ('new: first child',FA([x],Imp(And(F,cont(o,sx)),nf(s,'Value',x)==If(ln==0,0,at(s,x,0))),nf(s,'Value',x))),
         ('new: last child',FA([x],Imp(And(F,cont(o,sx),ln>0),Imp(Not(op(x)),nf(s,'End',x)==at(s,x,ln-1))),nf(s,'End',x))),
         ('new: previous',FA([x],Imp(X,nf(s,'Prev',x)==If(And(x!=r,p>0),at(s,f,p-1),0)),nf(s,'Prev',x)))]
    nd=done if de is None else And(done,x!=de)
    out+=[('new: next',FA([x],Imp(nd,nf(s,'Next',x)==If(And(x!=r,p+1<nf(o,'Len',nf(o,'Father',sx))),at(s,f,p+1),0)),nf(s,'Next',x))),('new: root',nf(s,'Next',r)==0)]
    return out
def F_ok(fl,f): return fl(f)
def node_inv(o,s,r,n):
    sx=s.f('src',x); D=DESCS(o.h(ND+'Father'),n)
    return [('new: copies of the source tree',FA([x],Imp(cr(o,s,x),And(x>0,o.f('V',sx),s.f('dep',x)>=0,(s.f('dep',x)==0)==(x==r),If(x==r,sx==n,At(D,sx)))),sx))]
def frame_inv(c,loop=True):
    o,s=c.old,c.st; st=[] if loop else [o]      # in the loop only from the present state back to the old one: the chain new -> source -> new -> ... is cut
    same=[FA([x],Imp(o.f('is.zj_node',x),s.f(ND+f,x)==o.f(ND+f,x)),s.f(ND+f,x),*[y.f(ND+f,x) for y in st]) for f in NF]
    return [(f'old nodes: {f}',g) for f,g in zip(NF,same)]+[('nodes stay',FA([x],Imp(o.f('is.zj_node',x),s.f('is.zj_node',x)),s.f('is.zj_node',x),*[y.f('is.zj_node',x) for y in st])),
            ('old sequences',FA([x,i],Imp(o.f('is.zj_node',x),at(s,x,i)==at(o,x,i)),at(s,x,i),*[at(y,x,i) for y in st])),('old positions',FA([x],Imp(o.f('is.zj_node',x),s.f('pos',x)==o.f('pos',x)),s.f('pos',x),*[y.f('pos',x) for y in st]))]+mem_frame(c)+touch_frame(c,A(o,c.h))
def finite(c,h):
    R=N(c.old,h); return [('a finite document',And(*lens_pos(c.old,R)))]
def copy_loop(inner):
    def left(c):
        o=c.old; return (LA if inner else LV)(*doc(o),N(o,c.hh),c.v('node'))
    def inv(c):
        o,s=c.old,c.st; n=N(o,c.hh); r=N(s,c.h); nd,de=c.v('node'),c.v('des'); D=DESCS(o.h(ND+'Father'),n)
        op=lambda x: s.f('op',x)
        fl=lambda x: And(cr(o,s,x),TRUE if inner else x!=de)
        k=s.f('dep',de); e=nf(s,'End',x); f=nf(s,'Father',x)
        return [('source node',And(o.f('V',nd),Or(nd==n,At(D,nd)),s.f('src',de)==nd)),('target node',And(cr(o,s,de),cr(o,s,r),de>0,r>0,k>=0,Not(s.f('op',de)),Imp(de!=r,And(s.f('op',nf(s,'Father',de)),nf(s,'End',nf(s,'Father',de))==de)))),
                ('open nodes',FA([x],Imp(s.f('op',x),And(cr(o,s,x),cont(o,s.f('src',x)),nf(o,'Len',s.f('src',x))>0,Or(e==de,s.f('op',e)),nf(s,'Father',e)==x)),(s.f('op',x),e))),
                ('open nodes are above',FA([x],Imp(s.f('op',x),s.f('dep',x)<k),s.f('op',x))),('one open node for each depth',FA([x,y],Imp(And(s.f('op',x),s.f('op',y),s.f('dep',x)==s.f('dep',y)),x==y),(s.f('op',x),s.f('op',y)))),('fathers of open nodes',FA([x],Imp(And(s.f('op',x),x!=r),And(s.f('op',f),nf(s,'End',f)==x)),(s.f('op',x),f)))]+\
               node_inv(o,s,r,n)+filled_inv(o,s,fl)+link_inv(o,s,fl,r,op,de,inner)+frame_inv(c)+\
               [('to go',And(left(c)>=0,*([left(c)<=s.tags['g.left']] if inner and 'g.left' in s.tags else [])))]
    def arrive(c):
        """ghost: the node made last is the copy of the present source node"""
        o,s=c.old,c.st; nd,de=c.v('node'),c.v('des'); r=N(s,c.h)
        frames(c)
        O1=s.h('op'); O2=fresh('op',AB); f0=nf(s,'Father',de)
        s.assume(FA([x],At(O2,x)==And(x!=de,Or(At(O1,x),And(de!=r,x==f0))),At(O2,x),At(O1,x))); s.set('op',O2)
        if inner: return
        f=nf(s,'Father',de); k=If(de==r,0,s.f('dep',f)+1)
        s.set('src',z3.Store(s.h('src'),de,nd)); s.set('dep',z3.Store(s.h('dep'),de,k)); s.set('pos',z3.Store(s.h('pos'),de,o.f('pos',nd)))
        A2=fresh('at',AAI); A1=s.h('at')
        s.assume(FA([x,i],at2(A2,x,i)==If(And(de!=r,x==f,i==o.f('pos',nd)),de,at2(A1,x,i)),at2(A2,x,i),at2(A1,x,i))); s.set('at',A2)
        s.assume(ddef(o,N(o,c.hh),nd))
    def marks(c):
        o=c.old; nd,de=c.v('node'),c.v('des'); s=c.st
        s.tags['hR']=(s.h('rd'),)
        if not inner: s.tags['g.left']=left(c)
        k=z3.Int('k!c'); vv,kk=nf(o,'Value',nd),nf(o,'Key',nd)
        s.assume(FA([k],Imp(And(o.f('V',nd),Not(cont(o,nd)),vv<=k,k<vv+nf(o,'Len',nd)),o.f('rd',k)),o.f('rd',k)),      # WF of the source node, instantiated
                 FA([k],Imp(And(o.f('V',nd),kk!=0,kk<=k,k<kk+nf(o,'KeyLen',nd)),o.f('rd',k)),o.f('rd',k)))
        g=[('the source node is as it was',And(nd!=de,*[nf(s,f,nd)==nf(o,f,nd) for f in NF]))]
        c.ex.prove_many(s,g,'assert'); s.assume(g[0][1])
        return [tr(nf(o,'Father',nd),nf(o,'Next',nd),nf(o,'Value',nd),nf(o,'Key',nd),nf(s,'Father',de),at(o,nd,0)),ddef(o,N(o,c.hh),nd),Not(At(DESCS(o.h(ND+'Father'),N(o,c.hh)),N(o,c.hh))),ddef(o,N(o,c.hh),at(o,nd,0)),ddef(o,N(o,c.hh),nf(o,'Next',nd)),ddef(o,N(o,c.hh),nf(o,'Father',nd))]
    return Loop(inv,left,roles={'node':('node','ptr'),'des':('des_node','ptr')},ghost=['src','dep','op','at','pos'],arrive=arrive,marks=marks)
def copy_ens(c,ok,r,n):
    """r is the root of a copy of the tree n"""
    o,s=c.old,c.st; new=lambda x: And(ok,cr(o,s,x)); k=z3.Int('k!c')
    return [('new root',Imp(ok,And(r>0,cr(o,s,r),nf(s,'Father',r)==0,nf(s,'Next',r)==0,nf(s,'Prev',r)==0,s.f('src',r)==n))),
            ('every new node is a copy of a source node',FA([x],Imp(new(x),And(x>0,o.f('V',s.f('src',x)))),s.f('is.zj_node',x)))]+\
            filled_inv(o,s,new,None,by_src(s))+\
            [('children are copies of the children, in order',FA([x,i],Imp(And(new(x),cont(o,s.f('src',x)),0<=i,i<nf(o,'Len',s.f('src',x))),And(new(at(s,x,i)),s.f('src',at(s,x,i))==at(o,s.f('src',x),i))),by_src(s)(at(s,x,i)))),
             ('every other new node is below the root',FA([x],Imp(And(new(x),x!=r),And(nf(s,'Father',x)!=0,cr(o,s,nf(s,'Father',x)))),nf(s,'Father',x))),
             ('live nodes: the copy is added',FA([x],s.f('V',x)==Or(o.f('V',x),new(x)),s.f('V',x))),
             ('ranks',FA([x],Imp(o.f('is.zj_node',x),s.f('rank',x)==o.f('rank',x)),s.f('rank',x)))]+frame_inv(c,False)+WF(s)
CMOD=['rd','wr','touch','M','is.zj_node','V','at','pos','rank','src','dep','op']+[ND+f for f in NF]
def copy_exit(c):
    s,o=c.st,c.old
    if z3.is_false(simp(c.ret)): return
    V2=fresh('V',AB); R=fresh('rank',AI)
    s.assume(FA([x],At(V2,x)==Or(o.f('V',x),cr(o,s,x)),At(V2,x)),FA([x],At(R,x)==If(cr(o,s,x),s.f('dep',x),o.f('rank',x)),At(R,x)))
    s.set('V',V2); s.set('rank',R)
    exit_frames(c)
    frames(c); s.assume(*rng_use(s.h('rd'))); s.assume(*teq_text(s.h('M'),o.h('M')))
_nm={}
def names(f):
    """heap components a formula talks about"""
    k=f.get_id()
    if k not in _nm:
        out=set(); todo=[f]; seen=set()
        while todo:
            t=todo.pop()
            if t.get_id() in seen: continue
            seen.add(t.get_id())
            if z3.is_quantifier(t): todo.append(t.body()); continue
            if z3.is_pattern(t): todo.extend(t.children()); continue
            if z3.is_app(t):
                n=t.decl().name()
                if z3.is_const(t):
                    if not z3.is_int(t) and not z3.is_bool(t): out.add(re.split('[!@]',n)[0])
                elif t.decl().kind()==z3.Z3_OP_UNINTERPRETED: out.add(n)
                todo.extend(t.children())
        _nm[k]=(f,out)
    return _nm[k][1]
LINKS={ND+'Father',ND+'Prev',ND+'Next',ND+'End','at','pos','op','dep','rank','DESCS'}
TEXT={'M','rd','wr','TEQ','RNG','NEW','touch','VS','VN','LN','LB'}
def drop_text(lab,f):
    """relevance: which hypotheses are left out for which obligations (leaving out is always sound)"""
    if not z3.is_quantifier(f): return False
    ns=names(f)
    if 'ensures' not in lab and f.num_vars()==2 and f.num_patterns()==1 and f.pattern(0).num_args()==2 and 'rd@0' in str(f.pattern(0).arg(1)): return True
    if lab.startswith('assert') and 'source' not in lab: return bool(ns&(LINKS|{'src','V','is.zj_node'})) and not any(names(f.pattern(i))<=TEXT for i in range(f.num_patterns()))
    if ': copied' in lab.replace('preserve:','preserve: ').replace('init:','init: '): return bool(ns&LINKS)
    if any(w in lab for w in('new: ','open node','source node','target node','copy: ','old sequences')): return bool(ns&TEXT) and 'is.zj_node' not in ns
    return False
def no_open(c):
    O=fresh('op',AB); c.st.assume(FA([x],Not(At(O,x)),At(O,x))); c.st.set('op',O)
def drop_set(lab,f):
    """for the callers: facts about every byte of every text only where bytes are the question"""
    if not z3.is_quantifier(f) or 'ensures' not in lab or 'all ' in lab: return False
    return f.num_vars()==2 and f.num_patterns()==1 and f.pattern(0).num_args()==2 and 'readable' not in lab and any('rd' in names(f.pattern(0).arg(k)) for k in(0,1))
def cf_ens(c):
    o,s=c.old,c.st; n=N(o,c.hh); ok=n!=0; r=N(s,c.h)
    return [('true unless the source is empty',c.ret==ok),('handles',upd(s.h('zj_Value.N'),o.h('zj_Value.N'),c.h,If(ok,r,N(o,c.h))))]+copy_ens(c,ok,r,n)
con('zj_ValueCopyFrom',[('h','ptr'),('hh','ptr')],lambda c:WF(c.old)+HV(c.old,c.hh)+HV(c.old,c.h)[:2]+[('two handles',c.h!=c.hh)]+finite(c,c.hh)+mark(c,c.hh),cf_ens,modifies=CMOD+['zj_Value.N'],
    setup=no_open,loops=[copy_loop(False),copy_loop(True)],ghost_exit=copy_exit,opaque=OPQ,drop=drop_text,hooks={'after:zj_allocatorAlloc':on_alloc,'copy':on_copy},ret='i1')

# ---------------------------------------------------------------- Copy, Set, ArrayAdd, ObjAdd: a new handle, a copy, and where it goes
def after_copy(c,a):
    s=c.st; s.tags['g.mid']=s.copy(); s.tags['g.cp']=a['h']; s.tags['g.q']=a['pre']
def new_mono(c):
    """lemma (definition of NEW): what is new memory with regard to a larger set is new with regard to the smaller one"""
    s,o=c.st,c.old; p,n,k=z3.Ints('p!t n!t k!t'); q=s.tags['g.q'].h('rd'); r=o.h('rd')
    if q.eq(r): return
    g=_rdif(r,p,n)
    s.assume(FA([p,n],And(tr(NEW(q,p,n)),Or(NEW(r,p,n),And(0<=g,g<n,tr(At(q,p+g)),At(r,p+g)))),NEW(r,p,n)),
             FA([p,n,k],Imp(And(NEW(q,p,n),p<=k,k<p+n),Not(At(q,k))),(NEW(q,p,n),At(q,k))))
def old_handles(c,but=None):
    o,s=c.old,c.st; k=z3.Int('k!h')
    return [('existing handles are kept',And(*[FA([k],Imp(And(o.f('is.zj_Value',k),*([k!=but] if but is not None and f==HF[0] else [])),And(s.f('is.zj_Value',k),s.f(f,k)==o.f(f,k))),s.f(f,k),o.f(f,k)) for f in HF]))]
def copy_handle_ens(c):
    o,s=c.old,c.st; n=N(o,c.h); ok=n!=0; r=N(s,c.ret)
    return [('null only for an empty value',(c.ret!=0)==ok),('a new handle',Imp(ok,And(c.ret>0,s.f('is.zj_Value',c.ret),Not(o.f('is.zj_Value',c.ret)),A(s,c.ret)==A(o,c.h))))]+copy_ens(c,ok,r,n)+old_handles(c)
def copy_handle_exit(c):
    if 'g.q' in c.st.tags: new_mono(c); exit_frames(c)
CPHOOK={'after:zj_ValueCopyFrom':after_copy}
CPMOD=CMOD+['zj_Value.N','zj_Value.A','is.zj_Value']
con('zj_Copy',[('h','ptr')],lambda c:hreq(c,c.h)+finite(c,c.h),copy_handle_ens,modifies=CPMOD,ghost_exit=copy_handle_exit,opaque=OPQ,drop=drop_set,hooks=CPHOOK,ret='ptr')
# ---------------------------------------------------------------- the copying adds
def cadd_ok(c,k):
    o=c.old; n=N(o,c.hh); return And(kind(c,k),n!=0,*([nf(o,'Key',n)!=0] if k==T_OBJ else []))
def cadd_exit(c):
    s,o=c.st,c.old
    if 'g.mid' not in s.tags or z3.is_false(simp(c.ret)): return
    mid=s.tags['g.mid']; r=N(mid,s.tags['g.cp']); m=N(o,c.h); L=nf(o,'Len',m)
    A2=fresh('at',AAI); P2=fresh('pos',AI); R=fresh('rank',AI); A1,P1,R1=mid.h('at'),mid.h('pos'),mid.h('rank')
    s.assume(FA([x,i],at2(A2,x,i)==If(And(x==m,i==L),r,at2(A1,x,i)),at2(A2,x,i)),FA([x],At(P2,x)==If(x==r,L,At(P1,x)),At(P2,x)),
             FA([x],At(R,x)==If(cr(o,s,x),At(R1,x)+At(R1,m)+1,At(R1,x)),At(R,x)))
    s.set('at',A2); s.set('pos',P2); s.set('rank',R)
    s.assume(tr(nf(s,'Next',r),nf(s,'Prev',r),nf(s,'Father',r),nf(s,'Value',m),nf(s,'End',m),s.f('pos',r),nf(o,'End',m),nf(o,'Value',m),nf(mid,'Father',r)))
    new_mono(c); exit_frames(c)
def tree_copied(o,s,D,ok,r,keyed):
    """D: the nodes that are copies; keyed: those whose key is a copy too"""
    return filled_inv(o,s,D,keyed,by_src(s))+[('children are copies of the children, in order',FA([x,i],Imp(And(D(x),cont(o,s.f('src',x)),0<=i,i<nf(o,'Len',s.f('src',x))),And(cr(o,s,at(s,x,i)),s.f('V',at(s,x,i)),s.f('src',at(s,x,i))==at(o,s.f('src',x),i))),by_src(s)(at(s,x,i))))]
def cadd_ens(k):
    def e(c):
        o,s=c.old,c.st; m=N(o,c.h); n=N(o,c.hh); ok=cadd_ok(c,k); L=nf(o,'Len',m); r=at(s,m,L); new=lambda x: And(ok,cr(o,s,x)); last=nf(o,'End',m)
        old=lambda f,*but: (f'old nodes: {f}',FA([x],Imp(And(o.f('is.zj_node',x),*[Not(And(ok,b)) for b in but]),nf(s,f,x)==nf(o,f,x)),nf(s,f,x),nf(o,f,x)))
        return [('succeeds exactly when it can',c.ret==ok),('the last child is a copy of the item',Imp(ok,And(r>0,cr(o,s,r),s.f('src',r)==n,s.f('V',r),nf(s,'Father',r)==m,nf(s,'Len',m)==L+1)))]+\
            tree_copied(o,s,new,ok,r,(lambda x: And(new(x),x!=r)) if k==T_ARR else new)+([('the key is dropped',Imp(ok,nf(s,'Key',r)==0))] if k==T_ARR else [])+\
            [old(f) for f in('Type','Key','KeyLen','Father','Prev')]+[old('Value',x==m),old('Len',x==m),old('End',x==m),old('Next',And(L>0,x==last))]+\
            [('old sequences',FA([x,i],Imp(And(o.f('is.zj_node',x),Not(And(ok,x==m,i==L))),at(s,x,i)==at(o,x,i)),at(s,x,i),at(o,x,i))),('old positions',FA([x],Imp(o.f('is.zj_node',x),s.f('pos',x)==o.f('pos',x)),s.f('pos',x),o.f('pos',x))),
             ('live nodes: the copy is added',FA([x],s.f('V',x)==Or(o.f('V',x),new(x)),s.f('V',x)))]+old_handles(c)+mem_frame(c)+touch_frame(c,A(o,c.h))+WF(s)
    return e
for nm,k in(('zj_ArrayAdd',T_ARR),('zj_ObjAdd',T_OBJ)):
    con(nm,[('h','ptr'),('hh','ptr')],lambda c:hreq(c,c.h,c.hh)+[('size limit',nf(c.old,'Len',N(c.old,c.h))<MAXTEXT)]+finite(c,c.hh),cadd_ens(k),modifies=CPMOD,ghost_exit=cadd_exit,opaque=OPQ,drop=drop_set,hooks=CPHOOK,ret='i1')
# ---------------------------------------------------------------- Set
def set_loop():
    def inv(c):
        o,s,p=c.old,c.st,c.pre; mid=p.tags['g.mid']; r=N(mid,p.tags['g.cp']); m=N(o,c.h); nx=c.v('next'); L=nf(p,'Len',r)
        j=If(nx==0,L,mid.f('pos',nx))
        return [('next is a child of the copy or null',Or(nx==0,And(mid.f('V',nx),nf(mid,'Father',nx)==r,tr(mid.f('pos',nx),nf(mid,'Next',nx))))),
                ('children so far',FA([x],nf(s,'Father',x)==If(And(mid.f('V',x),nf(mid,'Father',x)==r,mid.f('pos',x)<j),m,nf(mid,'Father',x)),nf(s,'Father',x),nf(mid,'Father',x)))]
    def var(c):
        p=c.pre; mid=p.tags['g.mid']; r=N(mid,p.tags['g.cp']); nx=c.v('next'); L=nf(mid,'Len',r); return L-If(nx==0,L,mid.f('pos',nx))
    return Loop(inv,var,roles={'next':('next','ptr')})
def set_live(c,V2,x):
    o,s=c.old,c.st; m,n=N(o,c.h),N(o,c.hh); D=DESCS(o.h(ND+'Father'),m); ok=n!=0
    return At(V2,x)==Or(And(o.f('V',x),Not(And(ok,m!=0,At(D,x)))),And(ok,cr(o,s,x),Or(m==0,nf(s,'Father',x)!=0)))
def set_exit(c):
    s,o=c.st,c.old
    if 'g.mid' not in s.tags or z3.is_false(simp(c.ret)): return
    mid=s.tags['g.mid']; r=N(mid,s.tags['g.cp']); m=N(o,c.h); n=N(o,c.hh); tk=m!=0; A1,R1=mid.h('at'),mid.h('rank')
    A2=fresh('at',AAI); V2=fresh('V',AB); R=fresh('rank',AI); D=DESCS(o.h(ND+'Father'),m)
    s.assume(FA([x,i],at2(A2,x,i)==If(And(tk,x==m),at2(A1,r,i),at2(A1,x,i)),at2(A2,x,i)),
             FA([x],And(set_live(c,V2,x),ddef(o,m,x),tr(nf(s,'Father',x),nf(mid,'Father',x))),At(V2,x)),Imp(tk,Not(At(D,m))),      # lemma no_cycle
             FA([x],At(R,x)==If(And(tk,cr(o,s,x)),At(R1,x)+At(R1,m)+1,At(R1,x)),At(R,x)))
    s.set('at',A2); s.set('V',V2); s.set('rank',R); s.set('src',z3.Store(s.h('src'),If(tk,m,r),n))
    s.assume(tr(s.f('V',m),s.f('V',r),nf(s,'Value',m),nf(s,'End',m),nf(mid,'Value',r),nf(mid,'Father',r),nf(s,'Father',r)))
    new_mono(c); exit_frames(c)
def set_ens(c):
    o,s=c.old,c.st; m=N(o,c.h); n=N(o,c.hh); ok=n!=0; tk=And(ok,m!=0); m2=N(s,c.h); k=z3.Int('k!h')
    new=lambda x: And(ok,cr(o,s,x),s.f('V',x)); D=lambda x: And(ok,s.f('V',x),Or(cr(o,s,x),x==m2))
    old=lambda f,*but: (f'old nodes: {f}',FA([x],Imp(And(o.f('is.zj_node',x),*[Not(And(ok,b)) for b in but]),nf(s,f,x)==nf(o,f,x)),nf(s,f,x),nf(o,f,x)))
    return [('true unless the source is empty',c.ret==ok),('the value is the copy',Imp(ok,And(s.f('src',m2)==n,s.f('V',m2),If(m==0,And(m2>0,cr(o,s,m2),nf(s,'Father',m2)==0,nf(s,'Next',m2)==0,nf(s,'Prev',m2)==0),m2==m))))]+\
        tree_copied(o,s,D,ok,m2,new)+[old(f) for f in('Key','KeyLen','Father','Prev','Next')]+[old(f,x==m) for f in('Type','Value','Len','End')]+\
        [('old sequences',FA([x,i],Imp(And(o.f('is.zj_node',x),Not(And(ok,x==m))),at(s,x,i)==at(o,x,i)),at(s,x,i),at(o,x,i))),('old positions',FA([x],Imp(o.f('is.zj_node',x),s.f('pos',x)==o.f('pos',x)),s.f('pos',x),o.f('pos',x))),
         ('live nodes: what was below the value goes, the copy is added',FA([x],set_live(c,s.h('V'),x),s.f('V',x))),
         ('the handle',Imp(Not(And(ok,m==0)),m2==m))]+old_handles(c,c.h)+mem_frame(c)+touch_frame(c,A(o,c.h))+WF(s)
con('zj_Set',[('h','ptr'),('hh','ptr')],lambda c:hreq(c,c.h,c.hh)+finite(c,c.hh),set_ens,modifies=CPMOD,loops=[set_loop()],ghost_exit=set_exit,opaque=OPQ,drop=drop_set,hooks=CPHOOK,ret='i1')
