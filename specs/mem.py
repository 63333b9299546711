"""Memory: malloc/free (trusted), the allocator (its inside is visible only to its own functions) and the string builder."""
import z3
from sym import *
from text import At, con as _con, readable, C as _TC

for n in('alive','touch','used','mlive'): Comps.sorts[n]=AB
for n in('nb','aown','apos','mbase','mown','mo','msz'): Comps.sorts[n]=AI
Comps.sorts['blk']=AAI
Comps.sorts['cmode']=AB
C={}
def con(*a,**k):
    c=Contract(*a,**k); C[c.name]=c; return c
def FA(vs,body,*pats):
    return z3.ForAll(vs,body,patterns=[p if not isinstance(p,tuple) else z3.MultiPattern(*p) for p in pats])
x,y,b,a_,k_=z3.Ints('x!q y!q b!q a!q k!q')
And,Or,Not,Imp,If=z3.And,z3.Or,z3.Not,z3.Implies,z3.If

MAXA=2**30
STRUCTS=['zj_node','zj_Value','zj_Allocator','zj_aNode','zj_string']
# ---------------------------------------------------------------- trusted environment
def handed_out(c):
    for comp in('rd','wr'): c.st.heap[comp]=c.old.h(comp)
def malloc_post(c):
    handed_out(c)
    c.ex.fresh_block(c.st,c.ret,c.n); c.st.pending.append((c.ret,c.n,False))
def ens_malloc(c):
    r=c.ret; n=c.n; o,s=c.old,c.st
    return [('block',And(r>0,r+n<2**47)),('was not live',Not(o.f('mlive',r))),('live',upd(s.h('mlive'),o.h('mlive'),r,z3.BoolVal(True))),('size',upd(s.h('msz'),o.h('msz'),r,n)),
            ('owner map',FA([b],And(tr(o.f('mo',b)),s.f('mo',b)==If(And(r<=b,b<r+n),r,o.f('mo',b))),s.f('mo',b))),
            ('bytes were unowned',FA([b],Imp(And(r<=b,b<r+n),And(o.f('mo',b)==0)),o.f('mo',b),s.f('mo',b))),
            ('a new block',FA([b],o.f('mo',b)!=r,o.f('mo',b),s.f('mo',b))),
            ('bytes were unused',FA([b],Imp(And(r<=b,b<r+n),Not(o.f('used',b))),o.f('used',b)))]
con('malloc',[('n','int')],None,ens_malloc,modifies=['rd','wr','mlive','msz','mo'],post_assume=malloc_post,trusted=True,
    doc='returns a block of the given size that overlaps nothing in use (never NULL)')
def free_post(c):
    for comp in['rd','wr']+['is.'+t for t in STRUCTS]:
        o=c.old.h(comp); n=c.st.h(comp)
        c.st.assume(FA([b],And(tr(At(o,b)),At(n,b)==And(At(o,b),c.old.f('mo',b)!=c.p)),At(n,b)))
def ens_free(c):
    p=c.p; o,s=c.old,c.st
    return [('live',upd(s.h('mlive'),o.h('mlive'),p,z3.BoolVal(False))),('owner map',FA([b],s.f('mo',b)==If(o.f('mo',b)==p,0,o.f('mo',b)),s.f('mo',b)))]
con('free',[('p','ptr')],lambda c:[('freed block is live, so no block is freed twice',c.old.f('mlive',c.p))],ens_free,
    modifies=['rd','wr','mlive','mo']+['is.'+t for t in STRUCTS],post_assume=free_post,trusted=True,ret='void',
    doc='releases exactly the block obtained from malloc at that address')

# ---------------------------------------------------------------- allocator (inside)
F=['zj_Allocator.Root','zj_Allocator.End','zj_aNode.Data','zj_aNode.SizeOf','zj_aNode.Pos','zj_aNode.Next']
HID=F+['is.zj_Allocator','is.zj_aNode','nb','blk','aown','apos','mbase','mown','mo','mlive','msz','used','cmode']
def AWF(s):
    al=s.f('alive',a_); bk=At(s.f('blk',a_),k_); nd=s.f('is.zj_aNode',x); ow=s.f('aown',x); ps=s.f('apos',x)
    D,Z,P=s.f('zj_aNode.Data',x),s.f('zj_aNode.SizeOf',x),s.f('zj_aNode.Pos',x)
    return [('allocator: ends of the list',FA([a_],Imp(al,And(a_>0,s.f('is.zj_Allocator',a_),s.f('nb',a_)>=1,s.f('zj_Allocator.Root',a_)==At(s.f('blk',a_),0),s.f('zj_Allocator.End',a_)==At(s.f('blk',a_),s.f('nb',a_)-1))),al)),
      ('allocator: list of pieces',FA([a_,k_],Imp(And(al,0<=k_,k_<s.f('nb',a_)),And(s.f('is.zj_aNode',bk),s.f('aown',bk)==a_,s.f('apos',bk)==k_)),bk)),
      ('allocator: next links',FA([x],Imp(nd,s.f('zj_aNode.Next',x)==If(ps+1<s.f('nb',ow),At(s.f('blk',ow),ps+1),0)),s.f('zj_aNode.Next',x))),
      ('piece: owner',FA([x],Imp(nd,And(x>0,s.f('alive',ow),0<=ps,ps<s.f('nb',ow),At(s.f('blk',ow),ps)==x)),nd)),
      ('piece: fill level',FA([x],Imp(nd,And(P<=Z,Z>=1,Z<=2**31,D>0,D+Z<2**47)),nd)),
      ('piece: memory block',FA([x],Imp(nd,And(s.f('mlive',s.f('mbase',x)),s.f('mown',s.f('mbase',x))==x,s.f('mo',x)==s.f('mbase',x),s.f('mbase',x)==If(And(ps==0,s.f('cmode',ow)),ow,x))),nd)),
      ('piece: bytes inside its own block',FA([x,b],Imp(And(nd,D<=b,b<D+Z),s.f('mo',b)==s.f('mbase',x)),(nd,s.f('mo',b)),(nd,s.f('used',b)))),
      ('piece: the tail is unused',FA([x,b],Imp(And(nd,D+P<=b,b<D+Z),Not(s.f('used',b))),(nd,s.f('used',b)))),
      ('allocator: own storage',FA([a_],Imp(And(al,s.f('cmode',a_)),s.f('mo',a_)==a_),al)),
      ('allocator: storage of a C++ allocator object lies in no piece',FA([a_,x],Imp(And(al,Not(s.f('cmode',a_)),nd),s.f('mbase',x)!=s.f('mo',a_)),(al,nd))),
      ('null is no piece',Not(s.f('is.zj_aNode',0)))]
def other_pieces(c,a):
    o,s=c.old,c.st
    return [('pieces of other allocators are untouched',FA([x],Imp(And(o.f('is.zj_aNode',x),o.f('aown',x)!=a),And(s.f('is.zj_aNode',x),*[s.f(f,x)==o.f(f,x) for f in F[2:]])),s.f('is.zj_aNode',x),o.f('is.zj_aNode',x))),
            ('other allocators are untouched',FA([x],Imp(x!=a,And(s.f(F[0],x)==o.f(F[0],x),s.f(F[1],x)==o.f(F[1],x))),s.f(F[0],x),s.f(F[1],x)))]

def new_exit(own):
    def g(c):
        s,o=c.st,c.old
        a=c.ret if own else c.this
        root=s.f('zj_Allocator.Root',a)
        s.set('alive',z3.Store(o.h('alive'),a,True))
        s.set('nb',z3.Store(s.h('nb'),a,1)); s.set('blk',z3.Store(s.h('blk'),a,z3.Store(s.f('blk',a),0,root)))
        s.set('aown',z3.Store(s.h('aown'),root,a)); s.set('apos',z3.Store(s.h('apos'),root,0))
        base=a if own else root
        s.set('mbase',z3.Store(s.h('mbase'),root,base)); s.set('mown',z3.Store(s.h('mown'),base,root))
        s.set('cmode',z3.Store(s.h('cmode'),a,z3.BoolVal(own)))
        s.set('rd',o.h('rd')); s.set('wr',o.h('wr'))        # the free piece is handed over to the allocator
    return g
def ens_new(own):
    def e(c):
        s,o=c.st,c.old; a=c.ret if own else c.this
        return [('a live allocator',upd(s.h('alive'),o.h('alive'),a,z3.BoolVal(True))),('it was none before',Not(o.f('alive',a))),('address',a>0)]
    return e
def h_ens_new(own):
    def e(c):
        s,o=c.st,c.old; a=c.ret if own else c.this
        m=z3.Int('m!q')
        base=a if own else s.f('zj_Allocator.Root',a)
        return AWF(s)+other_pieces(c,a)+[('exactly one block is obtained, and it is owned',FA([m],s.f('mlive',m)==Or(o.f('mlive',m),m==base),s.f('mlive',m)))]
    return e
con('zj_NewAllocator',[],None,ens_new(True),modifies=['alive'],ghost_exit=new_exit(True),hidden=HID,hidden_req=lambda c:AWF(c.old)+meta(c.old),hidden_ens=h_ens_new(True),ret='ptr')
def meta(s):
    """engine invariant: typed allocator objects lie in memory in use"""
    return [('',FA([x],Imp(s.f('alive',x),s.f('is.zj_Allocator',x)),s.f('alive',x)))]

def alloc_req(c):
    return [('the allocator is alive',c.old.f('alive',c.alloc)),('the size is within the limit',c.size<=MAXA)]
def alloc_hreq(c):
    o=c.old; e=o.f('zj_Allocator.End',c.alloc)
    return AWF(o)+[('resource limit: the last piece is at most 1 GiB',o.f('zj_aNode.SizeOf',e)<=MAXA)]
def ens_alloc(c):
    r=c.ret; s,o=c.st,c.old
    return [('address',And(r>0,r+c.size<2**47)),('only this allocator is asked for memory',upd(s.h('touch'),o.h('touch'),c.alloc,z3.BoolVal(True)))]
def alloc_post(c):
    handed_out(c)
    c.ex.fresh_block(c.st,c.ret,c.size); c.st.pending.append((c.ret,c.size,False))
def alloc_exit(c):
    s,o=c.st,c.old
    s.set('touch',z3.Store(o.h('touch'),c.alloc,True))
    u=fresh('used',AB); uo=o.h('used')
    s.assume(FA([b],And(tr(At(uo,b)),At(u,b)==Or(At(uo,b),And(c.ret<=b,b<c.ret+c.size))),At(u,b)))
    s.set('used',u)
    e=s.f('zj_Allocator.End',c.alloc)
    grown=e!=o.f('zj_Allocator.End',c.alloc)
    n=o.f('nb',c.alloc)
    # ghost: a new piece is appended to the list
    def up(comp,key,val): s.set(comp,z3.If(grown,z3.Store(s.h(comp),key,val),s.h(comp)))
    up('nb',c.alloc,n+1); s.set('blk',z3.If(grown,z3.Store(s.h('blk'),c.alloc,z3.Store(s.f('blk',c.alloc),n,e)),s.h('blk')))
    up('aown',e,c.alloc); up('apos',e,n); up('mbase',e,e); up('mown',e,e)
    for comp in('rd','wr'):
        s.set(comp,alloc_rd(s,o.h(comp),c))
def alloc_rd(s,old,c):
    n=fresh('rd',AB); s.assume(FA([b],And(tr(At(old,b)),At(n,b)==Or(At(old,b),And(c.ret<=b,b<c.ret+c.size))),At(n,b))); return n
def h_ens_alloc(c):
    s,o=c.st,c.old; r=c.ret; m=z3.Int('m!q'); q=fresh('q',I)
    e=s.f('zj_Allocator.End',c.alloc)
    return AWF(s)+other_pieces(c,c.alloc)+[
      ('the block was not in use',Imp(And(r<=q,q<r+c.size),Not(o.f('used',q)))),
      ('the block lies in memory of this allocator',Imp(And(r<=q,q<r+c.size),And(s.f('mo',q)==s.f('mbase',e),s.f('aown',e)==c.alloc,s.f('zj_aNode.Data',e)<=q,q<s.f('zj_aNode.Data',e)+s.f('zj_aNode.SizeOf',e)))),
      ('exactly the block becomes used',FA([b],s.f('used',b)==Or(o.f('used',b),And(r<=b,b<r+c.size)),s.f('used',b))),
      ('pieces stay where they are',FA([x],Imp(o.f('is.zj_aNode',x),And(s.f('is.zj_aNode',x),s.f('zj_aNode.Data',x)==o.f('zj_aNode.Data',x),s.f('zj_aNode.SizeOf',x)==o.f('zj_aNode.SizeOf',x),s.f('aown',x)==o.f('aown',x))),s.f('is.zj_aNode',x),o.f('is.zj_aNode',x))),
      ('every block obtained is owned',FA([m],Imp(s.f('mlive',m),Or(o.f('mlive',m),And(s.f('is.zj_aNode',m),s.f('mbase',m)==m,s.f('aown',m)==c.alloc))),s.f('mlive',m))),
      ('no block is given back',FA([m],Imp(o.f('mlive',m),s.f('mlive',m)),o.f('mlive',m)))]
def alloc_loop():
    def inv(c): return [('growing',And(c.v('s')>=1,c.v('s')<=2**31))]
    return Loop(inv,lambda c: If(c.v('s')<c.size,c.size-c.v('s'),0),roles={'s':('s','i32')})
con('zj_allocatorAlloc',[('alloc','ptr'),('size','int')],alloc_req,ens_alloc,modifies=['rd','wr','touch'],post_assume=alloc_post,ghost_exit=alloc_exit,
    hidden=HID,hidden_req=alloc_hreq,hidden_ens=h_ens_alloc,loops=[alloc_loop()],ret='ptr')

# ---------------------------------------------------------------- release
def rel_freed(o,a,m,lo,hi):
    """block m holds a piece of allocator a whose position is in [lo,hi)"""
    t=o.f('mown',m)
    return And(o.f('is.zj_aNode',t),o.f('mbase',t)==m,o.f('aown',t)==a,lo<=o.f('apos',t),o.f('apos',t)<hi)
def rel_state(o,s,a,lo,hi):
    m=z3.Int('m!q'); out=[('blocks freed so far',FA([m],And(tr(o.f('mlive',m)),s.f('mlive',m)==And(o.f('mlive',m),Not(rel_freed(o,a,m,lo,hi)))),s.f('mlive',m))),
        ('owner map',FA([b],s.f('mo',b)==If(rel_freed(o,a,o.f('mo',b),lo,hi),0,o.f('mo',b)),s.f('mo',b)))]
    for comp in['rd','wr']+['is.'+t for t in STRUCTS]:
        out.append((f'only freed memory leaves {comp}',FA([b],And(tr(o.f(comp,b)),s.f(comp,b)==And(o.f(comp,b),Not(rel_freed(o,a,o.f('mo',b),lo,hi)))),s.f(comp,b))))
    return out
def rel_loop(lo,al):
    def inv(c):
        o,s=c.old,c.st; a=al(c); n=c.v('next')
        j=If(n==0,o.f('nb',a),o.f('apos',n))
        return [('next is a piece of the list',Or(n==0,And(o.f('is.zj_aNode',n),o.f('aown',n)==a,o.f('apos',n)>=lo))),('something is left',j>=lo)]+rel_state(o,s,a,lo,j)
    def var(c):
        n=c.v('next'); return If(n==0,0,c.old.f('nb',al(c))-c.old.f('apos',n))
    return Loop(inv,var,roles={'next':('next','ptr')})
def rel_exit(al):
    def g(c): c.st.set('alive',z3.Store(c.old.h('alive'),al(c),False))
    return g
REL=['rd','wr','alive']+['is.'+t for t in('zj_node','zj_Value','zj_string')]
def rel_contract(name,param,cm):
    al=lambda c: c.a[param]
    hid=[h for h in HID]
    con(name,[(param,'ptr')],lambda c:[('the allocator is alive',c.old.f('alive',al(c)))],
      lambda c:[('it is no allocator any more',upd(c.st.h('alive'),c.old.h('alive'),al(c),z3.BoolVal(False)))],
      modifies=REL,hidden=hid,hidden_req=lambda c:AWF(c.old)+[('',c.old.f('cmode',al(c))==cm)],
      hidden_ens=lambda c:AWF(c.st)+rel_state(c.old,c.st,al(c),0,c.old.f('nb',al(c))),
      ghost_exit=rel_exit(al),loops=[rel_loop(1 if cm else 0,al)],ret='void',langs=('c','c++') if cm else ('c++',))
rel_contract('zj_ReleaseAllocator','alloc',True)
rel_contract('~zj_Allocator','this',False)
con('zj_Allocator',[('this','ptr')],lambda c:[('raw storage of the object',And(c.old.f('is.zj_Allocator',c.this),Not(c.old.f('alive',c.this)),c.this>0))],ens_new(False),modifies=['alive'],ghost_exit=new_exit(False),hidden=HID,
    hidden_req=lambda c:AWF(c.old)+meta(c.old)+[('the object does not lie in a piece',FA([x],Imp(c.old.f('is.zj_aNode',x),c.old.f('mbase',x)!=c.old.f('mo',c.this)),c.old.f('is.zj_aNode',x))),('nor in free memory',c.old.f('mo',c.this)>0)],hidden_ens=h_ens_new(False),ret='void',langs=('c++',))

# ---------------------------------------------------------------- string builder
SF=['zj_string.Data','zj_string.Pos','zj_string.SizeOf','zj_string.A']
MAXTEXT=2**28
def region(s,lo,n,lab):
    k=z3.Int('k!q')
    return [(f'{lab}: region',And(lo>0,lo+n<2**47)),(f'{lab}: readable',FA([k],Imp(And(lo<=k,k<lo+n),s.f('rd',k)),s.f('rd',k))),(f'{lab}: writable',FA([k],Imp(And(lo<=k,k<lo+n),s.f('wr',k)),s.f('wr',k)))]
def S_OK(s,str_):
    D,P,Z,A=[s.f(f,str_) for f in SF]
    return [('builder: object',And(str_>0,s.f('is.zj_string',str_))),('builder: allocator alive',s.f('alive',A)),('builder: size',And(Z>=1,Z<=2**29,P<=Z,P<=MAXTEXT))]+region(s,D,Z,'builder')
BUILD_MOD=['rd','wr','touch']+SF
def touch_frame(c,A):
    o,s=c.old,c.st
    return [('only this allocator is asked for memory',FA([x],And(Imp(o.f('touch',x),s.f('touch',x)),Imp(s.f('touch',x),Or(o.f('touch',x),x==A))),s.f('touch',x),o.f('touch',x)))]
def grown_region(o,s,comp,lo,n,fresh_):
    """comp' = comp plus [lo,lo+n), which was not in comp before when fresh_"""
    k=z3.Int('k!q')
    return FA([k],And(tr(o.f(comp,k)),s.f(comp,k)==Or(o.f(comp,k),And(lo<=k,k<lo+n)),Imp(And(fresh_,lo<=k,k<lo+n),Not(o.f(comp,k)))),s.f(comp,k),o.f(comp,k))
def ens_newstr(c):
    o,s=c.old,c.st; r=c.ret; D=s.f(SF[0],r)
    return [('a new object',And(r>0,upd(s.h('is.zj_string'),o.h('is.zj_string'),r,z3.BoolVal(True)),Not(o.f('is.zj_string',r)))),
            ('empty',upd(s.h(SF[1]),o.h(SF[1]),r,z3.IntVal(0))),('capacity',upd(s.h(SF[2]),o.h(SF[2]),r,c.init_size)),('allocator',upd(s.h(SF[3]),o.h(SF[3]),r,c.alloc)),
            ('data',And(upd(s.h(SF[0]),o.h(SF[0]),r,D),D>0,D+c.init_size<2**47)),
            ('fresh region',And(grown_region(o,s,'rd',D,c.init_size,z3.BoolVal(True)),grown_region(o,s,'wr',D,c.init_size,z3.BoolVal(True))))]+touch_frame(c,c.alloc)
con('zj_newString',[('alloc','ptr'),('init_size','int')],lambda c:[('the allocator is alive',c.old.f('alive',c.alloc)),('size',And(c.init_size>=1,c.init_size<=MAXTEXT+1))],
    ens_newstr,modifies=BUILD_MOD+['is.zj_string'],ret='ptr')
def in_builder(o,str_,k): D,Z=o.f(SF[0],str_),o.f(SF[2],str_); return And(D<=k,k<D+Z)
def app_req(size):
    def r(c):
        o=c.old; n=size(c)
        rs=S_OK(o,c.str)+[('length limit',o.f(SF[1],c.str)+n<=MAXTEXT)]
        if 's' in c.a:
            k=z3.Int('k!q')
            rs+=[('source readable',FA([k],Imp(And(c.s<=k,k<c.s+n),And(o.f('rd',k),Not(in_builder(o,c.str,k)))),o.f('rd',k))),('source',And(c.s>=0,c.s+n<2**47))]
        return rs
    return r
def app_ens(size,byte):
    def e(c):
        o,s=c.old,c.st; t=c.str; n=size(c); k=z3.Int('k!q')
        D0,P0,Z0,A=[o.f(f,t) for f in SF]; D,P,Z,_=[s.f(f,t) for f in SF]
        new=D!=D0
        return [('object',And(*[FA([x],Or(x==t,s.f(f,x)==o.f(f,x)),s.f(f,x),o.f(f,x)) for f in SF[:3]])),('length',P==P0+n),('capacity',And(P<=Z,Z<=2**29,Z>=Z0,Z>=1)),
          ('same or new region',And(D>0,D+Z<2**47,Imp(Not(new),Z==Z0),grown_region(o,s,'rd',D,Z,new),grown_region(o,s,'wr',D,Z,new))),
          ('what was there is kept',FA([k],Imp(And(D<=k,k<D+P0),s.f('M',k)==o.f('M',D0+(k-D))),s.f('M',k))),
          ('what was appended is there',FA([k],Imp(And(D+P0<=k,k<D+P0+n),s.f('M',k)==byte(c,k-D-P0)),s.f('M',k))),
          ('nothing else is written',FA([k],Imp(And(o.f('rd',k),Not(in_builder(o,t,k))),s.f('M',k)==o.f('M',k)),s.f('M',k),o.f('M',k)))]+touch_frame(c,A)
    return e
def app_loop():
    def inv(c):
        n=c.old.f(SF[1],c.str)+c.size; v=c.v('src_s')
        return [('growing',And(v>=1,v<=2**29,v>=c.old.f(SF[2],c.str),v<2*n))]
    return Loop(inv,lambda c: If(c.v('src_s')<c.old.f(SF[1],c.str)+c.size,c.old.f(SF[1],c.str)+c.size-c.v('src_s'),0),roles={'src_s':('src_s','i32')})
APP_MOD=['rd','wr','touch','M']+SF[:3]
con('zj_appendStr',[('str','ptr'),('s','ptr'),('size','int')],app_req(lambda c:c.size),app_ens(lambda c:c.size,lambda c,j:c.old.f('M',c.s+j)),modifies=APP_MOD,loops=[app_loop()],ret='void')
con('zj_appendChar',[('str','ptr'),('ch','int')],app_req(lambda c:1),app_ens(lambda c:1,lambda c,j:c.ch),modifies=APP_MOD,ret='void')
