"""Setters and typed getters."""
import z3
from sym import *
from text import *
from tree import *
import tree, mem
from mem import FA, upd, And, Or, Not, Imp, If, touch_frame, MAXTEXT, SF
C={}
def con(*a,**k):
    c=Contract(*a,**k); C[c.name]=c; return c
VH=('h','ptr')
SETMOD=['zj_Value.N','is.zj_node','rd','wr','touch','V','rank']+[ND+f for f in NF]
def base_req(c): return WF(c.old)+HV(c.old,c.h)
def is_new(c): return N(c.old,c.h)==0
def set_exit(c):
    s,o=c.st,c.old; n=N(s,c.h); new=is_new(c)
    r=c.ret if c.ret is not None else TRUE
    if not s.h('V').eq(o.h('V')): exit_frames(c); return      # a callee has already done the ghost update
    drop_below(c,n,new) if not z3.is_false(simp(r)) else None
    s.set('rank',If(new,z3.Store(o.h('rank'),n,0),o.h('rank')))
    s.assume(tr(*[F(s.h('M'),nf(s,'Value',n),nf(s,'Len',n)) for F in(LN,LB)]))
    exit_frames(c)
def ens_set(c,kind,content,ok,keymode=False):
    """success: exactly the named value changes; failure: nothing does"""
    s,o=c.st,c.old; n=N(s,c.h); n0=N(o,c.h); new=is_new(c)
    g=[('the value refers to its old node or to a new one',Imp(ok,And(n>0,If(new,Not(o.f('is.zj_node',n)),n==n0)))),
       ('handles',And(upd(s.h('zj_Value.N'),o.h('zj_Value.N'),c.h,n),Imp(Not(ok),n==n0)))]
    key=['Key','KeyLen']
    if keymode:
        g+=[('a value that was there keeps its content',Imp(And(ok,Not(new)),And(*[nf(s,f,n)==nf(o,f,n) for f in NF if f not in key]))),
            ('a new value is null',Imp(And(ok,new),And(nf(s,'Type',n)==T_NULL,*[nf(s,f,n)==0 for f in('Next','Prev','Father')])))]
        g+=[('live nodes',FA([x],s.f('V',x)==If(And(ok,new),Or(o.f('V',x),x==n),o.f('V',x)),s.f('V',x),o.f('V',x)))]
    else:
        g+=[('kind',Imp(ok,nf(s,'Type',n)==kind)),
            ('key and position are kept',Imp(And(ok,Not(new)),And(*[nf(s,f,n)==nf(o,f,n) for f in('Key','KeyLen','Next','Prev','Father')]))),
            ('a new value is detached',Imp(And(ok,new),And(*[nf(s,f,n)==0 for f in('Key','Next','Prev','Father')])))]
        l,f=ens_drop(c,n,new); 
        D=DESCS(o.h(ND+'Father'),n)
        g+=[(l,FA([x],s.f('V',x)==If(ok,If(new,Or(o.f('V',x),x==n),And(o.f('V',x),Not(At(D,x)))),o.f('V',x)),s.f('V',x)))]
    g+=[(l,Imp(ok,f)) for l,f in content(c,n)]
    g+=[('every other node is unchanged',old_nodes_same(c,NF,n)),('on failure this node too',Imp(Not(ok),old_nodes_same(c,NF)))]
    g+=[('nodes',Imp(ok,obj_mono(c,'zj_node',n)) if False else obj_mono(c,'zj_node',If(And(ok,new),n,0)) if False else FA([x],And(Imp(o.f('is.zj_node',x),s.f('is.zj_node',x)),Imp(s.f('is.zj_node',x),Or(o.f('is.zj_node',x),And(ok,x==n)))),s.f('is.zj_node',x),o.f('is.zj_node',x)))]
    g+=[('ghost rank',FA([x],Or(x==n,s.f('rank',x)==o.f('rank',x)),s.f('rank',x)))]
    return g+WF(s)+(mem_frame(c) if True else [])+touch_frame(c,A(o,c.h))+[('live',Imp(ok,s.f('V',n)))]
def setter(name,params,req,ok,kind,content,modM=True,keymode=False,extra_mod=(),extra_ens=None,**kw):
    def ens(c):
        o=ok(c)
        g=[] if o is None else [('succeeds exactly when it should',c.ret==o)]
        okf=TRUE if o is None else c.ret
        return g+ens_set(c,kind(c) if callable(kind) else kind,content,okf,keymode)+(extra_ens(c) if extra_ens else [])
    def exit_(c): return base_exit(c,keymode)
    con(name,[VH]+params,lambda c:base_req(c)+(req(c) if req else []),ens,modifies=SETMOD+(['M'] if modM else [])+list(extra_mod),ghost_exit=kw.pop('ghost_exit',exit_),ret=kw.pop('ret','i1'),**kw)
def lit_content(word):
    return lambda c,n: [('length',nf(c.st,'Len',n)==len(word)),('text',bytes_at(c.st,nf(c.st,'Value',n),word))]
setter('zj_SetNull',[],None,lambda c:None,T_NULL,lit_content('null'),modM=False,ret='void')
setter('zj_SetBool',[('b','bool')],None,lambda c:None,T_BOOL,lambda c,n:[('length',nf(c.st,'Len',n)==If(c.b,4,5)),('text',If(c.b,bytes_at(c.st,nf(c.st,'Value',n),'true'),bytes_at(c.st,nf(c.st,'Value',n),'false')))],modM=False,ret='void')
empty=lambda c,n:[('empty',And(nf(c.st,'Len',n)==0,nf(c.st,'Value',n)==0))]
setter('zj_SetArray',[],None,lambda c:None,T_ARR,empty,modM=False,ret='void')
setter('zj_SetObj',[],None,lambda c:None,T_OBJ,empty,modM=False,ret='void')

# ---------------------------------------------------------------- text with a length
from lemmas import text_axioms, body_facts, num_facts
AX=text_axioms()
def sl_fact(M,s,k):
    """SL is the position of the first NUL: if there is one at s+k, then SL is at most k"""
    j=z3.Int('j!s'); n=SL(M,s)
    return [Imp(And(k>=0,At(M,s+k)==0),And(n>=0,n<=k,At(M,s+n)==0)),Imp(And(k>=0,At(M,s+k)==0),FA([j],Imp(And(s<=j,j<s+n),At(M,j)!=0),At(M,j)))]
def chk_hook(c,a):
    c.st.assume(*sl_fact(c.st.h('M'),a['s'],c.a['len']))
def alloc_mods(): return ['rd','wr','touch','M','is.zj_string']+SF
def len_req(c,p='s',al='alloc'):
    o=c.old; s=c.a[p]
    return [('the allocator is alive',o.f('alive',c.a[al]))]*(al is not None)+[('length limit',And(s>=0,s+c.len<2**47,c.len<=MAXTEXT-1))]+readable(o,s,c.len,'text')
for nm,spec in(('zj_checkStrLen',VS),('zj_checkNumLen',VN)):
    con(nm,[('alloc','ptr'),('s','ptr'),('len','int')],lambda c:len_req(c),
        (lambda spec: lambda c:[('true iff the bytes are valid',c.ret==spec(c.old.h('M'),c.s,c.len)),('strings',FA([x],Imp(c.old.f('is.zj_string',x),c.st.f('is.zj_string',x)),c.old.f('is.zj_string',x)))]+mem_frame(c)+touch_frame(c,c.alloc))(spec),
        modifies=alloc_mods(),hooks={'before:zj_checkStr':chk_hook,'before:zj_checkNum':chk_hook},lemmas=AX,ret='i1')

# ---------------------------------------------------------------- setters from text
_dif2=z3.Function('dif2',AI,I,AI,I,I,I)
def copy_frame(M2,p2,M1,p1,n):
    """lemma (extensionality), ground: equal bytes have equal validity"""
    d=_dif2(M2,p2,M1,p1,n); bad=And(0<=d,d<n,tr(At(M2,p2+d),At(M1,p1+d)),At(M2,p2+d)!=At(M1,p1+d))
    return [And(tr(F(M1,p1,n)),Or(F(M2,p2,n)==F(M1,p1,n),bad)) for F in(VS,VN)]
OPQ=('VS','VN','NUM','BODY')
def txt(c):
    """(address, length) of the given text"""
    s=c.a['str']
    return s,(c.a['len'] if 'len' in c.a else SL(c.old.h('M'),s))
def txt_req(c):
    s,n=txt(c)
    if 'len' in c.a: return [('length limit',And(s>0,s+n<2**47,n<=MAXTEXT-1))]+readable(c.old,s,n,'text')
    return nul_text(c.old,s)+[('length limit',n<=MAXTEXT-1)]
def stored(kf,lf,fast):
    def f(c,nd):
        o,s=c.old,c.st; p,n=txt(c); v=nf(s,kf,nd); k=z3.Int('k!c')
        g=[('length',nf(s,lf,nd)==n)]
        if fast: return g+[('the given text is used in place',v==p)]
        return g+[('exactly the given bytes are stored',FA([k],Imp(And(v<=k,k<v+n),s.f('M',k)==o.f('M',p+(k-v))),s.f('M',k))),
                  ('in memory that nobody used before',FA([k],Imp(And(v<=k,k<v+n),Not(o.f('rd',k))),o.f('rd',k)))]
    return f
def txt_ok(spec,key):
    def ok(c):
        o=c.old; p,n=txt(c); h0=N(o,c.h)
        v=spec(o.h('M'),p,n)
        return And(v,Or(h0==0,nf(o,'Father',h0)==0,nf(o,'Type',nf(o,'Father',h0))==T_OBJ)) if key else v
    return ok
def txt_exit(kf,keymode,fast):
    def e(c):
        s,o=c.st,c.old; n=N(s,c.h)
        p,ln=txt(c)
        if not fast: s.assume(*copy_frame(s.h('M'),nf(s,kf,n),o.h('M'),p,ln))
        s.assume(*(num_facts if kf=='Value' and c.ex.con.name.startswith('zj_SetNum') else body_facts)(o.h('M'),p,ln))
        base_exit(c,keymode)
    return e
def base_exit(c,keymode):
    s,o=c.st,c.old; n=N(s,c.h); new=is_new(c)
    if not s.h('V').eq(o.h('V')): exit_frames(c); return
    if keymode:
        s.set('V',If(And(c.ret,new),z3.Store(o.h('V'),n,True),o.h('V'))); s.set('rank',If(And(c.ret,new),z3.Store(o.h('rank'),n,0),o.h('rank')))
        s.assume(tr(*[F(s.h('M'),nf(s,'Value',n),nf(s,'Len',n)) for F in(LN,LB)])); exit_frames(c)
    else: set_exit(c)
for what,kind,kf,lf,spec in(('NumStr',T_NUM,'Value','Len',VN),('Str',T_STR,'Value','Len',VS),('Key',None,'Key','KeyLen',VS)):
    for ln in(0,1):
        for fast in(0,1):
            key=what=='Key'
            setter('zj_Set'+what+('Len' if ln else '')+('Fast' if fast else ''),[('str','ptr')]+([('len','int')] if ln else []),txt_req,txt_ok(spec,key),kind,stored(kf,lf,fast),
                   modM=True,keymode=key,extra_mod=['is.zj_string']+SF if ln else [],ghost_exit=txt_exit(kf,key,fast),opaque=OPQ)
