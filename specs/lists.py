"""Move, the moving adds, deletes, SetFast."""
import z3
from sym import *
from text import *
from tree import *
import tree, mem
from mem import FA, upd, And, Or, Not, Imp, If, touch_frame, MAXTEXT, SF, STRUCTS
from setters import OPQ
from getters import kind, CHB
import lookup
from lookup import HF, HMOD
C={}
def con(*a,**k):
    c=Contract(*a,**k); C[c.name]=c; return c
def two(s,n): return Select2(s,n)
def at2(a,n,i): return At(At(a,n),i)
i2=z3.Int('i!2'); x2=z3.Int('x!2')
LINKS=['Value','End','Len','Next','Prev','Father']
MV=[ND+f for f in LINKS]+['at','pos']
def mark(c,*hs):
    o=c.old; out=[]
    for h in hs:
        n=N(o,h); f=nf(o,'Father',n)
        out.append(tr(f,nf(o,'Next',n),nf(o,'Prev',n),nf(o,'Value',n),nf(o,'End',n),nf(o,'Key',n),o.f('V',n),nf(o,'Value',f),nf(o,'End',f)))
    return [('',And(*out))]
def hreq(c,*hs):
    r=WF(c.old)
    for h in hs: r+=HV(c.old,h)
    return r+mark(c,*hs)
# ---------------------------------------------------------------- taking out
def seq_ens(c,o,s,att,f,p0,n,app=None):
    """child sequences: the child at p0 of f is taken out when att; then n is appended to app when given"""
    if app is not None: ok,p=app; Lm=nf(o,'Len',p)-If(And(att,f==p),1,0); isapp=And(ok,x2==p,i2==Lm)
    else: isapp=FALSE
    a0=If(And(att,x2==f,i2>=p0),at(o,x2,i2+1),at(o,x2,i2))
    p1=If(And(att,nf(o,'Father',x2)==f,o.f('pos',x2)>p0,x2!=n),o.f('pos',x2)-1,o.f('pos',x2))
    L=nf(o,'Len',x2)-If(And(att,x2==f),1,0)
    if app is not None: p1=If(And(ok,x2==n),Lm,p1); L=L+If(And(ok,x2==p),1,0)
    return [('sequences of children',FA([x2,i2],at(s,x2,i2)==If(isapp,n,a0),at(s,x2,i2))),
            ('positions',FA([x2],s.f('pos',x2)==p1,s.f('pos',x2))),
            ('sizes',FA([x2],Imp(o.f('V',x2),nf(s,'Len',x2)==L),nf(s,'Len',x2)))]
def set_seq(c,o,s,att,f,p0,n,app=None):
    """the ghost update that goes with seq_ens (o: state before, s: now)"""
    A2=fresh('at',AAI); P2=fresh('pos',AI); st=s
    class W:                       # view with the new ghosts
        def h(_,k): return {'at':A2,'pos':P2}.get(k) if k in('at','pos') else st.h(k)
        def f(_,k,x): return At(_.h(k),x)
    fs=seq_ens(c,o,W(),att,f,p0,n,app)
    s.assume(*[g for l,g in fs if l!='sizes']); s.set('at',A2); s.set('pos',P2)
def n_f(c,h='h'):
    o=c.old; n=N(o,c.a[h]); return n,nf(o,'Father',n),o.f('pos',n)
def move_exit(c):
    s,o=c.st,c.old
    if not s.h('at').eq(o.h('at')): return
    n,f,p0=n_f(c); set_seq(c,o,s,And(n!=0,f!=0),f,p0,n)
    s.assume(tr(nf(s,'Next',n),nf(s,'Prev',n)))
def keep(c,fields,*but):
    """fields of every node but those named are unchanged"""
    o,s=c.old,c.st
    return And(*[FA([x2],Or(*[And(g,x2==b) for g,b in but],s.f(ND+f,x2)==o.f(ND+f,x2)),s.f(ND+f,x2),o.f(ND+f,x2)) for f in fields])
def move_ens(c):
    o,s=c.old,c.st; n,f,p0=n_f(c); ok=n!=0; att=And(ok,f!=0)
    return [('true unless empty',c.ret==ok),('detached',Imp(ok,And(nf(s,'Father',n)==0,nf(s,'Next',n)==0,nf(s,'Prev',n)==0)))]+seq_ens(c,o,s,att,f,p0,n)+\
      [('contents are kept',keep(c,['Value','End','Len'],(att,f))),('fathers are kept',keep(c,['Father'],(att,n))),('nothing changes when it was detached',Imp(Not(att),keep(c,LINKS)))]+WF(s)
con('zj_Move',[CHB],lambda c:hreq(c,c.h),move_ens,modifies=MV,ghost_exit=move_exit,opaque=OPQ,ret='i1')
# ---------------------------------------------------------------- appending
def not_below(c):
    o=c.old; m,n=N(o,c.h),N(o,c.hh)
    return [('the item is not the container and does not contain it',Or(m==0,n==0,And(m!=n,Not(At(DESCS(o.h(ND+'Father'),n),m))))),('size limit',nf(o,'Len',m)<MAXTEXT)]
def add_req(c): return hreq(c,c.h,c.hh)+not_below(c)
def shift_rank(c,n,m,extra=None):
    """ghost: the ranks of n's subtree are lifted above m"""
    s,o=c.st,c.old; F=o.h(ND+'Father'); D=DESCS(F,n); R=fresh('rank',AI); R0=o.h('rank')
    s.assume(FA([x2],And(At(R,x2)==If(Or(x2==n,At(D,x2)),At(R0,x2)+At(R0,m)+1,At(R0,x2)),At(D,x2)==And(At(F,x2)!=0,Or(At(F,x2)==n,At(D,At(F,x2))))),At(R,x2)))
    s.assume(Not(At(D,n)))                     # lemma no_cycle
    s.set('rank',R)
def add_exit(c):
    s,o=c.st,c.old; m=N(o,c.h); n,f,p0=n_f(c,'hh')
    r=simp(c.ret)
    if z3.is_false(r) or not s.h('rank').eq(o.h('rank')): return
    # the present ghost state is the one after the move
    set_seq(c,o,s,And(c.ret,f!=0),f,p0,n,(c.ret,m))
    shift_rank(c,n,m)
    s.assume(tr(nf(s,'Next',n),nf(s,'Prev',n),nf(s,'Father',n),s.f('pos',n)))
def add_ok(c,k):
    o=c.old; n=N(o,c.hh)
    return And(kind(c,k),n!=0,*([nf(o,'Key',n)!=0] if k==T_OBJ else []))
def add_ens(k):
    def e(c):
        o,s=c.old,c.st; m=N(o,c.h); n,f,p0=n_f(c,'hh'); ok=add_ok(c,k); att=And(ok,f!=0)
        g=[('succeeds exactly when it can',c.ret==ok),('it belongs to the container',Imp(ok,nf(s,'Father',n)==m)),('the source value is empty then',upd(s.h('zj_Value.N'),o.h('zj_Value.N'),c.hh,If(ok,0,n)))]
        g+=seq_ens(c,o,s,att,f,p0,n,(ok,m))
        g+=[('contents are kept',keep(c,['Value','End','Len'],(att,f),(ok,m))),('fathers are kept',keep(c,['Father'],(ok,n))),('nothing changes on failure',Imp(Not(ok),keep(c,LINKS)))]
        if k==T_ARR: g+=[('the key is dropped',upd(s.h(ND+'Key'),o.h(ND+'Key'),n,If(ok,0,nf(o,'Key',n))))]
        return g+WF(s)
    return e
for nm,k in(('zj_ArrayAddFast',T_ARR),('zj_ObjAddFast',T_OBJ)):
    con(nm,[CHB,('hh','ptr')],add_req,add_ens(k),modifies=MV+['zj_Value.N','rank']+([ND+'Key'] if k==T_ARR else []),ghost_exit=add_exit,opaque=OPQ,ret='i1')
# ---------------------------------------------------------------- deleting
from lookup import key_req, none_before, match
def wit(c):
    if 'p' not in c.g: c.g['p']=fresh('p',I)
    return c.g['p']
def del_ens(key):
    def e(c):
        o,s=c.old,c.st; m=N(o,c.h); ln=nf(o,'Len',m); k=z3.Int('k!h')
        if key:
            p=wit(c); ok=c.ret
            g=[('false only if no key matches',Imp(Not(ok),Or(Not(kind(c,T_OBJ)),none_before(c,ln)))),('the first member whose key matches',Imp(ok,And(kind(c,T_OBJ),0<=p,p<ln,match(c,at(o,m,p)),none_before(c,p))))]
        else:
            p=c.index; ok=And(kind(c,T_ARR),p<ln); g=[('true iff there is such an element',c.ret==ok)]
        n=at(o,m,p)
        return g+[('it is detached',Imp(ok,nf(s,'Father',n)==0))]+seq_ens(c,o,s,ok,m,p,n)+[('contents are kept',keep(c,['Value','End','Len'],(ok,m))),('fathers are kept',keep(c,['Father'],(ok,n))),('nothing changes on failure',Imp(Not(ok),keep(c,LINKS))),
            ('existing handles are kept',And(*[FA([k],Imp(o.f('is.zj_Value',k),And(s.f('is.zj_Value',k),s.f(f,k)==o.f(f,k))),s.f(f,k)) for f in HF]))]+WF(s)+mem_frame(c)+touch_frame(c,A(o,c.h))
    return e
def get_hook(c,a): 
    c.ex.g['p']=c.old.f('pos',c.st.f(HF[0],a['ret'])); n=N(c.old,c.h)
    c.st.assume(tr(nf(c.st,'Father',c.st.f(HF[0],a['ret'])),at(c.old,n,c.ex.g['p'])))
def aget_hook(c,a):
    n=N(c.old,c.h); c.st.assume(tr(at(c.old,n,c.index)))
con('zj_ArrayDel',[CHB,('index','int')],lambda c:hreq(c,c.h),del_ens(False),modifies=MV+HMOD,hooks={'after:zj_ArrayGet':aget_hook},opaque=OPQ,ret='i1')
con('zj_ObjDel',[CHB,('key','ptr')],lambda c:hreq(c,c.h)+nul_text(c.old,c.key),del_ens(True),modifies=MV+HMOD,hooks={'after:zj_ObjGet':get_hook},opaque=OPQ,ret='i1')
# ---------------------------------------------------------------- SetFast
def setfast_loop():
    def inv(c):
        o,s,p=c.old,c.st,c.pre; m=N(o,c.h); n=N(o,c.hh); nx=c.v('next'); L=nf(p,'Len',n)
        j=If(nx==0,L,p.f('pos',nx))
        return [('next is a child of the source or null',Or(nx==0,And(p.f('V',nx),nf(p,'Father',nx)==n,tr(p.f('pos',nx),nf(p,'Next',nx))))),
                ('children so far',FA([x2],nf(s,'Father',x2)==If(And(p.f('V',x2),nf(p,'Father',x2)==n,p.f('pos',x2)<j),m,nf(p,'Father',x2)),nf(s,'Father',x2),nf(p,'Father',x2)))]
    def var(c):
        p=c.pre; n=N(c.old,c.hh); nx=c.v('next'); return nf(p,'Len',n)-If(nx==0,nf(p,'Len',n),p.f('pos',nx))
    return Loop(inv,var,roles={'next':('next','ptr')})
def sf_seq(c,o,s):
    m=N(o,c.h); n,f,p0=n_f(c,'hh'); ok=n!=0; att=And(ok,f!=0); tk=And(ok,m!=0)
    a0=If(And(tk,x2==m),at(o,n,i2),If(And(att,x2==f,i2>=p0),at(o,x2,i2+1),at(o,x2,i2)))
    p1=If(And(att,nf(o,'Father',x2)==f,o.f('pos',x2)>p0,x2!=n),o.f('pos',x2)-1,o.f('pos',x2))
    L=If(And(tk,x2==m),nf(o,'Len',n),nf(o,'Len',x2)-If(And(att,x2==f),1,0))
    return [('sequences of children',FA([x2,i2],at(s,x2,i2)==a0,at(s,x2,i2))),('positions',FA([x2],s.f('pos',x2)==p1,s.f('pos',x2))),
            ('sizes',FA([x2],Imp(s.f('V',x2),nf(s,'Len',x2)==L),nf(s,'Len',x2)))]
def sf_live(o,V2,m,n,x):
    F=o.h(ND+'Father'); Dm,Dn=DESCS(F,m),DESCS(F,n)
    return At(V2,x)==And(o.f('V',x),Imp(And(n!=0,m!=0),And(x!=n,Or(Not(At(Dm,x)),At(Dn,x)))))
def ddef(o,n,x):
    F=o.h(ND+'Father'); D=DESCS(F,n); return At(D,x)==And(At(F,x)!=0,Or(At(F,x)==n,At(D,At(F,x))))
def sf_exit(c):
    s,o=c.st,c.old; m=N(o,c.h); n,f,p0=n_f(c,'hh')
    if z3.is_false(simp(c.ret)) or not s.h('V').eq(o.h('V')): return
    A2=fresh('at',AAI); V2=fresh('V',AB); R=fresh('rank',AI); R0=o.h('rank'); Am=s.h('at'); F=o.h(ND+'Father'); Dm,Dn=DESCS(F,m),DESCS(F,n); tk=And(n!=0,m!=0)
    s.assume(FA([x2,i2],at2(A2,x2,i2)==If(And(tk,x2==m),at(o,n,i2),at2(Am,x2,i2)),at2(A2,x2,i2)))
    s.assume(FA([x2],And(sf_live(o,V2,m,n,x2),ddef(o,m,x2),ddef(o,n,x2)),At(V2,x2)))
    s.assume(FA([x2],At(R,x2)==If(And(tk,At(Dn,x2)),At(R0,x2)+At(R0,m)+1,At(R0,x2)),At(R,x2)))
    s.assume(Imp(n!=0,Not(At(Dn,n))),Imp(m!=0,Not(At(Dm,m))))               # lemma no_cycle
    s.set('at',A2); s.set('V',V2); s.set('rank',R)
    s.assume(tr(s.f('V',m),s.f('V',n),nf(s,'Value',m),nf(s,'End',m)))
def sf_ens(c):
    o,s=c.old,c.st; m=N(o,c.h); n,f,p0=n_f(c,'hh'); ok=n!=0; att=And(ok,f!=0); tk=And(ok,m!=0); k=z3.Int('k!h')
    return [('true unless the source is empty',c.ret==ok),
      ('handles',FA([k],s.f('zj_Value.N',k)==If(And(ok,k==c.hh),0,If(And(ok,m==0,k==c.h),n,o.f('zj_Value.N',k))),s.f('zj_Value.N',k))),
      ('kind',upd(s.h(ND+'Type'),o.h(ND+'Type'),m,If(tk,nf(o,'Type',n),nf(o,'Type',m)))),
      ('content',Imp(And(tk,Not(cont(o,n))),And(nf(s,'Value',m)==nf(o,'Value',n),nf(s,'Len',m)==nf(o,'Len',n))))]+sf_seq(c,o,s)+\
      [('contents are kept',keep(c,['Value','End','Len'],(att,f),(tk,m))),('fathers',FA([x2],nf(s,'Father',x2)==If(And(ok,x2==n),0,If(And(tk,o.f('V',x2),nf(o,'Father',x2)==n),m,nf(o,'Father',x2))),nf(s,'Father',x2))),
       ('live nodes: only what was below the value goes',FA([x2],sf_live(o,s.h('V'),m,n,x2),s.f('V',x2))),
       ('nothing changes on failure',Imp(Not(ok),keep(c,LINKS)))]+WF(s)
con('zj_SetFast',[CHB,('hh','ptr')],lambda c:hreq(c,c.h,c.hh)+not_below(c)[:1],sf_ens,modifies=MV+['zj_Value.N','rank','V',ND+'Type'],loops=[setfast_loop()],ghost_exit=sf_exit,opaque=OPQ,ret='i1')
