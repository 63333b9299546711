"""Lemmas about the text functions, proved by induction with z3 from the defining equations; exported as axioms to the contracts."""
import z3, time
from sym import *
from text import *
import text
from mem import FA, And, Or, Not, Imp, If
from tree import VS, VN, DESCS
LEMMAS={}
def step(name,hyps,goal,rounds=2,timeout=60000,split=None):
    t0=time.time(); s=mk_solver(timeout); fs=list(hyps)+[Not(goal)]
    s.add(*fs,*unfold(fs,rounds),*TRAX)
    r=s.check()
    ok=r==z3.unsat
    # the hypotheses alone must not be contradictory
    s2=mk_solver(3000); s2.add(*hyps,*unfold(list(hyps),1),*TRAX)
    if ok and s2.check()==z3.unsat: ok=False; r='hypotheses contradictory'
    return (name,'ok' if ok else 'fail',round(time.time()-t0,3),0,str(r),'')
def lemma(f): LEMMAS[f.__name__]=f; return f

T=z3.Const('T',AI); n,i,j,k=z3.Ints('n i j k')
ZERO=FA([k],Imp(k>=n,At(T,k)==0),At(T,k))
ib=z3.Int('i!b')
BYTES=FA([ib],And(At(T,ib)>=0,At(T,ib)<256),At(T,ib))
@lemma
def body_end(tier):
    """0<=i<=n, T zero from n on: BODY(T,i)=e>=0 implies i<=e<=n, T[e]=0 and no zero in [i,e)"""
    hy=[ZERO,BYTES,0<=i,i<=n]
    IH=[FA([j],Imp(And(i<j,j<=n,BODY(T,j)>=0),And(j<=BODY(T,j),BODY(T,j)<=n,At(T,BODY(T,j))==0)),BODY(T,j)),
        FA([j,k],Imp(And(i<j,j<=n,BODY(T,j)>=0,j<=k,k<BODY(T,j)),At(T,k)!=0),(BODY(T,j),At(T,k)))]
    e=BODY(T,i); kk=z3.Int('kk')
    yield step('body_end:range',hy+IH,Imp(e>=0,And(i<=e,e<=n,At(T,e)==0)),1)
    yield step('body_end:no inner NUL',hy+IH+[i<=kk,kk<e,e>=0,tr(At(T,kk))],At(T,kk)!=0,1)
M=z3.Const('M!l',AI); p_,n_=z3.Ints('p!l n!l'); kx=z3.Int('k!l')
def body_axioms():
    B_=BODY(NORM(M,p_,n_),0)
    return [FA([M,p_,n_],Imp(And(n_>=0,B_>=0),And(B_<=n_,At(NORM(M,p_,n_),B_)==0)),B_),
            FA([M,p_,n_,kx],Imp(And(n_>=0,B_>=0,p_<=kx,kx<p_+B_),At(M,kx)!=0),(B_,At(M,kx))),
            FA([M,p_,n_],VS(M,p_,n_)==(B_==n_),VS(M,p_,n_),B_)]
def body_facts(M,p,n):
    """body_axioms at one text"""
    B_=BODY(NORM(M,p,n),0)
    return [tr(VS(M,p,n)),VS(M,p,n)==(B_==n),Imp(And(n>=0,B_>=0),And(B_<=n,At(NORM(M,p,n),B_)==0)),FA([kx],Imp(And(n>=0,B_>=0,p<=kx,kx<p+B_),At(M,kx)!=0),At(M,kx))]
def num_facts(M,p,n):
    return [tr(VN(M,p,n)),VN(M,p,n)==(NUM(NORM(M,p,n),0)==n),FA([kx],Imp(And(n>=0,VN(M,p,n),p<=kx,kx<p+n),At(M,kx)!=0),At(M,kx))]
def num_axioms():
    B_=NUM(NORM(M,p_,n_),0)
    return [FA([M,p_,n_,kx],Imp(And(n_>=0,VN(M,p_,n_),p_<=kx,kx<p_+n_),At(M,kx)!=0),(VN(M,p_,n_),At(M,kx))),
            FA([M,p_,n_],VN(M,p_,n_)==(B_==n_),VN(M,p_,n_),B_)]
@lemma
def num_end(tier):
    """NUM(T,0)=n implies no zero byte in [0,n)"""
    hy=[BYTES]
    IH=[FA([j],Imp(And(i<j,j<=n),And(DIG(T,j)>=j)),DIG(T,j)),FA([j,k],Imp(And(i<j,j<=n,j<=k,k<DIG(T,j)),isdig(At(T,k))),(DIG(T,j),At(T,k)))]
    kk=z3.Int('kk')
    hz=[ZERO,i<=n]
    IHz=[FA([j],Imp(And(i<j,j<=n),And(DIG(T,j)>=j,DIG(T,j)<=n)),DIG(T,j)),IH[1]]
    yield step('num_end:digits range',hy+hz+IHz,And(DIG(T,i)>=i,DIG(T,i)<=n),1)
    yield step('num_end:digits',hy+hz+IHz+[i<=kk,kk<DIG(T,i)],isdig(At(T,kk)),1)
    full=[FA([j],Imp(And(j<=n),And(DIG(T,j)>=j,DIG(T,j)<=n)),DIG(T,j)),FA([j,k],Imp(And(j<=n,j<=k,k<DIG(T,j)),isdig(At(T,k))),(DIG(T,j),At(T,k)))]
    yield step('num_end:no inner NUL',hy+[ZERO,n>=0,NUM(T,0)==n,0<=kk,kk<n,tr(At(T,kk))]+full,At(T,kk)!=0,1)
@lemma
def no_cycle(tier):
    """with ranks that grow from father to child, nothing is below itself"""
    F,V,R,D=z3.Const('F',AI),z3.Const('V',AB),z3.Const('R',AI),z3.Const('D',AB); c,m,x=z3.Ints('c m x')
    wf=[FA([x],Imp(And(At(V,x),At(F,x)!=0),And(At(V,At(F,x)),At(R,At(F,x))<At(R,x))),At(F,x))]
    df=At(D,c)==And(At(F,c)!=0,Or(At(F,c)==m,At(D,At(F,c))))
    IH=[FA([x],Imp(And(At(V,x),At(R,x)<At(R,c),At(D,x)),At(R,m)<At(R,x)),At(D,x))]
    yield step('no_cycle:descendants rank higher',wf+IH+[df,At(V,c),At(V,m)],Imp(At(D,c),At(R,m)<At(R,c)),1)
def text_axioms(): return body_axioms()+num_axioms()
@lemma
def ws_idem(tier):
    """0<=i<=n: WS(T,WS(T,i))==WS(T,i)"""
    IH=[FA([j],Imp(And(i<j,j<=n),WS(T,WS(T,j))==WS(T,j)),WS(T,j))]
    yield step('ws_idem:step',[ZERO,BYTES,0<=i,i<=n]+IH,WS(T,WS(T,i))==WS(T,i),2)
@lemma
def str_valid(tier):
    """STR(T,i)=e>=0 implies i<e<=n, and the bytes i..e-2 are a valid string body; the empty text is one"""
    e=STR(T,i)
    IH=[FA([j],Imp(And(i<j,j<=n,STR(T,j)>=0),And(j<STR(T,j),STR(T,j)<=n)),STR(T,j))]
    yield step('str_valid:range',[ZERO,BYTES,0<=i,i<=n]+IH,Imp(e>=0,And(i<e,e<=n)),1)
    E,i0=z3.Ints('e i0'); T2=z3.Const('T2',AI); L=E-1-i0
    rng=[FA([j],Imp(And(0<=j,j<=n,STR(T,j)>=0),And(j<STR(T,j),STR(T,j)<=n)),STR(T,j))]
    cut=[FA([k],At(T2,k)==If(And(0<=k,k<L),At(T,i0+k),0),At(T2,k))]
    IH=[FA([j],Imp(And(i<j,j<E,STR(T,j)==E),BODY(T2,j-i0)==L),STR(T,j))]
    at=tr(*[At(T2,i-i0+d) for d in range(13)],*[At(T,i+d) for d in range(13)])
    yield step('str_valid:shift',[ZERO,BYTES,0<=i0,i0<=i,i<E,E<=n,STR(T,i)==E]+rng+cut+IH+[at],BODY(T2,i-i0)==L,1)
    A,B_=NORM(M,p_,n),NORM(M,p_+i0,STR(NORM(M,p_,n),i0)-1-i0); q=STR(A,i0)-1-i0
    full=[FA([j],Imp(And(0<=j,j<=n,STR(A,j)>=0),And(j<STR(A,j),STR(A,j)<=n)),STR(A,j)),
          Imp(z3.ForAll([k],At(B_,k)==If(And(0<=k,k<q),At(A,i0+k),0)),BODY(B_,0)==q)]     # the shift with T2=B_, i=i0
    yield step('str_valid:text',[0<=i0,i0<=n,0<=n,STR(A,i0)>=0,VS(M,p_+i0,q)==(BODY(B_,0)==q)]+full,VS(M,p_+i0,q),1)
    yield step('str_valid:empty',[VS(M,p_,0)==(BODY(NORM(M,p_,0),0)==0),tr(At(NORM(M,p_,0),0))],VS(M,p_,0),1)
@lemma
def num_valid(tier):
    """NUM(T,i)=e>=0 implies i<e, and the bytes i..e-1 are a number"""
    E,i0=z3.Ints('e i0'); T2=z3.Const('T2',AI); L=E-i0
    mono=[FA([j],Imp(And(0<=j,j<=n),And(DIG(T,j)>=j,DIG(T,j)<=n)),DIG(T,j))]                # lemma num_end:digits range
    cut=[FA([k],At(T2,k)==If(And(0<=k,k<L),At(T,i0+k),0),At(T2,k))]
    IH=[FA([j],Imp(And(i<j,j<=E,DIG(T,j)<=E),DIG(T2,j-i0)==DIG(T,j)-i0),DIG(T,j))]
    yield step('num_valid:digits',[ZERO,BYTES,0<=i0,i0<=i,i<=E,E<=n,DIG(T,i)<=E,tr(At(T2,i-i0),DIG(T2,i-i0))]+mono+cut+IH,DIG(T2,i-i0)==DIG(T,i)-i0,1)
    sh=[FA([j],Imp(And(i0<=j,j<=E,DIG(T,j)<=E),DIG(T2,j-i0)==DIG(T,j)-i0),DIG(T,j))]
    yield step('num_valid:range',[ZERO,BYTES,0<=i0,i0<=n]+mono,Imp(NUM(T,i0)>=0,And(NUM(T,i0)>i0,NUM(T,i0)<=n)),4)
    yield step('num_valid:shift',[ZERO,BYTES,0<=i0,i0<=n,E<=n,NUM(T,i0)==E,E>i0,0<=n]+mono+cut+sh,NUM(T2,0)==L,4)
    A=NORM(M,p_,n); q=NUM(A,i0)-i0; B_=NORM(M,p_+i0,q)
    full=[Imp(NUM(A,i0)>=0,And(NUM(A,i0)>i0,NUM(A,i0)<=n)),Imp(z3.ForAll([k],At(B_,k)==If(And(0<=k,k<q),At(A,i0+k),0)),NUM(B_,0)==q)]
    yield step('num_valid:text',[0<=i0,i0<=n,NUM(A,i0)>=0,VN(M,p_+i0,q)==(NUM(B_,0)==q)]+full,VN(M,p_+i0,q),1)
