"""Text-level specification: RFC 8259 tokens as functions over a byte text T (Array Int->Int), and the contracts of the scanners."""
import z3
from sym import *

SL=SpecFun('SL',[AI,I,I])                      # length of the NUL-terminated text at an address
def _norm_inst(a,M,s,n):
    i=z3.Int('i!n')
    return [z3.ForAll([i],z3.Select(a,i)==z3.If(z3.And(0<=i,i<n),z3.Select(M,s+i),0),patterns=[z3.Select(a,i)])]
NORM=SpecFun('NORM',[AI,I,I,AI],inst=_norm_inst)   # the n bytes at s as a text, 0 elsewhere

At=z3.Select
def isws(c): return z3.Or(c==32,c==9,c==10,c==13)
def isdig(c): return z3.And(c>=48,c<=57)
HX=SpecFun('HX',[I,I],rec=False,body=lambda c: z3.If(isdig(c),c-48,z3.If(z3.And(c>=65,c<=70),c-55,z3.If(z3.And(c>=97,c<=102),c-87,16))))      # value of a hex digit, 16 if none
def hexv(c): return HX(c)
def ishex(c): return z3.Or(isdig(c),z3.And(c>=65,c<=70),z3.And(c>=97,c<=102))
def hex4ok(T,i): return z3.And(*[ishex(At(T,i+k)) for k in range(4)])
def hex4(T,i): return hexv(At(T,i))*4096+hexv(At(T,i+1))*256+hexv(At(T,i+2))*16+hexv(At(T,i+3))
SIMPLE=[34,92,98,102,110,114,116,47]           # " \ b f n r t /
def issimple(c): return z3.Or(*[c==x for x in SIMPLE])

WS=SpecFun('WS',[AI,I,I],lambda T,i: z3.If(isws(At(T,i)),WS(T,i+1),i))
DIG=SpecFun('DIG',[AI,I,I],lambda T,i: z3.If(isdig(At(T,i)),DIG(T,i+1),i))
def _escape(T,i,F):
    e=At(T,i+1); cp=hex4(T,i+2); lo=hex4(T,i+8)
    return z3.If(issimple(e),F(T,i+2),
      z3.If(z3.And(e==117,hex4ok(T,i+2)),
        z3.If(z3.And(cp>=0xDC00,cp<=0xDFFF),-1,
          z3.If(z3.And(cp>=0xD800,cp<=0xDBFF),
             z3.If(z3.And(At(T,i+6)==92,At(T,i+7)==117,hex4ok(T,i+8),lo>=0xDC00,lo<=0xDFFF),F(T,i+12),-1),
             F(T,i+6))),-1))
# position after the closing quote of a string whose body starts at i, or -1
STR=SpecFun('STR',[AI,I,I],lambda T,i: z3.If(At(T,i)<32,-1,z3.If(At(T,i)==34,i+1,z3.If(At(T,i)==92,_escape(T,i,STR),STR(T,i+1)))))
# end of a string body that extends to the terminating NUL, or -1
BODY=SpecFun('BODY',[AI,I,I],lambda T,i: z3.If(At(T,i)==0,i,z3.If(z3.Or(At(T,i)<32,At(T,i)==34),-1,z3.If(At(T,i)==92,_escape(T,i,BODY),BODY(T,i+1)))))
# numbers, staged
EXPD=SpecFun('EXPD',[AI,I,I],rec=False,body=lambda T,k: z3.If(isdig(At(T,k)),DIG(T,k+1),-1))
EXP=SpecFun('EXP',[AI,I,I],rec=False,body=lambda T,k: z3.If(z3.Or(At(T,k)==101,At(T,k)==69),
     z3.If(z3.Or(At(T,k+1)==43,At(T,k+1)==45),EXPD(T,k+2),EXPD(T,k+1)),k))
FRAC=SpecFun('FRAC',[AI,I,I],rec=False,body=lambda T,k: z3.If(At(T,k)==46,z3.If(isdig(At(T,k+1)),EXP(T,DIG(T,k+2)),-1),EXP(T,k)))
INTP=SpecFun('INTP',[AI,I,I],rec=False,body=lambda T,j: z3.If(At(T,j)==48,FRAC(T,j+1),z3.If(z3.And(At(T,j)>=49,At(T,j)<=57),FRAC(T,DIG(T,j+1)),-1)))
NUM=SpecFun('NUM',[AI,I,I],rec=False,body=lambda T,i: z3.If(At(T,i)==45,INTP(T,i+1),INTP(T,i)))

MAXLEN=2**31

def nul_text(st,s):
    """s points to a readable NUL-terminated text (ghost length SL)"""
    M=st.h('M'); rd=st.h('rd'); n=SL(M,s); a=z3.Int('a!t')
    return [('text: length',z3.And(n>=0,n<MAXLEN,s>0,s+n<2**47)),('text: terminator',At(M,s+n)==0),
            ('text: readable',z3.ForAll([a],z3.Implies(z3.And(s<=a,a<=s+n),At(rd,a)),patterns=[At(rd,a)])),
            ('text: no inner NUL',z3.ForAll([a],z3.Implies(z3.And(s<=a,a<s+n),At(M,a)!=0),patterns=[At(M,a)]))]
def readable(st,s,n,lab='bytes'):
    rd=st.h('rd'); a=z3.Int('a!t')
    return [(f'{lab}: readable',z3.ForAll([a],z3.Implies(z3.And(s<=a,a<s+n),At(rd,a)),patterns=[At(rd,a)]))]
def TN(st,s):
    n=SL(st.h('M'),s); return NORM(st.h('M'),s,n),n

C={}
def con(*a,**k):
    c=Contract(*a,**k); C[c.name]=c; return c

SCAN=[('s','ptr'),('index','cell')]
def scan_req(off_lo=0,off_hi=0):
    def r(c):
        n=SL(c.old.h('M'),c.s)
        return nul_text(c.old,c.s)+[('index in text',z3.And(c.old.cell(c.index)>=off_lo,c.old.cell(c.index)<=n+off_hi))]
    return r

def ws_loop(hint='index'):
    def inv(c):
        T,n=TN(c.old,c.s); i=c.v('i'); i0=c.old.cell(c.index)
        return [('in text',z3.And(i0<=i,i<=n)),('same blank run',WS(T,i)==WS(T,i0))]
    return Loop(inv,lambda c: TN(c.old,c.s)[1]-c.v('i'),roles={'i':(hint,'i32')})
def ens_peek(c):
    T,n=TN(c.old,c.s); i0=c.old.cell(c.index); w=WS(T,i0); i=c.st.cell(c.index)
    return [('bounds',z3.And(i0<=w,w<=n)),('returns the next significant byte',c.ret==At(T,w)),('index after it',i==w+1)]
con('zj_peek',SCAN,scan_req(),ens_peek,modcells=['index'],loops=[ws_loop()])
def ens_pc(c):
    T,n=TN(c.old,c.s); i0=c.old.cell(c.index); w=WS(T,i0); i=c.st.cell(c.index)
    return [('bounds',z3.And(i0<=w,w<=n)),('true iff the next significant byte is c',c.ret==(At(T,w)==c.c)),('index',i==z3.If(c.ret,w+1,w))]
for nm in('zj_likelyPeekAndConsume','zj_unLikelyPeekAndConsume'):
    con(nm,[('c','int')]+SCAN,scan_req(),ens_pc,modcells=['index'],loops=[ws_loop()])

def lit(nm,word,back):
    def req(c):
        T,n=TN(c.old,c.s)
        i=c.old.cell(c.index)
        return scan_req(1,0)(c)+[('first letter seen',At(T,i-1)==ord(word[0]))]
    def ens(c):
        T,n=TN(c.old,c.s); i0=c.old.cell(c.index)
        ok=z3.And(*[At(T,i0+k)==ord(ch) for k,ch in enumerate(word[1:])])
        return [('true iff the literal is there',c.ret==ok),('index',c.st.cell(c.index)==z3.If(c.ret,i0+len(word)-1,i0)),('bounds',z3.Implies(c.ret,i0+len(word)-1<=n))]
    con(nm,SCAN,req,ens,modcells=['index'])
lit('zj_consumeFalse','false',0); lit('zj_consumeTrue','true',0); lit('zj_consumeNull','null',0)

con('zj_hexCodePoint',[('c','int')],None,lambda c:[('hex digit value, 16 if none',c.ret==hexv(c.c))])
def ens_hexone(c):
    T,n=TN(c.old,c.s); i0=c.old.cell(c.index); cp0=c.old.cell(c.cp); x=At(T,i0); i=c.st.cell(c.index); cp=c.st.cell(c.cp)
    return [('true iff a hex digit',c.ret==ishex(x)),('index',i==z3.If(c.ret,i0+1,i0)),('bounds',i<=n),
            ('value',z3.Implies(z3.And(c.ret,cp0<2**28),cp==cp0*16+hexv(x))),('unchanged on false',z3.Implies(z3.Not(c.ret),cp==cp0))]
con('zj_consumeHexOne',SCAN+[('cp','cell')],scan_req(),ens_hexone,modcells=['index','cp'])
def ens_hex(c):
    T,n=TN(c.old,c.s); i0=c.old.cell(c.index); cp0=c.old.cell(c.cp)
    ok=hex4ok(T,i0)
    return [('true iff four hex digits',c.ret==ok),('index',z3.Implies(c.ret,c.st.cell(c.index)==i0+4)),('index bounded',z3.And(c.st.cell(c.index)>=i0,c.st.cell(c.index)<=n,c.st.cell(c.index)<=i0+4)),
            ('value',z3.Implies(z3.And(c.ret,cp0==0),c.st.cell(c.cp)==hex4(T,i0)))]
con('zj_consumeHex',SCAN+[('cp','cell')],lambda c: scan_req()(c)+[('cp starts at 0',c.old.cell(c.cp)==0)],ens_hex,modcells=['index','cp'])

def str_loop(SPEC,start,base_index=True):
    def inv(c):
        T,n=TN(c.old,c.s); i=c.v('i'); ch=c.v('c'); i0=start(c)
        return [('in text',z3.And(i0<i,i<=n+1)),('c is the byte before the index',ch==At(T,i-1)),('same verdict',SPEC(T,i-1)==SPEC(T,i0))]
    return Loop(inv,lambda c: TN(c.old,c.s)[1]+1-c.v('i'),roles={'i':('index','i32'),'c':('c','i8')})
def ens_cstr(c):
    T,n=TN(c.old,c.s); i0=c.old.cell(c.index); e=STR(T,i0); i=c.st.cell(c.index)
    return [('true iff a string body and quote follow',c.ret==(e>=0)),('index after the quote',z3.Implies(c.ret,i==e)),('bounds',z3.Implies(c.ret,z3.And(i>i0,i<=n)))]
con('zj_consumeStr',SCAN,scan_req(),ens_cstr,modcells=['index'],loops=[str_loop(STR,lambda c:c.old.cell(c.index))])
def ens_checkstr(c):
    T,n=TN(c.old,c.s); e=BODY(T,0)
    return [('true iff a valid string body',c.ret==(e>=0)),('length',z3.Implies(c.ret,c.st.cell(c.len)==n)),('*len unchanged on false',z3.Implies(z3.Not(c.ret),c.st.cell(c.len)==c.old.cell(c.len)))]
con('zj_checkStr',[('s','ptr'),('len','cell')],lambda c:nul_text(c.old,c.s),ens_checkstr,modcells=['len'],loops=[str_loop(BODY,lambda c:z3.IntVal(0))])

def num_loop(cont,start):
    def inv(c):
        T,n=TN(c.old,c.s); i=c.v('i'); ch=c.v('c')
        return [('in text',z3.And(i<=n,i>start(c))),('c is the byte at the index',ch==At(T,i)),('same verdict',NUM(T,start(c))==cont(T,DIG(T,i)))]
    return Loop(inv,lambda c: TN(c.old,c.s)[1]-c.v('i'),roles={'i':('index','i32'),'c':('c','i8')})
def num_loops(start): return [num_loop(FRAC,start),num_loop(EXP,start),num_loop(lambda T,k:k,start)]
def ens_cnum(c):
    T,n=TN(c.old,c.s); i0=c.old.cell(c.index)-1; e=NUM(T,i0); i=c.st.cell(c.index)
    return [('true iff a number is there',c.ret==(e>=0)),('index after the number',z3.Implies(c.ret,i==e)),('bounds',z3.Implies(c.ret,z3.And(i>i0,i<=n)))]
con('zj_consumeNum',SCAN,scan_req(1,1),ens_cnum,modcells=['index'],loops=num_loops(lambda c:c.old.cell(c.index)-1))
def ens_checknum(c):
    T,n=TN(c.old,c.s); e=NUM(T,0)
    return [('true iff the whole text is a number',c.ret==(e==n)),('length',z3.Implies(c.ret,c.st.cell(c.len)==n))]
con('zj_checkNum',[('s','ptr'),('len','cell')],lambda c:nul_text(c.old,c.s),ens_checknum,modcells=['len'],loops=num_loops(lambda c:z3.IntVal(0)))
