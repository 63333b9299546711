"""Unescaping and escaping. DEC(T,i,O,j): the bytes of O from j on are the decoded text of T from i on, with the terminating NUL."""
import z3
from sym import *
from text import *
from tree import *
import tree, mem
from mem import FA, upd, And, Or, Not, Imp, If, touch_frame, MAXTEXT, SF, STRUCTS
from getters import base_req, kind, haskey, CHB, AMOD, alloc_frame, fresh_mem
from setters import OPQ
from lemmas import body_facts
C={}
def con(*a,**k):
    c=Contract(*a,**k); C[c.name]=c; return c
def unesc(e): return If(e==98,8,If(e==102,12,If(e==110,10,If(e==114,13,If(e==116,9,e)))))
# UTF-8 (RFC 3629): number of bytes and k-th byte of the encoding of a code point
U8L=SpecFun('U8L',[I,I],rec=False,body=lambda cp: If(cp<=0x7F,1,If(cp<=0x7FF,2,If(cp<=0xFFFF,3,4))))
UB=SpecFun('UB',[I,I,I],rec=False,body=lambda cp,k: If(U8L(cp)==1,cp,If(U8L(cp)==2,If(k==0,0xC0+cp/64,0x80+cp%64),
   If(U8L(cp)==3,If(k==0,0xE0+cp/4096,If(k==1,0x80+(cp/64)%64,0x80+cp%64)),
      If(k==0,0xF0+cp/262144,If(k==1,0x80+(cp/4096)%64,If(k==2,0x80+(cp/64)%64,0x80+cp%64)))))))
def u8len(cp): return U8L(cp)
def u8(O,j,cp): return And(*[Imp(k<U8L(cp),At(O,j+k)==UB(cp,k)) for k in range(4)])
def _dec(T,i,O,j):
    c=At(T,i); e=At(T,i+1); cp=hex4(T,i+2); lo=hex4(T,i+8); big=(cp-0xD800)*1024+(lo-0xDC00)+0x10000
    hi=And(cp>=0xD800,cp<=0xDBFF)
    return If(c==0,At(O,j)==0,If(c!=92,And(At(O,j)==c,DEC(T,i+1,O,j+1)),
           If(issimple(e),And(At(O,j)==unesc(e),DEC(T,i+2,O,j+1)),
           If(hi,And(u8(O,j,big),DEC(T,i+12,O,j+4)),And(u8(O,j,cp),DEC(T,i+6,O,j+u8len(cp)))))))
DEC=SpecFun('DEC',[AI,I,AI,I,B],_dec)
con('zj_hexCodePointForUnEscape',[('c','int')],lambda c:[('a hex digit',ishex(c.c))],lambda c:[('its value',And(c.ret==hexv(c.c),c.ret<16))],ret='i32')
def hexM(M,p): return And(*[ishex(At(M,p+k)) for k in range(4)])
def hex_ens(c):
    o,s=c.old,c.st; i0=o.cell(c.index)
    return [('index',s.cell(c.index)==i0+4),('value',And(s.cell(c.cp)==hex4(o.h('M'),c.s+i0),s.cell(c.cp)<65536))]
con('zj_consumeHexForUnEscape',[('s','ptr'),('index','cell'),('cp','cell')],lambda c:[('four hex digits',hexM(c.old.h('M'),c.s+c.old.cell(c.index))),('cp starts at 0',c.old.cell(c.cp)==0),
    ('limits',And(c.s>0,c.s+c.old.cell(c.index)+4<2**47,c.old.cell(c.index)<2**31))]+[(f'digit {k} readable',c.old.f('rd',c.s+c.old.cell(c.index)+k)) for k in range(4)],hex_ens,modcells=['index','cp'],exact=True,opaque=('HX',),ret='void')
def utf_req(c):
    i0=c.old.cell(c.index); cp=c.codepoint
    return [('a Unicode scalar value',cp<=0x10FFFF),('limits',And(c.s>0,i0<2**31,c.s+i0+4<2**47))]+[(f'room for byte {k+1}',Imp(k<U8L(cp),c.old.f('wr',c.s+i0+k))) for k in range(4)]
def utf_ens(c):
    o,s=c.old,c.st; i0=o.cell(c.index); cp=c.codepoint; n=U8L(cp); k=z3.Int('k!q')
    return [('index',And(s.cell(c.index)==i0+n,1<=n,n<=4,Imp(cp<=0xFFFF,n<=3),Imp(cp>0xFFFF,n==4))),('its UTF-8 encoding',u8(s.h('M'),c.s+i0,cp)),
            ('nothing else is written',FA([k],Or(s.f('M',k)==o.f('M',k),And(c.s+i0<=k,k<c.s+i0+n)),s.f('M',k)))]
con('zj_addUTF8',[('s','ptr'),('index','cell'),('codepoint','int')],utf_req,utf_ens,modifies=['M'],modcells=['index'],exact=True,ret='void')
def T0(c): return NORM(c.old.h('M'),c.str,c.len)
def ue_req(c):
    o=c.old; k=z3.Int('k!q')
    return [('a valid string body',VS(o.h('M'),c.str,c.len)),('limits',And(c.str>0,c.str+c.len<2**47,c.len<=MAXTEXT,c.s>0,c.s+c.len+1<2**47))]+readable(o,c.str,c.len,'text')+\
      [('room for the result',FA([k],Imp(And(c.s<=k,k<=c.s+c.len),o.f('wr',k)),o.f('wr',k))),('the result is elsewhere',Imp(tr(o.f('rd',c.str),o.f('rd',c.s),o.f('wr',c.s)),Or(c.s+c.len<c.str,c.str+c.len<=c.s)))]
def ue_setup(c): c.ex.g['Mf']=fresh('Mf',AI)
def ue_loop():
    def inv(c):
        o,s=c.old,c.st; T=T0(c); i,j=c.v('i'),c.v('j'); k=z3.Int('k!q'); Mf=c.ex.g['Mf']
        return [('in text',And(0<=i,i<=c.len,0<=j,j<=i)),('still valid',BODY(T,i)==c.len),('frame',FA([k],Or(s.f('M',k)==o.f('M',k),And(c.s<=k,k<c.s+j)),s.f('M',k))),
                ('decoded so far',Imp(FA([k],Imp(And(c.s<=k,k<c.s+j),At(Mf,k)==s.f('M',k)),At(Mf,k)),DEC(T,0,Mf,c.s)==DEC(T,i,Mf,c.s+j)))]
    return Loop(inv,lambda c:c.len-c.v('i'),roles={'i':('index','i32'),'j':('s_index','i32')})
def ue_exit(c): c.st.assume(c.ex.g['Mf']==c.st.h('M'))          # Mf was arbitrary: take the final memory
def ue_ens(c):
    o,s=c.old,c.st; k=z3.Int('k!q')
    return [('the decoded text',DEC(T0(c),0,s.h('M'),c.s)),('nothing else is written',FA([k],Or(s.f('M',k)==o.f('M',k),And(c.s<=k,k<=c.s+c.len)),s.f('M',k)))]
con('zj_unEscapeStr',[('str','ptr'),('len','int'),('s','ptr')],ue_req,ue_ens,modifies=['M'],setup=ue_setup,loops=[ue_loop()],ghost_exit=ue_exit,exact=True,opaque=('HX','U8L','UB'),ret='void')
for nm,ok,pf,lf in(('zj_GetUnEscapeStr',lambda c:kind(c,T_STR),'Value','Len'),('zj_GetUnEscapeKey',haskey,'Key','KeyLen')):
    def ens(c,ok=ok,pf=pf,lf=lf):
        o,s=c.old,c.st; n=N(o,c.h)
        return [('null unless the content is there',(c.ret==0)==Not(ok(c))),('the decoded text',Imp(ok(c),DEC(NORM(o.h('M'),nf(o,pf,n),nf(o,lf,n)),0,s.h('M'),c.ret)))]+[(l,Imp(ok(c),f)) for l,f in fresh_mem(c,c.ret,nf(o,lf,n)+1)]+alloc_frame(c)
    con(nm,[CHB],base_req,ens,modifies=AMOD,ghost_exit=exit_frames,opaque=OPQ+('DEC',),ret='ptr')

# ---------------------------------------------------------------- escaping
# DN(T,i,O,j,e): the body T from i on decodes to exactly the bytes of O from j to e
def _dn(T,i,O,j,e):
    c=At(T,i); q=At(T,i+1); cp=hex4(T,i+2); lo=hex4(T,i+8); big=(cp-0xD800)*1024+(lo-0xDC00)+0x10000
    hi=And(cp>=0xD800,cp<=0xDBFF)
    return If(c==0,j==e,If(c!=92,And(At(O,j)==c,DN(T,i+1,O,j+1,e)),
           If(issimple(q),And(At(O,j)==unesc(q),DN(T,i+2,O,j+1,e)),
           If(hi,And(u8(O,j,big),DN(T,i+12,O,j+4,e)),And(u8(O,j,cp),DN(T,i+6,O,j+u8len(cp),e))))))
DN=SpecFun('DN',[AI,I,AI,I,I,B],_dn)
TAB='zj_escapeChars'
tstr=z3.Function(f'tab.{TAB}.0',I,I); tlen=z3.Function(f'tab.{TAB}.1',I,I)
# EL(M,p,e): length of the escaped form of the bytes [p,e)
EL=SpecFun('EL',[AI,I,I,I],lambda M,p,e: If(p>=e,0,tlen(At(M,p))+EL(M,p+1,e)))
def row(c,b,n):
    """the n bytes b(0..) are an escape of byte c: itself, a two-character escape, or \\u00XX"""
    return Or(And(n==1,b(0)==c,c>=32,c!=34,c!=92),And(n==2,b(0)==92,issimple(b(1)),unesc(b(1))==c),
              And(n==6,b(0)==92,b(1)==117,*[ishex(b(k)) for k in(2,3,4,5)],hexv(b(2))*4096+hexv(b(3))*256+hexv(b(4))*16+hexv(b(5))==c,c<=0x7F))
def table_facts(ex,name):
    """obligation per row, decided on the initialiser of the real table; then the rows as a fact about all bytes"""
    t=parse_table(ex.mod,name); rows=t['rows']; bad=[]
    for i in range(256):
        ok=False
        if i<len(rows):
            bs,n=rows[i]
            g=row(z3.IntVal(i),lambda k: z3.IntVal(bs[k]) if k<len(bs) else z3.IntVal(0),z3.IntVal(n))
            g=z3.simplify(And(n<=len(bs),*[z3.simplify(g)])); s=z3.Solver(); s.add(Not(g),*unfold([g])); ok=s.check()==z3.unsat
        ex.results.append(Result(f'{ex.con.name}:table:row {i} is an escape of byte {i}','ok' if ok else 'fail',0.0,0,'' if ok else f'row {rows[i] if i<len(rows) else None}'))
        if not ok: bad.append(i); ex.failed=True
    c,k=z3.Ints('c!t k!t'); M,rd,wr=[ex.entry_comp(x) for x in('M','rd','wr')]
    dom=And(0<=c,c<256,*[c!=i for i in bad])
    return [FA([c],Imp(dom,row(c,lambda j:At(M,tstr(c)+j),tlen(c))),tstr(c)),FA([c],Imp(And(0<=c,c<256),And(tlen(c)>=0,tlen(c)<=16,tstr(c)>0,tstr(c)<2**46)),tlen(c),tstr(c)),
            FA([c,k],Imp(And(0<=c,c<256,tstr(c)<=k,k<tstr(c)+tlen(c)),And(At(rd,k),Not(At(wr,k)))),(tstr(c),At(rd,k)))]
C['#tables']={TAB:table_facts}
def el_pos(M,e):
    p=z3.Int('p!e'); return FA([p],EL(M,p,e)>=0,EL(M,p,e))             # lemma el_pos
def utf_ascii():
    x=z3.Int('x!u'); return FA([x],Imp(And(0<=x,x<=0x7F),And(U8L(x)==1,UB(x,0)==x)),U8L(x))       # lemma utf_ascii
def es_copy(c,info):
    d,s,n,M,M2=info; b=c.ex.g.get('byte')
    i=z3.Int('c!x'); P=row_of(c,s)
    if P is None: return
    ch,g=P
    c.st.assume(tr(*[c.old.f('rd',s+k) for k in range(6)]))
    R=row(ch,lambda k:At(M2,d+k),tlen(ch)); c.ex.prove_many(c.st,[('the escape of the byte is appended',R)],'assert'); c.st.assume(R)
def row_of(c,s):
    if z3.is_app(s) and s.decl().name()==f'tab.{TAB}.0': return s.arg(0),None
    return None
def es_n(c): return SL(c.old.h('M'),c.str) if 'len' not in c.a else c.len
def es_e(c): return c.str+es_n(c)
def es_req(c):
    o=c.old
    r=[('the allocator is alive',o.f('alive',c.alloc)),('resource limit: the escaped text',And(EL(o.h('M'),c.str,es_e(c))<=MAXTEXT))]
    if 'len' in c.a: return r+[('limits',And(c.str>0,c.str+c.len<2**47,c.len<=MAXTEXT))]+readable(o,c.str,c.len,'text')
    return r+nul_text(o,c.str)
def es_setup(c): c.ex.g['Mf']=fresh('Mf',AI); c.st.assume(utf_ascii(),el_pos(c.old.h('M'),es_e(c)),FA([z3.Int('k!q')],And(At(c.ex.g['Mf'],z3.Int('k!q'))>=0,At(c.ex.g['Mf'],z3.Int('k!q'))<256),At(c.ex.g['Mf'],z3.Int('k!q'))))
def es_alloc(c,a): c.ex.g['r']=a['ret']
def es_pos(c):
    p=c.v('p'); g=[('in text',And(c.str<=p,p<=es_e(c)))]
    if 'k' in c.roles: g.append(('bytes left',c.v('k')==es_e(c)-p))
    return g
def es_loop1(roles):
    def inv(c):
        Mo=c.old.h('M')
        return es_pos(c)+[('length so far',c.v('n')+EL(Mo,c.v('p'),es_e(c))==EL(Mo,c.str,es_e(c)))]
    return Loop(inv,lambda c:es_e(c)-c.v('p'),roles=roles)
def es_loop2(roles):
    def inv(c):
        o,s=c.old,c.st; Mo=o.h('M'); e=es_e(c); p=c.v('p'); j=c.v('n'); Mf=c.ex.g['Mf']; r=c.ex.g['r']; k=z3.Int('k!q'); L=EL(Mo,c.str,e); T=NORM(Mf,r,L)
        return es_pos(c)+[('length so far',And(j>=0,j+EL(Mo,p,e)==L)),('frame',FA([k],Or(s.f('M',k)==o.f('M',k),And(r<=k,k<r+j)),s.f('M',k))),
          ('escaped so far',Imp(FA([k],Imp(And(r<=k,k<r+j),At(Mf,k)==s.f('M',k)),At(Mf,k)),And(BODY(T,0)==BODY(T,j),DN(T,0,Mo,c.str,e)==DN(T,j,Mo,p,e))))]
    return Loop(inv,lambda c:es_e(c)-c.v('p'),roles=roles,marks=lambda c:[tr(c.old.f('rd',c.v('p')))])
def es_exit(c):
    c.st.assume(c.ex.g['Mf']==c.st.h('M')); exit_frames(c)
def es_ens(c):
    o,s=c.old,c.st; L=EL(o.h('M'),c.str,es_e(c)); r=c.ret
    return [('not null',r>0),('a valid string body',VS(s.h('M'),r,L)),('terminator',s.f('M',r+L)==0),('it decodes to the given bytes',DN(NORM(s.h('M'),r,L),0,o.h('M'),c.str,es_e(c))),('limits',And(L>=0,r+L<2**47))]+fresh_mem(c,r,L+1)+mem_frame(c)+touch_frame(c,c.alloc)
for nm,ps,r1,r2 in(('zj_escapeStr',[('str','ptr'),('alloc','ptr')],{'n':('len','i32'),'p':('str','ptr')},{'n':('index','i32'),'p':('str','ptr')}),
                   ('zj_escapeStrLen',[('str','ptr'),('alloc','ptr'),('len','int')],{'n':('l','i32'),'p':('str','ptr'),'k':('len','i32')},{'n':('index','i32'),'p':('str','ptr'),'k':('len','i32')})):
    con(nm,ps,es_req,es_ens,modifies=AMOD,setup=es_setup,loops=[es_loop1(r1),es_loop2(r2)],hooks={'after:zj_allocatorAlloc':es_alloc,'copy':es_copy},ghost_exit=es_exit,opaque=('HX','U8L','UB'),ret='ptr')
from setters import setter, SETMOD, base_exit, sl_fact
import setters as _s
from getters import ext
def se_txt(c): s=c.a['str']; return s,(c.a['len'] if 'len' in c.a else SL(c.old.h('M'),s))
def se_req(c):
    o=c.old; s,n=se_txt(c)
    r=[('resource limit: the escaped text',EL(o.h('M'),s,s+n)<=MAXTEXT-1)]
    if 'len' in c.a: return r+[('limits',And(s>0,s+n<2**47,n<=MAXTEXT))]+readable(o,s,n,'text')
    return r+nul_text(o,s)
def se_hook(c,a):
    s=c.st; M=s.h('M'); p,n=se_txt(c); L=EL(c.old.h('M'),p,p+n); c.ex.g['M1']=M; c.ex.g['es']=a['str']
    s.assume(*text_frame(M,c.old.h('M'),c.old.h('rd')))
    s.assume(tr(At(M,a['str']+L)),*sl_fact(M,a['str'],L)); s.assume(*body_facts(M,a['str'],L)); s.assume(tr(At(M,a['str']+SL(M,a['str']))))
def se_exit(keymode):
    def e(c):
        p,n=se_txt(c); L=EL(c.old.h('M'),p,p+n); g=c.ex.g
        if 'es' in g: c.st.assume(ext(NORM(g['M1'],g['es'],L),NORM(c.st.h('M'),g['es'],L)),ext(NORM(c.st.h('M'),g['es'],L),NORM(c.st.h('M'),nf(c.st,'Key' if keymode else 'Value',N(c.st,c.h)),nf(c.st,'KeyLen' if keymode else 'Len',N(c.st,c.h)))))
        base_exit(c,keymode)
    return e
def se_content(pf,lf):
    def f(c,nd):
        o,s=c.old,c.st; p,n=se_txt(c); v,l=nf(s,pf,nd),nf(s,lf,nd); k=z3.Int('k!c')
        return [('it decodes to the given bytes',DN(NORM(s.h('M'),v,l),0,o.h('M'),p,p+n)),('valid',VS(s.h('M'),v,l)),('in memory that nobody used before',FA([k],Imp(And(v<=k,k<v+l),Not(o.f('rd',k))),o.f('rd',k)))]
    return f
def se_ok(key):
    def ok(c):
        o=c.old; h0=N(o,c.h); return Or(h0==0,nf(o,'Father',h0)==0,nf(o,'Type',nf(o,'Father',h0))==T_OBJ) if key else TRUE
    return ok
_before=set(_s.C)
for what,kd,pf,lf in(('Str',T_STR,'Value','Len'),('Key',None,'Key','KeyLen')):
    for ln in(0,1):
        key=what=='Key'
        setter('zj_Set'+what+('Len' if ln else '')+'Escape',[('str','ptr')]+([('len','int')] if ln else []),se_req,se_ok(key),kd,se_content(pf,lf),keymode=key,extra_mod=['is.zj_string']+SF,ghost_exit=se_exit(key),
               hooks={f'before:zj_Set{what}{l}{f}':se_hook for l in('','Len') for f in('','Fast')},opaque=OPQ+('DN','EL','DEC'))
for k in set(_s.C)-_before: C[k]=_s.C.pop(k)

# ---------------------------------------------------------------- lemmas
from lemmas import step
LEMMAS={}
def lemma(f): LEMMAS[f.__name__]=f; return f
@lemma
def el_positive(tier):
    """the length of an escaped text is not negative"""
    M=z3.Const('M!el',AI); p,e,q=z3.Ints('p!el e!el q!el')
    rows=[FA([q],tlen(q)>=0,tlen(q))]
    yield step('el_positive',rows+[FA([q],Imp(And(p<q,q<=e),EL(M,q,e)>=0),EL(M,q,e))],Imp(p<=e,EL(M,p,e)>=0),1)
    yield step('el_positive:past the end',rows+[p>e],EL(M,p,e)>=0,1)
@lemma
def utf8_ascii(tier):
    x=z3.Int('x!ua'); yield step('utf8_ascii',[0<=x,x<=0x7F],And(U8L(x)==1,UB(x,0)==x),1)
@lemma
def decode_unique(tier):
    """if the valid body T decodes to the bytes O[j,e), then unescaping it (DEC into P from q) gives exactly these bytes and a NUL"""
    T,O,P=[z3.Const(n,AI) for n in('T!du','O!du','P!du')]; i,j,q,e,n,k,i2,j2,q2=z3.Ints('i!du j!du q!du e!du n!du k!du i2!du j2!du q2!du')
    hy=[FA([k],Imp(k>=n,At(T,k)==0),At(T,k)),FA([k],And(At(T,k)>=0,At(T,k)<256),At(T,k)),0<=i,i<=n]
    ih=lambda f: FA([i2,j2,q2],Imp(And(i<i2,i2<=n,BODY(T,i2)==n,DEC(T,i2,P,q2),DN(T,i2,O,j2,e)),f(j2,q2)),(DEC(T,i2,P,q2),DN(T,i2,O,j2,e)))
    d=[DEC(T,i,P,q),DN(T,i,O,j,e)]; kk=z3.Int('kk!du')
    pos=[BODY(T,i)==n,FA([i2],And(U8L(i2)>=1,U8L(i2)<=4,Imp(i2>0xFFFF,U8L(i2)==4)),U8L(i2))]
    yield step('decode_unique:utf8 length',[],And(U8L(i)>=1,U8L(i)<=4,Imp(i>0xFFFF,U8L(i)==4)),1)
    from sym import SpecFun
    def st(name,hyps,goal):
        t0=time.time(); s=mk_solver(60000); fs=list(hyps)+[Not(goal)]; s.add(*fs,*unfold(fs,1,opaque=('HX','UB','U8L')),*TRAX); r=s.check(); return (name,'ok' if r==z3.unsat else 'fail',round(time.time()-t0,3),0,str(r),'')
    import time
    yield st('decode_unique:length',hy+pos+d+[ih(lambda j,q: And(j<=e))],j<=e)
    yield st('decode_unique:terminator',hy+pos+d+[ih(lambda j,q: And(j<=e,At(P,q+(e-j))==0)),j<=e],At(P,q+(e-j))==0)
    yield st('decode_unique:bytes',hy+pos+d+[FA([i2,j2,q2],Imp(And(i<i2,i2<=n,BODY(T,i2)==n,DEC(T,i2,P,q2),DN(T,i2,O,j2,e)),And(j2<=e,Imp(And(j2-j<=kk,kk<e-j),At(P,q2+(kk-(j2-j)))==At(O,j+kk)))),(DEC(T,i2,P,q2),DN(T,i2,O,j2,e))),j<=e,0<=kk,kk<e-j,Or(kk>3,*[And(kk==v,At(P,q+kk)==At(P,q+v),At(O,j+kk)==At(O,j+v)) for v in range(4)])],At(P,q+kk)==At(O,j+kk))
