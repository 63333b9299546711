"""Front end: compiles the real headers with clang, simplifies with LLVM's own SROA / always-inline and
parses the resulting IR text.  Nothing of the source is modelled by hand: the input of the verifier is the IR
of /repo's current working tree."""
import re, subprocess, os, tempfile, dataclasses
from typing import Any

@dataclasses.dataclass
class Ins:
    op: str
    res: str | None
    ty: str
    args: list
    extra: Any = None
    line: int = 0
    text: str = ''

@dataclasses.dataclass
class Func:
    name: str          # IR name
    base: str          # plain name (no namespace / mangling)
    ret: str
    params: list       # (type, name)
    blocks: dict       # label -> [Ins]
    order: list
    text: str = ''
    qual: str = ''     # demangled, qualified

class IRError(Exception): pass

ATTRS = {'noundef','signext','zeroext','nonnull','internal','linkonce_odr','dso_local','hidden','noalias','nocapture','readonly','writeonly','immarg','comdat','local_unnamed_addr','unnamed_addr','mustprogress','inreg','returned','tail','notail','musttail','inbounds','nuw','nsw','exact','volatile','nneg','disjoint','private','constant','define','fastcc','nofpclass'}

def split_top(s, sep=','):
    out=[];d=0;cur='';q=False
    for ch in s:
        if ch=='"': q=not q
        if not q:
            if ch in '([{<': d+=1
            elif ch in ')]}>': d-=1
            if ch==sep and d==0:
                out.append(cur.strip());cur='';continue
        cur+=ch
    if cur.strip(): out.append(cur.strip())
    return out

def take_type(s):
    """splits leading type off s"""
    s=s.strip()
    if s[0] in '[{<':
        close={'[':']','{':'}','<':'>'}[s[0]];d=0
        for i,ch in enumerate(s):
            if ch==s[0]: d+=1
            elif ch==close:
                d-=1
                if d==0: return s[:i+1], s[i+1:].strip()
    if s.startswith('%"'):
        i=s.index('"',2); return s[:i+1].replace('"',''), s[i+1:].strip()
    m=re.match(r'(\S+)\s*(.*)$',s,re.S)
    return m.group(1).replace('"',''), m.group(2)

def strip_attrs(s):
    while True:
        s=s.strip()
        m=re.match(r'(align \d+|dereferenceable(_or_null)?\(\d+\)|sret\([^)]*\)|range\([^)]*\)|captures\([^)]*\)|#\d+)\s*',s)
        if m: s=s[m.end():];continue
        m=re.match(r'([a-z_]+)\b\s*',s)
        if m and m.group(1) in ATTRS: s=s[m.end():];continue
        return s

def parse_value(s):
    s=s.strip()
    if s.startswith('%'): return ('reg', s[1:].strip('"'))
    if s.startswith('@'): return ('glob', s[1:].strip('"'))
    if s=='null': return ('int',0)
    if s in('true','false'): return ('int',1 if s=='true' else 0)
    if s in('undef','poison'): return ('undef',None)
    if s=='zeroinitializer': return ('zero',None)
    if re.fullmatch(r'-?\d+',s): return ('int',int(s))
    if re.fullmatch(r'0x[0-9A-F]+',s) or re.fullmatch(r'-?\d+\.\d+(e[+-]?\d+)?',s): return ('fp',s)
    if s.startswith('getelementptr'): return ('cexpr',s)
    return ('other',s)

def typed(s):
    t,r=take_type(s)
    return t,parse_value(strip_attrs(r))

class Module:
    def __init__(self,text,demangle=False):
        self.text=text
        self.structs={}; self.globals={}; self.funcs={}; self.meta={}; self.files={}
        self._parse(demangle)

    def _parse(self,demangle):
        lines=self.text.split('\n')
        i=0
        for l in lines:
            m=re.match(r'!(\d+) = (?:distinct )?!DILocation\(line: (\d+)',l)
            if m: self.meta[int(m.group(1))]=int(m.group(2))
        decl=[]
        while i<len(lines):
            l=lines[i]
            m=re.match(r'%("?[^"=]+"?) = type (.*)$',l)
            if m:
                b=m.group(2).strip()
                if b!='opaque':
                    packed=b.startswith('<{'); b=b.strip('<>{} ')
                    self.structs['%'+m.group(1).strip('" ')]=[x.replace('"','') for x in split_top(b)]
            m=re.match(r'@("?[^"=]+"?) = (.*)$',l)
            if m: self._glob(m.group(1).strip('" '),m.group(2))
            if l.startswith('declare '):
                m=re.search(r'@"?([^"(]+)"?\(',l); decl.append(m.group(1))
            if l.startswith('define '):
                j=i
                while lines[j]!='}': j+=1
                f=self._func(lines[i:j+1]); self.funcs[f.name]=f
                i=j
            i+=1
        self.decls=decl
        names=list(self.funcs)
        if demangle and names:
            out=subprocess.run(['llvm-cxxfilt'],input='\n'.join(names),capture_output=True,text=True).stdout.split('\n')
            for n,d in zip(names,out):
                self.funcs[n].qual=d
                b=d.split('(')[0].replace('(anonymous namespace)::','')
                self.funcs[n].base=b.split('::')[-1].split(' ')[-1]
        else:
            for n in names: self.funcs[n].qual=n
        self.written=set()
        for f in self.funcs.values():
            for b in f.blocks.values():
                for ins in b:
                    if ins.op=='store' and ins.args[1][1][0]=='glob': self.written.add(ins.args[1][1][1])

    def _glob(self,name,rest):
        rest=re.sub(r', !dbg !\d+','',rest)
        s=rest
        const='constant ' in ' '+s.split(' c"')[0]
        m=re.match(r'.*?\b(global|constant) (.*)$',s)
        if not m: return
        s=m.group(2)
        try: t,r=take_type(s)
        except Exception: return
        r=re.sub(r',\s*(align \d+|comdat.*|section.*)$','',r.strip()).strip()
        r=re.sub(r',\s*align \d+$','',r)
        self.globals[name]=dict(ty=t,const=const,init=r)

    def _func(self,ls):
        h=ls[0]
        m=re.match(r'define (.*?)@("[^"]+"|[^\s(]+)\(',h)
        pre=strip_attrs(m.group(1)); name=m.group(2).strip('"')
        ret=take_type(pre+' x')[0] if pre else 'void'
        k=m.end(); d=1; e=k
        while d:
            if h[e]=='(': d+=1
            elif h[e]==')': d-=1
            e+=1
        params=[]
        for p in split_top(h[k:e-1]):
            if p=='...': continue
            t,r=take_type(p); params.append((t,r.split()[-1][1:].strip('"') if r else ''))
        blocks={};order=[];cur=None;i=1
        # implicit entry label
        while i<len(ls)-1:
            l=ls[i]
            m=re.match(r'^("?[\w.$-]+"?):',l)
            if m:
                cur=m.group(1).strip('"');blocks[cur]=[];order.append(cur);i+=1;continue
            s=l.strip()
            if not s or s.startswith(';'): i+=1;continue
            if s.startswith('switch'):
                while not re.search(r'^\s*\]',ls[i]): i+=1; s+=' '+ls[i].strip()
            if cur is None:
                cur='entry';blocks[cur]=[];order.append(cur)
            try: ins=self._ins(s)
            except Exception as e: ins=Ins('unsupported',None,'void',[],str(e),0,s)
            if ins: blocks[cur].append(ins)
            i+=1
        return Func(name,name,ret,params,blocks,order,'\n'.join(ls))

    def _ins(self,s):
        src=s
        line=0
        m=re.search(r', !dbg !(\d+)',s)
        if m: line=self.meta.get(int(m.group(1)),0)
        s=re.sub(r'(, ![\w.]+ !\d+)+$','',s)
        res=None
        m=re.match(r'%("[^"]+"|[\w.$-]+) = (.*)$',s)
        if m: res=m.group(1).strip('"'); s=m.group(2)
        s=strip_attrs(s)
        op,rest=(s.split(' ',1)+[''])[:2]
        I=lambda ty,args,extra=None: Ins(op,res,ty,args,extra,line,src)
        if op=='alloca':
            p=split_top(rest); return I(p[0].replace('"',''),p[1:])
        if op=='load':
            rest=strip_attrs(rest); p=split_top(rest); return I(p[0].replace('"',''),[typed(p[1])])
        if op=='store':
            rest=strip_attrs(rest); p=split_top(rest); return I('void',[typed(p[0]),typed(p[1])])
        if op=='getelementptr':
            rest=strip_attrs(rest); p=split_top(rest)
            return I('ptr',[typed(x) for x in p[1:]],p[0].replace('"',''))
        if op in('icmp','fcmp'):
            pred,r=rest.split(' ',1); t,r=take_type(r); a,b=split_top(r)
            return I(t,[parse_value(a),parse_value(b)],pred)
        if op in('add','sub','mul','shl','lshr','ashr','and','or','xor','udiv','urem','sdiv','srem','fadd','fsub','fmul','fdiv'):
            rest=strip_attrs(rest); t,r=take_type(rest); a,b=split_top(r)
            return I(t,[parse_value(a),parse_value(b)])
        if op in('fneg',):
            t,r=take_type(rest); return I(t,[parse_value(r)])
        if op in('zext','sext','trunc','ptrtoint','inttoptr','bitcast','sitofp','uitofp','fptosi','fptoui','fpext','fptrunc'):
            rest=strip_attrs(rest); m=re.match(r'(.*) to (\S+)$',rest); t,v=typed(m.group(1))
            return I(m.group(2),[v],t)
        if op=='br':
            p=split_top(rest)
            if len(p)==1: return I('void',[],[p[0].split('%')[1].strip('"')])
            return I('void',[typed(p[0])[1]],[p[1].split('%')[1].strip('"'),p[2].split('%')[1].strip('"')])
        if op=='switch':
            m=re.match(r'(.*?), label %(\S+) \[(.*)\]$',rest); t,v=typed(m.group(1))
            cases=[(int(a),b.strip('"')) for a,b in re.findall(r'i\d+ (-?\d+), label %(\S+)',m.group(3))]
            return I(t,[v],(m.group(2).strip('"'),cases))
        if op=='ret':
            if rest.strip()=='void': return I('void',[])
            t,v=typed(rest); return I(t,[v])
        if op=='phi':
            t,r=take_type(rest)
            prs=[]
            for a in split_top(r):
                a=a.strip()[1:-1]; x,y=split_top(a); prs.append((parse_value(x),y.strip()[1:].strip('"')))
            return I(t,prs)
        if op=='select':
            p=split_top(rest); return I(typed(p[1])[0],[typed(x)[1] for x in p])
        if op in('call','invoke'):
            m=re.search(r'@("[^"]+"|[\w.$]+)\(',rest)
            if not m: raise IRError('indirect call: '+src)
            fn=m.group(1).strip('"'); pre=strip_attrs(rest[:m.start()]); k=m.end();d=1;e=k
            while d:
                if rest[e]=='(': d+=1
                elif rest[e]==')': d-=1
                e+=1
            if fn.startswith('zjf.'):
                return Ins('getelementptr',res,'ptr',[typed(rest[k:e-1]),('i32',('int',0)),('i32',('int',0))],bytes.fromhex(fn[4:]).decode(),line,src)
            if fn.startswith('llvm.dbg.') or fn.startswith('llvm.lifetime') or fn.startswith('llvm.experimental.noalias'): return None
            args=[]
            for a in split_top(rest[k:e-1]):
                if a.startswith('metadata'): args.append(('metadata',('other',a)));continue
                args.append(typed(a))
            rt=take_type(pre+' x')[0] if pre else 'void'
            ex=fn
            if op=='invoke':
                mm=re.search(r'to label %(\S+) unwind',rest[e:]); return Ins('invoke',res,rt,args,(fn,mm.group(1)),line,src)
            return I(rt,args,ex)
        if op=='unreachable': return I('void',[])
        if op=='freeze':
            t,r=take_type(rest); return I(t,[parse_value(r)])
        raise IRError('unsupported instruction: '+src)

    # ---- layout ----
    def sizeof(self,t):
        if t in('i1','i8'): return 1
        if t=='i16': return 2
        if t in('i32','float'): return 4
        if t in('i64','ptr','double'): return 8
        if t=='x86_fp80': return 16
        if t.startswith('['):
            m=re.match(r'\[(\d+) x (.*)\]$',t); return int(m.group(1))*self.sizeof(m.group(2))
        if t in self.structs: return self.layout(t)[1]
        if t.startswith('{'):
            return self._lay(split_top(t.strip('{} ')))[1]
        raise IRError('sizeof '+t)
    def alignof(self,t):
        if t.startswith('['): return self.alignof(re.match(r'\[(\d+) x (.*)\]$',t).group(2))
        if t in self.structs: return max([self.alignof(x) for x in self.structs[t]] or [1])
        return self.sizeof(t)
    def _lay(self,fs):
        off=0;offs=[];al=1
        for f in fs:
            a=self.alignof(f);al=max(al,a);off=(off+a-1)//a*a;offs.append(off);off+=self.sizeof(f)
        return offs,(off+al-1)//al*al
    def layout(self,t): return self._lay(self.structs[t])

def run(cmd,**k):
    r=subprocess.run(cmd,capture_output=True,text=True,**k)
    if r.returncode: raise IRError('command failed: %s\n%s'%(' '.join(cmd),r.stderr[-3000:]))
    return r.stdout

def compile_ll(src_text,cpp,workdir,name,flags=()):
    src=os.path.join(workdir,name+('.cpp' if cpp else '.c'))
    open(src,'w').write(src_text)
    out=os.path.join(workdir,name+'.ll')
    cmd=(['clang++','-std=c++11'] if cpp else ['clang'])+['-O0','-Xclang','-disable-O0-optnone','-fno-discard-value-names','-S','-emit-llvm','-femit-all-decls','-g','-gno-column-info','-fno-exceptions','-w',*flags,src,'-o',out]
    run(cmd)
    return open(out).read()

# the address of a struct's first field is kept visible: LLVM folds it to the bare pointer otherwise
FIELD0={'zj_node','zj_Value','zj_Allocator','zj_aNode','zj_string','Value','Allocator'}

def simplify(text,inline,workdir,name):
    """marks every function whose IR name is in `inline` always-inline, then SROA + inliner + SROA (LLVM's own passes)"""
    ls=text.split('\n')
    for i,l in enumerate(ls):
        if l.startswith('define '):
            m=re.match(r'define .*?@("[^"]+"|[^\s(]+)\(',l)
            n=m.group(1).strip('"')
            if not re.search(r' #\d+',l): raise IRError('attr edit '+l)
            l=re.sub(r' #\d+',' #991' if n in inline else ' #990',l,count=1)
            ls[i]=l
    marks=set()
    def mark(m):
        s='%'+m.group(1).strip('"')
        if s.split('.',1)[-1].split('::')[-1] not in FIELD0: return m.group(0)
        n='zjf.'+s.encode().hex(); marks.add(n); return f'call ptr @{n}(ptr {m.group(2)}) #992'
    for i,l in enumerate(ls):
        if 'getelementptr' in l: ls[i]=re.sub(r'getelementptr inbounds %("(?:struct|class)\.[^"]+"|(?:struct|class)\.[\w.]+), ptr (%"?[^,"\s]+"?), i32 0, i32 0(?=$|, !)',mark,l)
    for n in sorted(marks): ls.append(f'declare ptr @{n}(ptr) #992')
    ls.append('attributes #992 = { nounwind willreturn memory(none) speculatable }')
    ls.append('attributes #990 = { noinline nounwind }')
    ls.append('attributes #991 = { alwaysinline nounwind }')
    a=os.path.join(workdir,name+'.in.ll'); b=os.path.join(workdir,name+'.out.ll')
    open(a,'w').write('\n'.join(ls))
    run(['opt','-S','-passes=function(sroa),always-inline,function(sroa,early-cse,simplifycfg,instsimplify,adce,simplifycfg,loop-simplify)',a,'-o',b])
    return open(b).read()
