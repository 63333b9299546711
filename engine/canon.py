"""Canonical text of an IR function, used to see that the C and the C++ reading of the header give the same code."""
import re, hashlib
def canon(mod,f):
    succ={}
    for b in f.order:
        t=f.blocks[b][-1]
        if t.op=='br': succ[b]=list(t.extra)
        elif t.op=='switch': succ[b]=[t.extra[0]]+[c for _,c in sorted(t.extra[1],key=lambda x:x[0])]
        elif t.op=='invoke': succ[b]=[t.extra[1]]
        else: succ[b]=[]
    order=[];seen=set();st=[f.order[0]]
    while st:
        b=st.pop()
        if b in seen: continue
        seen.add(b); order.append(b); st.extend(reversed(succ[b]))
    names={}
    def nm(n): return names.setdefault(n,f'v{len(names)}')
    out=[f.ret+' '+','.join(t+' '+nm(n) for t,n in f.params)]
    sn=lambda t: re.sub(r'"','',re.sub(r'struct\.zj::','struct.',t)) if isinstance(t,str) else t
    def glob(n):
        if n in mod.funcs: return mod.funcs[n].base
        g=mod.globals.get(n)
        if g is not None:
            if '#c' not in g:
                t=re.sub(r'@("[^"]+"|[\w.$]+)',lambda m:'@'+glob(m.group(1).strip('"')),g['init'])
                g['#c']='G'+hashlib.sha1((sn(g['ty'])+str(g['const'])+sn(t)).encode()).hexdigest()[:16]
            return g['#c']
        return n
    def v(x):
        k,y=x
        return '%'+nm(y) if k=='reg' else '@'+glob(y) if k=='glob' else f'{k}:{y}'
    PURE={'load','getelementptr','icmp','fcmp','add','sub','mul','shl','lshr','ashr','and','or','xor','udiv','urem','sdiv','srem','fadd','fsub','fmul','fdiv','fneg','zext','sext','trunc','ptrtoint','inttoptr','bitcast','select','freeze','sitofp','uitofp','fptosi','fptoui','fpext','fptrunc'}
    # pure instructions are written where their value is first used; a load carries the number of the effects before it
    pure={}; done=set()
    for b in order:
        ep=0
        for i in f.blocks[b]:
            if i.op in PURE and i.res: pure[i.res]=(i,(b,ep) if i.op=='load' else None)
            elif i.op in('store','call','invoke'): ep+=1
    def regs(i):
        for x in i.args:
            if isinstance(x,tuple) and len(x)==2:
                if isinstance(x[1],tuple): x=x[1]
                if isinstance(x,tuple) and x[0]=='reg': yield x[1]
    def need(r):
        if r in done or r not in pure: return
        done.add(r); i,e=pure[r]
        for q in regs(i): need(q)
        emit(i,(' @'+nm('label '+e[0])+f'.{e[1]}') if e else '')
    def emit(i,tag=''):
        b=where.get(id(i))
        if i.op=='phi': a=sorted(f'[{v(x)},{nm("label "+p)}]' for x,p in i.args)
        elif i.op in('br','switch'): a=[v(x) for x in i.args]+[str([nm('label '+s) for s in succ[b]])]+([str(sorted(k for k,_ in i.extra[1]))] if i.op=='switch' else [])
        elif i.op in PURE and i.op not in('load','getelementptr'): a=[v(x) for x in i.args]+[str(i.extra)]
        elif i.op in('call','invoke'):
            fn=i.extra if i.op=='call' else i.extra[0]
            a=[(t if t!='metadata' else 'md')+' '+(v(x) if t!='metadata' else '') for t,x in i.args]+[glob(fn) if not fn.startswith('llvm') else fn]
        elif i.op=='ret': a=[v(i.args[0][1] if isinstance(i.args[0][1],tuple) else i.args[0])] if i.args else []
        elif i.op=='unsupported': a=[i.text]
        else: a=[(sn(x[0])+' '+v(x[1])) if isinstance(x,tuple) and isinstance(x[1],tuple) else str(x) for x in i.args]+[sn(str(i.extra))]
        out.append(f"{'%'+nm(i.res)+' = ' if i.res else ''}{i.op} {sn(i.ty)} {' , '.join(a)}{tag}")
    where={id(i):b for b in order for i in f.blocks[b]}
    for b in order:
        out.append(nm('label '+b)+':')
        for i in f.blocks[b]:
            if i.op in PURE and i.res: continue
            if i.op!='phi':
                for r in regs(i): need(r)
            emit(i)
    while True:
        todo=[r for r in pure if r not in done and r in names]
        if not todo: break
        todo.sort(key=lambda r:int(names[r][1:])); need(todo[0])
    return '\n'.join(out)
