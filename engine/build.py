"""Builds the IR modules of /repo's current tree."""
import os, sys, tempfile, shutil, subprocess, pickle
import ir
from sym import FieldMap, Fail
REPO=os.environ.get('VERIF_REPO','/repo')

def offsets(cpp,wd):
    """struct layout by field name, from the compiler"""
    src='#include <stddef.h>\n#include "%s/zzzjson.h"\n'%REPO
    ns='zj::' if cpp else ''
    body=[]
    for s,fs in FieldMap.NAMES.items():
        for f in fs: body.append(f'printf("{s} {f} %zu\\n",offsetof(struct {ns}{s},{f}));')
    src+='int main(){'+''.join(body)+'return 0;}\n'
    p=os.path.join(wd,'off.cpp' if cpp else 'off.c'); open(p,'w').write(src)
    ir.run((['clang++','-std=c++11','-fno-access-control'] if cpp else ['clang'])+['-w',p,'-o',os.path.join(wd,'off')])
    out={}
    for l in ir.run([os.path.join(wd,'off')]).split('\n'):
        if l: s,f,o=l.split(); out.setdefault(s,{})[f]=int(o)
    return out

def module(contracts,cpp=False,wd=None,hpp=False,keep=()):
    """IR module; functions without a contract are inlined by LLVM"""
    own=wd is None
    wd=wd or tempfile.mkdtemp(prefix='zjv')
    try:
        hdr='zzzjson.hpp' if hpp else 'zzzjson.h'
        t=ir.compile_ll('#include "%s/%s"\n'%(REPO,hdr),cpp,wd,'m')
        m=ir.Module(t,cpp)
        inl={n for n,f in m.funcs.items() if f.base not in contracts and f.base not in keep}
        t2=ir.simplify(t,inl,wd,'m')
        m2=ir.Module(t2,cpp)
        off=offsets(cpp,wd)
        irn={s:('zj::'+s if cpp else s) for s in off}
        return m2,FieldMap(m2,off,irn),m
    finally:
        if own: shutil.rmtree(wd,ignore_errors=True)
