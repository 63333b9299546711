#!/usr/bin/env python3
"""seed.py FILE.py...: each file defines id, property, needs, breaks, edits=[(file,old,new)], demo (C source), lang/flags.
Plants the change in /repo, confirms that it builds, passes the stable tests and that the demo tells the two trees apart,
undoes it and writes seeded/<id>/."""
import sys,os,json,subprocess,tempfile,shutil
R='/repo'; V='/verif'
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,errors='replace',**k)
DEMO='''#!/bin/bash
# exit 0: the property holds in this demonstration; nonzero: broken
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
%(cc)s %(flags)s -w -I"$PWD" "$D/%(src)s" -o "$T/demo" %(libs)s || exit 3
cd "$T" && timeout 120 ./demo
'''
def run(fn):
    g={}; exec(open(fn).read(),g)
    if sh(f'git -C {R} status --porcelain -uno').stdout.strip(): sys.exit('repo not clean')
    d=f'{V}/seeded/{g["id"]}'; os.makedirs(d,exist_ok=True)
    cpp=g.get('lang','c')=='c++'
    src='demo.cpp' if cpp else 'demo.c'
    open(f'{d}/{src}','w').write(g['demo'].lstrip())
    open(f'{d}/demo.sh','w').write(DEMO%dict(cc='clang++ -std=c++11' if cpp else 'clang',flags=g.get('flags','-O1 -g -fsanitize=address'),src=src,libs='-lm'))
    os.chmod(f'{d}/demo.sh',0o755)
    ok=True; msg=[]
    a=sh(f'bash {d}/demo.sh',cwd=R)
    if a.returncode: ok=False; msg.append(f'demo fails on the unchanged tree rc={a.returncode}: {a.stdout[-500:]}{a.stderr[-800:]}')
    try:
        for f,o,n in g['edits']:
            p=f'{R}/{f}'; t=open(p,newline='').read(); crlf='\r\n' in t
            o=o.strip('\n'); n=n.strip('\n')
            if crlf: o=o.replace('\n','\r\n'); n=n.replace('\n','\r\n')
            k=g.get('nth',1)
            if t.count(o)!=1 and 'nth' not in g: raise Exception(f'{t.count(o)} matches of {o[:60]!r}')
            if 'nth' in g:
                parts=t.split(o); t=o.join(parts[:k])+n+o.join(parts[k:])
            else: t=t.replace(o,n)
            open(p,'w',newline='').write(t)
        open(f'{d}/patch.diff','w',newline='').write(subprocess.run(f'git -C {R} diff --binary',shell=True,capture_output=True).stdout.decode('utf8','surrogateescape'))
        b=sh('bash /opt/vp/build.sh')
        if b.returncode: ok=False; msg.append('build fails '+b.stderr[-600:])
        a=sh(f'bash {d}/demo.sh',cwd=R)
        if a.returncode==0: ok=False; msg.append('demo passes with the change')
        else: msg.append('demo: '+(a.stdout+a.stderr).strip().replace('\n',' | ')[:160])
        if ok:
            sh('bash /opt/vp/test.sh /tmp/w/seedtest.json'); t=json.load(open('/tmp/w/seedtest.json'))
            st=json.load(open('/opt/vp/BASELINE.json'))['stable']
            miss=[x for x in st if x not in t['passed']]
            if miss: ok=False; msg.append(f'{len(miss)} tests fail: {miss[:3]}')
    except Exception as e: ok=False; msg.append(repr(e))
    finally: sh(f'git -C {R} checkout -- .')
    json.dump(dict(property=g['property'],needs=g['needs'],what_it_breaks=g['breaks']),open(f'{d}/meta.json','w'),indent=1)
    print(('KEEP ' if ok else 'DROP ')+g['id'],*msg)
    if not ok: shutil.rmtree(d)
for f in sys.argv[1:]: run(f)
