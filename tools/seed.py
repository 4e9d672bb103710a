#!/usr/bin/env python3
"""Planted bugs.  seed.py try PATCH PROP...   apply to /repo, run the checks, undo
   seed.py add ID PROP PATCH HARNESS 'CASE ARGS' VALUES NEEDS WHAT   (VALUES: a replay file)
   seed.py verify ID...   in a scratch copy of /repo"""
import sys, os, shutil, subprocess, json, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# Builds the small driver beside this file against the built library and runs it
# on the recorded inputs; fails when the behaviour differs from the expected one.
here=$(cd "$(dirname "$0")" && pwd); root=$PWD
tmp=$(mktemp -d); trap 'rm -rf "$tmp"' EXIT
L=$root/_build/src/CbcBonmin/.libs
INC="-I$root/_build/src/Interfaces -I$root/_build/src/Interfaces/config -I$here"
for d in $(cd $root/src && find . -type d | grep -v -i 'filter\\|ampl\\|experimental'); do INC="$INC -I$root/src/$d"; done
g++ -O1 -w -DHAVE_CONFIG_H -DHAVE_CSTDDEF -DBONMINLIB_BUILD $INC -I/usr/include/coin -I/usr/include/coin-or -o $tmp/demo $here/HARNESS $here/SymReplay.cpp -L$L -lbonmin -lCbcSolver -lCbc -lCgl -lOsiClp -lClpSolver -lClp -lOsi -lCoinUtils -lipopt $EXTRA || { echo "demo does not build"; exit 99; }
cd $tmp && LD_LIBRARY_PATH=$L SYM_REPLAY=$here/inputs.txt timeout 120 $tmp/demo ARGS > $tmp/out 2>&1; rc=$?
tail -3 $tmp/out
[ $rc = 0 -o $rc = 4 ] && exit 0
exit 1
'''
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def tryp(patch, props):
    assert not sh('git -C /repo status --porcelain').stdout.strip(), 'repo dirty'
    r = sh('git -C /repo apply ' + os.path.abspath(patch)); assert r.returncode == 0, r.stdout.decode()
    res = {}
    try:
        for p in props:
            r = sh('cd %s && timeout 880 python3 check.py %s quick' % (V, p)); out = r.stdout.decode()
            vi = [l for l in out.split('\n') if l.startswith('VIOLATION')]; br = [l.strip() for l in out.split('\n') if l.startswith('  broken')]
            print(p, 'rc', r.returncode, vi[:1], br[:2]); res[p] = (r.returncode, vi)
            if not vi: print('   ', out[-400:])
    finally: sh('git -C /repo checkout -- .')
    return res
def add(id_, prop, patch, harness, args, vals, needs, what):
    d = os.path.join(V, 'seeded', id_); os.makedirs(d, exist_ok=True)
    if os.path.abspath(patch) != os.path.join(d, 'patch.diff'): shutil.copy(patch, os.path.join(d, 'patch.diff'))
    todo = [harness]; seen = set()
    while todo:
        h = todo.pop()
        if h in seen: continue
        seen.add(h); p = os.path.join(V, 'harness', h)
        if not os.path.exists(p): continue
        shutil.copy(p, d); todo += re.findall(r'#include "([a-z_]+\.hpp)"', open(p).read())
    for f in ('sym.h', 'SymReplay.cpp'): shutil.copy(os.path.join(V, 'engine', f), d)
    open(os.path.join(d, 'inputs.txt'), 'w').write(''.join(l for l in open(vals) if not l.startswith('#') and '=' in l))
    open(os.path.join(d, 'demo.sh'), 'w').write(DEMO.replace('HARNESS', harness).replace('ARGS', args)); os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=what), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
def verify(ids):
    w = '/tmp/seedrepo'; shutil.rmtree(w, ignore_errors=True); sh('cp -a /repo ' + w)
    sh('cd %s/_build && make -j8 && make -C test -j8 all' % w)
    for i in ids:
        d = os.path.join(V, 'seeded', i); dd = '/tmp/seeddemo'; shutil.rmtree(dd, ignore_errors=True); shutil.copytree(d, dd); 
        for f in ('patch.diff', 'meta.json'): os.unlink(os.path.join(dd, f))
        a = sh('bash %s/demo.sh' % dd, cwd=w)
        r = sh('git apply %s/patch.diff' % d, cwd=w)
        b = sh('make -j8 && make -C test -j8 all', cwd=w + '/_build')
        t = sh('cd test && ./CppExample', cwd=w + '/_build')
        c = sh('bash %s/demo.sh' % dd, cwd=w)
        ok = a.returncode == 0 and r.returncode == 0 and b.returncode == 0 and t.returncode == 0 and c.returncode not in (0, 99)
        print(i, 'OK' if ok else 'BAD clean=%d apply=%d build=%d test=%d bug=%d' % (a.returncode, r.returncode, b.returncode, t.returncode, c.returncode), c.stdout.decode()[-150:].replace('\n', ' | '))
        if not ok: print(a.stdout.decode()[-600:])
        sh('git checkout -- .', cwd=w); sh('make -j8', cwd=w + '/_build')
    shutil.rmtree(w, ignore_errors=True)
if __name__ == '__main__':
    c = sys.argv[1]
    if c == 'try': tryp(sys.argv[2], sys.argv[3:])
    elif c == 'plant':   # ID PROP PATCH NEEDS WHAT: try, keep with the inputs found, verify
        id_, prop, patch, needs, what = sys.argv[2:7]; r = tryp(patch, [prop])[prop]
        if r[1]:
            rp = r[1][0].split('replay=')[1]; h = open(rp).readline(); m = re.match(r'# property=\S+ harness=(\S+) case=(.*)', h)
            add(id_, prop, patch, m.group(1), m.group(2).strip(), rp, needs, what); verify([id_])
    elif c == 'add': add(*sys.argv[2:10])
    elif c == 'verify': verify(sys.argv[2:])
