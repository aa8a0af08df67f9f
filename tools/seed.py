#!/usr/bin/env python3
"""seed.py SPEC.py...: build /verif/seeded/<id>/ from a spec and confirm it in a scratch copy of /repo.

A spec sets: id, prop, needs, breaks, edits=[(file, old, new), ...], demo (python source).
Confirmed means: the patch applies to HEAD, the 26 tests pass with it, the demo passes without and fails with it."""
import json, os, re, shutil, subprocess, sys, tempfile
OUT = '/verif/seeded'
PY = '/opt/venv/bin/python'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')


def sh(cmd, cwd, t=300):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=ENV, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, text=True)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        return 124, str(e.stdout or '')[-1000:]


def one(spec):
    ns = {}
    exec(open(spec).read(), ns)
    sid = ns['id']
    d = tempfile.mkdtemp(prefix='seed_')
    wt = d + '/repo'
    try:
        sh('cp -a /repo %s' % wt, '/')
        sh('git checkout -q -- . && git clean -fdq', wt)
        dd = d + '/demo'
        os.mkdir(dd)
        open(dd + '/demo.py', 'w').write(ns['demo'])
        open(dd + '/demo.sh', 'w').write('#!/bin/bash\n# run with cwd /repo\nset -u\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"\n'
                                         'exec timeout -k 5 %d %s "$(dirname "$0")/demo.py"\n' % (ns.get('limit', 60), PY))
        r0, o0 = sh('bash %s/demo.sh' % dd, wt)
        if r0:
            print(sid, 'BAD: demo fails on the unchanged tree', o0[-1500:]); return
        for f, a, b in ns['edits']:
            s = open(wt + '/' + f).read()
            if s.count(a) != 1:
                print(sid, 'BAD: %d matches in %s of %r' % (s.count(a), f, a)); return
            open(wt + '/' + f, 'w').write(s.replace(a, b))
        diff = sh('git diff', wt)[1]
        # at least one removed/changed line belongs to the original repository
        base = '3e45a28'
        rt, ot = sh('(cd tests/proto && %s -m grpc_tools.protoc -I. --python_out=./python ./*.proto); %s -m pytest -q -p no:cacheprovider --timeout=120 tests' % (PY, PY), wt, 600)
        if not re.search(r'26 passed', ot):
            print(sid, 'BAD: tests', ot[-700:]); return
        r1, o1 = sh('bash %s/demo.sh' % dd, wt)
        if not r1:
            print(sid, 'BAD: demo passes with the change', o1[-1000:]); return
        bl = sh("for f in $(git diff --name-only); do git blame -s HEAD -- $f; done", wt)[1]
        dst = OUT + '/' + sid
        shutil.rmtree(dst, ignore_errors=True)
        os.makedirs(dst)
        open(dst + '/patch.diff', 'w').write(diff)
        for f in ('demo.sh', 'demo.py'):
            shutil.copy(dd + '/' + f, dst)
        json.dump({'property': ns['prop'], 'needs': ns['needs'], 'what_it_breaks': ns['breaks']},
                  open(dst + '/meta.json', 'w'), indent=1)
        print(sid, 'ok (demo exit %d: %s)' % (r1, (o1.strip().splitlines() or [''])[-1][:150]))
        for p in ns.get('check', [ns['prop']]):
            rc, oc = sh('PYSA_REPO=%s timeout 900 python3 /verif/check.py %s quick' % (wt, p), '/verif', 1000)
            print('   check', p, 'exit', rc, [l[:160] for l in oc.splitlines() if 'VIOLATION' in l or 'BROKEN' in l][:2] or oc[-200:])
    finally:
        shutil.rmtree(d, ignore_errors=True)


for s in sys.argv[1:]:
    one(s)
