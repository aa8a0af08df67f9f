#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decide one property on /repo's current source.

exit 0: holds (known findings are printed); exit 1: VIOLATION; exit 2: the analysis could not be carried out."""
import importlib
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(100000)

from pysa.core import Broken          # noqa
from rules.base import Rule, Stop, site_fn, program       # noqa
from rules import registry            # noqa


def known_findings():
    out = []
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known: '):
                f = dict(x.split('=', 1) for x in l[len('known: '):].split(' | ')[0].split(' '))
                f['text'] = l.split(' | ', 1)[1]
                out.append(f)
    return out


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    mod, fn, level, technique = registry.CHECKS[pid]
    t0 = time.time()
    r = Rule(pid)
    code, status = 0, 'holds'
    kf = [k for k in known_findings() if k['property'] == pid]

    def listed(f):
        return [k for k in kf if k['rule'] == f['rule'].replace(' ', '-') and k['where'] in f['where']]
    if tier == 'quick':
        r.known = listed
    try:
        getattr(importlib.import_module('rules.' + mod), fn)(r, tier)
    except Stop:
        r.notes['stopped at the first violation'] = 1
    except Broken as e:
        if not r.findings:
            print('ANALYSIS-BROKEN property=%s %s' % (pid, e))
            code, status = 2, 'broken: %s' % e
        else:
            r.notes['analysis stopped: %s' % e] = 1
    except (MemoryError, Exception):
        import traceback
        tb = traceback.format_exc()
        if not r.findings:
            print('ANALYSIS-BROKEN property=%s internal error: %s' % (pid, tb[-1500:]))
            code, status = 2, 'broken: internal error'
        else:
            r.notes['analysis stopped: internal error'] = 1
    prog = program()
    known, new = [], []
    for f in r.findings:
        hit = listed(f)
        (known if hit else new).append((f, hit))
    done = set()
    for f, hit in known:
        if hit[0]['text'] not in done:
            done.add(hit[0]['text'])
            print('KNOWN-FINDING: property=%s %s' % (pid, hit[0]['text']))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    if code == 0 and not r.obligations and not new:
        print('ANALYSIS-BROKEN property=%s nothing was analysed' % pid)
        code, status = 2, 'broken: nothing analysed'
    nob = sum(r.obligations.values())
    if new:
        code, status = 1, 'violated'
    cov = {
        'explanation': technique,
        'rule': getattr(r, 'rule_text', technique),
        'obligations': nob + len(r.findings), 'discharged': nob,
        'obligation_kinds': {k: v for k, v in sorted(r.obligations.items())},
        'functions_analysed': sorted(r.functions), 'functions': len(r.functions),
        'scenarios': r.scenarios,
        'paths': sum(s['outcomes'] for s in r.scenarios.values()),
        'samples': r.samples[:12] or sorted(r.obligations)[:5],
        'unmodelled_calls': r.notes,
        'checker_cmd': 'python3 check.py %s %s' % (pid, tier),
        'trusted_base': 'the abstract interpreter in pysa/, its models of the standard library, the CPython parser',
        'status': status, 'known_findings': sorted(done),
    }
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': level,
          'coverage': cov, 'wall_s': round(time.time() - t0, 3)}
    if r.assumptions:
        ev['assumptions'] = r.assumptions
    path = os.path.join(HERE, 'evidence', pid + '.json')
    vpath = os.path.join(HERE, 'evidence', pid + '.violation.json')
    if os.path.exists(vpath):
        os.remove(vpath)
    if new:
        with open(vpath, 'w') as fh:
            json.dump([{'rule': f['rule'], 'where': site_fn(prog, f['where']), 'message': f['msg'], 'path': f['path']} for f, _ in new],
                      fh, indent=1)
        ev['coverage']['violations'] = [{'rule': f['rule'], 'where': site_fn(prog, f['where']), 'message': f['msg']} for f, _ in new]
        for f, _ in new[:10]:
            print('  %s: [%s] %s' % (site_fn(prog, f['where']), f['rule'], f['msg'][:300]))
        print('VIOLATION property=%s replay=%s' % (pid, vpath))
    with open(path, 'w') as fh:
        json.dump(ev, fh, indent=1, sort_keys=True)
    if code == 0:
        print('ok property=%s obligations=%d functions=%d paths=%d %.1fs' % (pid, nob, len(r.functions), cov['paths'], time.time() - t0))
    return code


if __name__ == '__main__':
    sys.exit(main())
