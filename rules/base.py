"""What every check shares: obligations, findings, helpers over abstract values."""
import os
import re
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from pysa.values import *            # noqa
from pysa.core import *              # noqa
from pysa.interp import Interp, Monitor   # noqa
from pysa.driver import Scenario, program, sym    # noqa
from pysa import models              # noqa


class Keep(Monitor):
    """keeps what a path assumed about the scenario's own inputs"""
    OPS = {'sym', 'len', 'enc', 'dec', 'lin', 'unp', 'sl', 'cat', 'fld', 'fact', 'not', 'enum'}

    def keep_fact(self, key):
        for t in key[1:]:
            if isinstance(t, tuple) and t:
                for x in walk(t):
                    if x and x[0] == 'S' and len(x) == 5 and x[1] not in self.OPS:
                        return False
                    if x and x[0] == 'O' and len(x) == 2:
                        return False
        return True


class Stop(BaseException):
    """enough is known: a violation that is not a listed finding"""


class Rule(object):
    """collects the obligations of one property"""

    def __init__(self, pid):
        self.pid = pid
        self.findings = []       # dict(rule, where, msg, path)
        self.obligations = {}    # text -> number of times discharged
        self.functions = set()
        self.scenarios = {}
        self.notes = {}
        self.samples = []
        self.assumptions = []
        self.known = None        # finding -> is it a listed one (None: go on after a violation)

    def ok(self, text, n=1):
        self.obligations[text] = self.obligations.get(text, 0) + n

    def fail(self, rule, where, msg, st=None):
        where = str(where)
        for f in self.findings:
            if f['rule'] == rule and f['where'] == where and f['msg'] == msg:
                return
        self.findings.append({'rule': rule, 'where': where, 'msg': msg, 'path': st.path(60) if st is not None else []})
        if self.known is not None and not self.known(self.findings[-1]):
            raise Stop()

    def check(self, cond, text, where, msg, st=None):
        if cond:
            self.ok(text)
        else:
            self.fail(text, where, msg, st)
        return cond

    def ran(self, sc, name, outcomes, **extra):
        """account for a scenario that was analysed"""
        self.functions |= {f for f in sc.ip.fn_seen if not f.startswith('<')}
        d = self.scenarios.setdefault(name, {'outcomes': 0})
        d['outcomes'] += outcomes
        d.update(extra)
        for k, v in sc.ip.notes.items():
            self.notes[k] = self.notes.get(k, 0) + v

    def broken(self, text):
        raise Broken(text)

    def parallel(self, tasks):
        """run every task(rule) in a process of its own; results are merged in the order of the tasks"""
        global _TASKS
        _TASKS = [(self.pid, self.known is not None and self.known or None, t) for t in tasks]
        n = min(len(tasks), os.cpu_count() or 1)
        if n < 2:
            for t in tasks:
                t(self)
            return
        import multiprocessing
        ctx = multiprocessing.get_context('fork')
        stop, broken = False, None
        done = {}
        with ctx.Pool(n, maxtasksperchild=1) as pool:
            for i, d in pool.imap_unordered(_one, range(len(tasks)), 1):
                done[i] = d
                if d['stop']:
                    stop = True
                    pool.terminate()
                    break
        for i in sorted(done):
            d = done[i]
            for f in d['findings']:
                if not any(f['rule'] == g['rule'] and f['where'] == g['where'] and f['msg'] == g['msg'] for g in self.findings):
                    self.findings.append(f)
            for k, n in d['obligations'].items():
                self.ok(k, n)
            self.functions |= d['functions']
            self.scenarios.update(d['scenarios'])
            for k, n in d['notes'].items():
                self.notes[k] = self.notes.get(k, 0) + n if isinstance(n, int) else n
            self.samples.extend(d['samples'])
            for a in d['assumptions']:
                if a not in self.assumptions:
                    self.assumptions.append(a)
            broken = broken or d['broken']
        if stop:
            raise Stop()
        if broken:
            raise Broken(broken)


_TASKS = []


def _one(i):
    sys.setrecursionlimit(100000)
    pid, known, task = _TASKS[i]
    r = Rule(pid)
    r.known = known
    stop, broken = False, None
    try:
        task(r)
    except Stop:
        stop = True
    except Broken as e:
        broken = str(e)
    except Exception as e:
        import traceback
        broken = 'internal error: %s' % traceback.format_exc()[-600:].replace('\n', ' | ')
    return i, {'findings': r.findings, 'obligations': r.obligations, 'functions': r.functions, 'scenarios': r.scenarios, 'notes': r.notes,
            'samples': r.samples, 'assumptions': r.assumptions, 'broken': broken, 'stop': stop}


def site_fn(prog, site):
    """'module:line:col' -> 'file.py:line (function)'"""
    m = re.match(r'^(.*):(\d+):(\d+)$', str(site))
    if not m:
        return str(site)
    mod, line = m.group(1), int(m.group(2))
    if mod.startswith('<'):
        return site
    path = prog.files.get(mod, mod)
    fn = ''
    if mod in prog.trees:
        import ast
        best = None
        for n in ast.walk(prog.trees[mod]):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n.lineno <= line <= n.end_lineno:
                if best is None or n.lineno >= best.lineno:
                    best = n
        fn = best.name if best else '<module>'
    rel = os.path.relpath(path, prog.repo)
    return '%s:%d (%s)' % (rel, line, fn)


def exc_is(ip, e, cls, st):
    """is the exception certainly of the class"""
    if e[0] == 'ABORT':
        return False
    return bool(ip.is_sub(ip.exc_class(e, st), cls, st))


def exc_name(ip, e, st):
    c = ip.exc_class(e, st)
    return ip.cls_name(c, st) if c[0] != 'X' else c[1]


def exc_site(e, st):
    if e[0] == 'O':
        m = re.search(r'@(.*:\d+:\d+)', str(e[1][0]))
        if m:
            return m.group(1)
    p = [x for x in st.path(400) if ' raise' in x]
    if p:
        return p[-1].split(' ')[0]
    return '?'


def unwrap(v):
    """bytes(x), memoryview(x), int(enum) ..: the plain value"""
    while v[0] == 'S' and v[1] in ('wrap', 'enum'):
        v = v[2][0] if v[1] == 'wrap' else v[2][1]
    if v[0] == 'E':
        v = v[3]
    return v


def same(ip, a, b, st):
    """are the two values certainly equal on this path"""
    a, b = unwrap(a), unwrap(b)
    if a == b:
        return True
    ca, cb = const(a), const(b)
    if ca[0] and cb[0]:
        return ca[1] == cb[1] and (isinstance(ca[1], (str, bytes)) == isinstance(cb[1], (str, bytes)))
    la, lb = lin_of(a), lin_of(b)
    if la is not None and lb is not None:
        d = lin_add(la, lb, -1)
        if not d:
            return True
        c = lin_const(d)
        if c is not None:
            return c == 0
        k = ip.eq_key(a, b)
        if k in (True, False):
            return k
        if isinstance(k, tuple):
            r = ip.know(k[0], st)
            return r is not None and r == k[1]
        return False
    if typeof(a) in ('str', 'bytes') and typeof(b) == typeof(a):
        # both empty?
        for x in (a, b):
            n = ip.length_of(x, st)
            if n is None:
                return False
            if lin_const(n) == 0:
                continue
            if ip.know_pos(n, st) is False:
                continue
            # UTF-8 of an empty string is empty and conversely
            e = S('enc', (x, K('utf-8')), 'bytes')
            ne = S('len', (e,), 'int')
            if typeof(x) == 'str' and (ip.know_pos({ne: Fraction(1)}, st) is False or st.facts.get(('eq0', ne))):
                continue
            return False
        return True
    k = ip.eq_key(a, b) if a[0] in ('S', 'K') and b[0] in ('S', 'K') else None
    if k in (True, False):
        return k
    if isinstance(k, tuple):
        r = ip.know(k[0], st)
        return r is not None and r == k[1]
    return False


def attr_of(ip, ref, name, st, site='<rule>'):
    """value of an attribute, evaluated on a copy; None if it raises or forks"""
    rs = ip.getattr_(ref, name, st.clone(), site)
    good = [r for r in rs if r[0]]
    if len(good) == 1:
        return good[0][1]
    return None


def parts_of(v):
    if v[0] == 'S' and v[1] == 'cat':
        return list(v[2])
    return [v]


class Cursor(object):
    """reads a byte string part by part"""

    def __init__(self, ip, v, st):
        self.ip, self.st = ip, st
        self.parts = []
        for p in parts_of(unwrap(v)):
            p = unwrap(p)
            self.parts.extend(parts_of(p))
        self.err = None

    def field(self, size, value):
        """the next size bytes are the big-endian encoding of value"""
        if not self.parts:
            self.err = 'the bytes end early'
            return False
        p = self.parts[0]
        if p[0] == 'K':
            ok, c = const(unwrap(value))
            if len(p[2]) < size:
                self.err = 'field of %d bytes expected, constant %r found' % (size, p[2])
                return False
            raw = p[2][:size]
            rest = p[2][size:]
            self.parts[0:1] = [K(rest)] if rest else []
            if not ok or not isinstance(c, int):
                # a constant where a value is expected
                lin = lin_of(unwrap(value))
                if lin is not None and any(same(self.ip, value, K(int.from_bytes(raw, 'big', signed=sg)), self.st) for sg in (True, False)):
                    return True
                self.err = 'constant %r instead of %s' % (raw, show(value))
                return False
            if raw not in (c.to_bytes(size, 'big', signed=c < 0),):
                self.err = 'constant %r instead of %d' % (raw, c)
                return False
            return True
        if p[0] == 'S' and p[1] == 'fld':
            order, code, val, sz = p[2]
            if const(sz) != (True, size):
                self.err = 'a field of %s bytes where %d bytes are expected' % (show(sz), size)
                return False
            if size > 1 and order != '>':
                self.err = 'byte order %r' % order
                return False
            if not same(self.ip, val, value, self.st):
                self.err = 'holds %s instead of %s' % (show(val), show(value))
                return False
            self.parts.pop(0)
            return True
        self.err = 'a %d byte field expected, %s found' % (size, show(p))
        return False

    def bytes_(self, expected):
        """the next bytes are exactly the expected parts"""
        for e in expected:
            e = unwrap(e)
            if e[0] == 'K' and not e[2]:
                continue
            if not self.parts:
                if same(self.ip, e, K(b''), self.st):
                    continue
                self.err = 'the bytes end before %s' % show(e)
                return False
            p = self.parts[0]
            if e[0] == 'K' and p[0] == 'K':
                if not p[2].startswith(e[2]):
                    self.err = '%r instead of %r' % (p[2][:40], e[2])
                    return False
                rest = p[2][len(e[2]):]
                self.parts[0:1] = [K(rest)] if rest else []
                continue
            if e[0] == 'S' and e[1] == 'fld':
                if not self.field(e[2][3][2], e[2][2]):
                    return False
                continue
            if not same(self.ip, p, e, self.st):
                if same(self.ip, e, K(b''), self.st):
                    continue
                self.err = '%s instead of %s' % (show(p), show(e))
                return False
            self.parts.pop(0)
        return True

    def end(self):
        rest = [p for p in self.parts if not same(self.ip, p, K(b''), self.st)]
        if rest:
            self.err = 'extra bytes %s' % show(rest[0])
            return False
        return True


def fld(v, size, signed=True):
    code = {1: 'b', 2: 'h', 4: 'i', 8: 'q'}[size]
    return S('fld', ('>', code if signed else code.upper(), v, K(size)), 'bytes')


def enc(s):
    if s[0] == 'K':
        return K(s[2].encode('utf-8'))
    return S('enc', (s, K('utf-8')), 'bytes')


def header_parts(entries, ip, st):
    """the published encoding of a header map"""
    out = []
    for k, v in entries:
        for x in (k, v):
            e = enc(x)
            out.append(fld(lin_val(ip.length_of(e, st)), 4))
            out.append(e)
    return out


def length(ip, parts, st):
    d = {}
    for p in parts:
        d = lin_add(d, ip.length_of(p, st))
    return lin_val(d)


REQUEST_CLASS = b'com.alipay.sofa.rpc.core.request.SofaRequest'
RESPONSE_CLASS = b'com.alipay.sofa.rpc.core.response.SofaResponse'
PUBLISHED = {
    'PROTO': {'BOLT': 1},
    'PTYPE': {'RESPONSE': 0, 'REQUEST': 1, 'ONEWAY': 2},
    'CMDCODE': {'HEARTBEAT': 0, 'REQUEST': 1, 'RESPONSE': 2},
    'VER2': {'REMOTING': 1},
    'CODEC': {'HESSIAN': 1, 'JAVA': 2, 'PROTOBUF': 11},
    'RESPSTATUS': {'SUCCESS': 0, 'ERROR': 1, 'SERVER_EXCEPTION': 2, 'UNKNOWN': 3, 'SERVER_THREADPOOL_BUSY': 4, 'ERROR_COMM': 5,
                   'NO_PROCESSOR': 6, 'TIMEOUT': 7, 'CLIENT_SEND_ERROR': 8, 'CODEC_EXCEPTION': 9, 'CONNECTION_CLOSED': 16,
                   'SERVER_SERIAL_EXCEPTION': 17, 'SERVER_DESERIAL_EXCEPTION': 18},
}
