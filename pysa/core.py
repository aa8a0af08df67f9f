"""Program model and abstract state."""
import ast
import builtins
import glob
import importlib
import os

from .values import *

REPO = os.environ.get('PYSA_REPO', '/repo')
PACKAGES = ('anthunder', 'mysockpool', 'mytracer')


class Broken(Exception):
    """the analysis can not be carried out (a vanished anchor, an unsupported construct)"""


class HObj(object):
    __slots__ = ('kind', 'cls', 'f', 'm', '_h')

    def __init__(self, kind, cls, f=None, m=None):
        self.kind, self.cls, self.f, self.m = kind, cls, f or {}, m or {}
        self._h = None

    def sig(self):
        if self._h is None:
            self._h = (self.kind, self.cls, frozenset(self.f.items()), frozenset(self.m.items()))
        return self._h

    def __hash__(self):
        return hash(self.sig())

    def __eq__(self, o):
        return self is o or self.sig() == o.sig()

    def set(self, name, val):
        f = dict(self.f)
        f[name] = val
        return HObj(self.kind, self.cls, f, self.m)

    def delete(self, name):
        f = dict(self.f)
        f.pop(name, None)
        return HObj(self.kind, self.cls, f, self.m)

    def meta(self, **kw):
        m = dict(self.m)
        m.update(kw)
        return HObj(self.kind, self.cls, self.f, m)


class State(object):
    __slots__ = ('heap', 'facts', 'locks', 'rs', 'stack', 'tmp', 'trail', 'base')

    def __init__(self, base):
        self.base = base
        self.heap, self.facts, self.locks, self.rs = {}, {}, (), {}
        self.stack, self.tmp, self.trail = (), (), None

    def clone(self):
        s = State.__new__(State)
        s.base = self.base
        s.heap, s.facts, s.rs = dict(self.heap), dict(self.facts), dict(self.rs)
        s.locks, s.stack, s.tmp, s.trail = self.locks, self.stack, self.tmp, self.trail
        return s

    def key(self):
        return (frozenset((k, v.sig()) for k, v in self.heap.items()), frozenset(self.facts.items()), self.locks,
                frozenset(self.rs.items()), self.stack, self.tmp)

    def obj(self, ref):
        o = self.heap.get(ref[1])
        return o if o is not None else self.base.get(ref[1])

    def put(self, ref, o):
        self.heap[ref[1]] = o

    def note(self, text):
        self.trail = (text, self.trail)

    def path(self, n=40):
        out, t = [], self.trail
        while t and len(out) < n:
            out.append(t[0])
            t = t[1]
        return out[::-1]


# ---------------------------------------------------------------- real classes of the standard library

ALIAS = {
    'six.moves.queue': 'queue', 'six.moves.range': 'builtins.range', 'six.moves': 'six.moves',
    'asyncio.TimeoutError': 'builtins.TimeoutError', 'concurrent.futures.TimeoutError': 'builtins.TimeoutError',
    'asyncio.exceptions.TimeoutError': 'builtins.TimeoutError', 'socket.timeout': 'builtins.TimeoutError',
    'socket.error': 'builtins.OSError', 'select.error': 'builtins.OSError',
    'builtins.EnvironmentError': 'builtins.OSError', 'builtins.IOError': 'builtins.OSError',
    'asyncio.tasks.ensure_future': 'asyncio.ensure_future',
    'asyncio.futures.wrap_future': 'asyncio.wrap_future',
    'asyncio.exceptions.IncompleteReadError': 'asyncio.IncompleteReadError',
    'asyncio.streams.IncompleteReadError': 'asyncio.IncompleteReadError',
    'asyncio.locks.Lock': 'asyncio.Lock', 'asyncio.locks.Event': 'asyncio.Event',
    'concurrent.futures.thread.ThreadPoolExecutor': 'concurrent.futures.ThreadPoolExecutor',
    'threading._RLock': 'threading.RLock', 'selectors34.DefaultSelector': 'selectors.DefaultSelector',
    'selectors34.EVENT_READ': 'selectors.EVENT_READ', 'selectors34.EVENT_WRITE': 'selectors.EVENT_WRITE',
    'selectors.SelectSelector': 'selectors.DefaultSelector', 'selectors.PollSelector': 'selectors.DefaultSelector',
    'selectors.EpollSelector': 'selectors.DefaultSelector', 'selectors.BaseSelector': 'selectors.DefaultSelector',
    'asyncio.CancelledError': 'asyncio.CancelledError', 'asyncio.exceptions.CancelledError': 'asyncio.CancelledError',
    'concurrent.futures.CancelledError': 'concurrent.futures.CancelledError',
    'concurrent.futures._base.CancelledError': 'concurrent.futures.CancelledError',
    'requests.Session': 'requests.session', 'requests.sessions.Session': 'requests.session',
    'requests.sessions.session': 'requests.session',
    'attr.attrs': 'attr.s', 'attr.attrib': 'attr.ib', 'attr.define': 'attr.s', 'attr.field': 'attr.ib',
    'attrs.asdict': 'attr.asdict', 'attrs.define': 'attr.s', 'attrs.field': 'attr.ib',
    'builtins.__import__': 'builtins.__import__', 'queue.SimpleQueue': 'queue.SimpleQueue',
    'typing.TYPE_CHECKING': 'typing.TYPE_CHECKING',
}
REAL_OK = {'builtins', 'asyncio', 'struct', 'queue', 'socket', 'collections', 'threading', 'concurrent', 'enum',
           'selectors', 'errno', 'socketserver', 'io', 'itertools', 'functools', 'contextlib', 'json', 'abc',
           'time', 'math', 'operator', 'types', 'typing', 'logging', 'random', 'os', 'string'}
FAKE_BASES = {'requests.ConnectionError': 'builtins.OSError', 'requests.exceptions.ConnectionError': 'builtins.OSError',
              'requests.exceptions.RequestException': 'builtins.OSError', 'requests.RequestException': 'builtins.OSError',
              'requests.exceptions.JSONDecodeError': 'builtins.ValueError'}
_real = {}


def canon(dotted):
    return ALIAS.get(dotted, dotted)


def real(dotted):
    """the real object behind a dotted name of the standard library, or None"""
    if dotted in _real:
        return _real[dotted]
    obj = None
    parts = dotted.split('.')
    if parts[0] in REAL_OK:
        try:
            obj = builtins if parts[0] == 'builtins' else importlib.import_module(parts[0])
            for i, p in enumerate(parts[1:], 2):
                try:
                    obj = getattr(obj, p)
                except AttributeError:
                    obj = importlib.import_module('.'.join(parts[:i]))
        except Exception:
            obj = None
    _real[dotted] = obj
    return obj


def lib_const(dotted):
    """value of an integer or text constant of the standard library"""
    if dotted.split('.')[0] in ('errno', 'socket', 'string', 'selectors', 'os'):
        r = real(dotted)
        if isinstance(r, (int, str)) and not isinstance(r, bool):
            return int(r) if isinstance(r, int) else r
    return None


def real_class(dotted):
    r = real(FAKE_BASES.get(dotted, dotted))
    return r if isinstance(r, type) else None


# ---------------------------------------------------------------- program

class Program(object):
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.files = {}     # module -> path
        self.pkgs = set()
        self.trees = {}
        self.src = {}
        self.base = {}      # heap of module-level objects
        self.fns = {}       # fid -> FnInfo
        self.loaded = {}    # module -> ref
        for p in PACKAGES:
            self._scan(os.path.join(self.repo, p), p)
        self.third = {}
        for d in sorted(glob.glob('/opt/venv/lib/python3*/site-packages/opentracing')):
            self._scan(d, 'opentracing', third=True)
            break
        if not any(m.startswith('anthunder') for m in self.files):
            raise Broken('package anthunder not found in %s' % self.repo)

    def _scan(self, d, name, third=False):
        if not os.path.isdir(d):
            return
        for root, dirs, files in os.walk(d):
            dirs[:] = sorted(x for x in dirs if x != '__pycache__' and not (third and x in ('scope_managers', 'harness', 'mocktracer')))
            rel = os.path.relpath(root, d)
            mod = name if rel == '.' else name + '.' + rel.replace(os.sep, '.')
            if '__init__.py' in files:
                self.files[mod] = os.path.join(root, '__init__.py')
                self.pkgs.add(mod)
            for f in sorted(files):
                if f.endswith('.py') and f != '__init__.py':
                    self.files[mod + '.' + f[:-3]] = os.path.join(root, f)

    def tree(self, mod):
        if mod not in self.trees:
            with open(self.files[mod], encoding='utf-8') as fh:
                self.src[mod] = fh.read()
            t = ast.parse(self.src[mod], self.files[mod])
            for n in ast.walk(t):
                n.mod = mod
            self.trees[mod] = t
        return self.trees[mod]


class FnInfo(object):
    __slots__ = ('fid', 'node', 'mod', 'qual', 'locals', 'is_async', 'is_gen', 'params', 'nonlocals', 'globs', 'body',
                 'multi')

    def __init__(self, fid, node, mod, qual):
        self.fid, self.node, self.mod, self.qual = fid, node, mod, qual
        self.is_async = isinstance(node, ast.AsyncFunctionDef)
        a = node.args
        self.params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        if a.vararg:
            self.params.append(a.vararg.arg)
        if a.kwarg:
            self.params.append(a.kwarg.arg)
        self.body = [ast.copy_location(ast.Return(node.body), node.body)] if isinstance(node, ast.Lambda) else node.body
        if isinstance(node, ast.Lambda):
            self.body[0].mod = mod
        names, glob_, nonl = set(self.params), set(), set()
        self.is_gen = False
        self.multi = set()

        def tgt(n, loop):
            for x in ast.walk(n):
                if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                    if loop:
                        self.multi.add(x.id)
                    names.add(x.id)

        def visit(n, loop=False):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                names.add(n.name)
                for d in n.decorator_list:
                    visit(d, loop)
                return
            if isinstance(n, ast.Lambda):
                return
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                visit(n.generators[0].iter, loop)
                for x in ast.walk(n):
                    if isinstance(x, ast.NamedExpr):
                        names.add(x.target.id)
                return
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                self.is_gen = True
            if isinstance(n, ast.Global):
                glob_.update(n.names)
            if isinstance(n, ast.Nonlocal):
                nonl.update(n.names)
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                for al in n.names:
                    names.add((al.asname or al.name).split('.')[0])
            if isinstance(n, ast.ExceptHandler) and n.name:
                names.add(n.name)
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                if loop:
                    self.multi.add(n.id)
                names.add(n.id)
            inl = loop or isinstance(n, (ast.While, ast.For, ast.AsyncFor))
            for c in ast.iter_child_nodes(n):
                visit(c, inl)

        for s in self.body:
            visit(s)
        self.nonlocals, self.globs = nonl, glob_
        self.locals = names - glob_ - nonl


def site_of(node):
    return '%s:%d:%d' % (getattr(node, 'mod', '?'), getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0))
