"""Entry scenarios: small Python texts that are analysed together with the code, never run.

A scenario calls the public interface with symbolic arguments; an argument is a value, or a type name for an
unconstrained value of that type.
"""
import ast

from .values import *
from .core import *
from .interp import Interp, Monitor

_prog = None


def program():
    global _prog
    if _prog is None:
        _prog = Program()
    return _prog


class Scenario(object):
    def __init__(self, name, text, mon=None, thread='caller', prog=None):
        self.prog = prog or program()
        self.name = '<%s>' % name
        self.runs = 0
        self.mon = mon or Monitor()
        self.ip = Interp(self.prog, self.mon)
        self.ip.thread = thread
        tree = ast.parse(text)
        for n in ast.walk(tree):
            n.mod = self.name
        self.tree = tree
        self.prog.trees[self.name] = tree

    def state(self):
        return State(self.prog.base)

    def module(self):
        """load the scenario text as a module: -> its namespace"""
        self.prog.files[self.name] = self.name
        self.prog.loaded.pop(self.name, None)
        if getattr(self.prog, 'texts', None) is None:
            self.prog.texts = {}
        if self.prog.texts.get(self.name) is not self:
            for k in [k for k in self.prog.fns if k.startswith(self.name)]:
                del self.prog.fns[k]
        self.prog.texts[self.name] = self
        ref = self.ip.load_module(self.name, None)
        return self.prog.base[ref[1]].f

    def run(self, fn, st=None, **params):
        """analyse function fn of the scenario -> [(ok, value, state)]"""
        ns = self.module()
        if fn not in ns:
            raise Broken('scenario %s has no %s' % (self.name, fn))
        f = ns[fn]
        self.runs += 1
        old = self.ip.push_ctx('run#%d' % self.runs) if self.runs > 1 else None     # what it creates is something else
        st = st or self.state()
        kws = []
        for k, v in params.items():
            if isinstance(v, str):
                v = S('sym', (K(k),), v if v != 'any' else None)
            kws.append((k, v))
        info = self.prog.fns[f[1]]
        if info.is_async:
            rs = self.ip.run_coro(('CO', f, (), tuple(kws)), st, '%s.%s' % (self.name, fn))
        else:
            rs = self.ip.call_fn(f, [], kws, st, '%s.%s' % (self.name, fn))
        if old:
            self.ip.pop_ctx(old)
        return rs


def sym(name, typ=None):
    return S('sym', (K(name),), typ)
