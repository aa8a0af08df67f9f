"""Abstract interpreter: an interprocedural, exception-aware, path-sensitive typestate analysis over the syntax tree.

States are joined by equality (powerset of abstract states, property simulation); loops run to a fixpoint with
recency abstraction (values made in an earlier iteration are told from those of the current one) and widening.
"""
import ast
import os
from collections import Counter

from .values import *
from .core import *
from .live import dead_at

MAXREC = 7       # calls of one function nested in each other
MAXSTATES = 4000


class Monitor(object):
    """A rule: receives the events of the analysis, keeps its typestate in State.rs and reports violations."""

    def ext_call(self, ip, name, args, kw, st, site):
        """call of something that is not analysed; None: use the default model, else list of results"""

    def summary(self, info):
        """is this function pure, and may its outcomes be merged?"""
        return False

    def load_attr(self, ip, ref, name, st):
        return None

    def store_attr(self, ip, ref, name, val, st):
        pass

    def dict_event(self, ip, op, ref, key, val, st, site):
        pass

    maxrec = MAXREC
    precise = ()     # containers whose entries are kept apart even if they grow in a loop

    def suspend(self, ip, st, name, args, site):
        """scheduling point of a coroutine: states in which it may be resumed"""
        return [st]

    def spawn(self, ip, aw, st, how, site):
        """None: the default (analyse the task inline)"""

    def backedge(self, ip, node, st):
        pass

    def loop_exit(self, ip, node, st):
        pass

    def head(self, ip, node, st):
        """a loop is about to begin another iteration"""

    def enter(self, ip, info, st):
        pass

    def acquire(self, ip, lock, st, site):
        pass

    def release(self, ip, lock, st, site):
        pass

    def alloc(self, ip, cls, ref, st, site):
        pass

    def built(self, ip, cls, ref, ok, st, site):
        """a constructor ended (ok: normally)"""

    def assumed(self, ip, key, pol, st):
        pass

    def raised(self, ip, exc, st, site):
        pass

    def keep_fact(self, key):
        return False


class Interp(object):
    def __init__(self, prog, mon=None):
        self.prog = prog
        self.heads = []
        self.dead = {}
        self.mon = mon or Monitor()
        self.ctx = ()
        self.ctxid = 0
        self._ctxids = {(): 0}
        self.calls = []
        self.thread = 'caller'
        self.loops = []
        self.created = {}
        self.yields = []
        self.fn_seen = set()
        self.call_sites = set()
        self.nstates = 0
        self.ncalls = 0
        self.notes = Counter()
        self.subcache = {}
        self.cancel = []
        self.text_errors = False
        from . import models
        self.models = models

    # ------------------------------------------------------------ small helpers

    def note(self, text):
        self.notes[text] += 1

    def fresh(self, op, args, typ, site, st=None):
        t = S(op, tuple(args) + (('@', site, self.ctxid),), typ, 0)
        self.register(t)
        return t

    def register(self, t):
        for l in self.loops:
            self.created.setdefault(l, set()).add(t)

    def newref(self, label):
        r = ('O', (label, self.ctxid, 0))
        self.register(r)
        return r

    def alloc(self, st, label, obj):
        r = self.newref(label)
        if r[1] in st.heap and self.loops:
            pass
        st.put(r, obj)
        return r

    def push_ctx(self, site):
        old = (self.ctx, self.ctxid)
        self.ctx = self.ctx + (site,)
        self.ctxid = self._ctxids.setdefault(self.ctx, len(self._ctxids))
        return old

    def pop_ctx(self, old):
        self.ctx, self.ctxid = old

    def frame(self, st):
        return st.obj(st.stack[-1])

    def exc(self, dotted, site=None, detail=()):
        return ('XC', X(canon(dotted)), (), True, detail)

    def any_exc(self, dotted='builtins.Exception', detail=()):
        return ('XC', X(canon(dotted)), (), False, detail)

    def raise_(self, dotted, st, site, detail=()):
        e = self.exc(dotted, site, detail)
        self.mon.raised(self, e, st, site)
        st.note('%s raises %s' % (site, dotted))
        return (False, e, st)

    @staticmethod
    def bind(results, fn):
        out = []
        for ok, v, s in results:
            if ok:
                out.extend(fn(v, s))
            else:
                out.append((ok, v, s))
        return out

    def seq(self, thunks, st):
        """evaluate in order, keeping the values made so far alive; -> [(ok, tuple|exc, st)]"""
        cur = [((), st)]
        out = []
        for th in thunks:
            nxt = []
            for vals, s in cur:
                n0 = len(s.tmp)
                s.tmp = s.tmp + vals[-1:] if vals else s.tmp
                for ok, v, s2 in th(s):
                    if ok:
                        # values already made may have been renamed by a loop inside the thunk: read them back
                        nxt.append((vals + (v,), s2))
                    else:
                        s2.tmp = s2.tmp[:n0 - (len(vals) - 1)] if len(vals) > 1 else s2.tmp[:n0]
                        out.append((False, v, s2))
            cur = nxt
        k = max(0, len(thunks) - 1)
        for vals, s in cur:
            if k:
                kept = s.tmp[len(s.tmp) - k:]
                s.tmp = s.tmp[:len(s.tmp) - k]
                vals = kept + vals[-1:]
            out.append((True, vals, s))
        return out

    def dedupe(self, outs):
        if len(outs) < 2:
            return outs
        seen, res = set(), []
        for o in outs:
            k = (o[0], o[1], o[2].key())
            if k not in seen:
                seen.add(k)
                res.append(o)
        return res

    # ------------------------------------------------------------ garbage collection

    def subs(self, v):
        """(refs, symbolic sub-terms) of a value"""
        r = self.subcache.get(v)
        if r is not None:
            return r
        refs, syms = set(), set()
        stack = [v]
        while stack:
            t = stack.pop()
            if isinstance(t, frozenset):
                stack.extend(t)
                continue
            if not isinstance(t, tuple) or not t:
                continue
            if t[0] == 'O' and len(t) == 2:
                refs.add(t)
                continue
            if t[0] == 'S':
                if t in syms:
                    continue
                syms.add(t)
            stack.extend(t)
        r = (frozenset(refs), frozenset(syms))
        if len(self.subcache) > 200000:
            self.subcache.clear()
        self.subcache[v] = r
        return r

    def gc(self, st, extra=()):
        live, syms, work = set(), set(), []

        def add(v):
            if isinstance(v, (tuple, frozenset)):
                r, s = self.subs(v)
                syms.update(s)
                for x in r:
                    if x not in live:
                        live.add(x)
                        work.append(x)

        for v in st.stack + st.tmp + st.locks + tuple(extra):
            add(v)
        for v in st.rs.values():
            add(v)
        for oid in st.heap:
            if oid in st.base:
                add(('O', oid))
        later = []

        def reach():
            while work:
                x = work.pop()
                if x[1] not in st.heap:
                    continue    # base object: immutable contents are not state
                o = st.heap[x[1]]
                if isinstance(o.cls, tuple):
                    add(o.cls)
                for v in o.f.values():
                    add(v)
                for k, v in o.m.items():
                    if k == 'gen':      # facts about one element of a summarised container say nothing
                        later.append(v)
                    else:
                        add(v)

        reach()
        strong, strong_syms = set(live), set(syms)
        while later:
            for x in self.subs(later.pop())[0]:
                add(x)
            reach()
        syms = strong_syms
        for x in live - strong:
            o = st.heap.get(x[1])
            if o is not None and o.kind == 'dict' and x[1][2:] == (1,) and o.m.get('items') and x[1] not in st.base:
                st.heap[x[1]] = o.meta(items=(), open=True)
        dead = [oid for oid in st.heap if ('O', oid) not in live and oid not in st.base]
        for oid in dead:
            del st.heap[oid]
        drop = []
        for k in st.facts:
            if self.mon.keep_fact(k):
                continue
            a = [t for t in k[1:] if isinstance(t, tuple)]
            keep = True
            for t in a:
                if t[0] == 'S':
                    if t[1] == 'lin':
                        if not all(x[0] in syms for x in t[2][1]):
                            keep = False
                    elif t not in syms:
                        keep = False
                elif t[0] == 'O' and t not in strong and t[1] not in st.base:
                    keep = False
            if not keep:
                drop.append(k)
        for k in drop:
            del st.facts[k]

    # ------------------------------------------------------------ substitution and ageing

    def substitute(self, st, fn):
        memo = {}

        def sub(v):
            if isinstance(v, frozenset):
                return frozenset(sub(x) for x in v)
            if not isinstance(v, tuple) or not v:
                return v
            r = memo.get(v)
            if r is not None:
                return r
            n = fn(v)
            if n is None:
                n = tuple(sub(x) for x in v)
                if n == v:
                    n = v
                elif n[0] == 'S' and n[1] == 'lin':
                    # atoms may have become equal
                    d = {}
                    for a, c in n[2][1]:
                        for a2, c2 in (lin_of(a) or {a: 1}).items():
                            d[a2] = d.get(a2, 0) + c * c2
                    d[None] = d.get(None, 0) + n[2][0]
                    n = lin_val(d, n[3])
            elif isinstance(n, tuple) and n and n[0] == 'RE':
                t = n[1]
                n = (t[0], t[1], sub(t[2]), t[3], n[2])
            memo[v] = n
            return n

        self._sub = sub
        heap = {}
        for oid, o in st.heap.items():
            no = sub(('O', oid))[1]
            nobj = HObj(o.kind, sub(o.cls) if isinstance(o.cls, tuple) else o.cls,
                        {k: sub(v) for k, v in o.f.items()}, {k: sub(v) for k, v in o.m.items()})
            if no in heap and heap[no].sig() != nobj.sig():
                heap[no] = self.join_obj(heap[no], nobj, no)
            else:
                heap[no] = nobj
        st.heap = heap
        facts = {}
        for k, v in st.facts.items():
            nk = tuple(sub(x) if isinstance(x, tuple) else x for x in k)
            if nk in facts and facts[nk] != v:
                facts[nk] = None
            else:
                facts[nk] = v
        st.facts = {k: v for k, v in facts.items() if v is not None}
        st.locks = tuple(sub(x) for x in st.locks)
        st.rs = {k: sub(v) for k, v in st.rs.items()}
        st.stack = tuple(sub(x) for x in st.stack)
        st.tmp = tuple(sub(x) for x in st.tmp)

    def rename_quantity(self, st, p, sym):
        """write sym for the linear form p wherever p occurs, also inside other linear forms"""
        atoms = {a: c for a, c in p.items() if a is not None}
        if not atoms or sym in atoms:
            return False

        def fn(v):
            if v[0] != 'S' or len(v) != 5 or not (v[1] == 'lin' or v in atoms):
                return None
            l = lin_of(v)
            if not set(atoms) <= set(l):
                return None
            rs = {l[a] / c for a, c in atoms.items()}
            if len(rs) != 1:
                return None
            r = rs.pop()
            d = lin_add(l, lin_scale(p, r), -1)
            return lin_val(lin_add(d, {sym: r}), v[3])
        self.substitute(st, fn)
        return True

    def join_obj(self, a, b, oid):
        if a.kind != b.kind:
            return a
        f = {}
        for k in set(a.f) | set(b.f):
            if k in a.f and k in b.f and a.f[k] == b.f[k]:
                f[k] = a.f[k]
            elif k in a.f and k in b.f:
                f[k] = S('joined', (('O', oid), K(k)), None, 1)
        m = {k: a.m[k] for k in a.m if k in b.m and a.m[k] == b.m[k]}
        if a.kind in ('dict', 'list', 'set') and m.get('items') is None:
            m['items'], m['open'] = None if a.kind != 'dict' else (), True
            m['gen'] = a.m.get('gen', frozenset()) | b.m.get('gen', frozenset())
        return HObj(a.kind, a.cls, f, m)

    def age(self, st, made):
        """rename everything made in the iteration that ends: recency abstraction"""
        if not made:
            return

        def fn(v):
            if v in made:
                if v[0] == 'O':
                    return ('O', (v[1][0], v[1][1], 1))
                return ('RE', v, 1)
            return None

        # facts about the previous old generation are dropped
        old = [k for k in st.facts if any(isinstance(t, tuple) and self.has_old(t) for t in k[1:])]
        for k in old:
            del st.facts[k]
        self.substitute(st, fn)

    def has_old(self, t):
        return any(s[4] for s in self.subs(t)[1]) or any(r[1][2:] == (1,) for r in self.subs(t)[0] if len(r[1]) == 3)

    def invalidate(self, st, term):
        """a quantity changes: what was known about it is about its old value"""
        def fn(v):
            if v == term:
                return ('RE', v, 1)
            return None
        if any(term in self.subs(k)[1] for k in st.facts) or self.mentioned(st, term):
            self.substitute(st, fn)

    def mentioned(self, st, term):
        for o in st.heap.values():
            for v in o.f.values():
                if isinstance(v, tuple) and term in self.subs(v)[1]:
                    return True
        return any(term in self.subs(v)[1] for v in st.tmp)

    # ------------------------------------------------------------ facts

    def length_of(self, v, st):
        """linear form of len(v)"""
        t = v[0]
        if t == 'K' and isinstance(v[2], (str, bytes)):
            return lin_of(K(len(v[2])))
        if t == 'T':
            return lin_of(K(len(v[1])))
        if t == 'O':
            o = st.obj(v)
            if o and o.kind in ('dict', 'list', 'set') and not o.m.get('open') and not o.m.get('gen') \
                    and o.m.get('items') is not None:
                if o.kind == 'dict' and len(o.m['items']) > 1 and any(not const(k)[0] for k, _ in o.m['items']):
                    return {S('len', (v,), 'int'): 1}
                return lin_of(K(len(o.m['items'])))
        if t == 'S':
            if v[1] == 'cat':
                d = {}
                for p in v[2]:
                    l = self.length_of(p, st)
                    if l is None:
                        return None
                    d = lin_add(d, l)
                return d
            if v[1] == 'sl':
                if v[2][2] is not None:
                    return lin_of(v[2][2])
                return lin_add(self.length_of(v[2][0], st), lin_of(v[2][1]), -1)
            if v[1] == 'fld':
                return lin_of(v[2][3])
            if v[1] == 'wrap':      # memoryview(x), bytes(x), bytearray(x) of the same bytes
                return self.length_of(v[2][0], st)
        return {S('len', (v,), 'int'): 1}

    UNSIGNED = set('BHILQ')

    def nonneg(self, atom, st=None):
        if atom[0] == 'S':
            if atom[1] in ('len', 'size', 'got'):
                return True
            if atom[1] == 'unp' and atom[2][3] in self.UNSIGNED:
                return True
            if atom[1] == 'op' and atom[2][0] == 'BitAnd' and any(is_k(m, int) and m[2] >= 0 for m in atom[2][1:]):
                return True
            if atom[1] == 'enum':
                return self.nonneg(atom[2][1], st)
        return False

    def _allint(self, d):
        for a, c in d.items():
            if c.denominator != 1 if hasattr(c, 'denominator') else False:
                return False
            if a is not None and not (a[0] == 'S' and a[3] in ('int', 'bool')):
                return False
        return True

    def pos_key(self, d):
        """canonical fact for d > 0 -> (key, polarity) or bool"""
        c = lin_const(d)
        if c is not None:
            return c > 0
        atoms = sorted((a for a in d if a is not None), key=repr)
        if self._allint(d) and d[atoms[0]] < 0:
            # d > 0  <=>  not (1 - d > 0)
            e = lin_add({None: Fraction(1)}, d, -1)
            return ('pos', lin_val(e)), False
        if not self._allint(d):
            f = abs(d[atoms[0]])
            d = lin_scale(d, 1 / Fraction(f))
        return ('pos', lin_val(d)), True

    def eq_key(self, a, b):
        ka, va = const(a)
        kb, vb = const(b)
        if ka and kb:
            try:
                return bool(va == vb)
            except Exception:
                return False
        if a == b:
            return True
        ta, tb = typeof(a), typeof(b)
        num = ('int', 'float', 'bool')
        if (ta in num or a[0] == 'E' or (a[0] == 'S' and a[1] == 'enum')) and \
                (tb in num or b[0] == 'E' or (b[0] == 'S' and b[1] == 'enum')):
            la, lb = lin_of(a), lin_of(b)
            if la is not None and lb is not None:
                d = lin_add(la, lb, -1)
                c = lin_const(d)
                if c is not None:
                    return c == 0
                atoms = sorted((x for x in d if x is not None), key=repr)
                d = lin_scale(d, 1 / Fraction(d[atoms[0]]))
                return ('eq0', lin_val(d)), True
        if a[0] == 'T' and b[0] == 'T' and len(a[1]) != len(b[1]):
            return False
        for x, y in ((a, b), (b, a)):
            if x[0] == 'T' and (y[0] == 'K' and not isinstance(y[2], tuple) or y[0] == 'E' or (typeof(y) in num + ('str', 'bytes'))):
                return False
        # an enum member never equals a value known to be of another kind
        def strip(v):
            return v[2][1] if v[0] == 'S' and v[1] == 'enum' else (v[3] if v[0] == 'E' else v)
        a, b = strip(a), strip(b)
        if a == b:
            return True
        if (ta in ('str', 'bytes') or tb in ('str', 'bytes')) and ta and tb and ta != tb:
            if {ta, tb} != {'bytes', 'bytearray'}:
                return False
        if ta in ('str', 'bytes') and ta == tb:
            pa = a[2][0] if a[0] == 'S' and a[1] == 'cat' else a
            pb = b[2][0] if b[0] == 'S' and b[1] == 'cat' else b
            if pa[0] == 'K' and pb[0] == 'K':
                m = min(len(pa[2]), len(pb[2]))
                if pa[2][:m] != pb[2][:m]:
                    return False
                if (pa is a and len(pa[2]) < len(pb[2])) or (pb is b and len(pb[2]) < len(pa[2])):
                    return False
                if pa == pb and pa is not a and pb is not b:
                    return self.eq_key(cat(a[2][1:], ta), cat(b[2][1:], tb))
            la = lb = None
            if a[0] == 'K' or b[0] == 'K':
                if a[0] == 'S' and a[1] == 'sl' and a[2][2] is not None:
                    la, lb = lin_const(lin_of(a[2][2])), len(b[2]) if b[0] == 'K' else None
                if b[0] == 'S' and b[1] == 'sl' and b[2][2] is not None:
                    lb, la = lin_const(lin_of(b[2][2])), len(a[2]) if a[0] == 'K' else None
                if la is not None and lb is not None and la != lb:
                    return False
        if a[0] == 'K' or (b[0] != 'K' and repr(a) > repr(b)):
            a, b = b, a
        return ('eq', a, b), True

    def know(self, key, st):
        """truth value of an atomic fact in the state, or None"""
        if key in st.facts:
            return st.facts[key]
        if key[0] == 'pos':
            return self.know_pos(lin_of(key[1]), st)
        if key[0] == 'eq0':
            d = lin_of(key[1])
            # bound to another constant?
            for k, v in st.facts.items():
                if k[0] == 'eq0' and v:
                    e = lin_add(d, lin_of(k[1]), -1)
                    c = lin_const(e)
                    if c is not None and c != 0:
                        return False
                    e = lin_add(d, lin_of(k[1]))
                    c = lin_const(e)
                    if c is not None and c != 0:
                        return False
            if self.know_pos(d, st) or self.know_pos(lin_scale(d, -1), st):
                return False
            one = {None: Fraction(1)}
            if self._allint(d):
                if self.know_pos(lin_add(d, one), st) and self.know_pos(lin_add(lin_scale(d, -1), one), st):
                    return True
            return None
        if key[0] == 'eq' and key[2][0] == 'K':
            for k, v in st.facts.items():
                if k[0] == 'eq' and k[1] == key[1] and v and k[2][0] == 'K' and k[2] != key[2]:
                    return False
            if key[2] == NONE:
                r = st.facts.get(('isnone', key[1]))
                if r is not None:
                    return r
                return None
            if not key[2][2] and st.facts.get(('truth', key[1])):
                return False
        if key[0] == 'truth':
            for k, v in st.facts.items():
                if k[0] == 'eq' and v and k[1] == key[1] and k[2][0] == 'K':
                    return bool(k[2][2])
                if k[0] == 'isnone' and v and k[1] == key[1]:
                    return False
                if k[0] == 'isinst' and v and k[1] == key[1]:
                    pass
        if key[0] == 'isnone':
            for k, v in st.facts.items():
                if k[0] == 'truth' and v and k[1] == key[1]:
                    return False
                if k[0] == 'eq' and v and k[1] == key[1] and k[2][0] == 'K':
                    return k[2][2] is None
                if k[0] == 'isinst' and v and k[1] == key[1]:
                    return False
                if k[0] == 'eq0' and v and key[1] in self.subs(k[1])[1]:
                    return False
        return None

    def know_pos(self, d, st, depth=0):
        c = lin_const(d)
        if c is not None:
            return c > 0
        zero = [a for a in d if a is not None and st.facts.get(('eq0', a))]
        if zero:
            return self.know_pos({a: c for a, c in d.items() if a not in zero}, st, depth)
        # d = sum of nonneg atoms + constant
        const_ = d.get(None, 0)
        if all(self.nonneg(a, st) for a in d if a is not None):
            co = [c for a, c in d.items() if a is not None]
            if all(c > 0 for c in co) and const_ > 0:
                return True
            if all(c < 0 for c in co) and const_ <= 0:
                return False
        allint = self._allint(d)
        atoms = {a for a in d if a is not None}
        for k, v in st.facts.items():
            if k[0] == 'pos':
                e = lin_of(k[1])
                if not (atoms & set(e)):
                    continue
                cands = []
                if v:       # e > 0
                    cands.append((e, True))
                    if allint and self._allint(e):
                        cands.append((lin_add(e, {None: Fraction(-1)}), 'ge'))
                else:       # -e >= 0
                    cands.append((lin_scale(e, -1), 'ge'))
                for e2, kind in cands:
                    # d = e2 + rest
                    r = lin_add(d, e2, -1)
                    if self._ge0(r, st, strict=kind is not True, depth=depth):
                        return True
                    # d = -(e2) + rest, rest <= 0  => d <= 0 (kind strict: d < 0)
                    r = lin_add(d, e2)
                    if self._ge0(lin_scale(r, -1), st, strict=False, depth=depth):
                        return False
            elif k[0] == 'eq0' and v:
                e = lin_of(k[1])
                if atoms & set(e):
                    for sg in (1, -1):
                        r = lin_add(d, e, sg)
                        if len(r) < len(d) or (lin_const(r) is not None):
                            if depth < 2:
                                x = self.know_pos(r, st, depth + 1)
                                if x is not None:
                                    return x
        return None

    def _ge0(self, r, st, strict, depth):
        """r >= 0 (or > 0 if strict), by non-negative atoms and constants only"""
        c = r.get(None, 0)
        if any(v < 0 or not self.nonneg(a, st) for a, v in r.items() if a is not None):
            if depth < 1 and lin_const(r) is None:
                d = r if strict else (lin_add(r, {None: Fraction(1)}) if self._allint(r) else None)
                if d is not None:
                    return self.know_pos(d, st, depth + 1) is True
            return False
        return c > 0 if strict else c >= 0

    def cond_key(self, v, st):
        """boolean-valued term -> bool or (key, polarity)"""
        pol = True
        while v[0] == 'S' and v[1] == 'not':
            v, pol = v[2][0], not pol
        if v[0] == 'S' and v[1] == 'fact':
            r = (v[2][0], pol)
        else:
            r = self.truth_key(v, st)
            if r is True or r is False:
                return r == pol
            r = (r[0], r[1] == pol)
        return r

    def enum_values(self, c, st):
        o = st.obj(c) if c[0] == 'O' else None
        if o is None:
            return None
        return [const(o.f[n])[1] for n in o.m.get('members', ())]

    def truth_key(self, v, st):
        t = v[0]
        if t == 'K':
            return bool(v[2])
        if t == 'E':
            return bool(v[3][2])
        if t == 'T':
            return bool(v[1])
        if t in ('F', 'B', 'M', 'X', 'CO', 'FUT', 'AW', 'GEN', 'D', 'XC', 'CM', 'CMX', 'SUP'):
            return True
        if t == 'O':
            o = st.obj(v)
            if o is None:
                return True
            if o.kind in ('dict', 'list', 'set'):
                items = o.m.get('items')
                if items:
                    return True
                if not o.m.get('open') and not o.m.get('gen') and items is not None:
                    return False
                return self.pos_key({S('len', (v,), 'int'): Fraction(1)})
            return True
        if t == 'S':
            ty = v[3]
            if v[1] == 'fact' or v[1] == 'not':
                return self.cond_key(v, st)
            if ty in ('str', 'bytes', 'bytearray', 'memoryview', 'list') or v[1] in ('cat', 'sl'):
                l = self.length_of(v, st)
                if l is not None:
                    return self.pos_key(l)
            if ty in ('int', 'float') or v[1] == 'enum':
                r = self.eq_key(v, ZERO)
                if r is True or r is False:
                    return not r
                return r[0], not r[1]
            if isinstance(ty, str) and ('.' in ty) and ty not in ('requests.Response',) and real_class(ty) is not dict:
                return True
            if ty == 'object!':
                return True
            return ('truth', v), True
        return True

    def asked(self, v, st, n):
        """[(value whose truth decides, st)]: v is used as a condition at n"""
        o = st.obj(v) if v[0] == 'O' else None
        if o is None:
            return [(v, st)]
        if o.kind == 'ext' and '.v' in o.f:
            return [(o.f['.v'], st)]
        if o.kind in ('dict', 'list', 'set'):
            self.mon.dict_event(self, 'len', v, None, None, st, site_of(n))
        elif o.kind == 'inst' and isinstance(o.cls, tuple):
            for name in ('__bool__', '__len__'):
                r = self.cls_lookup(o.cls, name, st)
                if r:
                    return [(x, s) for ok, x, s in self.call(('B', v, r[0]), [], [], st, site_of(n)) if ok]
        return [(v, st)]

    def outcomes(self, v, st, n):
        """[(bool, st)] of using v as the condition n"""
        return [y for x, s in self.asked(v, st, n) for y in self.test(x, s)]

    def test(self, v, st):
        """[(bool, st)] outcomes of using v as a condition"""
        r = self.cond_key(v, st)
        if r is True or r is False:
            return [(r, st)]
        key, pol = r
        k = self.know(key, st)
        if k is not None:
            return [(k == pol, st)]
        s2 = st.clone()
        out = []
        if self.set_fact(key, True, st):
            out.append((pol, st))
        if self.set_fact(key, False, s2):
            out.append((not pol, s2))
        return out

    def set_fact(self, key, val, st):
        st.facts[key] = val
        if key[0] == 'eq0' and val:
            d = lin_of(key[1])
            if len(d) > 1 and None not in d and (all(c > 0 for c in d.values()) or all(c < 0 for c in d.values())) \
                    and all(self.nonneg(a, st) for a in d):
                del st.facts[key]
                for a in d:
                    st.facts[('eq0', a)] = True
        st.note('assume %s%s' % ('' if val else 'not ', self.show_key(key)))
        return self.mon.assumed(self, key, val, st) is not False

    def assume(self, v, pol, st):
        """st with the condition assumed, or None if impossible"""
        for b, s in self.test(v, st):
            if b == pol:
                return s
        return None

    @staticmethod
    def show_key(key):
        return '%s(%s)' % (key[0], ', '.join(show(x) for x in key[1:]))

    def fact(self, key, pol=True):
        v = S('fact', (key,), 'bool')
        return v if pol else S('not', (v,), 'bool')

    def boolval(self, r):
        if r is True or r is False:
            return K(r)
        return self.fact(r[0], r[1])

    # ------------------------------------------------------------ classes

    def cls_obj(self, c, st):
        return st.obj(c) if c[0] == 'O' else None

    def mro(self, c, st):
        """list of class values"""
        if c[0] != 'O':
            rc = real_class(c[1]) if c[0] == 'X' else None
            if rc is not None:
                out = [c]
                for k in rc.__mro__[1:]:
                    out.append(X(canon('%s.%s' % (k.__module__, k.__name__))))
                return out
            return [c]
        o = st.obj(c)
        if o is None or o.kind != 'class':
            return [c]
        seqs = [self.mro(b, st) for b in o.m['bases']] + [list(o.m['bases'])]
        out = [c]
        seqs = [list(s) for s in seqs if s]
        while seqs:
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs):
                    break
            else:
                h = seqs[0][0]
            out.append(h)
            seqs = [[x for x in s if x != h] for s in seqs]
            seqs = [s for s in seqs if s]
        return out

    def cls_name(self, c, st):
        if c[0] == 'O':
            o = st.obj(c)
            return o.m.get('name', '?') if o else '?'
        return c[1].replace('builtins.', '') if c[0] == 'X' else '?'

    def is_sub(self, c, d, st):
        if c == d:
            return True
        m = self.mro(c, st)
        if d in m:
            return True
        if d[0] == 'X' and c[0] == 'X':
            rc, rd = real_class(c[1]), real_class(d[1])
            if rc and rd:
                return issubclass(rc, rd)
        if d[0] == 'X':
            rd = real_class(d[1])
            for x in m:
                if x[0] == 'X':
                    rx = real_class(x[1])
                    if rx and rd and issubclass(rx, rd):
                        return True
        if d == X('builtins.object'):
            return True
        return False

    def cls_lookup(self, c, name, st, after=None):
        """(value, defining class) along the MRO, or None"""
        m = self.mro(c, st)
        if after is not None and after in m:
            m = m[m.index(after) + 1:]
        for k in m:
            if k[0] == 'O':
                o = st.obj(k)
                if name in o.f:
                    return o.f[name], k
        return None

    def class_of(self, v, st):
        t = v[0]
        if t == 'O':
            o = st.obj(v)
            if o is None:
                return None
            if o.kind == 'class':
                return X('builtins.type')
            if o.kind in ('inst', 'dict', 'list', 'set', 'ext') and isinstance(o.cls, tuple):
                return o.cls
            if o.kind in ('dict', 'list', 'set'):
                return X('builtins.' + o.kind)
            return None
        if t == 'E':
            return v[1]
        if t == 'S' and v[1] == 'enum':
            return v[2][0]
        if t == 'XC':
            return v[1]
        if t == 'S' and isinstance(v[3], tuple):
            return v[3]
        ty = typeof(v)
        if ty is None or ty == 'object!':
            return None
        if '.' in ty:
            return X(ty)
        if ty == 'NoneType':
            return X('types.NoneType')
        if ty == 'function':
            return X('types.FunctionType')
        return X('builtins.' + ty)

    def isinstance_(self, v, c, st):
        """True/False/None"""
        if c[0] == 'T':
            rs = [self.isinstance_(v, x, st) for x in c[1]]
            if any(r is True for r in rs):
                return True
            if all(r is False for r in rs):
                return False
            return None
        if c == X('builtins.object'):
            return True
        k = self.class_of(v, st)
        if k is None:
            if v[0] == 'K' and v[2] is None:
                return False
            return None
        if v[0] == 'XC' and not v[3]:
            r = self.is_sub(k, c, st)
            return True if r else None
        if k == X('builtins.float') or k == X('builtins.int'):
            if c in (X('numbers.Number'), X('numbers.Real')):
                return True
        if self.is_sub(k, c, st):
            return True
        if c[0] not in ('X', 'O'):
            return None
        if c[0] == 'X' and real_class(c[1]) is None:
            return None
        if v[0] == 'S' and k[0] == 'X' and self.is_sub(c, k, st):
            return None
        return False

    # ------------------------------------------------------------ exceptions

    def exc_class(self, e, st):
        if e[0] == 'XC':
            return e[1]
        if e[0] == 'O':
            return st.obj(e).cls
        return X('builtins.Exception')

    def exc_match(self, e, c, st):
        """[(matches, refined exception)]"""
        if e[0] == 'ABORT':
            return [(False, e)]
        if c[0] == 'T':
            rest, out = e, []
            for k in c[1]:
                nxt = None
                for m, x in self.exc_match(rest, k, st):
                    if m:
                        out.append((True, x))
                    else:
                        nxt = x
                if nxt is None:
                    return out
                rest = nxt
            return out + [(False, rest)]
        k = self.exc_class(e, st)
        if self.is_sub(k, c, st):
            return [(True, e)]
        if e[0] == 'XC' and not e[3]:
            if c in e[2] or any(self.is_sub(c, d, st) for d in e[2]):
                return [(False, e)]
            if self.is_sub(c, k, st):
                return [(True, ('XC', c, e[2], False, e[4])), (False, ('XC', k, e[2] + (c,), False, e[4]))]
            if c[0] == 'X' and real_class(c[1]) is None:
                return [(True, ('XC', c, e[2], False, e[4])), (False, ('XC', k, e[2] + (c,), False, e[4]))]
        return [(False, e)]

    # ------------------------------------------------------------ names

    def lookup(self, name, st, node):
        site = site_of(node)
        ref = st.stack[-1]
        first = True
        while ref is not None:
            o = st.obj(ref)
            if o is None:
                break
            if name in o.f:
                v = o.f[name]
                if v == ('UNBOUND',):
                    return [self.raise_('builtins.UnboundLocalError', st, site)]
                return [(True, v, st)]
            if first and o.kind == 'frame':
                fi = self.prog.fns.get(o.m.get('fn'))
                if fi is not None and name in fi.locals and name not in o.m.get('comp', ()):
                    return [self.raise_('builtins.UnboundLocalError', st, site)]
            if o.kind == 'frame' and o.m.get('fn') is not None:
                first = False
            elif o.kind == 'frame' and not o.m.get('iscomp'):
                first = False
            ref = o.m.get('parent')
        if name == '__name__':
            return [(True, K(getattr(node, 'mod', '')), st)]
        if name == '__file__':
            return [(True, S('file', (), 'str'), st)]
        if real('builtins.' + name) is not None or name in ('None', 'True', 'False', '__debug__'):
            return [(True, X(canon('builtins.' + name)), st)]
        if name in ('NotImplemented', 'Ellipsis'):
            return [(True, X('builtins.' + name), st)]
        return [self.raise_('builtins.NameError', st, site)]

    def frame_for_store(self, name, st):
        ref = st.stack[-1]
        o = st.obj(ref)
        while o.m.get('iscomp') and name not in o.m.get('comp', ()):
            ref = o.m['parent']
            o = st.obj(ref)
        fi = self.prog.fns.get(o.m.get('fn')) if o.kind == 'frame' else None
        if fi is not None:
            if name in fi.globs:
                return self.prog.loaded[fi.mod]
            if name in fi.nonlocals:
                p = o.m.get('parent')
                while p is not None:
                    po = st.obj(p)
                    if po.kind == 'frame' and name in po.f:
                        return p
                    p = po.m.get('parent')
        return ref

    def store_name(self, name, val, st):
        ref = self.frame_for_store(name, st)
        st.put(ref, st.obj(ref).set(name, val))

    # ------------------------------------------------------------ modules

    def load_module(self, mod, st):
        if mod in self.prog.loaded:
            return self.prog.loaded[mod]
        if '.' in mod:
            parent = mod.rsplit('.', 1)[0]
            if parent in self.prog.files:
                self.load_module(parent, st)
                if mod in self.prog.loaded:
                    return self.prog.loaded[mod]
        ref = ('O', ('module:' + mod, 0, 0))
        self.prog.loaded[mod] = ref
        s = State(self.prog.base)
        s.heap = self.prog.base     # module-level code writes the base heap directly
        s.put(ref, HObj('module', None, {}, {'name': mod, 'parent': None}))
        s.stack = (ref,)
        tree = self.prog.tree(mod)
        save = (self.ctx, self.ctxid, self.loops, self.mon, self.calls, self.yields)
        self.ctx, self.ctxid, self.loops, self.mon, self.calls, self.yields = (), 0, [], Monitor(), [], []
        try:
            cur = s
            for stmt in tree.body:
                outs = [o for o in self.exec(stmt, cur) if o[0] == 'n']
                if not outs:
                    raise Broken('module %s: line %d always raises' % (mod, stmt.lineno))
                if outs[0][2] is not cur:
                    cur = outs[0][2]
                    if cur.heap is not self.prog.base:
                        self.prog.base.update(cur.heap)
                        cur.heap = self.prog.base
                cur.facts.clear()
        finally:
            self.ctx, self.ctxid, self.loops, self.mon, self.calls, self.yields = save
        if '.' in mod:
            p, n = mod.rsplit('.', 1)
            if p in self.prog.loaded:
                pr = self.prog.loaded[p]
                self.prog.base[pr[1]] = self.prog.base[pr[1]].set(n, ref)
        return ref

    def stubs(self):
        """classes of the stub module"""
        if 'pysa_stubs' not in self.prog.files:
            self.prog.files['pysa_stubs'] = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'stubs.py')
        return self.prog.base[self.load_module('pysa_stubs', None)[1]].f

    def module_attr(self, mod, name, st=None):
        """value of a name of an analysed module"""
        ref = self.load_module(mod, st)
        o = self.prog.base[ref[1]]
        if name in o.f:
            return o.f[name]
        sub = mod + '.' + name
        if sub in self.prog.files:
            return self.load_module(sub, st)
        return None

    def resolve_from(self, node):
        mod = node.module or ''
        if node.level:
            base = node.mod if node.mod in self.prog.pkgs else node.mod.rsplit('.', 1)[0]
            for _ in range(node.level - 1):
                base = base.rsplit('.', 1)[0]
            mod = base + ('.' + mod if mod else '')
        return mod

    def do_import(self, node, st):
        if isinstance(node, ast.Import):
            for al in node.names:
                top = al.name.split('.')[0]
                if al.name in self.prog.files:
                    ref = self.load_module(al.name, st)
                    v = ref if al.asname else self.load_module(top, st)
                else:
                    v = X(canon(al.name if al.asname else top))
                self.store_name(al.asname or top, v, st)
            return
        mod = self.resolve_from(node)
        for al in node.names:
            if al.name == '*':
                if mod in self.prog.files:
                    ref = self.load_module(mod, st)
                    for k, v in list(st.obj(ref).f.items()):
                        if not k.startswith('_'):
                            self.store_name(k, v, st)
                continue
            if mod in self.prog.files:
                v = self.module_attr(mod, al.name, st)
                if v is None:
                    raise Broken('%s: cannot import %s from %s' % (site_of(node), al.name, mod))
            else:
                v = X(canon(mod + '.' + al.name))
                c = lib_const(v[1])
                if c is not None:
                    v = K(c)
            self.store_name(al.asname or al.name, v, st)

    # ------------------------------------------------------------ statements

    def exec_block(self, stmts, st):
        cur, out = [st], []
        for s in stmts:
            nxt = []
            for x in cur:
                for kind, v, s2 in self.exec(s, x):
                    if kind == 'n':
                        nxt.append(s2)
                    else:
                        out.append((kind, v, s2))
            if len(nxt) > 1:
                nxt = [o[2] for o in self.dedupe([('n', None, x) for x in nxt])]
            if len(nxt) > 24:
                for x in nxt:
                    self.gc(x)
                nxt = [o[2] for o in self.dedupe([('n', None, x) for x in nxt])]
            cur = nxt
            if not cur:
                break
        return out + [('n', None, x) for x in cur]

    def exec(self, node, st):
        self.nstates += 1
        m = getattr(self, 'x_' + type(node).__name__, None)
        if m is None:
            self.note('statement %s not modelled' % type(node).__name__)
            return [('n', None, st)]
        return m(node, st)

    def after(self, results, fn):
        """statement outcomes from expression results"""
        out = []
        for ok, v, s in results:
            if ok:
                r = fn(v, s)
                if r is None:
                    out.append(('n', None, s))
                else:
                    out.extend(r)
            else:
                out.append(('x', v, s))
        return out

    def x_Expr(self, n, st):
        if isinstance(n.value, ast.Constant):
            return [('n', None, st)]
        return self.after(self.ev(n.value, st), lambda v, s: None)

    def x_Pass(self, n, st):
        return [('n', None, st)]

    def x_Return(self, n, st):
        if n.value is None:
            return [('r', NONE, st)]
        return self.after(self.ev(n.value, st), lambda v, s: [('r', v, s)])

    def x_Break(self, n, st):
        return [('b', None, st)]

    def x_Continue(self, n, st):
        return [('c', None, st)]

    def x_Global(self, n, st):
        return [('n', None, st)]

    x_Nonlocal = x_Global

    def x_Import(self, n, st):
        self.do_import(n, st)
        return [('n', None, st)]

    x_ImportFrom = x_Import

    def x_Assert(self, n, st):
        def f(v, s):
            out = []
            for b, s2 in self.outcomes(v, s, n.test):
                if b:
                    out.append(('n', None, s2))
                else:
                    r = self.raise_('builtins.AssertionError', s2, site_of(n))
                    out.append(('x', r[1], r[2]))
            return out
        return self.after(self.ev(n.test, st), f)

    def x_If(self, n, st):
        def f(v, s):
            out = []
            for b, s2 in self.outcomes(v, s, n.test):
                out.extend(self.exec_block(n.body if b else n.orelse, s2))
            return out
        return self.after(self.ev(n.test, st), f)

    def x_Assign(self, n, st):
        def f(v, s):
            cur = [s]
            out = []
            for t in n.targets:
                nxt = []
                for c in cur:
                    if len(n.targets) > 1:
                        c.tmp = c.tmp + (v,)
                    for ok, x, s2 in self.assign(t, v, c):
                        if len(n.targets) > 1:
                            s2.tmp = s2.tmp[:-1]
                        if ok:
                            nxt.append(s2)
                        else:
                            out.append(('x', x, s2))
                cur = nxt
            return out + [('n', None, c) for c in cur]
        return self.after(self.ev(n.value, st), f)

    def x_AnnAssign(self, n, st):
        if n.value is None:
            return [('n', None, st)]
        return self.after(self.bind(self.ev(n.value, st), lambda v, s: self.assign(n.target, v, s)), lambda v, s: None)

    def x_AugAssign(self, n, st):
        import copy as _c
        load = _c.copy(n.target)
        load.ctx = ast.Load()
        load.mod = n.mod
        if isinstance(n.target, ast.Attribute):
            def f(o, s):
                s.tmp += (o,)
                r = self.getattr_(o, n.target.attr, s, site_of(n))
                r = self.bind(r, lambda a, s2: self.bind(self._keep(a, s2, n.value), lambda ab, s3: self.binop(n.op, ab[0], ab[1], s3, site_of(n), True)))
                out = []
                for ok, v, s2 in r:
                    o2 = s2.tmp[-1]
                    s2.tmp = s2.tmp[:-1]
                    if ok:
                        out.extend(self.setattr_(o2, n.target.attr, v, s2, site_of(n)))
                    else:
                        out.append((ok, v, s2))
                return out
            return self.after(self.bind(self.ev(n.target.value, st), f), lambda v, s: None)

        def g(a, s):
            return self.bind(self._keep(a, s, n.value), lambda ab, s3: self.binop(n.op, ab[0], ab[1], s3, site_of(n), True))
        return self.after(self.bind(self.bind(self.ev(load, st), g), lambda v, s: self.assign(n.target, v, s)),
                          lambda v, s: None)

    def _keep(self, a, st, node):
        st.tmp += (a,)
        out = []
        for ok, v, s in self.ev(node, st):
            a2 = s.tmp[-1]
            s.tmp = s.tmp[:-1]
            out.append((ok, (a2, v) if ok else v, s))
        return out

    def x_Delete(self, n, st):
        cur, out = [st], []
        for t in n.targets:
            nxt = []
            for s in cur:
                if isinstance(t, ast.Name):
                    ref = self.frame_for_store(t.id, s)
                    s.put(ref, s.obj(ref).delete(t.id))
                    nxt.append(s)
                elif isinstance(t, ast.Subscript):
                    for ok, vs, s2 in self.seq([lambda q: self.ev(t.value, q), lambda q: self.ev_index(t.slice, q)], s):
                        if not ok:
                            out.append(('x', vs, s2))
                            continue
                        for ok2, v2, s3 in self.delitem(vs[0], vs[1], s2, site_of(n)):
                            if ok2:
                                nxt.append(s3)
                            else:
                                out.append(('x', v2, s3))
                elif isinstance(t, ast.Attribute):
                    for ok, v, s2 in self.ev(t.value, s):
                        if not ok:
                            out.append(('x', v, s2))
                            continue
                        if v[0] == 'O' and s2.obj(v):
                            s2.put(v, s2.obj(v).delete(t.attr))
                        nxt.append(s2)
                else:
                    nxt.append(s)
            cur = nxt
        return out + [('n', None, s) for s in cur]

    def delitem(self, o, k, st, site):
        if o[0] == 'O':
            obj = st.obj(o)
            if obj.kind == 'dict' and not (isinstance(obj.cls, tuple) and self.cls_lookup(obj.cls, '__delitem__', st)):
                return self.models.dict_pop(self, o, [k], st, site, 'del')
            r = self.cls_lookup(obj.cls, '__delitem__', st) if isinstance(obj.cls, tuple) else None
            if r:
                return self.call(('B', o, r[0]), [k], [], st, site)
            if obj.kind == 'list':
                items = obj.m.get('items')
                kk, i = const(k)
                if items is not None and kk and isinstance(i, int) and -len(items) <= i < len(items):
                    l = list(items)
                    del l[i]
                    st.put(o, obj.meta(items=tuple(l)))
                else:
                    st.put(o, obj.meta(items=None, open=True))
                return [(True, NONE, st)]
        return self.ext_call('builtins.delitem', [o, k], [], st, site)

    def x_Raise(self, n, st):
        site = site_of(n)
        if n.exc is None:
            e = self.cur_exc(st)
            if e is None:
                r = self.raise_('builtins.RuntimeError', st, site)
                return [('x', r[1], r[2])]
            return [('x', e, st)]

        def f(v, s):
            outs = []
            if v[0] == 'X' or (v[0] == 'O' and s.obj(v) and s.obj(v).kind == 'class'):
                rs = self.call(v, [], [], s, site)
            else:
                rs = [(True, v, s)]
            for ok, e, s2 in rs:
                if ok:
                    if e[0] not in ('XC', 'O'):
                        e = self.any_exc('builtins.Exception')
                    self.mon.raised(self, e, s2, site)
                    s2.note('%s raise %s' % (site, self.cls_name(self.exc_class(e, s2), s2)))
                outs.append(('x', e, s2))
            return outs

        def g(v, s):
            if n.cause is None:
                return f(v, s)
            s.tmp += (v,)
            out = []
            for ok, c, s2 in self.ev(n.cause, s):
                v2 = s2.tmp[-1]
                s2.tmp = s2.tmp[:-1]
                if ok:
                    out.extend(f(v2, s2))
                else:
                    out.append(('x', c, s2))
            return out
        return self.after(self.ev(n.exc, st), g)

    def cur_exc(self, st):
        ref = st.stack[-1]
        while ref is not None:
            o = st.obj(ref)
            es = o.m.get('excs')
            if es:
                return es[-1]
            if not o.m.get('iscomp'):
                return None
            ref = o.m.get('parent')

    def push_exc(self, st, e):
        ref = st.stack[-1]
        o = st.obj(ref)
        st.put(ref, o.meta(excs=o.m.get('excs', ()) + (e,)))

    def pop_exc(self, st):
        ref = st.stack[-1]
        o = st.obj(ref)
        left = o.m.get('excs', ())[:-1]
        st.put(ref, o.meta(excs=left) if left else HObj(o.kind, o.cls, o.f, {k: v for k, v in o.m.items() if k != 'excs'}))

    def x_Try(self, n, st):
        outs = self.exec_block(n.body, st)
        res = []
        for kind, v, s in outs:
            if kind == 'n':
                res.extend(self.exec_block(n.orelse, s) if n.orelse else [(kind, v, s)])
            elif kind == 'x' and n.handlers and v[0] != 'ABORT':
                res.extend(self.handle(n.handlers, v, s))
            else:
                res.append((kind, v, s))
        if n.finalbody:
            res = self.run_finally(res, n.finalbody)
        return self.dedupe(res)

    x_TryStar = x_Try

    def run_finally(self, res, body):
        fin = []
        for kind, v, s in self.dedupe(res):
            if isinstance(v, tuple):
                s.tmp += (v,)
            for k2, v2, s2 in self.exec_block(body, s):
                if isinstance(v, tuple):
                    v0 = s2.tmp[-1]
                    s2.tmp = s2.tmp[:-1]
                else:
                    v0 = v
                fin.append((kind, v0, s2) if k2 == 'n' else (k2, v2, s2))
        return fin

    def handle(self, handlers, e, st):
        todo = [(e, st)]
        out = []
        for h in handlers:
            nxt = []
            for ex, s in todo:
                if h.type is None:
                    cands = [(True, X('builtins.BaseException'), s)]
                else:
                    s.tmp += (ex,)
                    cands = []
                    for ok, c, s2 in self.ev(h.type, s):
                        s2.tmp = s2.tmp[:-1]
                        cands.append((ok, c, s2))
                for ok, c, s2 in cands:
                    if not ok:
                        out.append(('x', c, s2))
                        continue
                    ms = self.exc_match(ex, c, s2)
                    for i, (m, ex2) in enumerate(ms):
                        s3 = s2.clone() if i < len(ms) - 1 else s2
                        if ex2 is not ex and ex2 != ex:
                            for q, w in s3.rs.items():
                                if w == ex:
                                    s3.rs[q] = ex2
                                elif w[0] == 'T' and ex in w[1]:
                                    s3.rs[q] = T(*[ex2 if y == ex else y for y in w[1]])
                        if not m:
                            nxt.append((ex2, s3))
                            continue
                        s3.note('%s handles %s' % (site_of(h), self.cls_name(self.exc_class(ex2, s3), s3)))
                        if h.name:
                            self.store_name(h.name, ex2, s3)
                        self.push_exc(s3, ex2)
                        for k, v, s4 in self.exec_block(h.body, s3):
                            self.pop_exc(s4)
                            if h.name:
                                ref = self.frame_for_store(h.name, s4)
                                s4.put(ref, s4.obj(ref).delete(h.name))
                            out.append((k, v, s4))
            todo = nxt
        return out + [('x', ex, s) for ex, s in todo]

    # ---- loops

    def x_While(self, n, st):
        return self.loop(n, st, None)

    def x_For(self, n, st):
        def f(v, s):
            return self.for_loop(n, v, s)
        return self.after(self.ev(n.iter, st), f)

    x_AsyncFor = x_For

    def for_loop(self, n, it, st):
        spec = self.iterate(it, st, site_of(n))
        if spec[0] == 'gen':
            return self.for_gen(n, spec[1], st)
        if spec[0] == 'raise':
            return [('x', spec[1], spec[2])]
        if spec[0] == 'known' and len(spec[1]) <= 24:
            cur, out = [st], []
            for i in range(len(spec[1])):
                nxt = []
                for s in cur:
                    if i == 0:
                        s.tmp += (T(*spec[1]),)
                    val = s.tmp[-1][1][i]
                    for ok, x, s2 in self.assign(n.target, val, s):
                        if not ok:
                            s2.tmp = s2.tmp[:-1]
                            out.append(('x', x, s2))
                            continue
                        # what later iterations create is something else
                        old = self.push_ctx('%s#%d' % (site_of(n), i)) if i else None
                        done = self.exec_block(n.body, s2)
                        if old:
                            self.pop_ctx(old)
                        for k, v, s3 in done:
                            if k in ('n', 'c'):
                                nxt.append(s3)
                            else:
                                s3.tmp = s3.tmp[:-1]
                                out.append(('n' if k == 'b' else k, v, s3) if k != 'b' else ('BRK', v, s3))
                cur = [o[2] for o in self.dedupe([('n', None, x) for x in nxt])]
            if spec[1]:
                for s in cur:
                    s.tmp = s.tmp[:-1]
            res = []
            for s in cur:
                res.extend(self.exec_block(n.orelse, s) if n.orelse else [('n', None, s)])
            return res + [('n' if k == 'BRK' else k, v, s) for k, v, s in out]
        return self.loop(n, st, it)

    def for_gen(self, n, gen, st):
        """for x in generator(): the body runs at each yield"""
        def handler(v, s):
            outs = []
            for ok, x, s2 in self.assign(n.target, v, s):
                if not ok:
                    outs.append(('throw', x, s2))
                    continue
                for k, val, s3 in self.exec_block(n.body, s2):
                    if k in ('n', 'c'):
                        outs.append(('send', NONE, s3))
                    else:
                        outs.append(('abort', (k, val), s3))
            return outs
        res = []
        for ok, v, s in self.run_gen(gen, handler, st, site_of(n)):
            if ok:
                res.extend(self.exec_block(n.orelse, s) if n.orelse else [('n', None, s)])
            elif v[0] == 'ABORT':
                k, val = v[1]
                res.append(('n' if k == 'b' else k, val, s))
            else:
                res.append(('x', v, s))
        return res

    def run_gen(self, gen, handler, st, site):
        _, f, args, kw = gen
        caller = st.stack[-1]
        self.yields.append((handler, caller))
        try:
            return self.call_fn(f, list(args), list(kw), st, site, run_gen=True)
        finally:
            self.yields.pop()

    def ev_Yield(self, n, st):
        def f(v, s):
            if not self.yields:
                return [(True, NONE, s)]
            handler, caller = self.yields.pop()
            try:
                s.stack = s.stack + (caller,)
                res = []
                for k, val, s2 in handler(v, s):
                    s2.stack = s2.stack[:-1]
                    if k == 'send':
                        res.append((True, val, s2))
                    elif k == 'throw':
                        res.append((False, val, s2))
                    else:
                        res.append((False, ('ABORT', val), s2))
                return res
            finally:
                self.yields.append((handler, caller))
        if n.value is None:
            return f(NONE, st)
        return self.bind(self.ev(n.value, st), f)

    def ev_YieldFrom(self, n, st):
        def f(v, s):
            node = ast.For(target=ast.Name(id='.y', ctx=ast.Store()),
                           iter=None, body=[ast.Expr(ast.Yield(ast.Name(id='.y', ctx=ast.Load())))], orelse=[])
            for x in ast.walk(node):
                ast.copy_location(x, n)
                x.mod = n.mod
            out = []
            for k, val, s2 in self.for_loop(node, v, s):
                out.append((k == 'n', NONE if k == 'n' else val, s2))
            return out
        return self.bind(self.ev(n.value, st), f)

    def loop(self, n, st, it):
        """while loops and loops over unknown iterables, to a fixpoint"""
        lid = (site_of(n), self.ctxid, len(self.loops))
        saved_created = self.created.pop(lid, None)
        self.loops.append(lid)
        if it is not None:
            st.tmp += (it,)
        visited = {}
        out, work = [], [(st, 0)]
        hist = {}
        exits = []
        undet = it is not None or isinstance(n.test, ast.Constant) and bool(n.test.value)
        first = {oid: o for oid, o in st.heap.items() if o.kind in ('list', 'set', 'dict')}
        try:
            while work:
                s, depth = work.pop()
                self.kill(n, s)
                if depth:
                    self.mon.head(self, n, s)
                if depth and undet:
                    self.summarise(s, first, self.mon.precise)
                self.gc(s)
                self.widen(n, s, hist, self.UNDET_AFTER if undet else self.WIDEN_AFTER)
                k, gens = self.gen_key(s)
                if k in visited:
                    old = visited[k]
                    if all(g <= old.get(oid, frozenset()) for oid, g in gens.items()):
                        continue
                    for oid in gens:
                        gens[oid] = gens[oid] | old.get(oid, frozenset())
                        s.heap[oid] = s.heap[oid].meta(gen=gens[oid])
                visited[k] = gens
                if len(visited) > MAXSTATES:
                    raise Broken('too many states at loop %s' % site_of(n))
                enter = []
                if it is None:
                    for ok, v, s2 in self.ev(n.test, s):
                        if not ok:
                            out.append(('x', v, s2))
                            continue
                        both = set()
                        for b, s3 in self.outcomes(v, s2, n.test):
                            both.add(b)
                            (enter if b else exits).append(s3)
                        undet = undet or len(both) > 1
                else:
                    cur = s.tmp[-1]
                    s2 = s.clone()
                    s2.note('%s loop over %s ends' % (site_of(n), show(cur)))
                    exits.append(s2)
                    elems = self.elements(cur, s, site_of(n))
                    for i, (ev_, s4) in enumerate(elems):
                        for ok, x, s5 in self.assign(n.target, ev_, s4):
                            if ok:
                                enter.append(s5)
                            else:
                                s5.tmp = s5.tmp[:-1]
                                out.append(('x', x, s5))
                for s3 in enter:
                    self.heads.append(s3.obj(s3.stack[-1]).f)
                    base_facts = frozenset(s3.facts.items())
                    old_base = getattr(self, 'loop_facts', None)
                    self.loop_facts = base_facts
                    for kind, v, s4 in self.exec_block(n.body, s3):
                        if kind in ('n', 'c'):
                            s4.note('%s next iteration' % site_of(n))
                            self.mon.backedge(self, n, s4)
                            self.age(s4, self.created.get(lid))
                            work.append((s4, depth + 1))
                        else:
                            if it is not None:
                                s4.tmp = s4.tmp[:-1]
                            out.append(('BRK' if kind == 'b' else kind, v, s4))
                    self.loop_facts = old_base
                    self.heads.pop()
        finally:
            self.loops.pop()
            made = self.created.pop(lid, set())
            if saved_created is not None:
                self.created[lid] = saved_created
            for l in self.loops:
                self.created.setdefault(l, set()).update(made)
                # the old generation of this loop also belongs to the outer iteration; it stays old
        res = []
        for s in exits:
            if it is not None:
                s.tmp = s.tmp[:-1]
            self.mon.loop_exit(self, n, s)
            res.extend(self.exec_block(n.orelse, s) if n.orelse else [('n', None, s)])
        return self.join_gens(res + [('n' if k == 'BRK' else k, v, s) for k, v, s in out])

    @staticmethod
    def gen_key(s):
        """key of a state up to the summarised contents of its containers"""
        gens, heap = {}, []
        for oid, o in s.heap.items():
            if o.kind in ('list', 'set', 'dict') and o.m.get('gen'):
                gens[oid] = o.m['gen']
                m = dict(o.m)
                m['gen'] = True
                heap.append((oid, (o.kind, o.cls, frozenset(o.f.items()), frozenset(m.items()))))
            else:
                heap.append((oid, o.sig()))
        return (frozenset(heap), frozenset(s.facts.items()), s.locks, frozenset(s.rs.items()), s.stack, s.tmp), gens

    def join_gens(self, outs):
        if len(outs) < 2:
            return outs
        seen, res = {}, []
        for o in outs:
            k, gens = self.gen_key(o[2])
            k = (o[0], o[1], k)
            if k in seen:
                s = seen[k]
                for oid, g in gens.items():
                    s.heap[oid] = s.heap[oid].meta(gen=s.heap[oid].m['gen'] | g)
                continue
            seen[k] = o[2]
            res.append(o)
        return res

    def kill(self, n, st):
        """forget the dead variables at the head of a loop"""
        if not isinstance(n, (ast.While, ast.For, ast.AsyncFor)) or not st.stack:
            return
        o = st.obj(st.stack[-1])
        if o.kind != 'frame':
            return
        info = self.prog.fns.get(o.m['fn'])
        if info is None or not isinstance(info.node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            return
        dead = self.dead.get((id(n), info.fid))
        if dead is None:
            dead = self.dead[(id(n), info.fid)] = dead_at(n, info.node)
        gone = [v for v in dead if v in o.f]
        if gone:
            st.put(st.stack[-1], HObj(o.kind, o.cls, {k: v for k, v in o.f.items() if k not in dead}, o.m))

    WIDEN_AFTER, UNDET_AFTER = 4, 2

    @staticmethod
    def summarise(st, first, precise=()):
        """containers that grow in a loop with an unknown number of iterations: only which elements, not how many"""
        for oid, o in list(st.heap.items()):
            if oid in precise:
                continue
            if o.kind == 'dict' and oid in first and first[oid] is not o and o.m.get('items'):
                # entries under unknown keys that were added by the loop
                old = set(k for k, _ in first[oid].m.get('items') or ())
                new = [x for x in o.m['items'] if x[0][0] not in ('K', 'E') and x[0] not in old]
                if new:
                    st.heap[oid] = o.meta(items=tuple(x for x in o.m['items'] if x not in new),
                                          gen=o.m.get('gen', frozenset()) | frozenset((k, v, frozenset()) for k, v in new))
                continue
            if o.kind in ('list', 'set') and o.m.get('items') and not o.m.get('nosum') and first.get(oid) is not o \
                    and (oid not in first or first[oid].sig() != o.sig()) and o.f.get('.keep') is None:
                one = o.m['items'][0] if o.kind == 'list' and len(o.m['items']) == 1 and not o.m.get('gen') else NONE
                st.heap[oid] = o.meta(items=None, gen=o.m.get('gen', frozenset()) | frozenset((x, frozenset()) for x in o.m['items']),
                                      **({'cat': one} if one[0] == 'S' and one[1] == 'sl' else {}))

    def widen(self, n, st, hist, limit=4):
        """variables that keep changing get one symbolic value per loop"""
        phis = {}
        for ref in set(st.stack):
            o = st.obj(ref)
            if o.kind not in ('frame', 'module'):
                continue
            for name, v in o.f.items():
                if v[0] in ('O', 'F', 'B', 'X', 'M', 'E', 'FUT', 'CO'):
                    continue
                h = hist.setdefault((ref, name), [])
                if v not in h:
                    h.append(v)
                if len(h) > limit or self.depth_of(v) > 14:
                    ty = {typeof(x) for x in h}
                    ty.discard('NoneType')
                    ty = ty.pop() if len(ty) == 1 and all(x[0] != 'K' or x[2] is not None for x in h) else None
                    phi = S('phi', (site_of(n), K(name)), ty, 0)
                    if v != phi:
                        phis[(ref, name)] = (v, phi)
        # heap fields and container contents that keep growing
        for oid, o in list(st.heap.items()):
            if o.kind == 'list' and o.m.get('items') is not None and len(o.m['items']) > 8:
                st.heap[oid] = o.meta(items=None, open=True, gen=frozenset((x, frozenset()) for x in o.m['items']))
            if o.kind == 'list' and o.m.get('cat') is not None:
                h = hist.setdefault((oid, '.cat'), [])
                if o.m['cat'] not in h:
                    h.append(o.m['cat'])
                if len(h) > limit:
                    st.heap[oid] = st.heap[oid].meta(cat=None)
            if o.kind == 'inst' or o.kind == 'ext' and ('.v' in o.f or 'v' in o.f):
                for name, v in o.f.items():
                    if v[0] in ('S', 'K', 'T') and (o.kind == 'inst' or name in ('.v', 'v', 'pos')):
                        h = hist.setdefault((oid, name), [])
                        if v not in h:
                            h.append(v)
                        if len(h) > limit or self.depth_of(v) > 14:
                            phi = S('phi', (site_of(n), K(str(oid[0]) + '.' + name)), typeof(v), 0)
                            if v != phi:
                                st.heap[oid] = st.heap[oid].set(name, phi)
        if not phis:
            return
        for (ref, name), (v, phi) in phis.items():
            for k in [k for k in st.facts if phi in self.subs(k)[1]]:
                del st.facts[k]
            # keep simple facts of the value under its new name
            for k, val in list(st.facts.items()):
                if len(k) >= 2 and k[1] == v and k[0] in ('truth', 'isnone', 'isinst'):
                    st.facts[(k[0], phi) + k[2:]] = val
            st.put(ref, st.obj(ref).set(name, phi))

    def depth_of(self, v, lim=16):
        if lim <= 0:
            return 0
        if not isinstance(v, tuple) or not v:
            return 0
        if v[0] == 'S':
            return 1 + max([self.depth_of(x, lim - 1) for x in v[2]] or [0]) if isinstance(v[2], tuple) else 1
        return max([self.depth_of(x, lim - 1) for x in v] or [0]) if isinstance(v[0], tuple) else 0

    # ---- iteration

    def iterate(self, v, st, site):
        """('known', values) | ('gen', generator) | ('unknown',) | ('raise', exc, st)"""
        t = v[0]
        if t == 'T':
            return ('known', list(v[1]))
        if t == 'K':
            if isinstance(v[2], (str, bytes)) and len(v[2]) <= 24:
                return ('known', [K(x) for x in v[2]])
            if v[2] is None or isinstance(v[2], (int, float)):
                r = self.raise_('builtins.TypeError', st, site)
                return ('raise', r[1], r[2])
            if isinstance(v[2], range):
                return ('known', [K(i) for i in v[2]]) if len(v[2]) <= 24 else ('unknown',)
        if t == 'GEN':
            return ('gen', v)
        if t == 'O':
            o = st.obj(v)
            if o.kind == 'list' or o.kind == 'set':
                if o.m.get('items') is not None and not o.m.get('gen') and not o.m.get('open'):
                    # a set promises no order: not the one its elements were added in
                    return ('known', list(o.m['items'])[::-1 if o.kind == 'set' else 1])
                return ('unknown',)
            if o.kind == 'dict':
                if not o.m.get('open') and not o.m.get('gen'):
                    return ('known', [k for k, _ in o.m['items']])
                return ('unknown',)
            if o.kind == 'inst' and o.m.get('nt'):
                return ('known', [o.f[k] for k in o.m['nt']])
            if o.kind == 'class' and o.m.get('members') is not None:
                return ('known', [o.f[k] for k in o.m['members']])
            if isinstance(o.cls, tuple):
                r = self.cls_lookup(o.cls, '__iter__', st)
                if r and r[0][0] == 'F' and self.prog.fns[r[0][1]].is_gen:
                    return ('gen', ('GEN', r[0], (v,), ()))
        if t == 'S' and v[1] == 'view':     # dict views
            d, what = v[2][0], v[2][1]
            o = st.obj(d)
            if o and not o.m.get('open') and not o.m.get('gen'):
                return ('known', [self.view_elem(what, k, x) for k, x in o.m['items']])
            return ('unknown',)
        if t == 'S' and v[1] == 'lazy':     # map/zip/enumerate/filter over something unknown
            return ('unknown',)
        return ('unknown',)

    @staticmethod
    def view_elem(what, k, x):
        return k if what == 'keys' else x if what == 'values' else T(k, x)

    def elements(self, it, st, site):
        """[(element, st)]: the values an unknown iterable may deliver next"""
        t = it[0]
        out = []
        if t == 'O' or (t == 'S' and it[1] == 'view'):
            d = it if t == 'O' else it[2][0]
            what = 'keys' if t == 'O' else it[2][1]
            o = st.obj(d)
            if o is not None and o.kind == 'dict':
                alts = [(k, x) for k, x in o.m.get('items') or ()] + [(k, x) for k, x, _ in sorted(o.m.get('gen', ()), key=repr)]
                for k, x in alts:
                    out.append((self.view_elem(what, k, x), st.clone()))
                if o.m.get('open'):
                    s2 = st.clone()
                    k = self.fresh('elemkey', (d,), o.m.get('kt'), site)
                    x = S('item', (d, k), o.m.get('vt'))
                    self.register(x)
                    s2.facts[('in', k, d)] = True
                    out.append((self.view_elem(what, k, x), s2))
                return out
            if o is not None and o.kind in ('list', 'set'):
                for x in o.m.get('items') or ():
                    out.append((x, st.clone()))
                for x, _ in sorted(o.m.get('gen', ()), key=repr):
                    out.append((x, st.clone()))
                if o.m.get('open') or (o.m.get('items') is None and not o.m.get('gen')):
                    out.append((self.fresh('elem', (it,), o.m.get('vt'), site), st.clone()))
                return out
        if t == 'S' and it[1] == 'lazy':
            kind = it[2][0]
            if kind == 'enumerate':
                for x, s in self.elements(it[2][1], st, site):
                    out.append((T(self.fresh('idx', (it[2][1],), 'int', site), x), s))
                return out
            if kind == 'zip':
                cur = [((), st)]
                for sub in it[2][1]:
                    nxt = []
                    for vals, s in cur:
                        sp = self.iterate(sub, s, site)
                        if sp[0] == 'known':
                            nxt.extend((vals + (x,), s.clone()) for x in sp[1])
                        else:
                            nxt.extend((vals + (x,), s2) for x, s2 in self.elements(sub, s, site))
                    cur = nxt
                return [(T(*vals), s) for vals, s in cur]
            if kind == 'map':
                for x, s in self.elements(it[2][2], st, site):
                    for ok, v, s2 in self.call(it[2][1], [x], [], s, site):
                        if ok:
                            out.append((v, s2))
                return out
            if kind == 'filter':
                for x, s in self.elements(it[2][2], st, site):
                    for ok, v, s2 in self.call(it[2][1], [x], [], s, site) if it[2][1] != NONE else [(True, x, s)]:
                        if ok:
                            for b, s3 in self.test(v, s2):
                                if b:
                                    out.append((x, s3))
                return out
            if kind == 'range':
                e = self.fresh('rangeelem', (it[2][1],), 'int', site)
                return [(e, st.clone())]
        if t == 'S' and it[1] == 'genexp':
            return [(x, st.clone()) for x, _ in it[2][0]]
        ty = typeof(it)
        et = {'str': 'str', 'bytes': 'int', 'list[str]': 'str'}.get(ty)
        return [(self.fresh('elem', (it,), et, site), st.clone())]

    # ---- with

    def x_With(self, n, st):
        return self.with_items(n, n.items, st, isinstance(n, ast.AsyncWith))

    x_AsyncWith = x_With

    def with_items(self, n, items, st, is_async):
        if not items:
            return self.exec_block(n.body, st)
        item = items[0]

        def body(s):
            return self.with_items(n, items[1:], s, is_async)

        def enter(cm, s):
            return self.enter_cm(cm, item, s, body, is_async, site_of(item.context_expr))
        return self.after(self.ev(item.context_expr, st), enter)

    def bind_as(self, item, val, st, body):
        if item.optional_vars is None:
            return body(st)
        out = []
        for ok, x, s in self.assign(item.optional_vars, val, st):
            out.extend(body(s) if ok else [('x', x, s)])
        return out

    def enter_cm(self, cm, item, st, body, is_async, site):
        t = cm[0]
        if t == 'CM':       # @contextmanager generator
            def handler(v, s):
                outs = []
                for k, val, s2 in self.bind_as(item, v, s, body):
                    if k == 'n':
                        outs.append(('send', NONE, s2))
                    elif k == 'x':
                        outs.append(('throw', val, s2))
                    else:
                        outs.append(('abort', (k, val), s2))
                return outs
            res = []
            for ok, v, s in self.run_gen(('GEN',) + cm[1:], handler, st, site):
                if ok:
                    res.append(('n', None, s))
                elif v[0] == 'ABORT':
                    res.append((v[1][0], v[1][1], s))
                else:
                    res.append(('x', v, s))
            return res
        if t == 'CMX' and cm[1] == 'suppress':
            res = []
            for k, v, s in self.bind_as(item, NONE, st, body):
                if k == 'x' and v[0] != 'ABORT':
                    for m, e in self.exc_match(v, T(*cm[2]), s):
                        s2 = s.clone()
                        res.append(('n', None, s2) if m else ('x', e, s2))
                else:
                    res.append((k, v, s))
            return res
        if t == 'CMX' and cm[1] == 'closing':
            res = []
            st.tmp += (cm[2][0],)
            for k, v, s in self.bind_as(item, cm[2][0], st, body):
                o = s.tmp[-1]
                s.tmp = s.tmp[:-1]
                for ok, x, s2 in self.bind(self.getattr_(o, 'close', s, site), lambda f, q: self.call(f, [], [], q, site)):
                    res.append((k, v, s2) if ok else ('x', x, s2))
            return res
        if t == 'CMX':
            res = []
            for k, v, s in self.bind_as(item, NONE, st, body):
                res.append((k, v, s))
                if cm[1] == 'timeout':
                    r = self.raise_('builtins.TimeoutError', s.clone(), site)
                    res.append(('x', r[1], r[2]))
            return res
        if self.is_lock(cm, st):
            res = []
            for ok, v, s in self.acquire(cm, st, site, is_async):
                if not ok:
                    res.append(('x', v, s))
                    continue
                for k, v, s2 in self.bind_as(item, TRUE, s, body):
                    self.release(s2.locks[-1] if s2.locks else cm, s2, site)
                    res.append((k, v, s2))
            return res
        obj = st.obj(cm) if t == 'O' else None
        en = 'aenter' if is_async else 'enter'
        exn = '__aexit__' if is_async else '__exit__'
        if obj is not None and obj.kind != 'ext' and isinstance(obj.cls, tuple) and self.cls_lookup(obj.cls, '__%s__' % en, st):
            f = self.cls_lookup(obj.cls, '__%s__' % en, st)[0]
            res = []
            st.tmp += (cm,)
            rs = self.call(('B', cm, f), [], [], st, site)
            if is_async:
                rs = self.bind(rs, lambda v, s: self.await_(v, s, site))
            for ok, v, s in rs:
                if not ok:
                    s.tmp = s.tmp[:-1]
                    res.append(('x', v, s))
                    continue
                for k, val, s2 in self.bind_as(item, v, s, body):
                    o = s2.tmp[-1]
                    s2.tmp = s2.tmp[:-1]
                    if isinstance(val, tuple):
                        s2.tmp += (val,)
                    g = self.cls_lookup(s2.obj(o).cls, exn, s2)
                    if k == 'x' and val[0] != 'ABORT':
                        a = [self.exc_class(val, s2), val, S('traceback', (), 'traceback')]
                    else:
                        a = [NONE, NONE, NONE]
                    r2 = self.call(('B', o, g[0]), a, [], s2, site) if g else [(True, NONE, s2)]
                    if is_async:
                        r2 = self.bind(r2, lambda v, s: self.await_(v, s, site))
                    for ok2, v2, s3 in r2:
                        if isinstance(val, tuple):
                            val2 = s3.tmp[-1]
                            s3.tmp = s3.tmp[:-1]
                        else:
                            val2 = val
                        if not ok2:
                            res.append(('x', v2, s3))
                        elif k == 'x' and val[0] != 'ABORT':
                            for b, s4 in self.test(v2, s3):
                                res.append(('n', None, s4) if b else ('x', val2, s4))
                        else:
                            res.append((k, val2, s3))
            return res
        # a context manager that is not analysed: its exit is an event
        res = []
        st.tmp += (cm,)
        for ok, v, s in self.ext_method(cm, '__enter__', [], [], st, site):
            if not ok:
                s.tmp = s.tmp[:-1]
                res.append(('x', v, s))
                continue
            if v[0] != 'S' or v[1] == 'call':
                v = s.tmp[-1]
            for k, val, s2 in self.bind_as(item, v, s, body):
                o = s2.tmp[-1]
                s2.tmp = s2.tmp[:-1]
                if isinstance(val, tuple):
                    s2.tmp += (val,)
                for ok3, v3, s3 in self.ext_method(o, '__exit__', [], [], s2, site):
                    if isinstance(val, tuple):
                        val2 = s3.tmp[-1]
                        s3.tmp = s3.tmp[:-1]
                    else:
                        val2 = val
                    res.append((k, val2, s3) if ok3 else ('x', v3, s3))
        return res

    LOCKS = ('threading.Lock', 'threading.RLock', 'asyncio.Lock', 'threading.Condition', 'threading.Semaphore',
             'threading.BoundedSemaphore', 'asyncio.Semaphore', 'asyncio.Condition')

    def ext_type(self, v, st):
        """dotted type of a value of a library"""
        if v[0] == 'O':
            o = st.obj(v)
            if o is not None and o.kind == 'ext':
                return o.cls[1]
            return None
        if v[0] == 'X':
            return None
        t = typeof(v)
        return t

    def is_lock(self, v, st):
        return self.ext_type(v, st) in self.LOCKS

    def acquire(self, lock, st, site, is_async=False):
        if is_async:
            sts = self.mon.suspend(self, st, 'asyncio.Lock.acquire', [lock], site)
        else:
            sts = [st]
        out = []
        for s in sts:
            s.locks = s.locks + (lock,)
            self.mon.acquire(self, lock, s, site)
            out.append((True, TRUE, s))
        return out

    def release(self, lock, st, site):
        l = list(st.locks)
        for i in range(len(l) - 1, -1, -1):
            if l[i] == lock:
                del l[i]
                break
        st.locks = tuple(l)
        self.mon.release(self, lock, st, site)

    # ---- definitions

    def x_FunctionDef(self, n, st):
        out = []
        for ok, v, s in self.make_fn(n, st):
            if not ok:
                out.append(('x', v, s))
                continue
            cur = [(True, v, s)]
            for d in reversed(n.decorator_list):
                nxt = []
                for ok2, v2, s2 in cur:
                    if not ok2:
                        nxt.append((ok2, v2, s2))
                        continue
                    for ok3, dv, s3 in self._keep(v2, s2, d):
                        if not ok3:
                            nxt.append((False, dv, s3))
                        else:
                            nxt.extend(self.call(dv[1], [dv[0]], [], s3, site_of(d)))
                cur = nxt
            for ok2, v2, s2 in cur:
                if ok2:
                    self.store_name(n.name, v2, s2)
                    out.append(('n', None, s2))
                else:
                    out.append(('x', v2, s2))
        return out

    x_AsyncFunctionDef = x_FunctionDef

    def make_fn(self, n, st):
        fr = self.frame(st)
        qual = '%s.%s' % (fr.m.get('qual') or n.mod, getattr(n, 'name', '<lambda@%d:%d>' % (n.lineno, n.col_offset)))
        fid = qual
        if fid in self.prog.fns and self.prog.fns[fid].node is not n:
            fid = '%s@%d:%d' % (qual, n.lineno, n.col_offset)
        if fid not in self.prog.fns:
            self.prog.fns[fid] = FnInfo(fid, n, n.mod, qual)
        clo = st.stack[-1]
        clsref = fr.m.get('clsref')
        while st.obj(clo).m.get('isclass'):
            clo = st.obj(clo).m['parent']
        a = n.args
        thunks = [lambda s, d=d: self.ev(d, s) for d in a.defaults]
        kwd = [(p.arg, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        thunks += [lambda s, d=d: self.ev(d, s) for _, d in kwd]

        def f(vals, s):
            nd = len(a.defaults)
            return [(True, ('F', fid, clo, tuple(vals[:nd]), tuple((k, v) for (k, _), v in zip(kwd, vals[nd:])), clsref), s)]
        if not thunks:
            return f((), st)
        return self.bind(self.seq(thunks, st), f)

    def x_ClassDef(self, n, st):
        site = site_of(n)
        thunks = [lambda s, b=b: self.ev(b, s) for b in n.bases]

        def f(bases, s):
            return self.make_class(n, list(bases), s)
        outs = self.bind(self.seq(thunks, st) if thunks else [(True, (), st)], f)
        res = []
        for ok, v, s in outs:
            if not ok:
                res.append(('x', v, s))
                continue
            cur = [(True, v, s)]
            for d in reversed(n.decorator_list):
                nxt = []
                for ok2, v2, s2 in cur:
                    for ok3, dv, s3 in self._keep(v2, s2, d):
                        if not ok3:
                            nxt.append((False, dv, s3))
                        else:
                            nxt.extend(self.call(dv[1], [dv[0]], [], s3, site_of(d)))
                cur = nxt
            for ok2, v2, s2 in cur:
                if ok2:
                    self.store_name(n.name, v2, s2)
                    res.append(('n', None, s2))
                else:
                    res.append(('x', v2, s2))
        return res

    def make_class(self, n, bases, st):
        fr = self.frame(st)
        qual = '%s.%s' % (fr.m.get('qual') or n.mod, n.name)
        bases = [b for b in bases if b != X('builtins.object')]
        ref = self.newref('class:' + qual)
        parent = st.stack[-1]
        cf = self.newref('classframe:' + qual)
        st.put(cf, HObj('frame', None, {}, {'parent': parent, 'isclass': True, 'clsref': ref, 'qual': qual}))
        st.put(ref, HObj('class', None, {}, {'bases': tuple(bases), 'name': n.name, 'qual': qual, 'mod': n.mod}))
        st.stack = st.stack + (cf,)
        out = []
        for k, v, s in self.exec_block(n.body, st):
            frm = s.obj(cf)
            s.stack = s.stack[:-1]
            s.heap.pop(cf[1], None)
            if k != 'n':
                out.append((False, v, s))
                continue
            f = dict(frm.f)
            m = dict(s.obj(ref).m)
            if any(b[0] == 'X' and b[1].startswith('enum.') or (b[0] == 'O' and s.obj(b).m.get('enum')) for b in bases):
                m['enum'] = True
                members = []
                for name, val in frm.f.items():
                    if val[0] in ('K', 'T') and not name.startswith('_'):
                        f[name] = ('E', ref, name, val)
                        members.append(name)
                m['members'] = tuple(members)
            s.put(ref, HObj('class', None, f, m))
            out.append((True, ref, s))
        return out

    # ------------------------------------------------------------ assignment

    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v, st)
            return [(True, NONE, st)]
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st)
        if isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            spec = self.iterate(v, st, site_of(t))
            n = len(t.elts)
            if spec[0] == 'raise':
                return [(False, spec[1], spec[2])]
            if spec[0] == 'known':
                vals = spec[1]
                if (not star and len(vals) != n) or (star and len(vals) < n - 1):
                    return [self.raise_('builtins.ValueError', st, site_of(t))]
                if star:
                    i = star[0]
                    k = len(vals) - (n - 1)
                    mid = self.alloc(st, 'list@' + site_of(t), HObj('list', 'list', {}, {'items': tuple(vals[i:i + k])}))
                    vals = vals[:i] + [mid] + vals[i + k:]
            else:
                vals = [S('item', (v, K(i)), None) for i in range(n)]
                if v[0] == 'S' and v[1] == 'split':
                    pass
            cur, out = [st], []
            for e, x in zip(t.elts, vals):
                nxt = []
                for s in cur:
                    for ok, r, s2 in self.assign(e, x, s):
                        if ok:
                            nxt.append(s2)
                        else:
                            out.append((False, r, s2))
                cur = nxt
            return out + [(True, NONE, s) for s in cur]
        if isinstance(t, ast.Attribute):
            st.tmp += (v,)
            out = []
            for ok, o, s in self.ev(t.value, st):
                v2 = s.tmp[-1]
                s.tmp = s.tmp[:-1]
                if ok:
                    out.extend(self.setattr_(o, t.attr, v2, s, site_of(t)))
                else:
                    out.append((False, o, s))
            return out
        if isinstance(t, ast.Subscript):
            st.tmp += (v,)
            out = []
            for ok, vs, s in self.seq([lambda q: self.ev(t.value, q), lambda q: self.ev_index(t.slice, q)], st):
                v2 = s.tmp[-1]
                s.tmp = s.tmp[:-1]
                if ok:
                    out.extend(self.setitem(vs[0], vs[1], v2, s, site_of(t)))
                else:
                    out.append((False, vs, s))
            return out
        raise Broken('assignment target %s' % type(t).__name__)

    def setattr_(self, o, name, v, st, site):
        if o[0] == 'O':
            obj = st.obj(o)
            if obj.kind in ('inst', 'dict', 'list', 'set') and isinstance(obj.cls, tuple):
                r = self.cls_lookup(obj.cls, name, st)
                if r and r[0][0] == 'D' and r[0][1] == 'prop':
                    if r[0][3] is None:
                        return [self.raise_('builtins.AttributeError', st, site)]
                    return self.call(('B', o, r[0][3]), [v], [], st, site)
                sa = self.cls_lookup(obj.cls, '__setattr__', st)
                if sa and sa[0][0] == 'F':
                    return self.call(('B', o, sa[0]), [K(name), v], [], st, site)
            self.mon.store_attr(self, o, name, v, st)
            obj = st.obj(o)
            st.put(o, obj.set(name, v))
            return [(True, NONE, st)]
        if o[0] == 'K':
            return [self.raise_('builtins.AttributeError', st, site)]
        self.mon.store_attr(self, o, name, v, st)
        return [(True, NONE, st)]

    def setitem(self, o, k, v, st, site):
        if o[0] == 'O':
            obj = st.obj(o)
            if isinstance(obj.cls, tuple) and obj.kind != 'ext':
                r = self.cls_lookup(obj.cls, '__setitem__', st)
                if r:
                    return self.call(('B', o, r[0]), [k, v], [], st, site)
            if obj.kind == 'dict':
                return self.models.dict_set(self, o, k, v, st, site)
            if obj.kind == 'list':
                items = obj.m.get('items')
                kk, i = const(k)
                if items is not None and kk and isinstance(i, int) and -len(items) <= i < len(items):
                    l = list(items)
                    l[i] = v
                    st.put(o, obj.meta(items=tuple(l), cat=None))
                else:
                    st.put(o, obj.meta(items=None, open=True, cat=None, gen=obj.m.get('gen', frozenset()) | {(v, frozenset())}))
                return [(True, NONE, st)]
        if o[0] in ('K', 'T'):
            return [self.raise_('builtins.TypeError', st, site)]
        return self.ext_method(o, '__setitem__', [k, v], [], st, site)

    # ------------------------------------------------------------ expressions

    def ev(self, n, st):
        m = getattr(self, 'ev_' + type(n).__name__, None)
        if m is None:
            self.note('expression %s not modelled' % type(n).__name__)
            return [(True, self.fresh('unknown', (), None, site_of(n)), st)]
        r = m(n, st)
        if len(r) > 8:
            r = self.dedupe(r)
        return r

    def ev_Constant(self, n, st):
        return [(True, K(n.value), st)]

    def ev_Name(self, n, st):
        return self.lookup(n.id, st, n)

    def ev_Tuple(self, n, st):
        return self.bind(self.ev_many(n.elts, st), lambda vs, s: self._mk_tuple(vs, s, n))

    def _mk_tuple(self, vs, s, n):
        items = []
        for v in vs:
            if v[0] == '*':
                spec = self.iterate(v[1], s, site_of(n))
                if spec[0] == 'known':
                    items.extend(spec[1])
                else:
                    return [(True, self.fresh('tuple', tuple(vs), 'tuple', site_of(n)), s)]
            else:
                items.append(v)
        return [(True, T(*items), s)]

    def ev_many(self, nodes, st):
        th = []
        for e in nodes:
            if isinstance(e, ast.Starred):
                th.append(lambda s, e=e: [(ok, ('*', v) if ok else v, s2) for ok, v, s2 in self.ev(e.value, s)])
            else:
                th.append(lambda s, e=e: self.ev(e, s))
        if not th:
            return [(True, (), st)]
        return self.seq(th, st)

    def ev_List(self, n, st):
        def f(vs, s):
            r = self._mk_tuple(vs, s, n)
            ok, t, s2 = r[0]
            if t[0] == 'T':
                return [(True, self.alloc(s2, 'list@' + site_of(n), HObj('list', 'list', {}, {'items': t[1]})), s2)]
            return [(True, self.alloc(s2, 'list@' + site_of(n), HObj('list', 'list', {}, {'items': None, 'open': True})), s2)]
        return self.bind(self.ev_many(n.elts, st), f)

    def ev_Set(self, n, st):
        def f(vs, s):
            t = self._mk_tuple(vs, s, n)[0][1]
            return [(True, self.alloc(s, 'set@' + site_of(n), HObj('set', 'set', {}, {'items': t[1] if t[0] == 'T' else None})), s)]
        return self.bind(self.ev_many(n.elts, st), f)

    def ev_Dict(self, n, st):
        site = site_of(n)
        th = []
        for k, v in zip(n.keys, n.values):
            if k is None:
                th.append(lambda s: [(True, ('UNBOUND',), s)])
            else:
                th.append(lambda s, k=k: self.ev(k, s))
            th.append(lambda s, v=v: self.ev(v, s))

        def f(vs, s):
            d = self.alloc(s, 'dict@' + site, HObj('dict', 'dict', {}, {'items': ()}))
            for i in range(0, len(vs), 2):
                if vs[i] == ('UNBOUND',):
                    self.models.dict_merge(self, d, vs[i + 1], s, site)
                else:
                    self.models.dict_set(self, d, vs[i], vs[i + 1], s, site, silent=True)
            return [(True, d, s)]
        if not th:
            return f((), st)
        return self.bind(self.seq(th, st), f)

    def ev_JoinedStr(self, n, st):
        def f(vs, s):
            parts = []
            for e, v in zip(n.values, vs):
                if isinstance(e, ast.FormattedValue):
                    if e.format_spec is None and e.conversion in (-1, 115):
                        parts.append(self.models.to_str(self, v, s))
                    else:
                        parts.append(S('fmtval', (v, ast.dump(e.format_spec) if e.format_spec else '', e.conversion), 'str'))
                else:
                    parts.append(v)
            return [(True, cat(parts, 'str'), s)]
        th = [lambda s, e=e: self.ev(e.value if isinstance(e, ast.FormattedValue) else e, s) for e in n.values]
        if not th:
            return [(True, K(''), st)]
        return self.bind(self.seq(th, st), f)

    def ev_Lambda(self, n, st):
        return self.make_fn(n, st)

    def ev_NamedExpr(self, n, st):
        def f(v, s):
            return [(ok, v if ok else x, s2) for ok, x, s2 in self.assign(n.target, v, s)]
        return self.bind(self.ev(n.value, st), f)

    def ev_IfExp(self, n, st):
        def f(v, s):
            out = []
            for b, s2 in self.outcomes(v, s, n.test):
                out.extend(self.ev(n.body if b else n.orelse, s2))
            return out
        return self.bind(self.ev(n.test, st), f)

    def ev_BoolOp(self, n, st):
        is_and = isinstance(n.op, ast.And)
        cur, out = [(True, None, st)], []
        for i, e in enumerate(n.values):
            nxt = []
            for _, _, s in cur:
                for ok, v, s2 in self.ev(e, s):
                    if not ok or i == len(n.values) - 1:
                        out.append((ok, v, s2))
                        continue
                    for b, s3 in self.outcomes(v, s2, e):
                        if b == is_and:
                            nxt.append((True, v, s3))
                        else:
                            out.append((True, K(b) if typeof(v) == 'bool' else v, s3))
            cur = nxt
        return out

    def ev_UnaryOp(self, n, st):
        def f(v, s):
            if isinstance(n.op, ast.Not):
                if v[0] == 'O':
                    return [(True, K(not b), s2) for b, s2 in self.outcomes(v, s, n.operand)]
                r = self.cond_key(v, s)
                if r is True or r is False:
                    return [(True, K(not r), s)]
                k = self.know(r[0], s)
                if k is not None:
                    return [(True, K((k == r[1]) is False), s)]
                return [(True, self.fact(r[0], not r[1]), s)]
            ok, c = const(v)
            if ok and isinstance(c, (int, float)):
                return [(True, K(-c if isinstance(n.op, ast.USub) else ~c if isinstance(n.op, ast.Invert) else +c), s)]
            if isinstance(n.op, ast.USub) and lin_of(v) is not None:
                return [(True, lin_val(lin_scale(lin_of(v), -1), typeof(v) or 'int'), s)]
            return [(True, S('op', (type(n.op).__name__, v), typeof(v)), s)]
        return self.bind(self.ev(n.operand, st), f)

    def ev_BinOp(self, n, st):
        return self.bind(self.seq([lambda s: self.ev(n.left, s), lambda s: self.ev(n.right, s)], st),
                         lambda vs, s: self.binop(n.op, vs[0], vs[1], s, site_of(n)))

    def binop(self, op, a, b, st, site, inplace=False):
        name = type(op).__name__
        return self.models.binop(self, name, a, b, st, site, inplace)

    def ev_Compare(self, n, st):
        nodes = [n.left] + n.comparators
        if len(n.ops) == 1:
            return self.bind(self.seq([lambda s: self.ev(nodes[0], s), lambda s: self.ev(nodes[1], s)], st),
                             lambda vs, s: self.compare(n.ops[0], vs[0], vs[1], s, site_of(n)))
        # a < b < c
        th = [lambda s, e=e: self.ev(e, s) for e in nodes]

        def f(vs, s):
            cur, out = [s], []
            for i, op in enumerate(n.ops):
                nxt = []
                for s2 in cur:
                    for ok, v, s3 in self.compare(op, vs[i], vs[i + 1], s2, site_of(n)):
                        if not ok:
                            out.append((ok, v, s3))
                            continue
                        if i == len(n.ops) - 1:
                            out.append((True, v, s3))
                            continue
                        for b, s4 in self.test(v, s3):
                            if b:
                                nxt.append(s4)
                            else:
                                out.append((True, FALSE, s4))
                cur = nxt
            return out
        return self.bind(self.seq(th, st), f)

    def compare(self, op, a, b, st, site):
        return self.models.compare(self, type(op).__name__, a, b, st, site)

    def ev_Attribute(self, n, st):
        return self.bind(self.ev(n.value, st), lambda v, s: self.getattr_(v, n.attr, s, site_of(n)))

    def ev_index(self, n, st):
        if isinstance(n, ast.Slice):
            th = [lambda s, e=e: self.ev(e, s) if e is not None else [(True, NONE, s)] for e in (n.lower, n.upper, n.step)]
            return self.bind(self.seq(th, st), lambda vs, s: [(True, ('SLICE',) + tuple(vs), s)])
        return self.ev(n, st)

    def ev_Slice(self, n, st):
        return self.ev_index(n, st)

    def ev_Subscript(self, n, st):
        return self.bind(self.seq([lambda s: self.ev(n.value, s), lambda s: self.ev_index(n.slice, s)], st),
                         lambda vs, s: self.getitem(vs[0], vs[1], s, site_of(n)))

    def getitem(self, o, k, st, site):
        return self.models.getitem(self, o, k, st, site)

    def ev_Starred(self, n, st):
        return self.bind(self.ev(n.value, st), lambda v, s: [(True, ('*', v), s)])

    def ev_Await(self, n, st):
        return self.bind(self.ev(n.value, st), lambda v, s: self.await_(v, s, site_of(n)))

    def await_(self, v, st, site):
        if v[0] == 'CO':
            return self.run_coro(v, st, site)
        if v[0] in ('AW', 'FUT', 'S', 'O', 'X'):
            return self.models.await_ext(self, v, st, site)
        return [self.raise_('builtins.TypeError', st, site)]

    def run_coro(self, co, st, site):
        return self.call_fn(co[1], list(co[2]), list(co[3]), st, site, run_coro=True)

    # ---- comprehensions: a loop over a container allocated before

    def comp(self, n, elt, st, kind):
        site = site_of(n)
        gens = n.generators
        out = []
        for ok, it0, s in self.ev(gens[0].iter, st):
            if not ok:
                out.append((ok, it0, s))
                continue
            names = set()
            for g in gens:
                for x in ast.walk(g.target):
                    if isinstance(x, ast.Name):
                        names.add(x.id)
            parent = s.stack[-1]
            po = s.obj(parent)
            s.tmp += (it0,)
            res = self.alloc(s, kind + '@' + site, HObj('dict' if kind == 'dict' else 'set' if kind == 'set' else 'list',
                                                        'dict' if kind == 'dict' else 'set' if kind == 'set' else 'list', {}, {'items': ()}))
            fr = self.newref('frame:comp@' + site)
            s.put(fr, HObj('frame', None, {'.r': res}, {'parent': parent, 'iscomp': True, 'comp': frozenset(names | {'.r'}),
                                                        'qual': po.m.get('qual'), 'clsref': po.m.get('clsref'), 'fn': None}))
            s.stack = s.stack + (fr,)

            def body_of(i):
                if i == len(gens):
                    if kind == 'dict':
                        b = [('D', n.key, n.value)]
                    else:
                        b = [('A', elt)]
                    return b
                return None

            def run(i, s1):
                """exec outcomes of the i-th for clause"""
                if i == len(gens):
                    return self.comp_add(n, elt, kind, s1)
                g = gens[i]
                fake = _CompLoop(g, i, self, run, n)
                r = []
                if i == 0:
                    it = s1.tmp[-1]
                    r.extend(self.for_loop(fake, it, s1))
                else:
                    for ok2, it, s2 in self.ev(g.iter, s1):
                        r.extend(self.for_loop(fake, it, s2) if ok2 else [('x', it, s2)])
                return r
            for k, v, s2 in self.dedupe(run(0, s)):
                rr = s2.obj(s2.stack[-1]).f['.r']
                s2.heap.pop(s2.stack[-1][1], None)
                s2.stack = s2.stack[:-1]
                s2.tmp = s2.tmp[:-1]
                out.append((True, rr, s2) if k == 'n' else (False, v, s2))
        return out

    def comp_add(self, n, elt, kind, st):
        res = st.obj(st.stack[-1]).f['.r']
        out = []
        if kind == 'dict':
            for ok, vs, s in self.seq([lambda q: self.ev(n.key, q), lambda q: self.ev(n.value, q)], st):
                if ok:
                    r = s.obj(s.stack[-1]).f['.r']
                    out.extend(('n' if o else 'x', v, s2) for o, v, s2 in self.models.dict_set(self, r, vs[0], vs[1], s, site_of(n), silent=True))
                else:
                    out.append(('x', vs, s))
            return out
        for ok, v, s in self.ev(elt, st):
            if ok:
                r = s.obj(s.stack[-1]).f['.r']
                self.models.list_add(self, r, v, s)
                out.append(('n', None, s))
            else:
                out.append(('x', v, s))
        return out

    def ev_ListComp(self, n, st):
        return self.comp(n, n.elt, st, 'list')

    def ev_SetComp(self, n, st):
        return self.comp(n, n.elt, st, 'set')

    def ev_GeneratorExp(self, n, st):
        return self.comp(n, n.elt, st, 'list')

    def ev_DictComp(self, n, st):
        return self.comp(n, None, st, 'dict')

    # ---- attributes

    def getattr_(self, o, name, st, site):
        r = self.mon.load_attr(self, o, name, st)
        if r is not None:
            return r
        t = o[0]
        if t == 'O':
            obj = st.obj(o)
            if obj is None:
                return [(True, S('attr', (o, name), None), st)]
            if obj.kind == 'module':
                v = obj.f.get(name)
                if v is None:
                    sub = obj.m['name'] + '.' + name
                    if sub in self.prog.files:
                        v = self.load_module(sub, st)
                if v is None:
                    return [self.raise_('builtins.AttributeError', st, site)]
                return [(True, v, st)]
            if obj.kind == 'class':
                return self.class_attr(o, name, st, site)
            if obj.kind == 'ext':
                if name in obj.f:
                    return [(True, obj.f[name], st)]
                v = self.models.ext_attr(self, o, obj.cls[1], name, st, site)
                return v
            if name == '__dict__' and obj.kind == 'inst':
                return [(True, self.models.inst_dict(self, o, st, site), st)]
            if name == '__class__':
                c = self.class_of(o, st)
                if c is not None:
                    return [(True, c, st)]
            if isinstance(obj.cls, tuple):
                r = self.cls_lookup(obj.cls, name, st)
                if r and r[0][0] == 'D' and r[0][1] == 'prop':
                    return self.call(('B', o, r[0][2]), [], [], st, site)
                if name in obj.f:
                    return [(True, obj.f[name], st)]
                for dk, dv in sorted(obj.m.get('dyn', ()), key=repr):
                    if dk == K(name):
                        return [(True, dv, st)]
                if r:
                    return self.bind_attr(r[0], o, obj.cls, st, site)
                if obj.kind in ('dict', 'list', 'set'):
                    return [(True, ('M', o, name), st)]
                if obj.m.get('lazy'):
                    v = S('attr', (o, name), obj.m['lazy'].get(name) if isinstance(obj.m['lazy'], dict) else None)
                    st.put(o, st.obj(o).set(name, v))
                    return [(True, v, st)]
                ga = self.cls_lookup(obj.cls, '__getattr__', st)
                if ga:
                    return self.call(('B', o, ga[0]), [K(name)], [], st, site)
                for c in self.mro(obj.cls, st):
                    if c[0] == 'X':
                        v = self.models.base_attr(self, o, c[1], name, st, site)
                        if v is not None:
                            return v
                return [self.raise_('builtins.AttributeError', st, site, ('noattr', name))]
            if name in obj.f:
                return [(True, obj.f[name], st)]
            if obj.kind in ('dict', 'list', 'set'):
                return [(True, ('M', o, name), st)]
            return [self.raise_('builtins.AttributeError', st, site)]
        if t == 'SUP':
            r = self.cls_lookup(self.class_of(o[2], st) if not o[3] else o[2], name, st, after=o[1])
            if r:
                return self.bind_attr(r[0], o[2], self.class_of(o[2], st), st, site)
            return [(True, ('M', o, name), st)]
        if t == 'X':
            dotted = canon(o[1] + '.' + name)
            if o[1].startswith('enum.'):
                pass
            r = lib_const(dotted)
            return [(True, K(r) if r is not None else X(dotted), st)]
        if t == 'E':
            if name == 'value':
                return [(True, o[3], st)]
            if name == 'name':
                return [(True, K(o[2]), st)]
            c = self.cls_lookup(o[1], name, st)
            if c:
                return self.bind_attr(c[0], o, o[1], st, site)
            return [(True, ('M', o, name), st)]
        if t == 'K' and o[2] is None:
            return [self.raise_('builtins.AttributeError', st, site, ('none', name))]
        if t in ('K', 'T'):
            ty = type(o[2]) if t == 'K' else tuple
            if not hasattr(ty, name):
                return [self.raise_('builtins.AttributeError', st, site)]
            return [(True, ('M', o, name), st)]
        if t == 'XC':
            return self.models.exc_attr(self, o, name, st, site)
        if t == 'D':
            if o[1] == 'prop' and name in ('setter', 'getter', 'deleter'):
                return [(True, ('M', o, name), st)]
            if o[1] == 'partial':
                return [(True, ('M', o, name), st)]
        if t == 'S':
            if o[1] == 'enum':
                if name == 'value':
                    return [(True, o[2][1], st)]
                if name == 'name':
                    return [(True, S('attr', (o, name), 'str'), st)]
            if isinstance(o[3], tuple):     # symbolic instance of an analysed class
                r = self.cls_lookup(o[3], name, st)
                if r:
                    return self.bind_attr(r[0], o, o[3], st, site)
            # may it be None?
            if o[3] is None:
                k = self.know(('isnone', o), st)
                if k is True:
                    return [self.raise_('builtins.AttributeError', st, site, ('none', name))]
            return self.models.ext_attr(self, o, typeof(o), name, st, site)
        return [(True, ('M', o, name), st)]

    def class_attr(self, c, name, st, site):
        obj = st.obj(c)
        if name == '__name__':
            return [(True, K(obj.m['name']), st)]
        if name == '__qualname__':
            return [(True, K(obj.m['name']), st)]
        r = self.cls_lookup(c, name, st)
        if r:
            v = r[0]
            if v[0] == 'D' and v[1] == 'class':
                return [(True, ('B', c, v[2]), st)]
            if v[0] == 'D' and v[1] == 'static':
                return [(True, v[2], st)]
            return [(True, v, st)]
        if name == '__members__' or name == '__mro__' or name == '__dict__' or name == '__doc__' or name == '__module__':
            return [(True, self.fresh('attr', (c, name), None, site), st)]
        for k in self.mro(c, st):
            if k[0] == 'X':
                rc = real_class(k[1])
                if rc is None or hasattr(rc, name):
                    return [(True, ('M', c, name), st)]
        if hasattr(type, name) or hasattr(object, name):
            return [(True, ('M', c, name), st)]
        return [self.raise_('builtins.AttributeError', st, site, ('noattr', name))]

    def bind_attr(self, v, o, cls, st, site):
        if v[0] == 'F':
            return [(True, ('B', o, v), st)]
        if v[0] == 'D':
            if v[1] == 'class':
                return [(True, ('B', cls, v[2]), st)]
            if v[1] == 'static':
                return [(True, v[2], st)]
            if v[1] == 'prop':
                return self.call(('B', o, v[2]), [], [], st, site)
            if v[1] == 'cm':
                return [(True, ('B', o, v), st)]
        return [(True, v, st)]

    # ---- calls

    def ev_Call(self, n, st):
        site = site_of(n)
        # super()
        if isinstance(n.func, ast.Name) and n.func.id == 'super':
            return self.do_super(n, st)
        out = []
        for ok, fv, s in self.ev(n.func, st):
            if not ok:
                out.append((ok, fv, s))
                continue
            th = [lambda q, fv=fv: [(True, fv, q)]]
            for a in n.args:
                if isinstance(a, ast.Starred):
                    th.append(lambda q, a=a: [(o, ('*', v) if o else v, q2) for o, v, q2 in self.ev(a.value, q)])
                else:
                    th.append(lambda q, a=a: self.ev(a, q))
            for kw in n.keywords:
                th.append(lambda q, kw=kw: self.ev(kw.value, q))

            def f(vs, s2):
                args = []
                for a in vs[1:1 + len(n.args)]:
                    if a[0] == '*' and a[1][0] == 'T':
                        args.extend(a[1][1])
                    else:
                        args.append(a)
                kws = [(kw.arg, v) for kw, v in zip(n.keywords, vs[1 + len(n.args):])]
                return self.call(vs[0], args, kws, s2, site, n)
            out.extend(self.bind(self.seq(th, s), f))
        return out

    def do_super(self, n, st):
        fr = self.frame(st)
        if n.args:
            def f(vs, s):
                return [(True, ('SUP', vs[0], vs[1], s.obj(vs[1]).kind == 'class' if vs[1][0] == 'O' and s.obj(vs[1]) else False), s)]
            return self.bind(self.ev_many(n.args, st), f)
        c = fr.m.get('clsref')
        fi = self.prog.fns.get(fr.m.get('fn'))
        selfv = fr.f.get(fi.params[0]) if fi and fi.params else NONE
        iscls = selfv[0] == 'O' and st.obj(selfv).kind == 'class'
        return [(True, ('SUP', c, selfv, iscls), st)]

    def call(self, f, args, kws, st, site, node=None):
        """[(ok, value, st)]"""
        self.ncalls += 1
        self.call_sites.add(site)
        t = f[0]
        if t == 'F':
            info = self.prog.fns[f[1]]
            if info.is_async and not info.is_gen:
                return [(True, ('CO', f, tuple(args), tuple(kws)), st)]
            if info.is_gen:
                return [(True, ('GEN', f, tuple(args), tuple(kws)), st)]
            return self.call_fn(f, args, kws, st, site)
        if t == 'B':
            g = f[2]
            if g[0] == 'D' and g[1] == 'cm':
                return [(True, ('CM', g[2], (f[1],) + tuple(args), tuple(kws)), st)]
            return self.call(g, [f[1]] + list(args), kws, st, site, node)
        if t == 'D':
            if f[1] == 'cm':
                return [(True, ('CM', f[2], tuple(args), tuple(kws)), st)]
            if f[1] in ('static', 'class'):
                return self.call(f[2], args, kws, st, site, node)
            if f[1] == 'partial':
                return self.call(f[2], list(f[3]) + list(args), list(f[4]) + list(kws), st, site, node)
            if f[1] == 'wraps':
                return [(True, args[0], st)]
        if t == 'M':
            return self.call_method(f[1], f[2], args, kws, st, site)
        if t == 'X':
            return self.ext_call(f[1], args, kws, st, site)
        if t == 'O':
            obj = st.obj(f)
            if obj is not None:
                if obj.kind == 'class':
                    return self.instantiate(f, args, kws, st, site)
                if isinstance(obj.cls, tuple) and obj.kind != 'ext':
                    r = self.cls_lookup(obj.cls, '__call__', st)
                    if r:
                        return self.call(('B', f, r[0]), args, kws, st, site)
                    return [self.raise_('builtins.TypeError', st, site)]
        if t in ('K', 'T', 'E'):
            return [self.raise_('builtins.TypeError', st, site)]
        return self.models.call_sym(self, f, args, kws, st, site)

    def call_method(self, recv, name, args, kws, st, site):
        if recv[0] == 'D' and name == 'setter':
            return [(True, ('D', 'prop', recv[2], args[0]), st)]
        if recv[0] == 'O':
            obj = st.obj(recv)
            if obj is not None and obj.kind in ('dict', 'list', 'set'):
                m = self.models.CONTAINER.get((obj.kind, name))
                if m:
                    return m(self, recv, args, kws, st, site)
        return self.ext_method(recv, name, args, kws, st, site)

    def ext_method(self, recv, name, args, kws, st, site):
        return self.models.ext_method(self, recv, name, args, kws, st, site)

    def ext_call(self, dotted, args, kws, st, site):
        return self.models.ext_call(self, canon(dotted), args, kws, st, site)

    def instantiate(self, c, args, kws, st, site):
        return self.models.instantiate(self, c, args, kws, st, site)

    # ---- user functions

    def bind_args(self, info, f, args, kws, st, site):
        """-> dict or None (TypeError)"""
        a = info.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        kwo = [x.arg for x in a.kwonlyargs]
        vals = {}
        flat = []
        rest = None
        for x in args:
            if x[0] == '*':
                spec = self.iterate(x[1], st, site)
                if spec[0] == 'known' and rest is None:
                    flat.extend(spec[1])
                else:
                    rest = x[1]
            elif rest is None:
                flat.append(x)
            else:
                self.note('positional argument after *args')
        for i, v in enumerate(flat[:len(pos)]):
            vals[pos[i]] = v
        extra = flat[len(pos):]
        if extra and not a.vararg:
            return None
        if rest is not None and not a.vararg:
            named = {k for k, _ in kws}
            for i, p in enumerate(pos[len(flat):]):
                if p not in named:
                    vals[p] = S('item', (rest, K(i)), None)
        if a.vararg:
            if rest is not None:
                vals[a.vararg.arg] = rest if not extra else self.fresh('starargs', (T(*extra), rest), 'tuple', site)
            else:
                vals[a.vararg.arg] = T(*extra)
        kwextra = []
        opens = []
        for k, v in kws:
            if k is None:
                d = self.models.dict_content(self, v, st)
                if d is None:
                    opens.append((v, ()))
                    continue
                items, gen, op = d
                for kk, vv in items:
                    if is_k(kk, str):
                        if kk[2] in pos or kk[2] in kwo:
                            if kk[2] in vals:
                                return None
                            vals[kk[2]] = vv
                        else:
                            kwextra.append((kk, vv))
                    else:
                        kwextra.append((kk, vv))
                if gen or op:
                    opens.append((v, gen))
            elif k in pos or k in kwo:
                if k in vals:
                    return None
                vals[k] = v
            else:
                kwextra.append((K(k), v))
        if kwextra and not a.kwarg:
            if any(is_k(k, str) for k, _ in kwextra):
                return None
        if a.kwarg:
            m = {'items': tuple(kwextra)}
            gen = frozenset()
            op = False
            for v, g in opens:
                gen |= frozenset(g)
                if not g or (v[0] == 'O' and st.obj(v).m.get('open')):
                    op = True
            if gen:
                m['gen'] = gen
            if op:
                m['open'] = True
                m['src'] = T(*[v for v, g in opens])
            vals[a.kwarg.arg] = self.alloc(st, 'kwargs@' + site, HObj('dict', 'dict', {}, m))
        nd = len(f[3])
        for p, d in zip(pos[len(pos) - nd:], f[3]):
            if p not in vals:
                vals[p] = d
        for k, d in f[4]:
            if k not in vals:
                vals[k] = d
        for p in pos + kwo:
            if p not in vals:
                if opens:
                    vals[p] = S('item', (opens[0][0], K(p)), None)
                else:
                    return None
        return vals

    def call_fn(self, f, args, kws, st, site, run_coro=False, run_gen=False):
        info = self.prog.fns[f[1]]
        self.fn_seen.add(f[1])
        if self.calls.count(f[1]) >= self.mon.maxrec:
            self.note('recursion cut in ' + f[1])
            return [(True, self.fresh('rec', (), None, site), st)]
        vals = self.bind_args(info, f, args, kws, st, site)
        if vals is None:
            return [self.raise_('builtins.TypeError', st, site, ('args', f[1]))]
        pre = self.mon.summary(info) and (self.mon.summary(info), st.clone())
        old = self.push_ctx(site)
        self.calls.append(f[1])
        st.note('%s call %s' % (site, f[1]))
        fr = self.newref('frame:' + f[1])
        st.put(fr, HObj('frame', None, vals, {'parent': f[2], 'fn': f[1], 'qual': info.qual + '.<locals>', 'clsref': f[5]}))
        st.stack = st.stack + (fr,)
        self.mon.enter(self, info, st)
        res = []
        try:
            for k, v, s in self.exec_block(info.body, st):
                s.stack = s.stack[:-1]
                if k == 'r':
                    res.append((True, v, s))
                elif k == 'x':
                    res.append((False, v, s))
                else:
                    res.append((True, NONE, s))
        finally:
            self.calls.pop()
            self.pop_ctx(old)
        hook = getattr(self.mon, 'leave', None)
        if hook:
            hook(self, info, res)
        if len(res) > 1:
            for ok, v, s in res:
                self.gc(s, (v,))
            res = self.dedupe(res)
            if pre:
                res = self.collapse(res, pre, args, site)
            res = self.dedupe(self.join_gens(res))
        return res

    def join_facts(self, res, pre):
        """outcomes that differ in what was assumed on the way only: one that assumes what all of them do"""
        groups = {}
        for ok, v, s in res:
            facts, s.facts = s.facts, {}
            k = (ok, v, s.key())
            s.facts = facts
            if k in groups:
                t = groups[k][2]
                t.facts = {f: p for f, p in t.facts.items() if facts.get(f) == p}
            else:
                groups[k] = (ok, v, s)
        for ok, v, s in groups.values():
            for f, p in pre.facts.items():
                s.facts.setdefault(f, p)
        return list(groups.values())

    def collapse(self, res, pre, args, site):
        """forgets how a pure function came to its outcomes: one new mapping of texts, or one exception per class"""
        out, seen = [], set()
        mode, pre = pre
        if mode == 'join':
            return self.join_facts(res, pre)
        for ok, v, s in res:
            if mode == 'class':
                s.heap.update(pre.heap)
            # what was learned may have replaced terms in the frames of the callers; the facts go back to what they were, and so do the frames
            s.heap.update({oid: o for oid, o in pre.heap.items() if o.kind == 'frame'})
            if any(oid in s.heap and s.heap[oid].sig() != o.sig() for oid, o in pre.heap.items()) or s.locks != pre.locks:
                return res
            if ok:
                o = s.obj(v) if v[0] == 'O' else None
                if o is None or v[1] in pre.heap:
                    return res
                if mode == 'class':
                    key = (True, o.cls)
                elif o.kind != 'dict':
                    return res
                for x in (tuple(o.m.get('items') or ()) + tuple(g[:2] for g in o.m.get('gen') or ()) if mode == 'exact' else ()):
                    if not all(typeof(y) == 'str' for y in x[:2]):
                        return res
                key = (True, o.cls) if mode == 'class' else (True, o.cls, frozenset(s.rs.items()))
            else:
                key = (False, self.exc_class(v, s), frozenset(s.rs.items()))
            if key in seen:
                continue
            seen.add(key)
            s.facts = dict(pre.facts)
            if ok and mode == 'class':
                o = s.obj(v)
                s.put(v, o.meta(made=T(*args)))
            elif ok:
                o = s.obj(v)
                m = {k: x for k, x in o.m.items() if k not in ('src', 'open')}
                m['items'] = ()
                m['gen'] = frozenset([(S('elemkey', tuple(args), 'str'), S('elem', tuple(args), 'str'), frozenset())])
                s.put(v, HObj('dict', o.cls, dict(o.f), m))
            out.append((ok, v, s))
        return out


class _CompLoop(object):
    """a for clause of a comprehension, shaped like a For statement"""

    def __init__(self, g, i, ip, run, n):
        self.target, self.orelse = g.target, []
        self.lineno, self.col_offset, self.mod = n.lineno, n.col_offset + i, n.mod
        st = _CompBody(g, i, ip, run)
        st.lineno, st.col_offset, st.mod = n.lineno, n.col_offset, n.mod
        self.body = [st]


class _CompBody(object):
    def __init__(self, g, i, ip, run):
        self.g, self.i, self.ip, self.run_ = g, i, ip, run

    def execute(self, st):
        ip = self.ip
        cur, out = [st], []
        for c in self.g.ifs:
            nxt = []
            for s in cur:
                for ok, v, s2 in ip.ev(c, s):
                    if not ok:
                        out.append(('x', v, s2))
                        continue
                    for b, s3 in ip.test(v, s2):
                        if b:
                            nxt.append(s3)
                        else:
                            out.append(('n', None, s3))
            cur = nxt
        for s in cur:
            out.extend(self.run_(self.i + 1, s))
        return out


Interp.x__CompBody = lambda self, n, st: n.execute(st)
