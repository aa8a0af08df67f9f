"""Models of containers and operators."""
import operator

from .values import *
from .core import *
from .m_bytes import content, forks, is_text, slice_text, percent, to_str, cut_or_slice


# ---------------------------------------------------------------- dicts

def strip_gen(ip, v):
    """v with generations removed"""
    if isinstance(v, frozenset):
        return frozenset(strip_gen(ip, x) for x in v)
    if not isinstance(v, tuple) or not v:
        return v
    if v[0] == 'S' and len(v) == 5:
        return ('S', v[1], strip_gen(ip, v[2]), v[3], 0)
    if v[0] == 'O' and len(v) == 2 and len(v[1]) == 3:
        return ('O', (v[1][0], v[1][1], 0))
    return tuple(strip_gen(ip, x) for x in v)


def value_eq(ip, a, b, st):
    """bool or (key, pol); named tuples by content, other instances by identity"""
    if a == b and not ip.has_old(a):
        return True
    if a[0] == 'O' and b[0] == 'O':
        x, y = st.obj(a), st.obj(b)
        if x is not None and y is not None and x.m.get('nt') and y.m.get('nt'):
            a, b = T(*[x.f[k] for k in x.m['nt']]), T(*[y.f[k] for k in y.m['nt']])
        elif x is not None and y is not None and x.kind in ('list',) and x.kind == y.kind and x.m.get('items') is not None \
                and y.m.get('items') is not None and not x.m.get('gen') and not y.m.get('gen'):
            a, b = T(*x.m['items']), T(*y.m['items'])
        else:
            if a != b:
                if not (a[1][2:] == (1,) and b[1][2:] == (1,)):
                    return False
            return ('eq', a, b), True
    if a[0] == 'O' and st.obj(a) is not None and st.obj(a).m.get('nt') and b[0] == 'T':
        a = T(*[st.obj(a).f[k] for k in st.obj(a).m['nt']])
    if b[0] == 'O' and st.obj(b) is not None and st.obj(b).m.get('nt') and a[0] == 'T':
        b = T(*[st.obj(b).f[k] for k in st.obj(b).m['nt']])
    if a[0] == 'T' and b[0] == 'T' and len(a[1]) == len(b[1]):
        unknown = None
        for x, y in zip(a[1], b[1]):
            r = value_eq(ip, x, y, st)
            if r is False:
                return False
            if r is not True:
                k = ip.know(r[0], st)
                if k is None:
                    unknown = r if unknown is None else 'many'
                elif k != r[1]:
                    return False
        if unknown is None:
            return True
        if unknown != 'many':
            return unknown
        return ('eq', a, b), True
    a, b = content(a, st), content(b, st)
    return ip.eq_key(a, b)


def inst_key(ip, k, st):
    return k


def dict_find(ip, d, k, st, site):
    """[(index|None|'gen'|'item', value, st)]: where the entry of k is; None: no such entry"""
    out = []
    cur = [st]
    o = st.obj(d)
    items = list(o.m.get('items') or ())
    exact = [i for i, (kk, _) in enumerate(items) if value_eq(ip, kk, k, st) is True]
    if exact:
        return [(exact[-1], items[exact[-1]][1], st)]
    for i, (kk, vv) in enumerate(items):
        nxt = []
        for s in cur:
            for same, s2 in forks(ip, value_eq(ip, kk, k, s), s):
                if same:
                    v2 = s2.obj(d).m['items'][i][1]
                    out.append((i, v2, s2))
                else:
                    nxt.append(s2)
        cur = nxt
    for s in cur:
        o = s.obj(d)
        gens = sorted(o.m.get('gen') or (), key=repr)
        if gens or o.m.get('open'):
            key = ('in', k, d)
            for yes, s2 in forks(ip, (key, True), s):
                if not yes:
                    out.append((None, None, s2))
                    continue
                done = False
                if gens and not o.m.get('open') and all(typeof(g[1]) == 'str' for g in gens):
                    # one of the texts: which one does not matter
                    v = S('item', (d, k), 'str')
                    ip.register(v)
                    s2.put(d, s2.obj(d).meta(items=tuple(s2.obj(d).m.get('items') or ()) + ((k, v),)))
                    out.append(('gen', v, s2))
                    continue
                if gens:
                    for g in gens:
                        r = value_eq(ip, g[0], k, s2)
                        if r is False:
                            continue
                        s3 = s2.clone()
                        s3.put(d, s3.obj(d).meta(items=tuple(s3.obj(d).m.get('items') or ()) + ((k, g[1]),)))
                        out.append(('gen', g[1], s3))
                        done = True
                if o.m.get('open') or not done:
                    v = S('item', (o.m.get('src', d), k), o.m.get('vt'))
                    ip.register(v)
                    s2.put(d, s2.obj(d).meta(items=tuple(s2.obj(d).m.get('items') or ()) + ((k, v),)))
                    out.append(('item', v, s2))
        else:
            out.append((None, None, s))
    return out


def dict_changed(ip, d, st):
    o = st.obj(d)
    t = S('len', (d,), 'int')
    if o.m.get('open') or o.m.get('gen'):
        ip.invalidate(st, t)


def mirror(ip, d, k, v, st):
    """x.__dict__[k] = v"""
    o = st.obj(d)
    of = o.m.get('of')
    if of is not None and st.obj(of) is not None:
        if is_k(k, str):
            st.put(of, st.obj(of).set(k[2], v))
        else:
            io = st.obj(of)
            st.put(of, io.meta(dyn=tuple(x for x in io.m.get('dyn', ()) if x[0] != k) + ((k, v),)))


def dict_set(ip, d, k, v, st, site, silent=False):
    if not silent:
        ip.mon.dict_event(ip, 'set', d, k, v, st, site)
    o = st.obj(d)
    if silent:
        items = [x for x in (o.m.get('items') or ())]
        for i, (kk, _) in enumerate(items):
            if value_eq(ip, kk, k, st) is True:
                items[i] = (kk, v)
                st.put(d, o.meta(items=tuple(items)))
                return [(True, NONE, st)]
        if not const(k)[0]:
            sk = strip_gen(ip, k)
            same = [x for x in items if x[0] != k and strip_gen(ip, x[0]) == sk]
            gen = o.m.get('gen', frozenset())
            gsame = [g for g in gen if strip_gen(ip, g[0]) == sk]
            if len(same) >= 2 or gsame:
                g2 = gen | {(x[0], x[1], frozenset()) for x in same} | {(k, v, frozenset())}
                st.put(d, o.meta(items=tuple(x for x in items if x not in same), gen=g2))
                return [(True, NONE, st)]
        st.put(d, o.meta(items=tuple(items) + ((k, v),)))
        mirror(ip, d, k, v, st)
        return [(True, NONE, st)]
    out = []
    st.tmp += (T(d, k, v),)
    for i, old, s in dict_find(ip, d, k, st, site):
        dd, kk, vv = s.tmp[-1][1]
        s.tmp = s.tmp[:-1]
        o = s.obj(dd)
        items = list(o.m.get('items') or ())
        if i is None:
            items.append((kk, vv))
            s.put(dd, o.meta(items=tuple(items)))
            if o.m.get('open') or o.m.get('gen'):
                s.facts[('in', kk, dd)] = True
                dict_changed(ip, dd, s)
        else:
            if not isinstance(i, int):
                i = len(items) - 1
            items[i] = (items[i][0], vv)
            s.put(dd, o.meta(items=tuple(items)))
        mirror(ip, dd, kk, vv, s)
        out.append((True, NONE, s))
    return out


def remove_at(ip, d, i, k, st):
    o = st.obj(d)
    items = list(o.m.get('items') or ())
    if not isinstance(i, int):
        i = len(items) - 1
    v = items[i]
    del items[i]
    st.put(d, o.meta(items=tuple(items)))
    if o.m.get('open') or o.m.get('gen'):
        st.facts[('in', k, d)] = False
        if v[0] != k:
            st.facts[('in', v[0], d)] = False
        dict_changed(ip, d, st)
    return v


def dict_get(ip, d, k, default, st, site, op='get', missing=None):
    """default None: KeyError"""
    ip.mon.dict_event(ip, op, d, k, None, st, site)
    out = []
    st.tmp += (T(d, k, default if default is not None else NONE),)
    for i, v, s in dict_find(ip, d, k, st, site):
        dd, kk, df = s.tmp[-1][1]
        s.tmp = s.tmp[:-1]
        if i is None:
            if default is None:
                o = s.obj(dd)
                r = ip.cls_lookup(o.cls, '__missing__', s) if isinstance(o.cls, tuple) else None
                if r:
                    out.extend(ip.call(('B', dd, r[0]), [kk], [], s, site))
                elif o.m.get('factory'):
                    for ok, nv, s2 in ip.call(o.m['factory'], [], [], s, site):
                        if ok:
                            dict_set(ip, dd, kk, nv, s2, site, silent=True)
                        out.append((ok, nv, s2))
                else:
                    out.append(ip.raise_('builtins.KeyError', s, site, (('key', kk), ('of', dd))))
            else:
                out.append((True, df, s))
        else:
            out.append((True, v, s))
    return out


def dict_pop(ip, d, args, st, site, op='pop'):
    args = list(args)
    k = args[0]
    ip.mon.dict_event(ip, op, d, k, None, st, site)
    out = []
    st.tmp += (T(d, *args),)
    for i, v, s in dict_find(ip, d, k, st, site):
        a = s.tmp[-1][1]
        s.tmp = s.tmp[:-1]
        if i is None:
            if len(a) > 2:
                out.append((True, a[2], s))
            else:
                out.append(ip.raise_('builtins.KeyError', s, site, (('key', a[1]), ('of', a[0]))))
        else:
            kk, v = remove_at(ip, a[0], i, a[1], s)
            out.append((True, NONE if op == 'del' else v, s))
    return out


def dict_content(ip, v, st):
    """(items, gen, open) of a mapping or an iterable of pairs"""
    if v[0] == 'O':
        o = st.obj(v)
        if o is not None and o.kind == 'dict':
            return o.m.get('items') or (), o.m.get('gen') or frozenset(), bool(o.m.get('open'))
        if o is not None and o.kind == 'list' and o.m.get('items') is not None:
            return pairs_of(o.m['items'])
    if v[0] == 'T':
        return pairs_of(v[1])
    if v[0] == 'S' and v[1] == 'view' and v[2][1] == 'items':
        return dict_content(ip, v[2][0], st)
    return None


def pairs_of(items):
    out = []
    for x in items:
        if x[0] != 'T' or len(x[1]) != 2:
            return None
        out.append(x[1])
    return tuple(out), frozenset(), False


def dict_merge(ip, d, src, st, site):
    """d.update(src) without overridden methods; in place"""
    c = dict_content(ip, src, st)
    if c is None and src[0] == 'S' and src[1] == 'lazy' and src[2][0] == 'zip':
        c = zip_pairs(ip, src, st, site)
    if c is None:
        if src == NONE:
            return
        o = st.obj(d)
        st.put(d, o.meta(open=True, src=src))
        dict_changed(ip, d, st)
        return
    items, gen, op = c
    for k, v in items:
        dict_set(ip, d, k, v, st, site, silent=True)
    o = st.obj(d)
    if gen:
        o = o.meta(gen=o.m.get('gen', frozenset()) | gen)
    if op:
        o = o.meta(open=True, src=st.obj(src).m.get('src', src) if src[0] == 'O' else src)
    if gen or op:
        st.put(d, o)
        dict_changed(ip, d, st)


def zip_pairs(ip, z, st, site):
    seqs = []
    for x in z[2][1]:
        sp = ip.iterate(x, st, site)
        if sp[0] != 'known':
            return None
        seqs.append(sp[1])
    return tuple(zip(*seqs)), frozenset(), False


def dict_new(ip, st, site, args, kws, cls='dict', label=None):
    """dict(*args, **kws) -> [(ok, ref, st)]"""
    d = ip.alloc(st, label or 'dict@' + site, HObj('dict', cls, {}, {'items': ()}))
    for a in args:
        if a[0] == '*':
            a = ('S', 'item', (a[1], ZERO), None, 0)
        if a[0] == 'K' and a[2] is not None and not a[2] == ():
            return [ip.raise_('builtins.TypeError', st, site)]
        if a[0] == 'GEN':
            st.put(d, st.obj(d).meta(open=True))
            continue
        if a[0] == 'S' and a[1] == 'lazy' and a[2][0] == 'zip' and zip_pairs(ip, a, st, site) is None:
            # element-wise
            prs = ip.elements(a, st.clone(), site)
            gen = frozenset((v[1][0], v[1][1], frozenset()) for v, _ in prs if v[0] == 'T' and len(v[1]) == 2)
            st.put(d, st.obj(d).meta(gen=gen, src=a))
            continue
        if a[0] == 'O' and st.obj(a) is not None and st.obj(a).kind == 'dict':
            ip.mon.dict_event(ip, 'iter', a, None, None, st, site)
        if a[0] == 'O' and st.obj(a) is not None and st.obj(a).kind == 'list' and (st.obj(a).m.get('gen') or st.obj(a).m.get('items') is None):
            lo = st.obj(a)
            gen = frozenset((x[1][0], x[1][1], frozenset()) for x, _ in (lo.m.get('gen') or ()) if x[0] == 'T' and len(x[1]) == 2)
            st.put(d, st.obj(d).meta(gen=gen, open=not gen))
            continue
        dict_merge(ip, d, a, st, site)
    for k, v in kws:
        if k is None:
            dict_merge(ip, d, v, st, site)
        else:
            dict_set(ip, d, K(k), v, st, site, silent=True)
    return [(True, d, st)]


# methods: (ip, ref, args, kws, st, site)

def m_dict_get(ip, d, args, kws, st, site):
    df = args[1] if len(args) > 1 else dict(kws).get('default', NONE)
    return dict_get(ip, d, args[0], df, st, site)


def m_dict_pop(ip, d, args, kws, st, site):
    return dict_pop(ip, d, args, st, site)


def m_dict_setdefault(ip, d, args, kws, st, site):
    v = args[1] if len(args) > 1 else NONE
    ip.mon.dict_event(ip, 'setdefault', d, args[0], v, st, site)
    out = []
    st.tmp += (T(d, args[0], v),)
    for i, old, s in dict_find(ip, d, args[0], st, site):
        dd, kk, vv = s.tmp[-1][1]
        s.tmp = s.tmp[:-1]
        if i is None:
            o = s.obj(dd)
            s.put(dd, o.meta(items=tuple(o.m.get('items') or ()) + ((kk, vv),)))
            if o.m.get('open') or o.m.get('gen'):
                s.facts[('in', kk, dd)] = True
                dict_changed(ip, dd, s)
            mirror(ip, dd, kk, vv, s)
            out.append((True, vv, s))
        else:
            out.append((True, old, s))
    return out


def m_dict_update(ip, d, args, kws, st, site):
    ip.mon.dict_event(ip, 'set', d, None, None, st, site)
    for a in args:
        dict_merge(ip, d, a, st, site)
        c = dict_content(ip, a, st)
        if c and st.obj(d).m.get('of') is not None:
            for k, v in c[0]:
                mirror(ip, d, k, v, st)
    for k, v in kws:
        if k is None:
            dict_merge(ip, d, v, st, site)
        else:
            dict_set(ip, d, K(k), v, st, site, silent=True)
    if st.obj(d).m.get('of') is not None:
        for k, v in st.obj(d).m.get('items') or ():
            mirror(ip, d, k, v, st)
    return [(True, NONE, st)]


def m_dict_view(what):
    def f(ip, d, args, kws, st, site):
        ip.mon.dict_event(ip, 'iter', d, None, None, st, site)
        return [(True, S('view', (d, what), None), st)]
    return f


def m_dict_clear(ip, d, args, kws, st, site):
    ip.mon.dict_event(ip, 'clear', d, None, None, st, site)
    o = st.obj(d)
    for k in [k for k in st.facts if k[0] == 'in' and k[-1] == d]:
        del st.facts[k]
    dict_changed(ip, d, st)
    m = {k: v for k, v in o.m.items() if k not in ('gen', 'open', 'src')}
    m['items'] = ()
    st.put(d, HObj(o.kind, o.cls, o.f, m))
    return [(True, NONE, st)]


def m_dict_copy(ip, d, args, kws, st, site):
    ip.mon.dict_event(ip, 'iter', d, None, None, st, site)
    o = st.obj(d)
    m = dict(o.m)
    m.pop('of', None)
    if o.m.get('open') and 'src' not in m:
        m['src'] = d
    r = ip.alloc(st, 'dict@' + site, HObj('dict', 'dict', {}, m))
    for k, v in list(st.facts.items()):
        if k[0] == 'in' and k[-1] == d:
            st.facts[(k[0], k[1], r)] = v
    return [(True, r, st)]


def m_dict_popitem(ip, d, args, kws, st, site):
    ip.mon.dict_event(ip, 'popitem', d, args[0] if args else dict(kws).get('last', TRUE), None, st, site)
    last = args[0] if args else dict(kws).get('last', TRUE)
    o = st.obj(d)
    items = list(o.m.get('items') or ())
    if not o.m.get('open') and not o.m.get('gen'):
        if not items:
            return [ip.raise_('builtins.KeyError', st, site)]
        i = -1 if last == TRUE else 0
        kv = items.pop(i)
        st.put(d, o.meta(items=tuple(items)))
        return [(True, T(*kv), st)]
    out = []
    n = S('len', (d,), 'int')
    for some, s in forks(ip, ip.pos_key({n: Fraction(1)}), st):
        if not some:
            out.append(ip.raise_('builtins.KeyError', s, site))
            continue
        alts = list(enumerate(s.obj(d).m.get('items') or ()))
        for i, (k, v) in alts:
            s2 = s.clone()
            o2 = s2.obj(d)
            it = list(o2.m['items'])
            del it[i]
            s2.put(d, o2.meta(items=tuple(it)))
            s2.facts[('in', k, d)] = False
            s2.tmp += (T(k, v),)
            dict_changed(ip, d, s2)
            r = s2.tmp[-1]
            s2.tmp = s2.tmp[:-1]
            out.append((True, r, s2))
        k = ip.fresh('popkey', (d,), o.m.get('kt'), site)
        v = S('item', (o.m.get('src', d), k), o.m.get('vt'))
        ip.register(v)
        s.facts[('in', k, d)] = False
        dict_changed(ip, d, s)
        out.append((True, T(k, v), s))
    return out


def m_dict_contains(ip, d, args, kws, st, site):
    ip.mon.dict_event(ip, 'in', d, args[0], None, st, site)
    return dict_in(ip, d, args[0], st, site)


def dict_in(ip, d, k, st, site):
    return [(True, K(i is not None), s) for i, v, s in dict_find(ip, d, k, st, site)]


def m_dict_move(ip, d, args, kws, st, site):
    ip.mon.dict_event(ip, 'move', d, args[0], None, st, site)
    last = args[1] if len(args) > 1 else dict(kws).get('last', TRUE)
    out = []
    for i, v, s in dict_find(ip, d, args[0], st, site):
        if i is None:
            out.append(ip.raise_('builtins.KeyError', s, site))
            continue
        o = s.obj(d)
        items = list(o.m.get('items') or ())
        if not isinstance(i, int):
            i = len(items) - 1
        kv = items.pop(i)
        if last == TRUE:
            items.append(kv)
        else:
            items.insert(0, kv)
        s.put(d, o.meta(items=tuple(items)))
        out.append((True, NONE, s))
    return out


def m_setitem(ip, d, args, kws, st, site):
    return dict_set(ip, d, args[0], args[1], st, site)


def m_getitem(ip, d, args, kws, st, site):
    return dict_get(ip, d, args[0], None, st, site)


# ---------------------------------------------------------------- lists and sets

def list_add(ip, l, v, st):
    o = st.obj(l)
    items = o.m.get('items')
    # may it be added to again and again: is it older than the iteration that is going on
    grows = bool(ip.loops) and l not in ip.created.get(ip.loops[-1], ())
    if grows and o.kind == 'list' and v[0] == 'S' and v[1] == 'sl':
        # pieces of one text, in their order: the list stands for the text they make up
        whole = o.m.get('cat') if items is None else items[0] if len(items) == 1 and not o.m.get('gen') else None
        if whole is not None:
            whole = cat([whole, v], typeof(v))
            if whole[0] == 'S' and whole[1] == 'sl':
                st.put(l, o.meta(items=None, gen=frozenset({(S('piece', (l,), typeof(v)), frozenset())}), cat=whole))
                ip.invalidate(st, S('len', (l,), 'int'))
                return
    if o.m.get('cat') is not None:
        o = o.meta(cat=None)
    if o.kind == 'set' and items is not None and any(value_eq(ip, x, v, st) is True for x in items):
        return
    if items is None or o.m.get('gen'):
        st.put(l, o.meta(gen=o.m.get('gen', frozenset()) | {(v, frozenset())}))
        ip.invalidate(st, S('len', (l,), 'int'))
        return
    if grows and len(items) >= 2 and not const(v)[0]:
        sv = strip_gen(ip, v)
        if items[-1] != v and strip_gen(ip, items[-1]) == sv and strip_gen(ip, items[-2]) == sv:
            st.put(l, o.meta(items=None, gen=frozenset((x, frozenset()) for x in items + (v,))))
            return
    st.put(l, o.meta(items=items + (v,)))


def uncat(st, l):
    o = st.obj(l)
    if o.m.get('cat') is not None:
        st.put(l, o.meta(cat=None))
        o = st.obj(l)
    return o


def new_list(ip, st, site, items, kind='list'):
    return ip.alloc(st, kind + '@' + site, HObj(kind, kind, {}, {'items': tuple(items)}))


def m_list_append(ip, l, args, kws, st, site):
    ip.mon.dict_event(ip, 'append', l, None, args[0], st, site)
    list_add(ip, l, args[0], st)
    return [(True, NONE, st)]


def m_list_extend(ip, l, args, kws, st, site):
    ip.mon.dict_event(ip, 'extend', l, None, args[0] if args else None, st, site)
    sp = ip.iterate(args[0], st, site)
    if sp[0] == 'raise':
        return [(False, sp[1], sp[2])]
    if sp[0] == 'known':
        for x in sp[1]:
            list_add(ip, l, x, st)
    else:
        o = uncat(st, l)
        st.put(l, o.meta(items=None, open=True, gen=o.m.get('gen', frozenset()) | frozenset((x, frozenset()) for x in o.m.get('items') or ())))
    return [(True, NONE, st)]


def m_list_pop(ip, l, args, kws, st, site):
    ip.mon.dict_event(ip, 'pop', l, args[0] if args else None, None, st, site)
    o = uncat(st, l)
    items = o.m.get('items')
    ok, i = const(args[0]) if args else (True, -1)
    if items is not None and not o.m.get('gen') and ok:
        if not items or not (-len(items) <= i < len(items)):
            return [ip.raise_('builtins.IndexError', st, site)]
        li = list(items)
        v = li.pop(i)
        st.put(l, o.meta(items=tuple(li)))
        return [(True, v, st)]
    s2 = st.clone()
    return [(True, ip.fresh('popped', (l,), o.m.get('vt'), site), st), ip.raise_('builtins.IndexError', s2, site)]


def m_list_insert(ip, l, args, kws, st, site):
    ip.mon.dict_event(ip, 'append', l, None, args[1], st, site)
    o = uncat(st, l)
    items = o.m.get('items')
    ok, i = const(args[0])
    if items is not None and ok:
        li = list(items)
        li.insert(i, args[1])
        st.put(l, o.meta(items=tuple(li)))
    else:
        list_add(ip, l, args[1], st)
    return [(True, NONE, st)]


def m_list_clear(ip, l, args, kws, st, site):
    ip.mon.dict_event(ip, 'clear', l, None, None, st, site)
    o = uncat(st, l)
    m = {k: v for k, v in o.m.items() if k not in ('gen', 'open')}
    m['items'] = ()
    st.put(l, HObj(o.kind, o.cls, o.f, m))
    return [(True, NONE, st)]


def m_list_copy(ip, l, args, kws, st, site):
    return [(True, ip.alloc(st, 'list@' + site, HObj(st.obj(l).kind, st.obj(l).kind, {}, dict(st.obj(l).m))), st)]


def m_list_remove(ip, l, args, kws, st, site):
    ip.mon.dict_event(ip, 'remove', l, args[0], None, st, site)
    o = uncat(st, l)
    items = o.m.get('items')
    if items is not None and not o.m.get('gen') and not o.m.get('open'):
        for i, x in enumerate(items):
            r = value_eq(ip, x, args[0], st)
            if r is True:
                st.put(l, o.meta(items=items[:i] + items[i + 1:]))
                return [(True, NONE, st)]
            if r is not False:
                break
        else:
            return [ip.raise_('builtins.KeyError' if o.kind == 'set' else 'builtins.ValueError', st, site)]
    s2 = st.clone()
    st.put(l, o.meta(items=None, gen=frozenset((x, frozenset()) for x in items or ()) | o.m.get('gen', frozenset()), open=True))
    return [(True, NONE, st), ip.raise_('builtins.KeyError' if o.kind == 'set' else 'builtins.ValueError', s2, site)]


def m_set_discard(ip, l, args, kws, st, site):
    return [(True, NONE, s) for ok, v, s in m_list_remove(ip, l, args, kws, st, site)]


def m_list_reverse(ip, l, args, kws, st, site):
    o = uncat(st, l)
    if o.m.get('items') is not None:
        st.put(l, o.meta(items=o.m['items'][::-1]))
    return [(True, NONE, st)]


def m_list_noop(ip, l, args, kws, st, site):
    uncat(st, l)
    return [(True, NONE, st)]


CONTAINER = {
    ('dict', 'get'): m_dict_get, ('dict', 'pop'): m_dict_pop, ('dict', 'setdefault'): m_dict_setdefault,
    ('dict', 'update'): m_dict_update, ('dict', 'items'): m_dict_view('items'), ('dict', 'keys'): m_dict_view('keys'),
    ('dict', 'values'): m_dict_view('values'), ('dict', 'clear'): m_dict_clear, ('dict', 'copy'): m_dict_copy,
    ('dict', 'popitem'): m_dict_popitem, ('dict', '__contains__'): m_dict_contains, ('dict', 'move_to_end'): m_dict_move,
    ('dict', '__setitem__'): m_setitem, ('dict', '__getitem__'): m_getitem,
    ('dict', '__delitem__'): lambda ip, d, a, k, st, site: dict_pop(ip, d, a, st, site, 'del'),
    ('list', 'append'): m_list_append, ('list', 'extend'): m_list_extend, ('list', 'pop'): m_list_pop,
    ('list', 'insert'): m_list_insert, ('list', 'clear'): m_list_clear, ('list', 'copy'): m_list_copy,
    ('list', 'remove'): m_list_remove, ('list', 'reverse'): m_list_reverse, ('list', 'sort'): m_list_noop,
    ('set', 'add'): m_list_append, ('set', 'discard'): m_set_discard, ('set', 'remove'): m_list_remove,
    ('set', 'clear'): m_list_clear, ('set', 'copy'): m_list_copy, ('set', 'update'): m_list_extend,
    ('set', 'pop'): m_list_pop,
}


def inst_dict(ip, o, st, site):
    obj = st.obj(o)
    items = tuple((K(k), v) for k, v in obj.f.items()) + tuple(obj.m.get('dyn', ()))
    m = {'items': items, 'of': o}
    return ip.alloc(st, 'dict@' + site, HObj('dict', 'dict', {}, m))


# ---------------------------------------------------------------- items

def getitem(ip, o, k, st, site):
    t = o[0]
    if t == 'O':
        obj = st.obj(o)
        if obj is None:
            return [(True, S('item', (o, k), None), st)]
        if isinstance(obj.cls, tuple) and obj.kind != 'ext':
            r = ip.cls_lookup(obj.cls, '__getitem__', st)
            if r:
                return ip.call(('B', o, r[0]), [k], [], st, site)
        if obj.kind == 'class':
            if obj.m.get('enum'):
                if is_k(k, str):
                    if k[2] in obj.f:
                        return [(True, obj.f[k[2]], st)]
                    return [ip.raise_('builtins.KeyError', st, site)]
                s2 = st.clone()
                return [(True, S('enumname', (o, k), None), st), ip.raise_('builtins.KeyError', s2, site)]
            return [(True, o, st)]
        if obj.kind == 'dict':
            return dict_get(ip, o, k, None, st, site)
        if obj.kind in ('list', 'set'):
            items = obj.m.get('items')
            closed = items is not None and not obj.m.get('open') and not obj.m.get('gen')
            if k[0] == 'SLICE':
                if closed and all(x == NONE or is_k(x, int) for x in k[1:]):
                    return [(True, new_list(ip, st, site, items[slice(*[x[2] for x in k[1:]])]), st)]
                m = {'items': None, 'gen': obj.m.get('gen', frozenset()) | frozenset((x, frozenset()) for x in items or ()), 'open': bool(obj.m.get('open')),
                     'sliceof': T(o, *k[1:])}
                return [(True, ip.alloc(st, 'list@' + site, HObj('list', 'list', {}, m)), st)]
            ok, i = const(k)
            if closed and ok and isinstance(i, int):
                if -len(items) <= i < len(items):
                    return [(True, items[i], st)]
                return [ip.raise_('builtins.IndexError', st, site)]
            if ok and not isinstance(i, int):
                return [ip.raise_('builtins.TypeError', st, site)]
            out = []
            n = ip.length_of(o, st)
            need = lin_add(n, {None: Fraction(-(i if i >= 0 else -i - 1))}) if ok else None
            for some, s in (forks(ip, ip.pos_key(need), st) if need is not None else [(True, st), (False, st.clone())]):
                if not some:
                    out.append(ip.raise_('builtins.IndexError', s, site))
                    continue
                alts = sorted({x for x, _ in (obj.m.get('gen') or ())} | set(items or ()), key=repr)
                if obj.m.get('open') or not alts:
                    alts = alts + [S('item', (o, k), obj.m.get('vt'))]
                for j, a in enumerate(alts):
                    out.append((True, a, s if j == len(alts) - 1 else s.clone()))
            return out
        if obj.kind == 'inst' and obj.m.get('nt'):
            return getitem(ip, T(*[obj.f[n] for n in obj.m['nt']]), k, st, site)
        if obj.kind == 'inst':
            return [ip.raise_('builtins.TypeError', st, site)]
        if obj.kind == 'ext' and '.v' in obj.f:
            return getitem(ip, obj.f['.v'], k, st, site)
        return ip.ext_method(o, '__getitem__', [k], [], st, site)
    if t == 'T':
        if k[0] == 'SLICE':
            if all(x == NONE or is_k(x, int) for x in k[1:]):
                return [(True, T(*o[1][slice(*[x[2] for x in k[1:]])]), st)]
            return [(True, S('slice', (o,) + k[1:], 'tuple'), st)]
        ok, i = const(k)
        if ok and isinstance(i, int):
            if -len(o[1]) <= i < len(o[1]):
                return [(True, o[1][i], st)]
            return [ip.raise_('builtins.IndexError', st, site)]
        return [(True, S('item', (o, k), None), st)]
    if is_text(o):
        if k[0] == 'SLICE':
            return slice_text(ip, o, k[1], k[2], k[3], st, site)
        ok, i = const(k)
        if o[0] == 'K' and ok and isinstance(i, int):
            try:
                return [(True, K(o[2][i]), st)]
            except IndexError:
                return [ip.raise_('builtins.IndexError', st, site)]
        out = []
        n = ip.length_of(o, st)
        kl = lin_of(k)
        if kl is None:
            return [ip.raise_('builtins.TypeError', st, site)]
        kc = lin_const(kl)
        off = kl if kc is None or kc >= 0 else lin_add(n, kl)
        for some, s in forks(ip, ip.pos_key(lin_add(n, off, -1) if kc is None or kc >= 0 else lin_add(off, {None: Fraction(1)})), st):
            if not some:
                out.append(ip.raise_('builtins.IndexError', s, site))
            else:
                from .m_bytes import read_num
                if typeof(o) == 'bytes':
                    out.append((True, read_num(ip, o, off, ('int', '>', 'B', ONE), s), s))
                else:
                    out.append((True, cut_or_slice(ip, o, off, {None: Fraction(1)}, s), s))
        return out
    if t == 'K':
        return [ip.raise_('builtins.TypeError', st, site)]
    if t == 'X':
        return [(True, o, st)]      # typing generics
    if t == 'S':
        if o[1] == 'split' and k[0] != 'SLICE':
            # at least one part always; the second exists if the separator occurs
            ok, i = const(k)
            if ok and i == 0:
                return [(True, S('item', (o, k), 'str'), st)]
            out = []
            if ok and i == 1:
                key = ('in', o[2][1], o[2][0])
                for b, s in forks(ip, (key, True), st):
                    out.append((True, S('item', (o, k), 'str'), s) if b else ip.raise_('builtins.IndexError', s, site))
                return out
        if k[0] == 'SLICE':
            if typeof(o) is None:
                return [(True, S('slice', (o,) + k[1:], None), st)]
            return [(True, S('slice', (o,) + k[1:], typeof(o)), st)]
        return ip.ext_method(o, '__getitem__', [k], [], st, site)
    return [(True, S('item', (o, k), None), st)]


# ---------------------------------------------------------------- operators

PYOPS = {'Add': operator.add, 'Sub': operator.sub, 'Mult': operator.mul, 'Div': operator.truediv,
         'FloorDiv': operator.floordiv, 'Mod': operator.mod, 'BitAnd': operator.and_, 'BitOr': operator.or_,
         'BitXor': operator.xor, 'LShift': operator.lshift, 'RShift': operator.rshift, 'Pow': operator.pow}
DUNDER = {'Add': 'add', 'Sub': 'sub', 'Mult': 'mul', 'Mod': 'mod', 'BitAnd': 'and', 'BitOr': 'or', 'Div': 'truediv'}


def binop(ip, name, a, b, st, site, inplace=False):
    ra, rb = a, b
    for v, other, pre in ((a, b, ''), (b, a, 'r')):
        if v[0] == 'O':
            o = st.obj(v)
            if o is not None and isinstance(o.cls, tuple) and o.kind == 'inst' and name in DUNDER:
                r = ip.cls_lookup(o.cls, '__%s%s__' % (pre, DUNDER[name]), st)
                if r:
                    return ip.call(('B', v, r[0]), [other], [], st, site)
    if a[0] == 'O' and st.obj(a) is not None:
        o = st.obj(a)
        if o.kind == 'list' and name == 'Add':
            sp = ip.iterate(b, st, site)
            if inplace:
                rs = m_list_extend(ip, a, [b], [], st, site)
                return [(ok, a if ok else v, s) for ok, v, s in rs]
            if o.m.get('items') is not None and sp[0] == 'known':
                return [(True, new_list(ip, st, site, tuple(o.m['items']) + tuple(sp[1])), st)]
            return [(True, ip.alloc(st, 'list@' + site, HObj('list', 'list', {}, {'items': None, 'open': True})), st)]
        if o.kind == 'ext' and o.cls[1] == 'bytearray' and name == 'Add':
            v = cat([o.f['.v'], content(b, st)], 'bytes')
            if inplace:
                st.put(a, o.set('.v', v))
                return [(True, a, st)]
            return [(True, v, st)]
        if o.kind == 'dict' and name == 'BitOr':
            rs = m_dict_copy(ip, a, [], [], st, site) if not inplace else [(True, a, st)]
            for ok, d, s in rs:
                dict_merge(ip, d, b, s, site)
            return rs
        if o.kind == 'list' and name == 'Mult':
            ok, n = const(b)
            if ok and isinstance(n, int) and o.m.get('items') is not None and n * len(o.m['items']) < 64:
                return [(True, new_list(ip, st, site, o.m['items'] * n), st)]
            return [(True, ip.alloc(st, 'list@' + site, HObj('list', 'list', {}, {'items': None, 'open': True})), st)]
    a, b = content(a, st), content(b, st)
    ka, va = const(a)
    kb, vb = const(b)
    if ka and kb and not (a[0] == 'T' or b[0] == 'T'):
        if name == 'Mod' and isinstance(va, (str, bytes)):
            return percent(ip, a, b, st, site)
        try:
            if name == 'Pow' and abs(vb) > 64 or name == 'LShift' and vb > 256:
                return [(True, S('op', (name, a, b), 'int'), st)]
            return [(True, K(PYOPS[name](va, vb)), st)]
        except ZeroDivisionError:
            return [ip.raise_('builtins.ZeroDivisionError', st, site)]
        except KeyError:
            return [(True, S('op', (name, a, b), None), st)]
        except Exception:
            return [ip.raise_('builtins.TypeError', st, site)]
    if a == NONE or b == NONE:
        return [ip.raise_('builtins.TypeError', st, site)]
    ta, tb = typeof(a), typeof(b)
    if name == 'Mod' and ta in ('str', 'bytes'):
        return percent(ip, a, b, st, site)
    if name == 'Add':
        if ta == 'tuple' and tb == 'tuple' and a[0] == 'T' and b[0] == 'T':
            return [(True, T(*(a[1] + b[1])), st)]
        if ta in ('str', 'bytes') or tb in ('str', 'bytes'):
            if ta and tb and ta != tb:
                return [ip.raise_('builtins.TypeError', st, site)]
            return [(True, cat([a, b], ta or tb), st)]
    if name == 'Mult' and (ta in ('str', 'bytes') or tb in ('str', 'bytes')):
        return [(True, S('repeat', (a, b), ta if ta in ('str', 'bytes') else tb), st)]
    la, lb = lin_of(a), lin_of(b)
    typ = 'float' if name == 'Div' or 'float' in (ta, tb) else 'int' if ta in ('int', 'bool') and tb in ('int', 'bool') or \
        {ta, tb} <= {'int', 'bool', None} and (a[0] in ('E',) or b[0] in ('E',)) else None
    if typ is None and (ta in ('int', 'bool') or a[0] == 'E' or (a[0] == 'S' and a[1] == 'enum')) and \
            (tb in ('int', 'bool') or b[0] == 'E' or (b[0] == 'S' and b[1] == 'enum')):
        typ = 'int'
    if la is not None and lb is not None and ta not in ('str', 'bytes', 'tuple') and tb not in ('str', 'bytes', 'tuple'):
        if name == 'Add':
            return [(True, lin_val(lin_add(la, lb), typ), st)]
        if name == 'Sub':
            return [(True, lin_val(lin_add(la, lb, -1), typ), st)]
        if name == 'Mult':
            ca, cb = lin_const(la), lin_const(lb)
            if cb is not None:
                return [(True, lin_val(lin_scale(la, cb), typ), st)]
            if ca is not None:
                return [(True, lin_val(lin_scale(lb, ca), typ), st)]
        if name == 'Div' and lin_const(lb):
            v = lin_val(lin_scale(la, 1 / lin_const(lb)), 'float')
            return [(True, v, st)]
    if name in ('Div', 'FloorDiv', 'Mod') and lb is not None and lin_const(lb) == 0:
        return [ip.raise_('builtins.ZeroDivisionError', st, site)]
    if ta in ('str', 'bytes', 'tuple', 'function') or tb in ('str', 'bytes', 'tuple', 'function'):
        if ta and tb:
            return [ip.raise_('builtins.TypeError', st, site)]
    return [(True, S('op', (name, a, b), typ), st)]


def compare(ip, name, a, b, st, site):
    if name in ('Is', 'IsNot'):
        r = identity(ip, a, b, st)
        if name == 'IsNot':
            r = (not r) if r in (True, False) else (r[0], not r[1])
        return [(True, ip.boolval(r), st)]
    if name in ('In', 'NotIn'):
        out = []
        for ok, v, s in contains(ip, a, b, st, site):
            if ok and name == 'NotIn':
                v = K(not v[2]) if v[0] == 'K' else v[2][0] if v[1] == 'not' else S('not', (v,), 'bool')
            out.append((ok, v, s))
        return out
    if name in ('Eq', 'NotEq'):
        for v, other in ((a, b), (b, a)):
            if v[0] == 'O':
                o = st.obj(v)
                if o is not None and isinstance(o.cls, tuple) and o.kind == 'inst' and not o.m.get('nt'):
                    r = ip.cls_lookup(o.cls, '__eq__', st)
                    if r and r[0][0] == 'F':
                        out = []
                        for ok, x, s in ip.call(('B', v, r[0]), [other], [], st, site):
                            if ok and name == 'NotEq':
                                for t, s2 in ip.test(x, s):
                                    out.append((True, K(not t), s2))
                            else:
                                out.append((ok, x, s))
                        return out
        r = value_eq(ip, a, b, st)
        if name == 'NotEq':
            r = (not r) if r in (True, False) else (r[0], not r[1])
        return [(True, ip.boolval(r), st)]
    a, b = content(a, st), content(b, st)
    ka, va = const(a)
    kb, vb = const(b)
    if ka and kb:
        try:
            return [(True, K({'Lt': operator.lt, 'LtE': operator.le, 'Gt': operator.gt, 'GtE': operator.ge}[name](va, vb)), st)]
        except TypeError:
            return [ip.raise_('builtins.TypeError', st, site)]
    if a == NONE or b == NONE:
        return [ip.raise_('builtins.TypeError', st, site)]
    ta, tb = typeof(a), typeof(b)
    la, lb = lin_of(a), lin_of(b)
    if la is None or lb is None or ta in ('str', 'bytes', 'tuple') or tb in ('str', 'bytes', 'tuple'):
        if ta and tb and ta != tb and {ta, tb} & {'str', 'bytes', 'tuple'} and not {ta, tb} <= {'bytes', 'bytearray'}:
            return [ip.raise_('builtins.TypeError', st, site)]
        return [(True, ip.fact((name, a, b)), st)]
    if name == 'Gt':
        r = ip.pos_key(lin_add(la, lb, -1))
    elif name == 'Lt':
        r = ip.pos_key(lin_add(lb, la, -1))
    elif name == 'GtE':
        r = neg(ip.pos_key(lin_add(lb, la, -1)))
    else:
        r = neg(ip.pos_key(lin_add(la, lb, -1)))
    return [(True, ip.boolval(r), st)]


def neg(r):
    return (not r) if r in (True, False) else (r[0], not r[1])


def identity(ip, a, b, st):
    if b == NONE or a == NONE:
        v = a if b == NONE else b
        if v == NONE:
            return True
        if v[0] != 'S':
            return False
        if v[3] is not None and v[3] != 'object?':
            return False
        return ('isnone', v), True
    if a == b:
        return True if not ip.has_old(a) else (('eq', a, b), True)
    for x, y in ((a, b), (b, a)):
        if x in (TRUE, FALSE):
            if y[0] == 'K':
                return y == x
            if y[0] != 'S':
                return False
            if typeof(y) == 'bool':
                r = ip.cond_key(y, st)
                if x == FALSE:
                    r = neg(r)
                return r
            if typeof(y) is not None:
                return False
            return ('is', y, x), True
    for x, y in ((a, b), (b, a)):
        if x[0] in ('O', 'E', 'F') and y[0] == 'S' and y[3] == 'value':
            return False     # an outside value is no object of the program
    if a[0] in ('O', 'E', 'F') and b[0] in ('O', 'E', 'F', 'K', 'T'):
        if a[0] == 'O' and b[0] == 'O' and a[1][2:] == (1,) and b[1][2:] == (1,):
            return ('eq', a, b), True
        return False
    if a[0] == 'X' and b[0] == 'X':
        return False
    if a[0] == 'K' and b[0] == 'K':
        return a == b
    return ('is',) + tuple(sorted((a, b), key=repr)), True


def contains(ip, k, c, st, site):
    if c[0] == 'O':
        o = st.obj(c)
        if o is not None:
            if isinstance(o.cls, tuple) and o.kind != 'ext':
                r = ip.cls_lookup(o.cls, '__contains__', st)
                if r:
                    return ip.call(('B', c, r[0]), [k], [], st, site)
            if o.kind == 'inst' and isinstance(o.cls, tuple) and any(
                    b[0] == 'X' and b[1].rsplit('.', 1)[-1] in ('Mapping', 'MutableMapping') for b in ip.mro(o.cls, st)):
                return ip.bind(ip.getattr_(c, '__contains__', st, site), lambda f, s: ip.call(f, [k], [], s, site))
            if o.kind == 'dict':
                ip.mon.dict_event(ip, 'in', c, k, None, st, site)
                return dict_in(ip, c, k, st, site)
            if o.kind in ('list', 'set'):
                ip.mon.dict_event(ip, 'in', c, k, None, st, site)
                if o.m.get('items') is not None and not o.m.get('gen') and not o.m.get('open'):
                    return any_eq(ip, k, o.m['items'], st)
                return [(True, ip.fact(('in', k, c)), st)]
            if o.kind == 'class' and o.m.get('enum'):
                return any_eq(ip, k, [o.f[n] for n in o.m['members']], st)
            if o.kind == 'ext' and '.v' in o.f:
                return contains(ip, k, o.f['.v'], st, site)
            if o.kind == 'inst' and ip.cls_lookup(o.cls, '__getitem__', st) is None and ip.cls_lookup(o.cls, '__iter__', st) is None:
                return [ip.raise_('builtins.TypeError', st, site)]
    if c[0] == 'T':
        return any_eq(ip, k, c[1], st)
    if c[0] == 'S' and c[1] == 'view':
        d = c[2][0]
        if c[2][1] == 'keys':
            return contains(ip, k, d, st, site)
        o = st.obj(d)
        if o is not None and not o.m.get('open') and not o.m.get('gen'):
            vals = [ip.view_elem(c[2][1], kk, vv) for kk, vv in o.m['items']]
            return any_eq(ip, k, vals, st)
        return [(True, ip.fact(('in', k, c)), st)]
    if c[0] == 'K':
        if k[0] == 'K':
            try:
                return [(True, K(k[2] in c[2]), st)]
            except TypeError:
                return [ip.raise_('builtins.TypeError', st, site)]
        if not isinstance(c[2], (str, bytes, range)):
            return [ip.raise_('builtins.TypeError', st, site)]
    if is_text(c) and is_k(k, str, bytes) and c[0] == 'S' and c[1] == 'cat':
        if any(p[0] == 'K' and k[2] in p[2] for p in c[2]):
            return [(True, TRUE, st)]
    return [(True, ip.fact(('in', k, c)), st)]


def any_eq(ip, k, vals, st):
    out, cur = [], [st]
    for v in vals:
        nxt = []
        for s in cur:
            for b, s2 in forks(ip, value_eq(ip, v, k, s), s):
                if b:
                    out.append((True, TRUE, s2))
                else:
                    nxt.append(s2)
        cur = nxt
    return out + [(True, FALSE, s) for s in cur]
