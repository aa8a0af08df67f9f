"""C01-C05: the frame codec."""
from .base import *

REQ_FIELDS = (('proto', 1), ('ptype', 1), ('cmdcode', 2), ('ver2', 1), ('request_id', 4), ('codec', 1), ('timeout', 4),
              ('class_len', 2), ('header_len', 2), ('content_len', 4))
RESP_FIELDS = (('proto', 1), ('ptype', 1), ('cmdcode', 2), ('ver2', 1), ('request_id', 4), ('codec', 1), ('respstatus', 2),
               ('class_len', 2), ('header_len', 2), ('content_len', 4))

TEXT = '''
from anthunder.protocol import BoltRequest, BoltResponse, SofaHeader
from anthunder.protocol.constants import PROTO, PTYPE, CMDCODE, VER2, CODEC, RESPSTATUS
from anthunder.protocol.exceptions import DecodeError, EncodeError
from anthunder.command.heartbeat import HeartbeatRequest, HeartbeatResponse
from anthunder.command.fail_response import FailResponse
from anthunder.exceptions import PyboltError

def request(k, v, k2, v2, content, proto, ptype, cmdcode, ver2, rid, codec, timeout):
    return BoltRequest(SofaHeader({k: v, k2: v2}), content, proto=proto, ptype=ptype, cmdcode=cmdcode, ver2=ver2,
                       request_id=rid, codec=codec, timeout=timeout)
def request1(k, v, content, proto, ptype, cmdcode, ver2, rid, codec, timeout):
    return BoltRequest(SofaHeader({k: v}), content, proto=proto, ptype=ptype, cmdcode=cmdcode, ver2=ver2,
                       request_id=rid, codec=codec, timeout=timeout)
def response1(k, v, content, proto, ptype, cmdcode, ver2, rid, codec, status):
    return BoltResponse(SofaHeader({k: v}), content, proto=proto, ptype=ptype, cmdcode=cmdcode, ver2=ver2,
                        request_id=rid, codec=codec, respstatus=status)
def response0(content, ptype, cmdcode, rid, status):
    return BoltResponse(SofaHeader(), content, ptype=ptype, cmdcode=cmdcode, request_id=rid, respstatus=status)
def new_request(content, timeout):
    return BoltRequest.new_request(SofaHeader(), content, timeout_ms=timeout)
def new_oneway(content, timeout):
    return BoltRequest.new_request(SofaHeader(), content, ptype=PTYPE.ONEWAY, timeout_ms=timeout)
def resp_to(content, rid):
    return BoltResponse.response_to(content, rid)
def resp_kw(content, rid):
    return BoltResponse.response_to(content, request_id=rid)
def fail_to(rid, status):
    return FailResponse.response_to(rid, status)
def hb():
    return HeartbeatRequest.new_request()
def hbr(rid):
    return HeartbeatResponse.response_to(rid)
def stream(p):
    return p.to_stream()
def decode_request(s):
    return BoltRequest.from_stream(s)
def decode_response(s):
    return BoltResponse.from_stream(s)
def parts_request(s):
    n = BoltRequest.bolt_header_size()
    h = BoltRequest.bolt_header_from_stream(s[:n])
    return BoltRequest.bolt_content_from_stream(s[n:], h)
def parts_response(s):
    n = BoltResponse.bolt_header_size()
    h = BoltResponse.bolt_header_from_stream(s[:n])
    return BoltResponse.bolt_content_from_stream(s[n:], h)
def head_request(s):
    return BoltRequest.bolt_header_from_stream(s)
def head_response(s):
    return BoltResponse.bolt_header_from_stream(s)
def body_request(s, t):
    return BoltRequest.bolt_content_from_stream(t, BoltRequest.bolt_header_from_stream(s))
def body_response(s, t):
    return BoltResponse.bolt_content_from_stream(t, BoltResponse.bolt_header_from_stream(s))
def header_from(b):
    return SofaHeader.from_bytes(b)
def header_to(k, v, k2, v2):
    return SofaHeader({k: v, k2: v2}).to_bytes()
def header_to1(k, v):
    return SofaHeader({k: v}).to_bytes()
def header_to0():
    return SofaHeader().to_bytes()
def header_both(k, v):
    return SofaHeader.from_bytes(SofaHeader({k: v}).to_bytes())
def bad_content(c):
    return BoltRequest(SofaHeader(), c, ptype=PTYPE.REQUEST, cmdcode=CMDCODE.REQUEST, request_id=1).to_stream()
def bad_rid(r):
    return BoltRequest(SofaHeader(), b'', ptype=PTYPE.REQUEST, cmdcode=CMDCODE.REQUEST, request_id=r).to_stream()
'''
FULL = dict(content='bytes', proto='int', ptype='int', cmdcode='int', ver2='int', rid='int', codec='int')


def codec(mon=None):
    return Scenario('codec', TEXT, mon or Keep())


def anchor(sc, name):
    return name


def frame_outcomes(sc, fn, **kw):
    """(frame, bytes, state) and failures of building and encoding a frame"""
    built = sc.run(fn, **kw)
    good, bad = [], []
    for ok, v, s in built:
        if not ok:
            bad.append((v, s))
            continue
        s.tmp += (v,)
        ns = sc.module()
        for ok2, b, s2 in sc.ip.call_fn(ns['stream'], [v], [], s, '<rule>'):
            if ok2:
                good.append((v, b, s2))
            else:
                bad.append((b, s2))
    return good, bad


def expect_layout(r, sc, st, b, fields, values, cls, header, content, where, text):
    ip = sc.ip
    c = Cursor(ip, b, st)
    hp = []
    for alt in header:
        hp.append(header_parts(alt, ip, st))
    vals = dict(values)
    vals['class_len'] = K(len(cls))
    vals['header_len'] = length(ip, hp[0], st)
    vals['content_len'] = lin_val(ip.length_of(content, st))
    for name, size in fields:
        if not r.check(c.field(size, vals[name]), '%s: field %s' % (text, name), where,
                       '%s field %s (%d bytes): %s' % (text, name, size, c.err), st):
            return
    if not r.check(c.bytes_([K(cls)]), '%s: class name' % text, where, '%s class name section: %s' % (text, c.err), st):
        return
    ok = False
    for h in hp:
        c2 = Cursor(ip, b, st)
        c2.parts = list(c.parts)
        if c2.bytes_(h) and c2.bytes_([content]) and c2.end():
            ok = True
            break
    r.check(ok, '%s: header and content sections' % text, where, '%s header/content sections: %s' % (text, c2.err), st)


def sv(**kw):
    return {k: sym(k, t) for k, t in kw.items()}


def c01(r, tier):
    sc = codec()
    k, v, k2, v2, content, rid = (sym(n, t) for n, t in (('k', 'str'), ('v', 'str'), ('k2', 'str'), ('v2', 'str'),
                                                         ('content', 'bytes'), ('rid', 'int')))
    I = lambda n: sym(n, 'int')
    base = {'proto': I('proto'), 'ptype': I('ptype'), 'cmdcode': I('cmdcode'), 'ver2': I('ver2'), 'request_id': rid, 'codec': I('codec')}
    const_ = {'proto': K(1), 'ver2': K(1), 'codec': K(11)}
    jobs = [
        ('request1', dict(FULL, k='str', v='str', timeout='int'), REQ_FIELDS, dict(base, timeout=I('timeout')), REQUEST_CLASS, [[(k, v)]], content, 'request'),
        ('response1', dict(FULL, k='str', v='str', status='int'), RESP_FIELDS, dict(base, respstatus=I('status')), RESPONSE_CLASS, [[(k, v)]], content, 'response'),
        ('response0', dict(content='bytes', ptype='int', cmdcode='int', rid='int', status='int'), RESP_FIELDS,
         dict(const_, ptype=I('ptype'), cmdcode=I('cmdcode'), request_id=rid, respstatus=I('status')), RESPONSE_CLASS, [[]], content, 'response without header'),
        ('resp_to', dict(content='bytes', rid='int'), RESP_FIELDS, dict(const_, ptype=K(0), cmdcode=K(2), request_id=rid, respstatus=K(0)),
         RESPONSE_CLASS, [[]], content, 'response_to'),
        ('resp_kw', dict(content='bytes', rid='int'), RESP_FIELDS, dict(const_, ptype=K(0), cmdcode=K(2), request_id=rid, respstatus=K(0)),
         RESPONSE_CLASS, [[]], content, 'response_to by keyword'),
        ('fail_to', dict(rid='int', status='int'), RESP_FIELDS, dict(const_, ptype=K(0), cmdcode=K(2), request_id=rid, respstatus=I('status')),
         RESPONSE_CLASS, [[]], K(b''), 'failure response'),
        ('hb', {}, REQ_FIELDS, dict(const_, ptype=K(1), cmdcode=K(0), timeout=None), b'', [[]], K(b''), 'heartbeat'),
        ('hbr', dict(rid='int'), RESP_FIELDS, dict(const_, ptype=K(0), cmdcode=K(0), request_id=rid, respstatus=K(0)), b'', [[]], K(b''), 'heartbeat reply'),
        ('new_request', dict(content='bytes', timeout='int'), REQ_FIELDS, dict(const_, ptype=K(1), cmdcode=K(1), timeout=None), REQUEST_CLASS, [[]], content, 'new_request'),
        ('new_oneway', dict(content='bytes', timeout='int'), REQ_FIELDS, dict(const_, ptype=K(2), cmdcode=K(1), timeout=None), REQUEST_CLASS, [[]], content, 'new_request one-way'),
        ('request', dict(FULL, k='str', v='str', k2='str', v2='str', timeout='int'), REQ_FIELDS, dict(base, timeout=I('timeout')), REQUEST_CLASS,
         [[(k, v), (k2, v2)], [(k2, v2), (k, v)]], content, 'request with two entries'),
    ]
    for fn, kw, fields, values, cls, header, cont, text in jobs:
        good, bad = frame_outcomes(sc, fn, **kw)
        r.ran(sc, text, len(good) + len(bad))
        where = 'to_stream of the %s frame' % text
        r.check(bool(good), '%s frames can be encoded' % text, where, 'no %s frame is ever encoded' % text, bad[0][1] if bad else None)
        for f, b, st in good:
            vals = dict(values)
            # values the frame chose itself are read from the frame
            for n in ('request_id', 'timeout'):
                if any(x[0] == n for x in fields) and vals.get(n) is None:
                    vals[n] = attr_of(sc.ip, f, n, st)
                    if vals[n] is None:
                        r.fail('attribute of the frame', where, 'attribute %s is not available' % n, st)
                        vals[n] = K(0)
            hdr = header
            if fn == 'request':
                # equal keys: one entry
                hd = attr_of(sc.ip, f, 'header', st)
                o = st.obj(hd) if hd and hd[0] == 'O' else None
                if o is not None and len(o.m.get('items') or ()) == 1:
                    hdr = [[(k, v2)], [(k2, v2)]]
            expect_layout(r, sc, st, b, fields, vals, cls, hdr, cont, where, text)
        if good:
            r.samples.append('%s: %s' % (text, show(good[0][1], 3)[:300]))
    # what can not be represented is refused
    for fn, arg, types in (('bad_content', 'c', ('str', 'int')), ('bad_rid', 'r', ('str', 'bytes'))):
        for t in types:
            rs = sc.run(fn, **{arg: t})
            r.ran(sc, '%s %s' % (fn, t), len(rs))
            r.check(not any(ok for ok, _, _ in rs), 'a frame with a %s of type %s is refused' % (fn[4:], t), 'to_stream',
                    'a frame whose %s is a %s is encoded' % (fn[4:], t), next((s for ok, _, s in rs if ok), None))
    for name, dotted in (('rid', 'request_id'),):
        for val in (1 << 31, -(1 << 31) - 1):
            good, bad = frame_outcomes(sc, 'resp_to', content='bytes', rid=K(val))
            r.check(not good, 'request id %s 32 bits is refused' % ('above' if val > 0 else 'below'), 'to_stream', 'request id %d is encoded' % val,
                    good[0][2] if good else None)
    r.assumptions.append('errors other than the library\'s own (UnicodeEncodeError, AssertionError) also count as a refusal')


ATTRS_REQ = (('proto', 'proto'), ('ptype', 'ptype'), ('cmdcode', 'cmdcode'), ('ver2', 'ver2'), ('request_id', 'rid'), ('codec', 'codec'), ('timeout', 'timeout'),
             ('content', 'content'))
ATTRS_RESP = (('proto', 'proto'), ('ptype', 'ptype'), ('cmdcode', 'cmdcode'), ('ver2', 'ver2'), ('request_id', 'rid'), ('codec', 'codec'), ('respstatus', 'status'),
              ('content', 'content'))


def header_is(ip, ref, entries, st):
    """is the header map exactly {k: v}, by its dict contents"""
    o = st.obj(ref) if ref and ref[0] == 'O' else None
    if o is None or o.kind != 'dict' or o.m.get('open') or o.m.get('gen'):
        return False
    items = o.m['items']
    if len(items) != len(entries):
        return False
    return all(any(same(ip, k, a, st) and same(ip, v, b, st) for k, v in items) for a, b in entries)


def c02(r, tier):
    sc = codec()
    k, v = sym('k', 'str'), sym('v', 'str')
    for fn, decs, extra, attrs in (('request1', ('decode_request', 'parts_request'), {'timeout': 'int'}, ATTRS_REQ),
                                   ('response1', ('decode_response', 'parts_response'), {'status': 'int'}, ATTRS_RESP)):
        good, bad = frame_outcomes(sc, fn, **dict(FULL, k='str', v='str', **extra))
        r.check(bool(good), 'frames can be encoded', fn, 'no frame is ever encoded')
        for f, b, st in good:
            for dec in decs:
                s = st.clone()
                s.tmp += (f, b)
                rs = sc.ip.call_fn(sc.module()[dec], [b], [], s, '<rule>')
                r.ran(sc, fn + ' then ' + dec, len(rs))
                for ok, p, s2 in rs:
                    if not r.check(ok, 'an encoded frame decodes', exc_site(p, s2) if not ok else dec,
                                   'decoding an encoded frame raises %s' % (exc_name(sc.ip, p, s2) if not ok else ''), s2):
                        continue
                    for a, src in attrs:
                        got = attr_of(sc.ip, p, a, s2)
                        want = sym(src, 'bytes' if src == 'content' else 'int')
                        r.check(got is not None and same(sc.ip, got, want, s2), '%s: attribute %s' % (dec, a), '%s of %s' % (a, dec),
                                'attribute %s is %s, encoded from %s' % (a, show(got) if got else 'missing', show(want)), s2)
                    h = attr_of(sc.ip, p, 'header', s2)
                    r.check(h is not None and header_is(sc.ip, h, [(k, v)], s2), '%s: header map' % dec, 'header of ' + dec,
                            'the header map is %s' % (s2.obj(h).m if h and h[0] == 'O' and s2.obj(h) else h,), s2)
                    c = attr_of(sc.ip, p, 'class_name', s2)
                    r.check(c is not None and is_k(c, bytes), '%s: class name' % dec, 'class_name of ' + dec, 'class name', s2)
    # where the values of an arbitrary decoded frame come from
    s0 = sym('s', 'bytes')
    pos = {'proto': 0, 'ptype': 1, 'cmdcode': 2, 'ver2': 4, 'request_id': 5, 'codec': 9}
    for dec, fields in (('decode_request', REQ_FIELDS), ('decode_response', RESP_FIELDS)):
        off, offs = 0, {}
        for n, size in fields:
            offs[n] = (off, size)
            off += size
        rs = sc.run(dec, s='bytes')
        r.ran(sc, dec, len(rs))
        r.check(any(ok for ok, _, _ in rs), 'some bytes decode', dec, 'no frame ever decodes')
        for ok, p, st in rs:
            if not ok:
                continue
            for n, size in fields[:7]:
                got = attr_of(sc.ip, p, n, st)
                g = unwrap(got) if got is not None else K(None)
                want = [S('unp', (s0, K(offs[n][0]), '>', c), 'int') for c in ({1: 'bB', 2: 'hH', 4: 'iI'}[size])]
                if const(g)[0]:
                    good_ = any(same(sc.ip, g, w, st) for w in want)
                else:
                    good_ = any(g == w or (size == 1 and g[0] == 'S' and g[1] == 'unp' and g[2][0] == s0 and g[2][1] == w[2][1] and g[2][3] == w[2][3]) for w in want)
                r.check(good_, '%s: %s is read at offset %d, %d bytes' % (dec, n, offs[n][0], size), '%s of %s' % (n, dec),
                        '%s is %s' % (n, show(g)), st)
            got = attr_of(sc.ip, p, 'content', st)
            cl, hl, ctl = [S('unp', (s0, K(offs[n][0]), '>', {2: 'H', 4: 'I'}[offs[n][1]]), 'int') for n in ('class_len', 'header_len', 'content_len')]
            start = lin_val(lin_add(lin_add(lin_of(K(off)), lin_of(cl)), lin_of(hl)))
            r.check(got is not None and content_at(sc.ip, got, s0, start, ctl, st), '%s: content is the announced slice' % dec, 'content of ' + dec,
                    'content is %s' % (show(got, 4) if got else None), st)


def content_at(ip, got, base, start, ln, st):
    got = unwrap(got)
    if same(ip, got, K(b''), st) and got[0] == 'K':
        return ip.know_pos(lin_of(ln), st) is False or bool(st.facts.get(('eq0', ln)))
    if got[0] == 'S' and got[1] == 'sl' and got[2][0] == base and same(ip, got[2][1], start, st):
        if got[2][2] is None:
            return lin_const(lin_add(lin_add(ip.length_of(base, st), lin_of(start), -1), lin_of(ln), -1)) == 0 or \
                same(ip, lin_val(lin_add(ip.length_of(base, st), lin_of(start), -1)), ln, st)
        return same(ip, got[2][2], ln, st)
    return False


def c03(r, tier):
    sc = codec()
    ns = sc.module()
    st = sc.state()
    for name, table in PUBLISHED.items():
        c = ns.get(name)
        o = st.obj(c) if c is not None and c[0] == 'O' else None
        if o is None or not o.m.get('enum'):
            r.fail('code point table', name, '%s is not an enumeration' % name)
            continue
        have = {m: const(o.f[m])[1] for m in o.m['members']}
        for m, val in table.items():
            r.check(have.get(m) == val, '%s.%s = %d' % (name, m, val), '%s.%s' % (name, m), '%s.%s is %r, published %d' % (name, m, have.get(m), val))
        for m, val in have.items():
            r.check(m in table, 'no unpublished code', '%s.%s' % (name, m), '%s.%s = %r is not a published code' % (name, m, val))
        # aliases
        for m in o.f:
            x = o.f[m]
            if x[0] == 'E' and m not in have:
                r.check(x[2] == m, 'no two names for one number', '%s.%s' % (name, m), '%s.%s has the number of %s' % (name, m, x[2]))
        al = o.m.get('aliases') or {}
        for m in al:
            r.fail('no two names for one number', '%s.%s' % (name, m), '%s.%s repeats a number' % (name, m))
    enums = {'proto': 'PROTO', 'ptype': 'PTYPE', 'cmdcode': 'CMDCODE', 'ver2': 'VER2', 'codec': 'CODEC', 'respstatus': 'RESPSTATUS'}

    def valid(v, e, s):
        c = ns[e]
        if v is None:
            return False
        if v[0] == 'E':
            return v[1] == c
        return v[0] == 'S' and v[1] == 'enum' and v[2][0] == c

    jobs = [('request1', dict(FULL, k='str', v='str', timeout='int')), ('response1', dict(FULL, k='str', v='str', status='int')),
            ('request1', dict({k: 'any' for k in FULL}, content='bytes', k='str', v='str', timeout='int')),
            ('response1', dict({k: 'any' for k in FULL}, content='bytes', k='str', v='str', status='any')),
            ('fail_to', dict(rid='int', status='int')), ('resp_to', dict(content='bytes', rid='int')), ('hb', {}), ('hbr', dict(rid='int')),
            ('new_request', dict(content='bytes', timeout='int')),
            ('decode_request', dict(s='bytes')), ('decode_response', dict(s='bytes'))]
    for fn, kw in jobs:
        rs = sc.run(fn, **kw)
        r.ran(sc, fn, len(rs))
        for ok, p, s in rs:
            if not ok:
                continue
            for a, e in enums.items():
                got = attr_of(sc.ip, p, a, s)
                r.check(valid(got, e, s), '%s: %s is a published %s' % (fn, a, e), '%s of %s' % (a, fn),
                        '%s can be %s, which is not a member of %s' % (a, show(got) if got else 'missing', e), s)


class LoopMon(Keep):
    """progress of the loops that read a byte string"""

    def __init__(self):
        self.loops = {}
        self.bad = []

    def backedge(self, ip, node, st):
        import ast
        site = '%s:%d:%d' % (node.mod, node.lineno, node.col_offset)
        if not isinstance(node, ast.While):
            self.loops[site] = self.loops.get(site, 0) + 1
            return
        head = ip.heads[-1]
        now = st.obj(st.stack[-1]).f
        for name, old in head.items():
            new = now.get(name)
            if new is None:
                continue
            if progress(ip, old, new, st):
                self.loops[site] = self.loops.get(site, 0) + 1
                return
            if old[0] == 'O' and new == old:
                continue
        self.bad.append((site, st))


def progress(ip, old, new, st):
    four = {None: Fraction(-3)}
    if typeof(old) == 'bytes' and typeof(new) == 'bytes':
        lo, ln = ip.length_of(old, st), ip.length_of(new, st)
        if new[0] == 'K' and not new[2]:
            return ip.know_pos(lin_add(lo, four), st) is True or (old[0] == 'K' and len(old[2]) >= 4)
        if lo is not None and ln is not None:
            d = lin_add(lo, ln, -1)
            return ip.know_pos(lin_add(d, four), st) is True
        return False
    lo, ln = lin_of(old), lin_of(new)
    if lo is not None and ln is not None and typeof(old) == 'int' and typeof(new) == 'int':
        d = lin_add(ln, lo, -1)
        return ip.know_pos(lin_add(d, four), st) is True
    return False


def facts_state(sc, facts):
    st = sc.state()
    for k, v in facts:
        st.facts[k] = v
    return st


def c04(r, tier):
    sc = codec()
    ip = sc.ip
    k, v, k2, v2 = (sym(n, 'str') for n in ('k', 'v', 'k2', 'v2'))
    # writing
    for fn, entries in (('header_to0', []), ('header_to1', [(k, v)]), ('header_to', [(k, v), (k2, v2)])):
        rs = sc.run(fn, **{p: 'str' for p in [x[2][0][2] for e in entries for x in e]})
        r.ran(sc, fn, len(rs))
        r.check(any(ok for ok, _, _ in rs), 'headers can be encoded', fn, 'no header map is ever encoded')
        for ok, b, st in rs:
            if not ok:
                continue
            alts = [entries] + ([entries[::-1], [(k, v2)], [(k2, v2)]] if len(entries) == 2 else [])
            err = None
            for e in alts:
                if len(e) == 1 and len(entries) == 2 and st.facts.get(ip.eq_key(k, k2)[0] if isinstance(ip.eq_key(k, k2), tuple) else None) is not True:
                    continue
                c = Cursor(ip, b, st)
                if c.bytes_(header_parts(e, ip, st)) and c.end():
                    err = None
                    break
                err = err or c.err
            r.check(err is None, '%s: layout of %d entries' % (fn, len(entries)), 'SofaHeader.to_bytes', 'the encoded header map: %s' % err, st)
    # reading back
    rs = sc.run('header_both', k='str', v='str')
    r.ran(sc, 'header_both', len(rs))
    n = 0
    for ok, h, st in rs:
        if not ok:
            r.check(exc_name(ip, h, st) in ('struct.error', 'builtins.AssertionError', 'UnicodeEncodeError', 'EncodeError', 'builtins.UnicodeEncodeError'),
                    'an encoded header map is read back', exc_site(h, st), 'reading back raises %s' % exc_name(ip, h, st), st)
            continue
        n += 1
        r.check(header_is(ip, h, [(k, v)], st), 'an encoded header map is read back', 'SofaHeader.from_bytes', 'read back as %s' % (st.obj(h).m.get('items') if h[0] == 'O' else h,), st)
    r.check(n > 0, 'an encoded header map is read back', 'SofaHeader.from_bytes', 'no header map is read back')
    # arbitrary bytes: progress
    mon = LoopMon()
    sc2 = codec(mon)
    rs = sc2.run('header_from', b='bytes')
    r.ran(sc2, 'header_from', len(rs), loops=len(mon.loops))
    for site, st in mon.bad:
        r.fail('each step consumes at least 4 bytes', site, 'the loop can go round without consuming 4 bytes', st)
    for site, n in mon.loops.items():
        r.ok('each step consumes at least 4 bytes', n)
    # rejections and acceptances
    L, M = sym('n', 'int'), sym('m', 'int')
    x, y = sym('x', 'bytes'), sym('y', 'bytes')
    lx, ly = S('len', (x,), 'int'), S('len', (y,), 'int')
    P = lambda d: ip.pos_key(d)

    def given(*conds):
        st = sc.state()
        for d in conds:
            key = P(d)
            if isinstance(key, tuple):
                st.facts[key[0]] = key[1]
        return st
    c_ = lambda n: {None: Fraction(n)}
    l = lin_of
    first = [('at the start', []), ('after one string', [fld(lx, 4), x]), ('after two strings', [fld(lx, 4), x, fld(ly, 4), y])]
    z, w = sym('z', 'bytes'), sym('w', 'bytes')
    lz = S('len', (z,), 'int')
    inr = [('fits', lx, K('i')), ('fits', ly, K('i')), ('fits', lz, K('i')), ('fits', L, K('i'))]
    for text, pre in first:
        cases = [
            ('a negative count', [fld(L, 4), z], [lin_add(c_(-1), l(L), -1)]),                     # n < -1
            ('a count past the end', [fld(L, 4), z], [lin_add(l(L), l(lz), -1), lin_add(l(L), c_(1))]),        # n > len(z), n >= 0
            ('a truncated count', [z], [l(lz), lin_add(c_(4), l(lz), -1)]),                                 # 0 < len(z) < 4
        ]
        for what, tail, conds in cases:
            st = given(*conds)
            for key in inr:
                st.facts[key] = True
            rs = sc.run('header_from', st=st, b=cat(pre + tail, 'bytes'))
            r.ran(sc, what + ' ' + text, len(rs))
            for ok, h, s in rs:
                r.check(not ok, '%s %s is rejected' % (what, text), 'SofaHeader.from_bytes', '%s %s is accepted' % (what, text), s)
    for text, pre in (('one string', [fld(lx, 4), x]), ('three strings', [fld(lx, 4), x, fld(ly, 4), y, fld(lz, 4), z])):
        st = given()
        for key in inr:
            st.facts[key] = True
        rs = sc.run('header_from', st=st, b=cat(pre, 'bytes'))
        r.ran(sc, text, len(rs))
        for ok, h, s in rs:
            r.check(not ok, 'an odd number of strings is rejected', 'SofaHeader.from_bytes', '%s are accepted' % text, s)
    # what the strings of an accepted header are: 4 count bytes, then exactly that many bytes of UTF-8
    st = given()
    for key in inr:
        st.facts[key] = True
    rs = sc.run('header_from', st=st, b=cat([fld(lx, 4), x, fld(ly, 4), y], 'bytes'))
    n = 0
    for ok, h, s in rs:
        if not ok:
            continue
        n += 1
        D = lambda b: S('dec', (b, K('utf-8')), 'str')
        good = header_is(ip, h, [(D(x), D(y))], s) or header_utf8(ip, h, x, y, s)
        r.check(good, 'two strings give one entry', 'SofaHeader.from_bytes', 'read as %s' % (s.obj(h).m.get('items') if h[0] == 'O' else h,), s)
    r.check(n > 0, 'two strings give one entry', 'SofaHeader.from_bytes', 'a header map of two strings is never accepted')
    # -1 is an empty string
    m1 = K(b'\xff\xff\xff\xff')
    for text, b, want in (('key', [m1, fld(ly, 4), y], 0), ('value', [fld(lx, 4), x, m1], 1), ('both', [m1, m1], 2)):
        st = given()
        for key in inr:
            st.facts[key] = True
        rs = sc.run('header_from', st=st, b=cat(b, 'bytes'))
        r.ran(sc, 'null ' + text, len(rs))
        n = 0
        for ok, h, s in rs:
            if not ok:
                continue
            n += 1
            o = s.obj(h)
            items = o.m.get('items') or ()
            good = len(items) == 1 and not o.m.get('gen') and not o.m.get('open')
            if good:
                kk, vv = items[0]
                if want in (0, 2):
                    good = same(ip, kk, K(''), s)
                if want in (1, 2):
                    good = good and same(ip, vv, K(''), s)
            r.check(good, 'a count of -1 is an empty %s' % text, 'SofaHeader.from_bytes', 'a count of -1 as %s is read as %s' % (text, items), s)
        r.check(n > 0, 'a count of -1 is an empty %s' % text, 'SofaHeader.from_bytes', 'a count of -1 as %s is never accepted' % text)


def header_utf8(ip, h, x, y, st):
    o = st.obj(h)
    items = o.m.get('items') or ()
    if len(items) != 1 or o.m.get('gen') or o.m.get('open'):
        return False

    def is_dec(t, b):
        if t[0] == 'S' and t[1] == 'dec' and t[2][0] == b:
            return True
        lb = S('len', (b,), 'int')
        return t == K('') and (ip.know_pos({lb: Fraction(1)}, st) is False or st.facts.get(('eq0', lb)))
    return is_dec(items[0][0], x) and is_dec(items[0][1], y)


def c05(r, tier):
    sc = codec()
    ns = sc.module()
    de = ns['DecodeError']
    jobs = [('decode_request', dict(s='bytes')), ('decode_response', dict(s='bytes')), ('head_request', dict(s='bytes')), ('head_response', dict(s='bytes')),
            ('body_request', dict(s='bytes', t='bytes')), ('body_response', dict(s='bytes', t='bytes')), ('header_from', dict(b='bytes')),
            ('parts_request', dict(s='bytes')), ('parts_response', dict(s='bytes'))]
    for fn, kw in jobs:
        rs = sc.run(fn, **kw)
        r.ran(sc, fn, len(rs))
        r.check(any(ok for ok, _, _ in rs), '%s can succeed' % fn, fn, 'decoding never succeeds')
        n = 0
        for ok, v, st in rs:
            if ok:
                continue
            n += 1
            r.check(exc_is(sc.ip, v, de, st), '%s raises only DecodeError' % fn, exc_site(v, st),
                    '%s lets %s escape' % (fn, exc_name(sc.ip, v, st)), st)
        r.check(n > 0, '%s rejects malformed bytes' % fn, fn, 'nothing is ever rejected')
    r.assumptions.append('MemoryError, RecursionError and KeyboardInterrupt are not considered')
