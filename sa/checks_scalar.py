"""Scalars: colors (C19), stored forms of scalars (C06), the layout-name rule (C23)."""
from core import *
from checks_api import vname, fld, no_panics
from checks_io import appof
import models

C = 'color::Color'
U8, U32, I64, U64, F64 = ('p', 'u8'), ('p', 'u32'), ('p', 'i64'), ('p', 'u64'), ('p', 'f64')
CH = ['alpha', 'red', 'green', 'blue']


def numeric(v):
    """a value made of casts, bit moves and constants only, so that a difference is a real one"""
    if v[0] in ('int', 'bits', 'lin', 'flt'):
        return not has_unknown(v)
    if v[0] == 'cast':
        return numeric(v[2])
    return v[0] == 'sym' and not has_unknown(v) and not any(c in v[1] for c in '?(')


def judge_bits(ck, key, got, want, where, detail=''):
    """want: tuple of bits, least significant first"""
    b = models.tobits(got)
    if b == want:
        ck.ok(key, detail, where)
    elif b is not None and len(b) == len(want) and any(isinstance(x, tuple) and ('(' in x[0] or has_unknown(x[0])) for x in b):
        ck.und(key, render(got), where)
    elif numeric(got):
        ck.bad(key, 'is %s%s' % (showbits(b) if b else render(got), ' [%s]' % detail if detail else ''), where)
    else:
        ck.und(key, render(got), where)


def showbits(b):
    out, i = [], len(b) - 1
    while i >= 0:
        x = b[i]
        j = i
        if isinstance(x, tuple):
            while j > 0 and isinstance(b[j - 1], tuple) and b[j - 1] == (x[0], b[j][1] - 1):
                j -= 1
            out.append('%s[%d..%d]' % (x[0], b[j][1], x[1]))
        else:
            while j > 0 and b[j - 1] == x:
                j -= 1
            out.append('%d' % x + ('x%d' % (i - j + 1)))
        i = j - 1
    return ' '.join(out)


def symbits(p, n, lo=0):
    return tuple((p, i) for i in range(lo, lo + n))


NUMBERS = (0, 1, 255, 0x7fffffff, 0x80000000, 0x01000001, 0x12345678, 0xfffefdfc, 0xff008dcd, 0xffffffff)
HEX = {'0': 0, 'ff': 255, 'a1b2': 0xa1b2, 'abcdef': 0xffabcdef, 'ABCDEF': 0xffabcdef, '000000': 0xff000000, '012345': 0xff012345, 'fffff': 0xfffff,
       '0000000': 0, '1234567': 0x1234567, '12345678': 0x12345678, 'ffffffff': 0xffffffff, '00ffffff': 0xffffff, '80000000': 0x80000000,
       '': None, 'g': None, 'ggffff': None, '#ffffff': None, '123456789': None, 'ff ff': None, '0x1234': None}


def c19(ck):
    frgb, fargb = ck.fn(C + '::from_rgb'), ck.fn(C + '::from_argb')
    get = {c: ck.fn('%s::%s' % (C, c)) for c in CH}
    frgbt = ck.fn(C + '::rgb')
    fu32 = ck.fn('<%s as std::convert::From<u32>>::from' % C)
    fhex = ck.fn(C + '::parse_hex')
    ser = ck.fn('<%s as serde::Serialize>::serialize' % C)
    de = ck.fn('<%s as serde::Deserialize>::deserialize' % C)
    disp = ck.fn('<%s as std::fmt::Display>::fmt' % C)

    def E(**k):
        e = ck.eng(**k)
        e.bits = True
        return e

    def given(st, x, want, key, fn, e):
        for i, c in enumerate(CH):
            for s3, v in call(e, st, get[c], [x]):
                w = want >> (24 - 8 * i) & 255
                judge_bits(ck, '%s, %s' % (key, c), v, tuple(w >> j & 1 for j in range(8)), ck.span(fn))

    for fn, chans in ((frgb, CH[1:]), (fargb, CH)):
        nm = fn.split('::')[-1]
        with ck.case(nm, ck.span(fn)):
            e = E()
            for st, c in call(e, st0(), fn, [e.mk(x, U8) for x in chans]):
                for x in CH:
                    want = symbits(x, 8) if x in chans else (1,) * 8
                    for s2, v in call(e, st, get[x], [c]):
                        judge_bits(ck, '%s then %s' % (nm, x), v, want, ck.span(get[x]))
                for s2, v in call(e, st, frgbt, [c]):
                    for i, x in enumerate(CH[1:]):
                        judge_bits(ck, '%s then rgb %s' % (nm, x), v[1][i] if v[0] == 'tup' else v, symbits(x, 8), ck.span(frgbt))
            no_panics(ck, e, nm)
    with ck.case('from number', ck.span(fu32)):
        e = E()
        for st, c in call(e, st0(), fu32, [e.mk('n', U32)]):
            for i, x in enumerate(CH):
                for s2, v in call(e, st, get[x], [c]):
                    judge_bits(ck, 'number then %s' % x, v, symbits('n', 8, 24 - 8 * i), ck.span(get[x]))
        no_panics(ck, e, 'from number')
    # hex strings
    for ln in (1, 2, 3, 4, 5, 6, 7, 8):
        with ck.case('%d-digit hex' % ln, ck.span(fhex)):
            e = E()
            s = e.mk('hex', ('r', 0, ('p', 'str')))
            s0 = St({}, {('q', 'len(hex)'): ln}, {}, ())
            oks = set()
            for st, r in call(e, s0, fhex, [s]):
                for s2, ok, x in e.res(st, r):
                    oks.add(ok)
                    k = '%d-digit hex' % ln
                    if not ok:
                        if not [1 for q, f in s2.facts.items() if q[0] == 'v' and q[1].startswith('radix') and f == 1]:
                            ck.und(k + ' rejected', factstr(s2), ck.span(fhex))
                        else:
                            ck.ok(k + ' rejected only if no number')
                        continue
                    cs = {}
                    for c in CH:
                        for s3, v in call(e, s2, get[c], [x]):
                            cs[c] = models.tobits(v)
                    if any(v is None for v in cs.values()):
                        ck.und(k, render(x), ck.span(fhex))
                        continue
                    full = tuple(b for c in reversed(CH) for b in cs[c])
                    srcs = {b[0] for b in full if isinstance(b, tuple)}
                    if len(srcs) != 1:
                        ck.und(k, showbits(full), ck.span(fhex))
                        continue
                    (src,) = srcs
                    plain = ["radix16<%s>(hex)@Ok.0" % t for t in ('u32', 'u64', 'i64')]
                    ff = ["radix16<%s>('%s' ++ hex)@Ok.0" % (t, x) for t in ('u32', 'u64', 'i64') for x in ('ff', 'FF', 'fF', 'Ff')]
                    if ln != 6:
                        good = src in plain and full == symbits(src, 32)
                    else:
                        good = src in ff and full == symbits(src, 32) or src in plain and full == symbits(src, 24) + (1,) * 8
                    if good:
                        ck.ok(k, showbits(full))
                    elif src in plain + ff or (src.startswith('radix') and src.count('(') == 1):
                        ck.bad(k, 'gives %s' % showbits(full), ck.span(fhex))
                    else:
                        ck.und(k, showbits(full), ck.span(fhex))
            if True not in oks:
                ck.bad('%d-digit hex' % ln, 'is never accepted', ck.span(fhex))
            no_panics(ck, e, '%d-digit hex' % ln)
    # given hex strings
    for txt in HEX:
        with ck.case('hex %r' % txt, ck.span(fhex)):
            e = E()
            want = HEX[txt]
            for st, r in call(e, st0(), fhex, [('str', (('L', txt),) if txt else ())]):
                for s2, ok, x in e.res(st, r):
                    if not ok or want is None:
                        if ok == (want is not None):
                            ck.ok('hex %r' % txt, 'rejected', ck.span(fhex))
                        else:
                            ck.judge('hex %r' % txt, ('?' if any('?' in str(q) for q in s2.facts) else 'n', 'is %s' % ('accepted' if ok else 'rejected')), ck.span(fhex))
                        continue
                    given(s2, x, want, 'hex %r' % txt, fhex, e)
            no_panics(ck, e, 'hex %r' % txt)
    # JSON: whatever number is written is read back to the same 32 bits
    vis = {}
    for n in ck.p.bodies:
        if n.endswith(('::visit_i64', '::visit_u64', '::visit_f64')) and 'color::Color' in n:
            vis[n[-3:]] = n
    for k in ('i64', 'u64', 'f64'):
        if k not in vis:
            if any('deserialize_any' in x or 'Visitor' in x for x in callees(ck.p, de)):
                ck.bad('JSON number as %s' % k, 'a color written as %s number is rejected: no visit_%s' % (
                    {'i64': 'a negative', 'u64': 'an unsigned', 'f64': 'a floating point'}[k], k), ck.span(de))
            else:
                ck.und('JSON number as %s' % k, 'no visitor', ck.span(de))
            continue
        fn = vis[k]
        with ck.case('JSON number as %s' % k, ck.span(fn)):
            e = E()
            b = ck.p.bodies[fn]
            self_ = e.mk('self', ck.p.T(b['locals'][1]))
            n = e.mk('n', {'i64': I64, 'u64': U64, 'f64': I64}[k])
            if k == 'f64':
                n = ('cast', 'f64', n)
            for st, r in call(e, st0(), fn, [self_, n]):
                for s2, ok, x in e.res(st, r):
                    if not ok:
                        ck.judge('JSON number as %s' % k, ('?' if any('?' in str(q) for q in s2.facts) else 'n', 'is rejected when %s' % factstr(s2)), ck.span(fn))
                        continue
                    for i, c in enumerate(CH):
                        for s3, v in call(e, s2, get[c], [x]):
                            judge_bits(ck, 'JSON number as %s, %s' % (k, c), v, symbits('n', 8, 24 - 8 * i), ck.span(fn))
            no_panics(ck, e, 'JSON number as ' + k)
        for c in NUMBERS:
            for n in {c, c - (1 << 32)} if k != 'u64' else {c}:
                if k == 'i64' and n >= 0:
                    continue    # serde_json hands these over as u64
                nm = 'JSON number %d as %s' % (n, k)
                with ck.case(nm, ck.span(fn)):
                    e = E()
                    v = ('flt', repr(float(n))) if k == 'f64' else ('int', n, k)
                    for st, r in call(e, st0(), fn, [e.mk('self', ck.p.T(b['locals'][1])), v]):
                        for s2, ok, x in e.res(st, r):
                            if ok:
                                given(s2, x, c, nm, fn, e)
                            else:
                                ck.judge(nm, ('?' if any('?' in str(q) for q in s2.facts) else 'n', 'is rejected'), ck.span(fn))
                    no_panics(ck, e, nm)
    with ck.case('reads any number', ck.span(de)):
        e = E()
        used = []
        T = ('a', 'std::result::Result', (A(C), ('o', 'error')))

        def hook(name):
            def f(e, st, fr, t, a):
                used.append(name)
                return [(st, e.app(name, [], T))]
            return f
        ok_m = ['any'] + [p + w for p in 'iu' for w in ('8', '16', '32', '64')] + ['f32', 'f64']
        for m in ok_m + ['str', 'string', 'bool', 'option', 'seq', 'map', 'char', 'bytes']:
            e.hooks['serde::Deserializer::deserialize_' + m] = hook(m)
        for st, r in call(e, st0(), de, [e.mk('d', ('o', 'deserializer'))]):
            for s2, ok, x in e.res(st, r):
                pass
        if used and all(u in ok_m for u in used):
            ck.ok('reads any number', ' '.join(used))
        elif used:
            ck.bad('reads any number', 'a color is read as %s' % ', '.join(used), ck.span(de))
        else:
            ck.und('reads any number', 'how the number is read was not seen', ck.span(de))
    with ck.case('written number', ck.span(ser)):
        e = E()
        wr = []

        def sink(ty):
            def f(e, st, fr, t, a):
                st = st.ev('ser', ty, (e.deref(st, a[1]),))
                return [(st, e.app('serialized', [], ('a', 'std::result::Result', (('o', 'ok'), ('o', 'error')))))]
            return f
        for ty in ('i8', 'u8', 'i16', 'u16', 'i32', 'u32', 'i64', 'u64', 'f32', 'f64', 'str', 'bool'):
            e.hooks['serde::Serializer::serialize_' + ty] = sink(ty)
        for st, r in call(e, st0(), ser, [e.mk('c', A(C)), e.mk('s', ('o', 'serializer'))]):
            w = [l for l in st.log if l[0] == 'ser']
            if len(w) != 1:
                ck.und('written number', '%d values written' % len(w), ck.span(ser))
                continue
            ty, v = w[0][1], w[0][2][0]
            if ty in ('str', 'bool'):
                ck.bad('written number', 'a color is written as %s' % ty, ck.span(ser))
                continue
            b = models.tobits(v)
            if b is None or ty in ('f32', 'f64'):
                ck.und('written number', render(v), ck.span(ser))
                continue
            full = (b + ((b[-1] if ty[0] == 'i' else 0),) * 32)[:32]
            for i, c in enumerate(CH):
                for s2, g in call(e, st, get[c], [e.mk('c', A(C))]):
                    want = models.tobits(g)
                    have = full[24 - 8 * i:32 - 8 * i]
                    if want is None:
                        ck.und('written number, %s' % c, render(g), ck.span(ser))
                    elif have == want:
                        ck.ok('written number, %s' % c, ty)
                    else:
                        ck.bad('written number, %s' % c, 'holds %s' % showbits(have), ck.span(ser))
            if len(b) == 32 and ty != 'i32':
                ck.bad('written number', 'colors are stored as signed 32-bit numbers, this writes %s' % ty, ck.span(ser))
        no_panics(ck, e, 'written number')
    # printing
    for nm, fn in (('Display', disp), ('Debug', ck.fn('<%s as std::fmt::Debug>::fmt' % C))):
        with ck.case(nm, ck.span(fn)):
            e = E()
            c = e.mk('c', A(C))
            for st, r in models.via_fmt(e, st0(), fn, c, A(C)):
                if len(r) == 1 and r[0][0] == 'A' and len(r[0]) > 3 and r[0][3][0] == 'hex':
                    _, cs, fl, wd, v = r[0][3]
                    alt = bool(fl and fl & (1 << 23))
                    zero = bool(fl and fl & (1 << 24))
                    if (wd or 0) - (2 if alt else 0) < 8 or not zero:
                        ck.bad(nm, 'fewer than eight hex digits are shown (width %s%s)' % (wd, '' if zero else ', not zero-padded'), ck.span(fn))
                    else:
                        ck.ok(nm + ' shows eight digits')
                    b = models.tobits(v)
                    for i, x in enumerate(CH):
                        for s2, g in call(e, st, get[x], [c]):
                            if b is None or len(b) < 32:
                                ck.und(nm, render(v), ck.span(fn))
                            else:
                                judge_bits(ck, '%s %s' % (nm, x), models.frombits(b[24 - 8 * i:32 - 8 * i], 'u8'), models.tobits(g), ck.span(fn))
                else:
                    ck.und(nm, models.X.srender(r), ck.span(fn))


def callees(p, fn, depth=2):
    out = set()
    work = [(fn, 0)]
    while work:
        n, d = work.pop()
        b = p.bodies.get(n)
        if not b or d > depth:
            continue
        for blk in b['b']:
            if blk and blk[1]['k'] == 'call':
                f = blk[1].get('f')
                if f and f not in out:
                    out.add(f)
                    work.append((f, d + 1))
    return out


# ---------------------------------------------------------------------------------------------------- C23
def layout_words(n):
    for k in range(n + 1):
        for m in range(1 << k):
            yield tuple('_' if m >> i & 1 else 'c%d' % i for i in range(k))


def c23(ck, maxlen=5):
    fn = ck.fn('api::view_name_to_logic')
    w = ck.span(fn)
    X = models.X
    for i in range(maxlen):
        X.NOTIN['c%d' % i] = '_'
    for word in layout_words(maxlen):
        name = ''.join('_' if x == '_' else 'x' for x in word) or '(empty)'
        with ck.case('name of shape %s' % name, w):
            e = ck.eng()
            segs = tuple(('L', '_') if x == '_' else ('A', x, 'char', ('sym', x, ('p', 'char'))) for x in word)
            facts = {('q', x): frozenset('_') for x in word if x != '_'}
            want, cap = [], True
            for x in word:
                if x == '_':
                    cap = True
                else:
                    want.append('upper(%s)' % x if cap else x)
                    cap = False
            outs = call(e, St({}, facts, {}, ()), fn, [('str', X.cat(segs))])
            if not outs and not e.panics:
                ck.und('name of shape %s' % name, 'no result', w)
            for st, r in outs:
                got = [s[1] for s in r[1] if s[0] == 'A'] if r[0] == 'str' else None
                txt = ''.join(s[1] if s[0] == 'L' else '*' for s in r[1]) if got is not None else ''
                good = got == want and txt == '*' * len(want) + 'Activity'
                if good:
                    ck.ok('name of shape %s' % name)
                else:
                    k = any(q[0] == 'A' and (not (q[1] in word or q[1][:6] == 'upper(') or has_unknown(q[1])) or q[0] not in 'LA' for q in r[1]) if got is not None else True
                    ck.judge('name of shape %s' % name, ('?' if k or got is None else 'n', 'becomes %s instead of %s' % (
                        X.srender(r[1]) if got is not None else render(r), ' ++ '.join(want + ["'Activity'"]))), w)
            no_panics(ck, e, 'name of shape %s' % name)
    X.NOTIN.clear()
