"""Further models of the standard library: methods the repository does not use today but that a change may."""
import eng as E
from eng import Undecided, NONE, UNIT, TRUE, FALSE, Some, Ok, Err, I, lit, cat, render
from prog import *
import text as X
import models as M_
from models import (model, one, D, O, R, call1, default, setv, vloop, lname, as_int, need_pat, mksrc, binop, char_segs,
                    m_rev, m_find, fo, end_elem)

INNER = (('d', 1), ('f', 0, None))      # the value inside Some


def conc(e, v, what):
    """the elements of a list all of whose elements are known one by one"""
    its = e.seqitems(v)
    if not all(x[0] == 'one' for x in its):
        raise Undecided(what)
    return [x[1] for x in its]


def vec(xs):
    return ('vec', tuple(('one', x) for x in xs))


# ------------------------------------------------------------------ Option, Result
@model('std::option::Option::insert')
def m_oinsert(e, st, fr, t, a, ga):
    if a[0][0] != 'mref':
        raise Undecided('Option::insert')
    st = st.copy()
    e.wref(st, a[0], Some(a[1]))
    return one(st, ('mref', a[0][1], a[0][2] + INNER))


def get_or(e, st, ref, mk):
    if ref[0] != 'mref':
        raise Undecided('get_or_insert')
    out = []
    for s2, p in e.opt(st, ref):
        if p is not None:
            out.append((s2, ('mref', ref[1], ref[2] + INNER)))
            continue
        for s3, v in mk(s2):
            s3 = s3.copy()
            e.wref(s3, ref, Some(v))
            out.append((s3, ('mref', ref[1], ref[2] + INNER)))
    return out


@model('std::option::Option::get_or_insert')
def m_oget_or(e, st, fr, t, a, ga):
    return get_or(e, st, a[0], lambda s: one(s, a[1]))


@model('std::option::Option::get_or_insert_with')
def m_oget_or_with(e, st, fr, t, a, ga):
    return get_or(e, st, a[0], lambda s: call1(e, s, a[1], []))


@model('std::option::Option::get_or_insert_default')
def m_oget_or_default(e, st, fr, t, a, ga):
    return get_or(e, st, a[0], lambda s: default(e, s, ga[0]))


@model('std::option::Option::xor')
def m_oxor(e, st, fr, t, a, ga):
    return O(e, st, a[0],
             lambda s, p: O(e, s, a[1], lambda s2, q: one(s2, NONE), lambda s2: one(s2, Some(p))),
             lambda s: O(e, s, a[1], lambda s2, q: one(s2, Some(q)), lambda s2: one(s2, NONE)))


@model('std::option::Option::inspect')
def m_oinspect(e, st, fr, t, a, ga):
    return O(e, st, a[0], lambda s, p: [(s2, Some(p)) for s2, _ in call1(e, s, a[1], [p])], lambda s: one(s, NONE))


@model('std::result::Result::inspect')
def m_rinspect(e, st, fr, t, a, ga):
    return R(e, st, a[0], lambda s, p: [(s2, Ok(p)) for s2, _ in call1(e, s, a[1], [p])], lambda s, x: one(s, Err(x)))


@model('std::result::Result::inspect_err')
def m_rinspect_err(e, st, fr, t, a, ga):
    return R(e, st, a[0], lambda s, p: one(s, Ok(p)), lambda s, x: [(s2, Err(x)) for s2, _ in call1(e, s, a[1], [x])])


@model('std::result::Result::and')
def m_rand(e, st, fr, t, a, ga):
    return R(e, st, a[0], lambda s, p: one(s, a[1]), lambda s, x: one(s, Err(x)))


@model('std::result::Result::or')
def m_ror(e, st, fr, t, a, ga):
    return R(e, st, a[0], lambda s, p: one(s, Ok(p)), lambda s, x: one(s, a[1]))


@model('std::result::Result::is_ok_and')
def m_ris_ok_and(e, st, fr, t, a, ga):
    return R(e, st, a[0], lambda s, p: call1(e, s, a[1], [p]), lambda s, x: one(s, FALSE))


@model('std::result::Result::is_err_and')
def m_ris_err_and(e, st, fr, t, a, ga):
    return R(e, st, a[0], lambda s, p: one(s, FALSE), lambda s, x: call1(e, s, a[1], [x]))


@model('std::result::Result::iter', 'std::result::Result::into_iter')
def m_riter(e, st, fr, t, a, ga):
    return R(e, st, a[0], lambda s, p: mksrc(e, s, (('one', p),)), lambda s, x: mksrc(e, s, ()))


@model('std::result::Result::unwrap_err', 'std::result::Result::expect_err')
def m_runwrap_err(e, st, fr, t, a, ga):
    out = []
    for s2, ok, p in e.res(st, a[0]):
        if ok:
            e.panic(s2, fr, t, 'unwrap_err of an Ok')
        else:
            out.append((s2, p))
    return out


# ------------------------------------------------------------------ lists
@model('[T]::get_mut', 'std::vec::Vec::get_mut')
def m_get_mut(e, st, fr, t, a, ga):
    n = as_int(D(e, st, a[1]))
    its = e.seqitems(D(e, st, a[0]))
    if n is None or a[0][0] != 'mref' or not all(x[0] == 'one' for x in its):
        raise Undecided('get_mut')
    return one(st, Some(('mref', a[0][1], a[0][2] + (('el', I(n)),))) if n < len(its) else NONE)


def endref(e, st, ref, last):
    its = e.seqitems(D(e, st, ref))
    if ref[0] != 'mref' or not all(x[0] == 'one' for x in its):
        raise Undecided('first_mut/last_mut')
    return one(st, Some(('mref', ref[1], ref[2] + (('el', I(len(its) - 1 if last else 0)),))) if its else NONE)


@model('[T]::first_mut', 'std::vec::Vec::first_mut')
def m_first_mut(e, st, fr, t, a, ga):
    return endref(e, st, a[0], False)


@model('[T]::last_mut', 'std::vec::Vec::last_mut')
def m_last_mut(e, st, fr, t, a, ga):
    return endref(e, st, a[0], True)


@model('std::vec::Vec::truncate')
def m_truncate(e, st, fr, t, a, ga):
    n = as_int(D(e, st, a[1]))
    if n is None:
        raise Undecided('truncate')
    return one(setv(e, st, a[0], vec(conc(e, D(e, st, a[0]), 'truncate')[:n])), UNIT)


@model('std::vec::Vec::split_off')
def m_split_off(e, st, fr, t, a, ga):
    n = as_int(D(e, st, a[1]))
    xs = conc(e, D(e, st, a[0]), 'split_off')
    if n is None or n > len(xs):
        raise Undecided('split_off')
    return one(setv(e, st, a[0], vec(xs[:n])), vec(xs[n:]))


@model('[T]::swap')
def m_vswap(e, st, fr, t, a, ga):
    i, j = as_int(D(e, st, a[1])), as_int(D(e, st, a[2]))
    xs = conc(e, D(e, st, a[0]), 'swap')
    if i is None or j is None or i >= len(xs) or j >= len(xs):
        raise Undecided('swap')
    xs[i], xs[j] = xs[j], xs[i]
    return one(setv(e, st, a[0], vec(xs)), UNIT)


@model('std::vec::Vec::swap_remove')
def m_swap_remove(e, st, fr, t, a, ga):
    i = as_int(D(e, st, a[1]))
    xs = conc(e, D(e, st, a[0]), 'swap_remove')
    if i is None or i >= len(xs):
        raise Undecided('swap_remove')
    x = xs[i]
    xs[i] = xs[-1]
    return one(setv(e, st, a[0], vec(xs[:-1])), x)


@model('std::vec::Vec::retain')
def m_retain(e, st, fr, t, a, ga):
    its = e.seqitems(D(e, st, a[0]))
    if not all(x[0] == 'one' for x in its):
        if not M_.pureclo(e, a[1]):
            raise Undecided('retain')

        def step(s, acc, x):
            return [(s3, 'c', ('vec', acc[1] + (('one', x),)) if b else acc) for s2, v, _ in e.callv(s, a[1], [x]) for s3, b in e.truth(s2, v)]
        out = []
        for s1, it in mksrc(e, st, its):
            out.extend((setv(e, s2, a[0], v), UNIT) for s2, k, v in vloop(e, s1, lname(fr, t), it, ('vec', ()), step))
        return out
    xs = [x[1] for x in its]
    work = [(st, [])]
    for x in xs:
        work = [(s3, keep + [x] if b else keep) for s, keep in work for s2, v, _ in e.callv(s, a[1], [x])
                for s3, b in e.truth(s2, v)]
    return [(setv(e, s, a[0], vec(keep)), UNIT) for s, keep in work]


@model('[T]::split_first', '[T]::split_last')
def m_split_first(e, st, fr, t, a, ga):
    xs = conc(e, D(e, st, a[0]), 'split_first')
    if not xs:
        return one(st, NONE)
    last = 'split_last' in t['f']
    return one(st, Some(('tup', (xs[-1], vec(xs[:-1])) if last else (xs[0], vec(xs[1:])))))


@model('[T]::split_at')
def m_split_at(e, st, fr, t, a, ga):
    n = as_int(D(e, st, a[1]))
    xs = conc(e, D(e, st, a[0]), 'split_at')
    if n is None or n > len(xs):
        raise Undecided('split_at')
    return one(st, ('tup', (vec(xs[:n]), vec(xs[n:]))))


@model('[T]::windows', '[T]::chunks')
def m_windows(e, st, fr, t, a, ga):
    n = as_int(D(e, st, a[1]))
    xs = conc(e, D(e, st, a[0]), 'windows')
    if not n:
        raise Undecided('windows')
    if 'windows' in t['f']:
        w = [vec(xs[i:i + n]) for i in range(len(xs) - n + 1)]
    else:
        w = [vec(xs[i:i + n]) for i in range(0, len(xs), n)]
    return mksrc(e, st, tuple(('one', x) for x in w))


# ------------------------------------------------------------------ iterators
def num0(ga, n):
    T = next((x for x in reversed(ga or []) if x[0] == 'p'), None)
    if T is None or T[1] in ('f32', 'f64', 'str', 'bool', 'char'):
        raise Undecided('sum')
    return ('int', n, T[1])


def accum(op, n):
    def f(e, st, fr, t, a, ga):
        def step(s, acc, x):
            return [(s2, 'c', v) for s2, v in binop(e, s, op, acc, D(e, s, x))]
        return [(s2, v) for s2, k, v in vloop(e, st, lname(fr, t), a[0], num0(ga, n), step)]
    return f


M_.M['std::iter::Iterator::sum'] = accum('Add', 0)
M_.M['std::iter::Iterator::product'] = accum('Mul', 1)


@model('std::iter::Iterator::reduce')
def m_reduce(e, st, fr, t, a, ga):
    def step(s, acc, x):
        out = []
        for s2, p in e.opt(s, acc):
            if p is None:
                out.append((s2, 'c', Some(x)))
            else:
                out.extend((s3, 'c', Some(v)) for s3, v, _ in e.callv(s2, a[1], [p, x]))
        return out
    return [(s2, v) for s2, k, v in vloop(e, st, lname(fr, t), a[0], NONE, step)]


@model('std::iter::DoubleEndedIterator::rfind')
def m_rfind(e, st, fr, t, a, ga):
    raise Undecided('rfind')


@model('std::iter::DoubleEndedIterator::next_back')
def m_next_back(e, st, fr, t, a, ga):
    it = D(e, st, a[0])
    if it[0] != 'iter' or it[1] != 'src':
        raise Undecided('next_back')
    its = st.streams[it[2]]
    if not its:
        return one(st, NONE)
    if its[-1][0] != 'one':
        raise Undecided('next_back')
    st = st.copy()
    st.streams[it[2]] = its[:-1]
    return one(st, Some(its[-1][1]))


@model('std::str::Chars::as_str')
def m_chars_as_str(e, st, fr, t, a, ga):
    it = D(e, st, a[0])
    if it[0] != 'iter' or it[1] != 'src':
        raise Undecided('Chars::as_str')

    def text(its):
        for x in its:
            if x[0] == 'one':
                yield char_segs(e, x[1])
            elif x[0] == 'each':
                yield (('each', x[1], x[2], tuple((g, cat(*text(b))) for g, b in x[3])),)
            else:
                raise Undecided('Chars::as_str')
    return one(st, ('str', cat(*text(st.streams[it[2]]))))


@model('str::matches')
def m_matches(e, st, fr, t, a, ga):
    pat = need_pat(e, st, a[1])
    segs = X.resolve(e, st, D(e, st, a[0])[1])
    if len(pat) != 1:
        raise Undecided('matches %r' % pat)
    its = []
    for s in segs:
        if s[0] == 'L':
            its += [('one', ('str', (('L', pat),)))] * s[1].count(pat)
        elif s[0] != 'A' or X.may_contain(s, pat):
            raise Undecided('matches in %s' % X.srender((s,)))
    return mksrc(e, st, tuple(its))


# ------------------------------------------------------------------ texts
@model('str::splitn')
def m_splitn(e, st, fr, t, a, ga):
    n = as_int(D(e, st, a[1]))
    sep = need_pat(e, st, a[2])
    if not n or n > 8:
        raise Undecided('splitn')
    work = [(st, (), D(e, st, a[0])[1], False)]
    for _ in range(n - 1):
        nw = []
        for s, parts, rest, end in work:
            if end:
                nw.append((s, parts, rest, end))
                continue
            for s2, r in X.split_once(e, s, rest, sep):
                if r is None:
                    nw.append((s2, parts, rest, True))
                else:
                    nw.append((s2, parts + (r[0],), r[1], False))
        work = nw
    out = []
    for s, parts, rest, end in work:
        out.extend(mksrc(e, s, tuple(('one', ('str', p)) for p in parts + (rest,))))
    return out


@model('str::rsplitn')
def m_rsplitn(e, st, fr, t, a, ga):
    n = as_int(D(e, st, a[1]))
    sep = need_pat(e, st, a[2])
    if not n or n > 8:
        raise Undecided('rsplitn')
    work = [(st, (), D(e, st, a[0])[1], False)]
    for _ in range(n - 1):
        nw = []
        for s, parts, rest, end in work:
            if end:
                nw.append((s, parts, rest, end))
                continue
            for s2, r in X.split_once(e, s, rest, sep, True):
                nw.append((s2, parts, rest, True) if r is None else (s2, parts + (r[1],), r[0], False))
        work = nw
    out = []
    for s, parts, rest, end in work:
        out.extend(mksrc(e, s, tuple(('one', ('str', p)) for p in parts + (rest,))))
    return out


@model('str::rsplit')
def m_rsplit(e, st, fr, t, a, ga):
    sep = need_pat(e, st, a[1])
    out = []
    for s2, its in X.split(e, st, D(e, st, a[0])[1], sep):
        out.extend(mksrc(e, s2, M_.rev_items(its)))
    return out


@model('std::string::String::retain')
def m_str_retain(e, st, fr, t, a, ga):
    work = [(st, ())]
    for x in X.chars(e, D(e, st, a[0])[1]):
        if x[0] != 'one':
            raise Undecided('String::retain')
        work = [(s3, cat(keep, char_segs(e, x[1])) if b else keep) for s, keep in work for s2, v, _ in e.callv(s, a[1], [x[1]])
                for s3, b in e.truth(s2, v)]
    return [(setv(e, s, a[0], ('str', keep)), UNIT) for s, keep in work]


@model('std::string::String::remove')
def m_str_remove(e, st, fr, t, a, ga):
    v, n = D(e, st, a[0]), as_int(D(e, st, a[1]))
    if n != 0 or not v[1]:
        raise Undecided('String::remove')
    s = X.resolve(e, st, v[1])
    if s[0][0] == 'L':
        return one(setv(e, st, a[0], ('str', cat((('L', s[0][1][1:]),), s[1:]))), ('char', s[0][1][0]))
    p = X.prefix_of(st, s[0][1]) if s[0][0] == 'A' else ''
    if not p:
        raise Undecided('String::remove')
    out = []
    for s2, r in X.strip_prefix(e, st, s, p[0]):
        if r is None:
            raise Undecided('String::remove')
        out.append((setv(e, s2, a[0], ('str', r)), ('char', p[0])))
    return out


@model('std::string::String::drain')
def m_str_drain(e, st, fr, t, a, ga):
    v, ix = D(e, st, a[0]), D(e, st, a[1])
    n = as_int(D(e, st, ix[3][0])) if ix[0] == 'adt' and ix[1].endswith('::RangeTo') else None
    if n is None:
        raise Undecided('String::drain')
    out = []
    for s2, x in X.substr(e, st, v[1], 0, n, False):
        for s3, y in ([(s2, None)] if x is None else X.substr(e, s2, v[1], n, None, True)):
            if y is None:
                e.panic(s3, fr, t, 'text cut out of bounds or inside a character')
            else:
                out.extend(mksrc(e, setv(e, s3, a[0], ('str', y)), X.chars(e, x)))
    return out


@model('str::char_indices')
def m_char_indices(e, st, fr, t, a, ga):
    v = D(e, st, a[0])
    if not all(s[0] == 'L' and s[1].isascii() for s in v[1]):
        raise Undecided('char_indices')
    s = ''.join(s[1] for s in v[1])
    return mksrc(e, st, tuple(('one', ('tup', (I(i), ('char', c)))) for i, c in enumerate(s)))


@model('str::repeat')
def m_repeat(e, st, fr, t, a, ga):
    n = as_int(D(e, st, a[1]))
    if n is None or n > 64:
        raise Undecided('repeat')
    return one(st, ('str', cat(*([D(e, st, a[0])[1]] * n)) if n else ()))


def charpred(name, f):
    @model('char::' + name)
    def g(e, st, fr, t, a, ga):
        v = D(e, st, a[0])
        if v[0] == 'char' and v[1].isascii():
            return one(st, TRUE if f(v[1]) else FALSE)
        if v[0] == 'sym' and v[2] == ('p', 'char'):
            return [(s2, TRUE if w else FALSE) for s2, w in e.charpred(st, v[1], name, f)]
        raise Undecided(name)


charpred('is_alphabetic', str.isalpha)
charpred('is_ascii_alphabetic', lambda c: c.isascii() and c.isalpha())
charpred('is_alphanumeric', str.isalnum)
charpred('is_ascii_alphanumeric', lambda c: c.isascii() and c.isalnum())
charpred('is_numeric', str.isnumeric)
charpred('is_ascii_digit', lambda c: c.isascii() and c.isdigit())
charpred('is_ascii_lowercase', lambda c: c.isascii() and c.islower())
charpred('is_lowercase', str.islower)
charpred('is_ascii_uppercase', lambda c: c.isascii() and c.isupper())
charpred('is_uppercase', str.isupper)
charpred('is_whitespace', lambda c: c in ' \t\n\r\x0b\x0c\x85\xa0\u2028\u2029\u3000\u1680\u202f\u205f' or '\u2000' <= c <= '\u200a')
charpred('is_control', lambda c: ord(c) < 32 or 127 <= ord(c) < 160)
charpred('is_ascii_control', lambda c: ord(c) < 32 or ord(c) == 127)
charpred('is_ascii_punctuation', lambda c: c.isascii() and 32 < ord(c) < 127 and not c.isalnum())
charpred('is_ascii_whitespace', lambda c: c in ' \t\n\r\x0c')
charpred('is_ascii', str.isascii)


def extreme(mx, bykey):
    """min/max: the first smallest, the last largest"""
    def f(e, st, fr, t, a, ga):
        def step(s, acc, x):
            out = []
            if bykey:
                ks = [(s2, k) for s2, k, _ in e.callv(s, a[1], [x])]
            else:
                ks = [(s, x)]
            for s2, k in ks:
                for s3, p in e.opt(s2, acc):
                    if p is None:
                        out.append((s3, 'c', Some(('tup', (k, x)))))
                        continue
                    old = D(e, s3, p)[1][0]
                    kk, oo = D(e, s3, k), D(e, s3, old)
                    if M_.tyof(kk) not in M_.INTS and M_.tyof(oo) not in M_.INTS:
                        raise Undecided('the smallest of %s' % render(kk)[:60])
                    for s4, lt in M_.num_lt(e, s3, kk, oo):
                        # min: replaced by a smaller one; max: replaced unless smaller
                        out.append((s4, 'c', Some(('tup', (k, x))) if lt != mx else acc))
            return out
        out = []
        for s2, k, v in vloop(e, st, lname(fr, t), a[0], NONE, step):
            for s3, p in e.opt(s2, v):
                out.append((s3, NONE if p is None else Some(D(e, s3, p)[1][1])))
        return out
    return f


for _n, _mx in (('min', False), ('max', True)):
    M_.M['std::iter::Iterator::' + _n] = extreme(_mx, False)
    M_.M['std::iter::Iterator::%s_by_key' % _n] = extreme(_mx, True)


def dedup(same):
    def f(e, st, fr, t, a, ga):
        xs = conc(e, D(e, st, a[0]), 'dedup')
        work = [(st, [])]
        for x in xs:
            nw = []
            for s, keep in work:
                if not keep:
                    nw.append((s, [x]))
                    continue
                for s2, b in same(e, s, a, x, keep[-1]):
                    nw.append((s2, keep if b else keep + [x]))
            work = nw
        return [(setv(e, s, a[0], vec(keep)), UNIT) for s, keep in work]
    return f


def same_key(e, st, a, x, y):
    return [r for s2, k, _ in e.callv(st, a[1], [x]) for s3, j, _ in e.callv(s2, a[1], [y]) for r in M_.eq(e, s3, k, j)]


def same_by(e, st, a, x, y):
    return [r for s2, v, _ in e.callv(st, a[1], [x, y]) for r in e.truth(s2, v)]


M_.M['std::vec::Vec::dedup'] = dedup(lambda e, st, a, x, y: M_.eq(e, st, x, y))
M_.M['std::vec::Vec::dedup_by'] = dedup(same_by)
M_.M['std::vec::Vec::dedup_by_key'] = dedup(same_key)


# ------------------------------------------------------------------ in-place clones, sets, more of the maps
@model('std::clone::Clone::clone_from')
def m_clone_from(e, st, fr, t, a, ga):
    return [(setv(e, st, a[0], D(e, st, a[1])), UNIT)]


@model('std::borrow::ToOwned::clone_into')
def m_clone_into(e, st, fr, t, a, ga):
    return [(setv(e, st, a[1], D(e, st, a[0])), UNIT)]


@model('std::convert::identity')
def m_identity(e, st, fr, t, a, ga):
    return one(st, a[0])


@model('std::collections::HashSet::insert', 'std::collections::BTreeSet::insert')
def m_set_insert(e, st, fr, t, a, ga):
    v, k = D(e, st, a[0]), M_.map_key(e, st, a[1])
    out = []
    for s2, x in M_.map_get(e, st, v, k):
        out.append((s2 if x is not None else setv(e, s2, a[0], M_.map_put(e, s2, v, k, UNIT)), ('bool', x is None)))
    return out


@model('std::collections::HashSet::contains', 'std::collections::BTreeSet::contains')
def m_set_contains(e, st, fr, t, a, ga):
    return [(s2, ('bool', x is not None)) for s2, x in M_.map_get(e, st, a[0], a[1])]


@model('std::collections::HashSet::remove', 'std::collections::BTreeSet::remove')
def m_set_remove(e, st, fr, t, a, ga):
    return [(s2, ('bool', x[0] == 'adt' and x[2] == 1)) for s2, x in M_.M['std::collections::HashMap::remove'](e, st, fr, t, a, ga)]


for _n in ('len', 'is_empty', 'clear', 'with_capacity'):
    for _s in ('HashSet', 'BTreeSet'):
        _m = M_.M.get('std::collections::HashMap::' + _n)
        if _m:
            M_.M['std::collections::%s::%s' % (_s, _n)] = _m
M_.M['std::collections::BTreeSet::new'] = M_.M['std::collections::HashMap::new']


def mapmodel(name):
    def d(f):
        for m in ('std::collections::HashMap', 'std::collections::BTreeMap', 'ritelinked::LinkedHashMap'):
            M_.M['%s::%s' % (m, name)] = f
        return f
    return d


def entrymodel(name):
    def d(f):
        for m in ('std::collections::hash_map', 'std::collections::btree_map', 'ritelinked::linked_hash_map'):
            M_.M['%s::Entry::%s' % (m, name)] = f
        return f
    return d


def known_entries(e, st, ref, what):
    v = D(e, st, ref)
    if v[0] != 'map' or not all(x[0] == 'one' for x in v[1]) or ref[0] != 'mref':
        raise Undecided(what)
    return [x[1][1] for x in v[1]]


@mapmodel('get_key_value')
def m_get_key_value(e, st, fr, t, a, ga):
    return fo([(s2, None if x is None else ('tup', (M_.map_key(e, s2, a[1]), x))) for s2, x in M_.map_get(e, st, a[0], a[1])])


@mapmodel('values_mut')
def m_values_mut(e, st, fr, t, a, ga):
    ks = known_entries(e, st, a[0], 'values_mut')
    return mksrc(e, st, tuple(('one', ('mref', a[0][1], a[0][2] + (('key', k),))) for k, _ in ks))


@mapmodel('iter_mut')
def m_map_iter_mut(e, st, fr, t, a, ga):
    ks = known_entries(e, st, a[0], 'iter_mut')
    return mksrc(e, st, tuple(('one', ('tup', (k, ('mref', a[0][1], a[0][2] + (('key', k),))))) for k, _ in ks))


@mapmodel('retain')
def m_map_retain(e, st, fr, t, a, ga):
    work = [(st, a[1], ())]
    for k, _ in known_entries(e, st, a[0], 'retain'):
        nw = []
        for s, f, gone in work:
            for s2, v, nf in e.callv(s, f, [k, ('mref', a[0][1], a[0][2] + (('key', k),))]):
                nw.extend((s3, nf, gone if b else gone + (k,)) for s3, b in e.truth(s2, v))
        work = nw
    out = []
    for s, f, gone in work:
        v = D(e, s, a[0])
        out.append((setv(e, s, a[0], ('map', tuple(x for x in v[1] if x[1][1][0] not in gone))), UNIT))
    return out


@mapmodel('remove_entry')
def m_remove_entry(e, st, fr, t, a, ga):
    k = M_.map_key(e, st, a[1])
    out = []
    for s2, x in M_.M['std::collections::HashMap::remove'](e, st, fr, t, a, ga):
        for s3, p in e.opt(s2, x):
            out.append((s3, NONE if p is None else Some(('tup', (k, p)))))
    return out


@entrymodel('key')
def m_entry_key(e, st, fr, t, a, ga):
    ent = D(e, st, a[0])
    if ent[0] != 'entry':
        raise Undecided('entry')
    return one(st, ent[2])


@entrymodel('and_modify')
def m_and_modify(e, st, fr, t, a, ga):
    _, ref, k = a[0]
    out = []
    for s2, x in M_.map_get(e, st, ref, k):
        if x is None:
            out.append((s2, a[0]))
        else:
            out.extend((s3, a[0]) for s3, _, _ in e.callv(s2, a[1], [('mref', ref[1], ref[2] + (('key', k),))]))
    return out


@entrymodel('or_insert_with_key')
def m_or_insert_with_key(e, st, fr, t, a, ga):
    return M_.entry_slot(e, st, a[0], lambda s: call1(e, s, a[1], [a[0][2]]), M_.slotT(ga))


# ------------------------------------------------------------------ sources made by a function
@model('std::iter::repeat')
def m_repeat(e, st, fr, t, a, ga):
    return one(st, ('iter', 'repeat', a[0]))


@model('std::iter::repeat_n')
def m_repeat_n(e, st, fr, t, a, ga):
    n = as_int(D(e, st, a[1]))
    if n is None or n > 64:
        raise Undecided('repeat_n')
    return mksrc(e, st, tuple(('one', a[0]) for _ in range(n)))


@model('std::iter::from_fn')
def m_from_fn(e, st, fr, t, a, ga):
    return one(st, ('iter', 'from_fn', a[0]))


@model('std::iter::successors')
def m_successors(e, st, fr, t, a, ga):
    return one(st, ('iter', 'successors', a[0], a[1]))
