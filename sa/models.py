"""Models of the standard library (and of the few external crates) for the provenance analysis."""
import struct
import re
import ast
import eng as E
from eng import (Undecided, NeedEach, NeedPeel, Overshoot, NONE, UNIT, TRUE, FALSE, Some, Ok, Err, I, lit, cat,
                 render, rename, ek, has_acc, short)
from prog import *
import text as X

M = {}


def model(*names):
    def d(f):
        for n in names:
            M[n] = f
        return f
    return d


def norm(name):
    out = []
    d = 0
    i = 0
    while i < len(name):
        c = name[i]
        if c == '<':
            d += 1
        elif c == '>' and (i == 0 or name[i - 1] != '-'):
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    r = ''.join(out)
    if r.startswith('core::') or r.startswith('alloc::'):
        r = 'std::' + r.split('::', 1)[1]
    return r.replace('::::', '::')


_norm = {}


def lookup(name, t):
    n = _norm.get(name)
    if n is None:
        n = _norm[name] = norm(name)
    m = M.get(n)
    if m is None and t.get('trait') and t.get('m'):
        m = M.get(t['trait'] + '::' + t['m'])
    return m


def D(e, st, v):
    return e.deref(st, v)


def dstT(e, fr, t):
    if fr is not None and fr.body and 'dst' in t:
        pl = t['dst']
        if not pl[1]:
            return e.celltype.get((fr.id, pl[0]))
    return None


def one(st, v):
    return [(st, v)]


def strip_ref(T):
    while T[0] == 'r':
        T = T[2]
    if T[0] == 'a' and T[1] in ('std::boxed::Box', 'std::borrow::Cow'):
        return strip_ref(T[2][0])
    return T


# ===================================================================== identity-like
@model('std::clone::Clone::clone', 'std::borrow::ToOwned::to_owned', 'std::convert::AsRef::as_ref', 'std::ops::Deref::deref',
       'std::borrow::Borrow::borrow', 'std::string::String::as_str', 'std::hint::must_use', 'std::boxed::Box::new',
       'std::option::Option::as_deref', 'std::option::Option::as_ref', 'std::option::Option::cloned',
       'std::option::Option::copied', 'std::result::Result::as_ref', '[T]::to_vec', 'std::vec::Vec::as_slice',
       'std::string::String::into_boxed_str', 'str::as_bytes', 'std::string::String::into_bytes',
       'std::path::PathBuf::as_path', 'std::borrow::Cow::into_owned', 'std::string::String::as_bytes',
       'std::path::Path::to_path_buf', 'std::path::PathBuf::from', 'std::path::Path::new',
       '[T]::into_vec', '[T]::as_ref', 'std::string::String::into_string', 'str::to_owned', 'str::as_str',
       'std::string::String::from_str', 'std::iter::Iterator::fuse', 'std::mem::ManuallyDrop::new',
       'std::option::Option::as_slice')
def m_ident(e, st, fr, t, a, ga):
    return one(st, D(e, st, a[0]))


@model('std::iter::Iterator::by_ref', 'std::ops::DerefMut::deref_mut', 'std::convert::AsMut::as_mut', 'std::borrow::BorrowMut::borrow_mut',
       'std::vec::Vec::as_mut_slice')
def m_mident(e, st, fr, t, a, ga):
    return one(st, a[0])


@model('std::mem::take')
def m_take(e, st, fr, t, a, ga):
    v = D(e, st, a[0])
    st = st.copy()
    out = []
    for s2, d in default(e, st, ga[0]):
        s2 = s2.copy()
        e.wref(s2, a[0], d)
        out.append((s2, v))
    return out


@model('std::mem::replace')
def m_replace(e, st, fr, t, a, ga):
    v = D(e, st, a[0])
    st = st.copy()
    e.wref(st, a[0], a[1])
    return one(st, v)


@model('std::mem::swap')
def m_swap(e, st, fr, t, a, ga):
    x, y = D(e, st, a[0]), D(e, st, a[1])
    st = st.copy()
    e.wref(st, a[0], y)
    e.wref(st, a[1], x)
    return one(st, UNIT)


@model('std::mem::drop')
def m_drop(e, st, fr, t, a, ga):
    return one(st, UNIT)


# ===================================================================== Default / From / Into
def default(e, st, T):
    T = strip_ref(T)
    if T[0] == 'p':
        if T[1] in INTS:
            return one(st, I(0, T[1]))
        if T[1] == 'bool':
            return one(st, FALSE)
        if T[1] == 'str':
            return one(st, lit(''))
        if T[1] == 'char':
            return one(st, ('char', '\0'))
        return one(st, ('flt', '0.0'))
    if T[0] == 't':
        res = [(st, ())]
        for x in T[1]:
            res = [(s3, vs + (v,)) for s2, vs in res for s3, v in default(e, s2, x)]
        return [(s2, ('tup', vs)) for s2, vs in res]
    if T[0] == 'a':
        if T[1] == STRING:
            return one(st, lit(''))
        if T[1] == OPT:
            return one(st, NONE)
        if T[1] in VECS:
            return one(st, ('vec', ()))
        if T[1] in LMAPS or T[1] in HMAPS:
            return one(st, ('map', ()))
        p = e.p.find_impl('std::default::Default', 'default', T)
        if p:
            return e.call_local(st, p, [], T[2])
    return one(st, e.app('?default<%s>' % tn(T), [], T))


@model('std::default::Default::default')
def m_default(e, st, fr, t, a, ga):
    return default(e, st, ga[0])


def convert(e, st, v, S, T):
    """From/Into: value v of type S as T"""
    S, T = strip_ref(S), strip_ref(T)
    v = D(e, st, v)
    if S == T:
        return one(st, v)
    if T[0] == 'a' and T[1] == STRING and (S == STR_T or S == ('p', 'char')):
        if v[0] == 'str':
            return one(st, v)
        return one(st, ('str', char_segs(e, v)))
    if T[0] == 'a' and T[1] == OPT and T[2][0] == S:
        return one(st, Some(v))
    if T[0] == 'p' and S[0] == 'p' and T[1] in INTS and (S[1] in INTS or S[1] in ('bool', 'char')):
        if S[1] == 'bool':
            return [(s2, I(1 if b else 0, T[1])) for s2, b in e.truth(st, v)]
        return one(st, intcast(e, v, T[1]))
    if T[0] == 'p' and (T[1] in ('f64', 'f32') or T[1] == 'char' and v[0] == 'int'):
        return one(st, intcast(e, v, T[1]))
    p = e.p.find_impl('std::convert::From', 'from', T, [S])
    if p is None:
        p = e.p.find_impl('std::convert::From', 'from', T, [('r', False, S)])
    if p:
        if e.hooks.get(p):
            r = e.hooks[p](e, st, None, {'f': p, 'sp': None}, [v])
            if r is not None:
                return r
        return e.call_local(st, p, [v], (T, S))
    p = e.p.find_impl('std::convert::Into', 'into', S, [T])
    if p:
        return e.call_local(st, p, [v], (S, T))
    if v[0] in ('vec', 'map', 'str', 'arr') and (e.elemT(T) is not None or e.elemT(S) is not None):
        if v[0] == 'arr':
            return one(st, ('vec', e.seqitems(v)))
        return one(st, v)
    if e.elemT(S) is not None and e.elemT(T) is not None:
        return one(st, v)
    if T[0] == 'o' or T[0] == 'par' or S[0] == 'par':
        return one(st, v)
    return one(st, e.app('from<%s>' % tn(T), [v], T))


@model('std::convert::Into::into')
def m_into(e, st, fr, t, a, ga):
    return convert(e, st, a[0], ga[0], ga[1])


@model('std::convert::From::from')
def m_from(e, st, fr, t, a, ga):
    return convert(e, st, a[0], ga[1], ga[0])


def tryconv(e, st, v, S, T):
    S, T = strip_ref(S), strip_ref(T)
    p = e.p.find_impl('std::convert::TryFrom', 'try_from', T, [S])
    if p:
        return e.call_local(st, p, [v], (T, S))
    if T[0] == 'p' and S[0] == 'p' and T[1] in INTS and S[1] in INTS:
        v = D(e, st, v)
        if v[0] == 'int':
            w, sg = INTS[T[1]]
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
            if lo <= v[1] <= hi:
                return one(st, Ok(('int', v[1], T[1])))
            return one(st, Err(('sym', 'TryFromIntError', ('o', 'TryFromIntError'))))
        return one(st, ('sym', 'try_into<%s>(%s)' % (T[1], render(v)), ('a', RES, (T, ('o', 'TryFromIntError')))))
    r = convert(e, st, v, S, T)
    return [(s2, Ok(x)) for s2, x in r]


@model('std::convert::TryInto::try_into')
def m_tryinto(e, st, fr, t, a, ga):
    return tryconv(e, st, a[0], ga[0], ga[1])


@model('std::convert::TryFrom::try_from')
def m_tryfrom(e, st, fr, t, a, ga):
    return tryconv(e, st, a[0], ga[1], ga[0])


# ===================================================================== ? operator
CF = 'std::ops::ControlFlow'


@model('std::ops::Try::branch')
def m_branch(e, st, fr, t, a, ga):
    T = ga[0]
    v = D(e, st, a[0])
    name = v[1] if v[0] == 'adt' else T[1] if T[0] == 'a' else None
    out = []
    if name == OPT:
        for s2, p in e.opt(st, v):
            out.append((s2, ('adt', CF, 1, (NONE,)) if p is None else ('adt', CF, 0, (p,))))
        return out
    for s2, ok, p in e.res(st, v):
        out.append((s2, ('adt', CF, 0, (p,)) if ok else ('adt', CF, 1, (Err(p),))))
    return out


@model('std::ops::Try::from_output')
def m_from_output(e, st, fr, t, a, ga):
    if ga and ga[0][0] == 'a' and ga[0][1] == OPT:
        return one(st, Some(a[0]))
    return one(st, Ok(a[0]))


@model('std::ops::FromResidual::from_residual')
def m_residual(e, st, fr, t, a, ga):
    v = D(e, st, a[0])
    if v == NONE:
        return one(st, NONE)
    if v[0] != 'adt':
        v = e.expand(v, 1)
    x = v[3][0]
    T, R = ga[0], ga[1]
    if T[0] == 'a' and T[1] == RES and R[0] == 'a' and R[1] == RES:
        return [(s2, Err(y)) for s2, y in convert(e, st, x, R[2][1], T[2][1])]
    return one(st, Err(x))


# ===================================================================== Option / Result
def O(e, st, v, some, none):
    out = []
    for s2, p in e.opt(st, v):
        out.extend(none(s2) if p is None else some(s2, p))
    return out


def R(e, st, v, ok, err):
    out = []
    for s2, k, p in e.res(st, v):
        out.extend(ok(s2, p) if k else err(s2, p))
    return out


def call1(e, st, f, args):
    return [(s2, v) for s2, v, _ in e.callv(st, f, args)]


@model('std::option::Option::map')
def m_omap(e, st, fr, t, a, ga):
    return O(e, st, a[0], lambda s, p: [(s2, Some(v)) for s2, v in call1(e, s, a[1], [p])], lambda s: one(s, NONE))


@model('std::option::Option::and_then')
def m_oand(e, st, fr, t, a, ga):
    return O(e, st, a[0], lambda s, p: call1(e, s, a[1], [p]), lambda s: one(s, NONE))


@model('std::option::Option::and')
def m_oand1(e, st, fr, t, a, ga):
    return O(e, st, a[0], lambda s, p: one(s, a[1]), lambda s: one(s, NONE))


@model('std::option::Option::or')
def m_oor(e, st, fr, t, a, ga):
    return O(e, st, a[0], lambda s, p: one(s, Some(p)), lambda s: one(s, a[1]))


@model('std::option::Option::or_else')
def m_oorelse(e, st, fr, t, a, ga):
    return O(e, st, a[0], lambda s, p: one(s, Some(p)), lambda s: call1(e, s, a[1], []))


@model('std::option::Option::filter')
def m_ofilter(e, st, fr, t, a, ga):
    def some(s, p):
        out = []
        for s2, v in call1(e, s, a[1], [p]):
            for s3, b in e.truth(s2, v):
                out.append((s3, Some(p) if b else NONE))
        return out
    return O(e, st, a[0], some, lambda s: one(s, NONE))


@model('std::option::Option::is_some')
def m_is_some(e, st, fr, t, a, ga):
    return O(e, st, a[0], lambda s, p: one(s, TRUE), lambda s: one(s, FALSE))


@model('std::option::Option::is_none')
def m_is_none(e, st, fr, t, a, ga):
    return O(e, st, a[0], lambda s, p: one(s, FALSE), lambda s: one(s, TRUE))


@model('std::option::Option::is_some_and')
def m_is_some_and(e, st, fr, t, a, ga):
    return O(e, st, a[0], lambda s, p: call1(e, s, a[1], [p]), lambda s: one(s, FALSE))


@model('std::option::Option::is_none_or')
def m_is_none_or(e, st, fr, t, a, ga):
    return O(e, st, a[0], lambda s, p: call1(e, s, a[1], [p]), lambda s: one(s, TRUE))


@model('std::option::Option::ok_or_else')
def m_ok_or_else(e, st, fr, t, a, ga):
    return O(e, st, a[0], lambda s, p: one(s, Ok(p)), lambda s: [(s2, Err(v)) for s2, v in call1(e, s, a[1], [])])


@model('std::option::Option::ok_or')
def m_ok_or(e, st, fr, t, a, ga):
    return O(e, st, a[0], lambda s, p: one(s, Ok(p)), lambda s: one(s, Err(a[1])))


@model('std::option::Option::unwrap', 'std::option::Option::expect')
def m_ounwrap(e, st, fr, t, a, ga):
    def none(s):
        e.panic(s, fr, t, 'unwrap of None')
        return []
    return O(e, st, a[0], lambda s, p: one(s, p), none)


@model('std::option::Option::unwrap_unchecked', 'std::result::Result::unwrap_unchecked')
def m_unchecked(e, st, fr, t, a, ga):
    raise Undecided('unchecked unwrap')


@model('std::option::Option::unwrap_or')
def m_ounwrap_or(e, st, fr, t, a, ga):
    return O(e, st, a[0], lambda s, p: one(s, p), lambda s: one(s, a[1]))


@model('std::option::Option::unwrap_or_else')
def m_ounwrap_or_else(e, st, fr, t, a, ga):
    return O(e, st, a[0], lambda s, p: one(s, p), lambda s: call1(e, s, a[1], []))


@model('std::option::Option::unwrap_or_default')
def m_ounwrap_or_default(e, st, fr, t, a, ga):
    return O(e, st, a[0], lambda s, p: one(s, p), lambda s: default(e, s, ga[0]))


@model('std::option::Option::map_or')
def m_omap_or(e, st, fr, t, a, ga):
    return O(e, st, a[0], lambda s, p: call1(e, s, a[2], [p]), lambda s: one(s, a[1]))


@model('std::option::Option::map_or_else')
def m_omap_or_else(e, st, fr, t, a, ga):
    return O(e, st, a[0], lambda s, p: call1(e, s, a[2], [p]), lambda s: call1(e, s, a[1], []))


@model('std::option::Option::transpose')
def m_otranspose(e, st, fr, t, a, ga):
    return O(e, st, a[0],
             lambda s, p: R(e, s, p, lambda s2, v: one(s2, Ok(Some(v))), lambda s2, v: one(s2, Err(v))),
             lambda s: one(s, Ok(NONE)))


@model('std::result::Result::transpose')
def m_rtranspose(e, st, fr, t, a, ga):
    return R(e, st, a[0],
             lambda s, p: O(e, s, p, lambda s2, v: one(s2, Some(Ok(v))), lambda s2: one(s2, NONE)),
             lambda s, p: one(s, Some(Err(p))))


@model('std::option::Option::flatten')
def m_oflatten(e, st, fr, t, a, ga):
    return O(e, st, a[0], lambda s, p: one(s, p), lambda s: one(s, NONE))


@model('std::option::Option::zip')
def m_ozip(e, st, fr, t, a, ga):
    return O(e, st, a[0], lambda s, p: O(e, s, a[1], lambda s2, q: one(s2, Some(('tup', (p, q)))), lambda s2: one(s2, NONE)),
             lambda s: one(s, NONE))


@model('std::option::Option::take')
def m_otake(e, st, fr, t, a, ga):
    v = D(e, st, a[0])
    st = st.copy()
    e.wref(st, a[0], NONE)
    return one(st, v)


@model('std::option::Option::insert', 'std::option::Option::replace')
def m_oinsert(e, st, fr, t, a, ga):
    v = D(e, st, a[0])
    st = st.copy()
    e.wref(st, a[0], Some(a[1]))
    return one(st, v)


@model('std::option::Option::as_mut', 'std::option::Option::as_deref_mut')
def m_oasmut(e, st, fr, t, a, ga):
    r = a[0]
    out = []
    for s2, p in e.opt(st, r):
        if p is None:
            out.append((s2, NONE))
        elif r[0] == 'mref':
            out.append((s2, Some(('mref', r[1], r[2] + (('d', 1), ('f', 0, None))))))
        else:
            out.append((s2, Some(p)))
    return out


@model('std::option::Option::iter', 'std::option::Option::into_iter')
def m_oiter(e, st, fr, t, a, ga):
    return O(e, st, a[0], lambda s, p: mksrc(e, s, (('one', p),)), lambda s: mksrc(e, s, ()))


@model('std::result::Result::map')
def m_rmap(e, st, fr, t, a, ga):
    return R(e, st, a[0], lambda s, p: [(s2, Ok(v)) for s2, v in call1(e, s, a[1], [p])], lambda s, p: one(s, Err(p)))


@model('std::result::Result::map_err')
def m_rmap_err(e, st, fr, t, a, ga):
    return R(e, st, a[0], lambda s, p: one(s, Ok(p)), lambda s, p: [(s2, Err(v)) for s2, v in call1(e, s, a[1], [p])])


@model('std::result::Result::and_then')
def m_rand(e, st, fr, t, a, ga):
    return R(e, st, a[0], lambda s, p: call1(e, s, a[1], [p]), lambda s, p: one(s, Err(p)))


@model('std::result::Result::or_else')
def m_ror(e, st, fr, t, a, ga):
    return R(e, st, a[0], lambda s, p: one(s, Ok(p)), lambda s, p: call1(e, s, a[1], [p]))


@model('std::result::Result::ok')
def m_rok(e, st, fr, t, a, ga):
    return R(e, st, a[0], lambda s, p: one(s, Some(p)), lambda s, p: one(s, NONE))


@model('std::result::Result::err')
def m_rerr(e, st, fr, t, a, ga):
    return R(e, st, a[0], lambda s, p: one(s, NONE), lambda s, p: one(s, Some(p)))


@model('std::result::Result::is_ok')
def m_ris_ok(e, st, fr, t, a, ga):
    return R(e, st, a[0], lambda s, p: one(s, TRUE), lambda s, p: one(s, FALSE))


@model('std::result::Result::is_err')
def m_ris_err(e, st, fr, t, a, ga):
    return R(e, st, a[0], lambda s, p: one(s, FALSE), lambda s, p: one(s, TRUE))


@model('std::result::Result::unwrap', 'std::result::Result::expect')
def m_runwrap(e, st, fr, t, a, ga):
    def err(s, p):
        e.panic(s, fr, t, 'unwrap of Err')
        return []
    return R(e, st, a[0], lambda s, p: one(s, p), err)


@model('std::result::Result::unwrap_or')
def m_runwrap_or(e, st, fr, t, a, ga):
    return R(e, st, a[0], lambda s, p: one(s, p), lambda s, p: one(s, a[1]))


@model('std::result::Result::unwrap_or_else')
def m_runwrap_or_else(e, st, fr, t, a, ga):
    return R(e, st, a[0], lambda s, p: one(s, p), lambda s, p: call1(e, s, a[1], [p]))


@model('std::result::Result::unwrap_or_default')
def m_runwrap_or_default(e, st, fr, t, a, ga):
    return R(e, st, a[0], lambda s, p: one(s, p), lambda s, p: default(e, s, ga[0]))


@model('std::result::Result::map_or')
def m_rmap_or(e, st, fr, t, a, ga):
    return R(e, st, a[0], lambda s, p: call1(e, s, a[2], [p]), lambda s, p: one(s, a[1]))


@model('std::result::Result::map_or_else')
def m_rmap_or_else(e, st, fr, t, a, ga):
    return R(e, st, a[0], lambda s, p: call1(e, s, a[2], [p]), lambda s, p: call1(e, s, a[1], [p]))


@model('bool::then')
def m_then(e, st, fr, t, a, ga):
    out = []
    for s2, b in e.truth(st, a[0]):
        out.extend([(s3, Some(v)) for s3, v in call1(e, s2, a[1], [])] if b else one(s2, NONE))
    return out


@model('bool::then_some')
def m_then_some(e, st, fr, t, a, ga):
    return [(s2, Some(a[1]) if b else NONE) for s2, b in e.truth(st, a[0])]


@model('std::ops::FnMut::call_mut', 'std::ops::FnOnce::call_once', 'std::ops::Fn::call')
def m_callfn(e, st, fr, t, a, ga):
    args = a[1]
    args = list(args[1]) if args[0] == 'tup' else [args]
    out = []
    for s2, v, nf in e.callv(st, a[0], args):
        out.append((s2, v))
    return out


# ===================================================================== numbers
def tobits(v, w=None):
    """bit provenance, least significant first"""
    if v[0] == 'bits':
        return v[2]
    if v[0] == 'int':
        n = INTS[v[2]][0]
        return tuple((v[1] >> i) & 1 for i in range(n))
    if v[0] == 'bool':
        return (int(v[1]),)
    if v[0] == 'sym' and v[2][0] == 'p' and v[2][1] in INTS:
        return tuple((v[1], i) for i in range(INTS[v[2][1]][0]))
    return None


def frombits(bits, ty):
    if all(isinstance(b, int) for b in bits):
        n = sum(b << i for i, b in enumerate(bits))
        w, sg = INTS[ty]
        if sg and n >> (w - 1):
            n -= 1 << w
        return ('int', n, ty)
    p = bits[0][0] if isinstance(bits[0], tuple) else None
    return ('bits', ty, tuple(bits))


def tyof(v):
    if v[0] == 'int':
        return v[2]
    if v[0] == 'sym' and v[2][0] == 'p':
        return v[2][1]
    if v[0] == 'lin':
        return v[3]
    if v[0] == 'bits' or v[0] == 'cast':
        return v[1]
    return None


def normbits(v):
    """bits that are exactly all bits of one symbol of the same width -> that symbol"""
    if v[0] == 'bits':
        b = v[2]
        if isinstance(b[0], tuple) and all(isinstance(x, tuple) and x == (b[0][0], i) for i, x in enumerate(b)):
            return ('sym', b[0][0], ('p', v[1]))
    return v


def intcast(e, v, ty):
    if v[0] == 'bool':
        v = ('int', int(v[1]), 'u8')
    if v[0] == 'char' and ty in INTS:
        v = ('int', ord(v[1]), 'u32')
    if ty in INTS:
        w, sg = INTS[ty]
        if v[0] == 'int':
            n = v[1] & ((1 << w) - 1)
            if sg and n >> (w - 1):
                n -= 1 << w
            return ('int', n, ty)
        st = tyof(v)
        if st == ty:
            return v
        if v[0] in ('bits', 'sym') and st in INTS:
            w0, sg0 = INTS[st]
            if v[0] == 'sym' and w0 < w and not e.bits:
                return ('cast', ty, v)
            if v[0] == 'sym' and not e.bits:
                return ('cast', ty, v)
            b = tobits(v)
            if w <= w0:
                return normbits(frombits(b[:w], ty))
            return frombits(b + ((b[-1] if sg0 else 0),) * (w - w0), ty)
        if v[0] == 'cast' and v[1] == 'f64' and e.bits and w >= 64 and sg and tobits(v[2]) is not None:
            return intcast(e, v[2], ty)     # 32-bit values survive f64
        if v[0] == 'flt':
            try:
                f = float(v[1])
                lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
                return ('int', max(lo, min(hi, int(f))), ty)
            except (ValueError, OverflowError):
                pass
        return ('cast', ty, v)
    if ty == 'char' and v[0] == 'int':
        return ('char', chr(v[1]))
    if ty in ('f32', 'f64') and v[0] in ('int', 'flt'):
        try:
            f = float(v[1])
            return ('flt', repr(struct.unpack('<f', struct.pack('<f', f))[0] if ty == 'f32' else f))
        except (ValueError, OverflowError):
            pass
    if tyof(v) == ty:
        return v
    return ('cast', ty, v)


def bitarith(op, a, b, ty):
    x, y = tobits(a), tobits(b)
    if x is None or y is None or len(x) != len(y) or (a[0] == 'int' and b[0] == 'int'):
        return None
    w, sg = INTS[ty]
    if op == 'Add':
        if all(p == 0 or q == 0 for p, q in zip(x, y)):
            return tuple(q if p == 0 else p for p, q in zip(x, y))
        return None
    if op == 'Mul' and a[0] == 'int':
        a, b, x, y = b, a, y, x
    if b[0] != 'int' or b[1] <= 0 or b[1] & (b[1] - 1):
        return None
    k = b[1].bit_length() - 1
    if op == 'Mul':
        return (0,) * k + x[:w - k]
    if sg and x[-1] != 0:
        return None
    return x[k:] + (0,) * k if op == 'Div' else x[:k] + (0,) * (w - k)


def bits_is(e, a, b):
    x, y = tobits(a), tobits(b)
    return x is not None and x == y


@model('u32::from_be_bytes', 'u32::from_le_bytes', 'u32::to_be_bytes', 'u32::to_le_bytes')
def m_bebytes(e, st, fr, t, a, ga):
    n = norm(t['f']).split('::')[-1]
    v = D(e, st, a[0])
    if n.startswith('from'):
        if v[0] != 'arr':
            return None
        bs = [tobits(D(e, st, x)) for x in (reversed(v[1]) if 'be' in n else v[1])]
        if any(x is None for x in bs):
            return None
        return one(st, normbits(frombits(tuple(y for x in bs for y in x), 'u32')))
    x = tobits(v)
    if x is None:
        return None
    bs = [normbits(frombits(x[8 * i:8 * i + 8], 'u8')) for i in range(4)]
    return one(st, ('arr', tuple(reversed(bs) if 'be' in n else bs)))


def lin(v):
    """(path, constant) of a linear value"""
    if v[0] == 'int':
        return ('', v[1])
    if v[0] == 'lin':
        return (v[1], v[2])
    if v[0] == 'sym':
        return (v[1], 0)
    return None


def mklin(p, k, ty):
    if not p:
        return ('int', k, ty)
    if k == 0:
        return ('sym', p, ('p', ty))
    return ('lin', p, k, ty)


def wrap(n, ty):
    w, sg = INTS[ty]
    m = n & ((1 << w) - 1)
    if sg and m >> (w - 1):
        m -= 1 << w
    return m


def num_eq(e, st, a, b):
    a, b = normbits(a), normbits(b)
    if a[0] == 'int' and b[0] == 'int':
        return one(st, a[1] == b[1])
    if a == b:
        return one(st, True)
    if a[0] in ('bool',) or b[0] in ('bool',):
        if a[0] == 'bool' and b[0] == 'bool':
            return one(st, a[1] == b[1])
        c, x = (a, b) if a[0] == 'bool' else (b, a)
        return [(s2, v == c[1]) for s2, v in e.truth(st, x)]
    if a[0] == 'char' and b[0] == 'char':
        return one(st, a[1] == b[1])
    if a[0] in ('int', 'char', 'flt'):
        a, b = b, a
    if a[0] == 'bits' or b[0] == 'bits':
        ba, bb = tobits(a), tobits(b)
        if ba is not None and bb is not None and len(ba) == len(bb):
            unk = []
            for x, y in zip(ba, bb):
                if x == y:
                    continue
                if isinstance(x, int) and isinstance(y, int):
                    return one(st, False)
                unk.append((x, y))
            if not unk:
                return one(st, True)
            if all(isinstance(y, int) or isinstance(x, int) for x, y in unk):
                # every remaining bit is compared with a constant
                cur = [(st, True)]
                res = []
                for x, y in unk:
                    if isinstance(x, int):
                        x, y = y, x
                    nxt = []
                    for s2, ok in cur:
                        for s3, bit in e.pred(s2, ('b', '%s#%d' % x)):
                            if bit == bool(y):
                                nxt.append((s3, True))
                            else:
                                res.append((s3, False))
                    cur = nxt
                return cur + res
    if b[0] in ('int', 'char', 'flt'):
        la = lin(a) if a[0] == 'lin' else None
        if a[0] == 'sym' and a[1].startswith('len(') and b[0] == 'int' and b[1] == 0:
            return e.empty(st, a[1][4:-1])
        if a[0] == 'sym' and a[1] in e.lens and b[0] == 'int' and b[1] < minlen(e, a[1]):
            return one(st, False)
        if la:
            return e.eqconst(st, la[0], b[1] - la[1])
        key = a[1] if a[0] == 'sym' else render(a)
        return e.eqconst(st, key, b[1])
    ka, kb = sorted((render(a), render(b)))
    la, lb = lin(a), lin(b)
    if la and lb and la[0] == lb[0]:
        return one(st, la[1] == lb[1])
    va, vb = e.known(st, ka), e.known(st, kb)
    if va is not None and vb is not None:
        return one(st, va == vb)
    return e.pred(st, ('b', 'eq(%s, %s)' % (ka, kb)))


def num_lt(e, st, a, b):
    """a < b"""
    if a[0] in ('int', 'char') and b[0] in ('int', 'char'):
        return one(st, a[1] < b[1])
    if b[0] == 'char' and a[0] == 'sym' and a[2] == ('p', 'char'):
        c = b[1]
        return e.charpred(st, a[1], 'lt ' + c, lambda x: x < c)
    if a[0] == 'char' and b[0] == 'sym' and b[2] == ('p', 'char'):
        c = a[1]
        return [(s2, not v) for s2, v in e.charpred(st, b[1], 'le ' + c, lambda x: x <= c)]
    if a[0] == 'flt' and b[0] == 'flt':
        return one(st, float(a[1]) < float(b[1]))
    la, lb = lin(a), lin(b)
    if la and lb:
        if la[0] == lb[0]:
            return one(st, la[1] < lb[1])
        # unsigned against zero
        if la[0] and not lb[0] and lb[1] - la[1] <= 0 and tyof(a) in INTS and not INTS[tyof(a)][1] and la[1] == 0:
            return one(st, False)
        if a[0] == 'int' and a[1] == 0 and b[0] == 'sym' and b[1].startswith('len('):
            return [(s2, not v) for s2, v in e.empty(st, b[1][4:-1])]
        if b[0] == 'int' and b[1] == 1 and a[0] == 'sym' and a[1].startswith('len('):
            return e.empty(st, a[1][4:-1])
        ka, kb = e.known(st, la[0]) if la[0] else 0, e.known(st, lb[0]) if lb[0] else 0
        if isinstance(ka, int) and isinstance(kb, int):
            return one(st, ka + la[1] < kb + lb[1])
        if not lb[0]:
            return bound(e, st, la[0], lb[1] - la[1])
        if not la[0]:
            # c < x  <=>  not (x < c+1)
            return [(s2, not v) for s2, v in bound(e, st, lb[0], la[1] - lb[1] + 1)]
        # normalise x + k < y
        return e.pred(st, ('b', 'lt(%s, %s%+d)' % (la[0], lb[0], lb[1] - la[1])))
    return e.pred(st, ('b', 'lt(%s, %s)' % (render(a), render(b))))


def minlen(e, path):
    """the length a text cannot be shorter than"""
    segs = e.lens.get(path, ())
    return sum(len(x[1].encode()) if x[0] == 'L' else x[2] in ('id', 'word', 'char') for x in segs)


def bound(e, st, path, c):
    """path < c, keeping an interval per path"""
    lo, hi = st.facts.get(('in', path), (None, None))    # lo <= path < hi
    if path[:4] == 'len(' and path in e.lens and minlen(e, path) >= c:
        return one(st, False)
    if hi is not None and hi <= c:
        return one(st, True)
    if lo is not None and lo >= c:
        return one(st, False)
    return [(st.with_fact(('in', path), (lo, c)), True), (st.with_fact(('in', path), (c, hi)), False)]


def fromdata(v):
    """a number that is read from the input: any value of its type"""
    if v[0] != 'sym' or v[2][0] != 'p' or has_q(v[1]):
        return False
    return re.match(r'^[\w.@\[\]$*+]+$', v[1]) is not None or re.match(r'^(parse|radix16|from_json)<', v[1]) is not None


def has_q(p):
    return p.startswith('?') or '(?' in p or ' ?' in p


def may_overflow(e, st, o, a, b, r, ty):
    w, sg = INTS[ty]
    lo, hi = (-(1 << w - 1), (1 << w - 1) - 1) if sg else (0, (1 << w) - 1)

    def rng(v):
        if v[0] == 'int':
            return v[1], v[1]
        if not fromdata(v):
            return None
        l, h = st.facts.get(('in', v[1]), (None, None))
        q = st.facts.get(('q', v[1]))
        if isinstance(q, int):
            return q, q
        return (lo if l is None else l), (hi if h is None else h - 1)
    x, y = rng(a), rng(b)
    if x is None or y is None:
        return one(st, ('tup', (r, FALSE)))
    c = [{'Add': i + j, 'Sub': i - j, 'Mul': i * j}[o] for i in x for j in y]
    if min(c) >= lo and max(c) <= hi:
        return one(st, ('tup', (r, FALSE)))
    return [(s2, ('tup', (r, ('bool', z)))) for s2, z in e.pred(st, ('b', 'overflow(%s %s %s)' % (render(a), o, render(b))))]


def binop(e, st, op, a, b):
    ty = tyof(a) or tyof(b) or 'i32'
    if op in ('AddWithOverflow', 'SubWithOverflow', 'MulWithOverflow'):
        o = op[:3]
        if a[0] == 'int' and b[0] == 'int':
            n = {'Add': a[1] + b[1], 'Sub': a[1] - b[1], 'Mul': a[1] * b[1]}[o]
            return one(st, ('tup', (('int', wrap(n, ty), ty), ('bool', wrap(n, ty) != n))))
        r = binop(e, st, o, a, b)[0][1]
        if o == 'Sub' and not INTS.get(ty, (0, 1))[1]:
            out = []
            for s2, l in num_lt(e, st, a, b):
                out.append((s2, ('tup', (r, ('bool', l)))))
            return out
        if e.overflow and (fromdata(a) or fromdata(b)) and ty in INTS:
            return may_overflow(e, st, o, a, b, r, ty)
        return one(st, ('tup', (r, FALSE)))
    if op in ('Eq', 'Ne'):
        r = num_eq(e, st, a, b)
        return [(s2, ('bool', x == (op == 'Eq'))) for s2, x in r]
    if op in ('Lt', 'Gt', 'Le', 'Ge'):
        if op == 'Lt':
            r = num_lt(e, st, a, b)
        elif op == 'Gt':
            r = num_lt(e, st, b, a)
        elif op == 'Ge':
            r = [(s2, not x) for s2, x in num_lt(e, st, a, b)]
        else:
            r = [(s2, not x) for s2, x in num_lt(e, st, b, a)]
        return [(s2, ('bool', x)) for s2, x in r]
    if a[0] == 'bool' or b[0] == 'bool' or (a[0] == 'sym' and a[2] == BOOL_T):
        out = []
        for s2, x in e.truth(st, a):
            for s3, y in e.truth(s2, b):
                out.append((s3, ('bool', {'BitAnd': x and y, 'BitOr': x or y, 'BitXor': x != y}[op])))
        return out
    if e.bits and op in ('Mul', 'Div', 'Rem', 'Add') and ty in INTS:
        r = bitarith(op, a, b, ty)
        if r is not None:
            return one(st, normbits(frombits(r, ty)))
    if op in ('Add', 'Sub', 'AddUnchecked', 'SubUnchecked'):
        la, lb = lin(a), lin(b)
        o = op[:3]
        if la and lb and (not lb[0] or (o == 'Add' and not la[0])):
            p = la[0] or lb[0]
            k = la[1] + lb[1] if o == 'Add' else la[1] - lb[1]
            return one(st, mklin(p, wrap(k, ty) if not p else k, ty))
        if la and lb and o == 'Sub' and la[0] == lb[0]:
            return one(st, ('int', la[1] - lb[1], ty))
        return one(st, ('sym', '(%s %s %s)' % (render(a), '+' if o == 'Add' else '-', render(b)), ('p', ty)))
    if op in ('Shl', 'Shr', 'ShlUnchecked', 'ShrUnchecked') and b[0] == 'int':
        x = tobits(a)
        if x is not None:
            n = b[1]
            w, sg = INTS[ty]
            if op.startswith('Shl'):
                r = (0,) * n + x[:w - n]
            else:
                r = x[n:] + ((x[-1] if sg else 0),) * n
            return one(st, normbits(frombits(r, ty)))
    if op in ('BitAnd', 'BitOr', 'BitXor'):
        x, y = tobits(a), tobits(b)
        if x is not None and y is not None and len(x) == len(y):
            r = []
            for p, q in zip(x, y):
                if op == 'BitAnd':
                    z = 0 if p == 0 or q == 0 else q if p == 1 else p if q == 1 else p if p == q else None
                elif op == 'BitOr':
                    z = 1 if p == 1 or q == 1 else q if p == 0 else p if q == 0 else p if p == q else None
                else:
                    z = q if p == 0 else p if q == 0 else 0 if p == q else None
                if z is None:
                    z = ('(%s %s %s)' % (p, op, q), 0)
                r.append(z)
            return one(st, normbits(frombits(tuple(r), ty)))
    if a[0] == 'int' and b[0] == 'int':
        f = {'Mul': lambda x, y: x * y, 'Div': lambda x, y: int(x / y) if y else None, 'Rem': lambda x, y: x - y * int(x / y) if y else None}
        if op in f:
            r = f[op](a[1], b[1])
            if r is not None:
                return one(st, ('int', wrap(r, ty), ty))
    if op == 'Offset':
        raise Undecided('pointer arithmetic')
    return one(st, ('sym', '(%s %s %s)' % (render(a), op, render(b)), ('p', ty)))


@model('i32::is_negative', 'i64::is_negative', 'i8::is_negative', 'i16::is_negative', 'isize::is_negative')
def m_isneg(e, st, fr, t, a, ga):
    v = D(e, st, a[0])
    return [(s2, ('bool', b)) for s2, b in num_lt(e, st, v, ('int', 0, tyof(v) or 'i32'))]


@model('i32::is_positive', 'i64::is_positive')
def m_ispos(e, st, fr, t, a, ga):
    v = D(e, st, a[0])
    return [(s2, ('bool', b)) for s2, b in num_lt(e, st, ('int', 0, tyof(v) or 'i32'), v)]


@model('std::cmp::PartialOrd::lt')
def m_lt(e, st, fr, t, a, ga):
    return [(s2, ('bool', b)) for s2, b in num_lt(e, st, D(e, st, a[0]), D(e, st, a[1]))]


@model('std::cmp::PartialOrd::gt')
def m_gt(e, st, fr, t, a, ga):
    return [(s2, ('bool', b)) for s2, b in num_lt(e, st, D(e, st, a[1]), D(e, st, a[0]))]


@model('std::cmp::PartialOrd::ge')
def m_ge(e, st, fr, t, a, ga):
    return [(s2, ('bool', not b)) for s2, b in num_lt(e, st, D(e, st, a[0]), D(e, st, a[1]))]


@model('std::cmp::PartialOrd::le')
def m_le(e, st, fr, t, a, ga):
    return [(s2, ('bool', not b)) for s2, b in num_lt(e, st, D(e, st, a[1]), D(e, st, a[0]))]


@model('std::cmp::Ord::max', 'std::cmp::Ord::min', 'std::cmp::max', 'std::cmp::min')
def m_max(e, st, fr, t, a, ga):
    x, y = D(e, st, a[0]), D(e, st, a[1])
    if tyof(x) not in INTS and tyof(y) not in INTS:
        raise Undecided('the larger of %s and %s' % (render(x)[:60], render(y)[:60]))
    big = norm(t['f']).endswith('max')
    return [(s2, (y if b == big else x)) for s2, b in num_lt(e, st, x, y)]


@model('std::cmp::Ord::clamp')
def m_clamp(e, st, fr, t, a, ga):
    x, lo, hi = (D(e, st, v) for v in a[:3])
    if tyof(x) not in INTS:
        raise Undecided('clamp of %s' % render(x)[:60])
    out = []
    for s2, b in num_lt(e, st, x, lo):
        if b:
            out.append((s2, lo))
        else:
            out.extend((s3, hi if c else x) for s3, c in num_lt(e, s2, hi, x))
    return out


def int_methods():
    for ty, (w, sg) in INTS.items():
        lo, hi = (-(1 << w - 1), (1 << w - 1) - 1) if sg else (0, (1 << w) - 1)

        def arith(kind, op, ty=ty, lo=lo, hi=hi):
            f = {'add': lambda x, y: x + y, 'sub': lambda x, y: x - y, 'mul': lambda x, y: x * y}[op]
            OP = op.capitalize()

            def h(e, st, fr, t, a, ga):
                x, y = D(e, st, a[0]), D(e, st, a[1])
                if x[0] == 'int' and y[0] == 'int':
                    r = f(x[1], y[1])
                    ok = lo <= r <= hi
                    if kind == 'checked':
                        return one(st, Some(('int', r, ty)) if ok else NONE)
                    if kind == 'saturating':
                        return one(st, ('int', min(max(r, lo), hi), ty))
                    return one(st, ('int', wrap(r, ty), ty))
                if op == 'sub' and lo == 0 and kind != 'wrapping':
                    out = []
                    for s2, b in num_lt(e, st, x, y):
                        if b:
                            out.append((s2, NONE if kind == 'checked' else ('int', 0, ty)))
                        else:
                            out.extend((s3, Some(v) if kind == 'checked' else v) for s3, v in binop(e, s2, OP, x, y))
                    return out
                if op == 'add' and kind != 'wrapping':
                    # counters are assumed not to reach the end of their range
                    return [(s3, Some(v) if kind == 'checked' else v) for s3, v in binop(e, st, OP, x, y)]
                if kind == 'wrapping' and op != 'mul':
                    return binop(e, st, OP, x, y)
                raise Undecided('%s_%s of %s and %s' % (kind, op, render(x)[:60], render(y)[:60]))
            return h
        for kind in ('checked', 'saturating', 'wrapping'):
            for op in ('add', 'sub', 'mul'):
                M.setdefault('%s::%s_%s' % (ty, kind, op), arith(kind, op))

        def unary(g, name, ty=ty):
            def h(e, st, fr, t, a, ga):
                x = [D(e, st, v) for v in a]
                if all(v[0] == 'int' for v in x):
                    return one(st, g(*[v[1] for v in x]))
                raise Undecided('%s of %s' % (name, render(x[0])[:60]))
            return h
        I = lambda n, ty=ty: ('int', wrap(n, ty), ty)
        for nm, g in (('abs', lambda x, I=I: I(abs(x))), ('signum', lambda x, I=I: I((x > 0) - (x < 0))), ('pow', lambda x, y, I=I: I(x ** y)), ('unsigned_abs', lambda x, ty=ty: ('int', abs(x), 'u' + ty[1:])),
                      ('abs_diff', lambda x, y, ty=ty: ('int', abs(x - y), 'u' + ty[1:])), ('count_ones', lambda x, w=w: ('int', bin(x & ((1 << w) - 1)).count('1'), 'u32')),
                      ('rem_euclid', lambda x, y, I=I: I(x % abs(y)))):
            M.setdefault('%s::%s' % (ty, nm), unary(g, nm))


int_methods()


# ===================================================================== equality
def eq(e, st, a, b):
    """[(state, bool)] structural equality of two values"""
    a, b = D(e, st, a), D(e, st, b)
    if a == b and not has_acc(a):
        return one(st, True)
    if a[0] == 'str' or b[0] == 'str':
        if a[0] != 'str' or b[0] != 'str':
            return e.pred(st, ('b', 'eq(%s, %s)' % tuple(sorted((render(a), render(b))))))
        return X.eq(e, st, a[1], b[1])
    if a[0] == 'flt' and b[0] == 'flt':
        return one(st, float(a[1]) == float(b[1]))
    if a[0] in ('int', 'bool', 'char', 'flt', 'lin', 'bits', 'cast') or b[0] in ('int', 'bool', 'char', 'flt', 'lin', 'bits', 'cast'):
        return num_eq(e, st, a, b)
    ka = a[1] if a[0] == 'adt' else a[2][1] if a[0] == 'sym' and a[2][0] == 'a' else None
    kb = b[1] if b[0] == 'adt' else b[2][1] if b[0] == 'sym' and b[2][0] == 'a' else None
    if ka and ka == kb and ka in e.p.adts and (a[0] == 'adt' or b[0] == 'adt'):
        out = []
        for s2, i in e.variant(st, a):
            for s3, j in e.variant(s2, b):
                if i != j:
                    out.append((s3, False))
                    continue
                x = a if a[0] == 'adt' else e.expand(a, i)
                y = b if b[0] == 'adt' else e.expand(b, j)
                out.extend(eq_all(e, s3, list(zip(x[3], y[3]))))
        return out
    if a[0] == 'tup' and b[0] == 'tup':
        return eq_all(e, st, list(zip(a[1], b[1])))
    if a[0] == 'sym' and b[0] == 'sym' and a[2][0] == 'p':
        return num_eq(e, st, a, b)
    if a[0] in ('vec', 'arr') and b[0] in ('vec', 'arr'):
        x, y = e.seqitems(a), e.seqitems(b)
        if all(i[0] == 'one' for i in x) and all(i[0] == 'one' for i in y):
            if len(x) != len(y):
                return one(st, False)
            return eq_all(e, st, [(p[1], q[1]) for p, q in zip(x, y)])
    return e.pred(st, ('b', 'eq(%s, %s)' % tuple(sorted((render(a), render(b))))))


def eq_all(e, st, pairs):
    cur = [(st, True)]
    out = []
    for x, y in pairs:
        nx = []
        for s2, _ in cur:
            for s3, b in eq(e, s2, x, y):
                (nx if b else out).append((s3, b))
        cur = nx
    return cur + out


@model('str::eq_ignore_ascii_case')
def m_eqic(e, st, fr, t, a, ga):
    x, y = D(e, st, a[0]), D(e, st, a[1])
    if x == y:
        return one(st, TRUE)
    if all(v[0] == 'str' and all(q[0] == 'L' for q in v[1]) for v in (x, y)):
        l = [''.join(q[1] for q in v[1]) for v in (x, y)]
        low = lambda z: ''.join(chr(ord(c) + 32) if 'A' <= c <= 'Z' else c for c in z)
        return one(st, ('bool', low(l[0]) == low(l[1])))
    return one(st, e.app('eq_ignore_case', [x, y], BOOL_T))


@model('str::is_ascii')
def m_isascii(e, st, fr, t, a, ga):
    x = D(e, st, a[0])
    if x[0] == 'str' and all(q[0] == 'L' for q in x[1]):
        return one(st, TRUE if all(q[1].isascii() for q in x[1]) else FALSE)
    r = e.app('is_ascii', [x], BOOL_T)
    return one(st, r)


@model('std::cmp::PartialEq::eq', 'str::eq')
def m_eq(e, st, fr, t, a, ga):
    return [(s2, ('bool', b)) for s2, b in eq(e, st, a[0], a[1])]


@model('std::cmp::PartialEq::ne')
def m_ne(e, st, fr, t, a, ga):
    v = D(e, st, a[0])
    T = strip_ref(ga[0]) if ga else None
    if T and T[0] == 'a':
        p = e.p.find_impl('std::cmp::PartialEq', 'eq', T, [strip_ref(x) for x in ga[1:]])
        if p:
            out = []
            for s2, r in e.call_local(st, p, a, ga):
                for s3, b in e.truth(s2, r):
                    out.append((s3, ('bool', not b)))
            return out
    return [(s2, ('bool', not b)) for s2, b in eq(e, st, a[0], a[1])]


# ===================================================================== formatting
def char_segs(e, v):
    if v[0] == 'char':
        return (('L', v[1]),)
    if v[0] == 'sym':
        return (('A', v[1], 'char', v),)
    raise Undecided('char of %s' % render(v))


def display(e, st, v):
    """[(state, segs)]"""
    v = D(e, st, v)
    k = v[0]
    if k == 'str':
        return one(st, X.embed(v[1]))
    if k == 'int':
        return one(st, (('L', str(v[1])),))
    if k == 'bool':
        return one(st, (('L', 'true' if v[1] else 'false'),))
    if k == 'char':
        return one(st, (('L', v[1]),))
    if k == 'flt':
        return one(st, (('A', 'f' + v[1], 'num', v),))
    if k == 'sym' and v[2] == BOOL_T:
        return [(s2, (('L', 'true' if b else 'false'),)) for s2, b in e.truth(st, v)]
    if k == 'sym' and v[2] == ('p', 'char'):
        return one(st, char_segs(e, v))
    if k == 'sym' and v[2][0] == 'p' or k in ('lin', 'cast', 'bits'):
        kn = e.known(st, v[1]) if k == 'sym' else None
        if kn is not None:
            return one(st, (('L', str(kn)),))
        return one(st, (('A', render(v), 'num', v),))
    T = ('a', v[1], ()) if k == 'adt' else v[2] if k == 'sym' else None
    if T and T[0] == 'a':
        p = e.p.find_impl('std::fmt::Display', 'fmt', T)
        if p is None:
            for ar, path, im in e.p.implidx.get(('std::fmt::Display', 'fmt'), []):
                if ar[0][0] == 'a' and ar[0][1] == T[1] and path in e.p.bodies:
                    p = path
        if p:
            return via_fmt(e, st, p, v, T)
    return one(st, (('A', 'display(%s)' % render(v), 'raw', v),))


def via_fmt(e, st, path, v, T):
    c = ('tmp', e.fresh())
    st = st.copy()
    st.cells[c] = ('str', ())
    out = []
    for s2, r in e.call_local(st, path, [v, ('mref', c, ())], T[2]):
        s2 = s2.copy()
        w = s2.cells.pop(c)
        out.append((s2, w[1]))
    return out


@model('std::string::ToString::to_string')
def m_to_string(e, st, fr, t, a, ga):
    return [(s2, ('str', x)) for s2, x in display(e, st, a[0])]


@model('std::fmt::rt::Argument::new_display')
def m_argd(e, st, fr, t, a, ga):
    return one(st, ('fmtarg', 'd', D(e, st, a[0])))


@model('std::fmt::rt::Argument::new_debug')
def m_argdbg(e, st, fr, t, a, ga):
    return one(st, ('fmtarg', 'dbg', D(e, st, a[0])))


@model('std::fmt::rt::Argument::new_lower_hex')
def m_argx(e, st, fr, t, a, ga):
    return one(st, ('fmtarg', 'x', D(e, st, a[0])))


@model('std::fmt::rt::Argument::new_upper_hex')
def m_argX(e, st, fr, t, a, ga):
    return one(st, ('fmtarg', 'X', D(e, st, a[0])))


@model('std::fmt::Arguments::new')
def m_args(e, st, fr, t, a, ga):
    return one(st, ('fmtargs', a[0], a[1] if len(a) > 1 else ('arr', ())))


@model('std::fmt::Arguments::from_str', 'std::fmt::Arguments::new_const')
def m_argsstr(e, st, fr, t, a, ga):
    v = D(e, st, a[0])
    if v[0] == 'arr':
        v = ('str', cat(*[x[1] for x in v[1]]))
    return one(st, ('fmtargs', v, ('arr', ())))


def template(b):
    """decode a format template: list of ('L', text) | ('P', arg index, flags, width, precision)"""
    out = []
    i = 0
    nxt = 0
    while True:
        n = b[i]
        i += 1
        if n == 0:
            return out
        if n < 0x80:
            out.append(('L', bytes(b[i:i + n]).decode()))
            i += n
        elif n == 0x80:
            ln = b[i] | b[i + 1] << 8
            i += 2
            out.append(('L', bytes(b[i:i + ln]).decode()))
            i += ln
        else:
            fl = w = pr = None
            if n & 1:
                fl = b[i] | b[i + 1] << 8 | b[i + 2] << 16 | b[i + 3] << 24
                i += 4
            if n & 2:
                w = b[i] | b[i + 1] << 8
                i += 2
            if n & 4:
                pr = b[i] | b[i + 1] << 8
                i += 2
            if n & 8:
                nxt = b[i] | b[i + 1] << 8
                i += 2
            out.append(('P', nxt, fl, w, pr, bool(n & 16), bool(n & 32)))
            nxt += 1


def fmt(e, st, fa):
    """[(state, segs)] of an Arguments value"""
    if fa[0] != 'fmtargs':
        raise Undecided('format arguments %s' % render(fa))
    if fa[1][0] == 'str':
        return one(st, fa[1][1])
    if fa[1][0] != 'bytes':
        raise Undecided('format template')
    parts = template(fa[1][1])
    args = fa[2]
    args = args[1] if args[0] == 'arr' else tuple(x[1] for x in e.seqitems(args))
    res = [(st, ())]
    for p in parts:
        if p[0] == 'L':
            res = [(s2, cat(acc, (p,))) for s2, acc in res]
            continue
        _, idx, fl, w, pr, iw, ip = p
        if idx >= len(args):
            raise Undecided('format argument')
        arg = args[idx]
        nr = []
        for s2, acc in res:
            if arg[0] != 'fmtarg':
                raise Undecided('format argument %s' % render(arg))
            if arg[1] == 'dbg':
                nr.append((s2, cat(acc, (('A', 'debug(%s)' % render(arg[2]), 'raw'),))))
            elif arg[1] in 'xX':
                nr.append((s2, cat(acc, (('A', 'hex%s(%s;%s)' % (w if w else '', arg[1] + (':0' if fl and fl & (1 << 24) else ''), render(arg[2])), 'num', ('hex', arg[1], fl, w, arg[2])),))))
            elif fl or w or pr is not None:
                for s3, x in display(e, s2, arg[2]):
                    if len(x) == 1 and x[0][0] == 'L' and w and fl and fl & (1 << 24):
                        y = (('L', x[0][1].rjust(w, '0')),)
                    elif x == () or all(q[0] == 'L' for q in x):
                        y = (('L', x[0][1].ljust(w or 0)),) if x else ()
                        if arg[2][0] in ('int',):
                            y = (('L', x[0][1].rjust(w or 0)),)
                    else:
                        y = (('A', 'pad%s%s(%s)' % ('0' if fl and fl & (1 << 24) else '', w, X.srender(x)), 'num', ('pad', fl, w, pr, arg[2])),)
                    nr.append((s3, cat(acc, y)))
            else:
                for s3, x in display(e, s2, arg[2]):
                    nr.append((s3, cat(acc, x)))
        res = nr
    return res


@model('std::fmt::format')
def m_format(e, st, fr, t, a, ga):
    return [(s2, ('str', x)) for s2, x in fmt(e, st, a[0])]


@model('std::fmt::Formatter::write_fmt', 'std::fmt::Write::write_fmt')
def m_write_fmt(e, st, fr, t, a, ga):
    out = []
    for s2, x in fmt(e, st, a[1]):
        s2 = s2.copy()
        cur = D(e, s2, a[0])
        e.wref(s2, a[0], ('str', cat(cur[1], x)))
        out.append((s2, Ok(UNIT)))
    return out


@model('std::fmt::Formatter::write_str', 'std::fmt::Write::write_str')
def m_write_str(e, st, fr, t, a, ga):
    s2 = st.copy()
    cur = D(e, s2, a[0])
    e.wref(s2, a[0], ('str', cat(cur[1], X.embed(D(e, st, a[1])[1]))))
    return one(s2, Ok(UNIT))


@model('std::fmt::Formatter::write_char', 'std::fmt::Write::write_char')
def m_write_char(e, st, fr, t, a, ga):
    s2 = st.copy()
    cur = D(e, s2, a[0])
    e.wref(s2, a[0], ('str', cat(cur[1], char_segs(e, D(e, st, a[1])))))
    return one(s2, Ok(UNIT))


@model('std::fmt::Display::fmt')
def m_display_fmt(e, st, fr, t, a, ga):
    out = []
    for s2, x in display(e, st, a[0]):
        s2 = s2.copy()
        cur = D(e, s2, a[1])
        e.wref(s2, a[1], ('str', cat(cur[1], x)))
        out.append((s2, Ok(UNIT)))
    return out


@model('std::panicking::panic_fmt', 'std::panicking::panic', 'std::rt::panic_fmt', 'std::panicking::unimplemented_default_msg',
       'std::panicking::panic_explicit', 'std::panicking::unreachable_display', 'std::panicking::panic_display', 'std::rt::begin_panic')
def m_panic(e, st, fr, t, a, ga):
    e.panic(st, fr, t, 'panic')
    return []


@model('std::process::exit', 'std::process::abort')
def m_exit(e, st, fr, t, a, ga):
    e.panic(st, fr, t, 'exit')
    return []


# ===================================================================== Vec and slices
def items(e, st, v):
    return e.seqitems(D(e, st, v))


def setv(e, st, r, v):
    st = st.copy()
    e.wref(st, r, v)
    return st


@model('std::vec::Vec::new', 'std::vec::Vec::with_capacity', 'std::collections::VecDeque::new')
def m_vec_new(e, st, fr, t, a, ga):
    return one(st, ('vec', ()))


@model('std::vec::Vec::push', 'std::collections::VecDeque::push_back')
def m_push(e, st, fr, t, a, ga):
    return one(setv(e, st, a[0], ('vec', items(e, st, a[0]) + (('one', a[1]),))), UNIT)


@model('std::vec::Vec::append')
def m_append(e, st, fr, t, a, ga):
    x = items(e, st, a[1])
    st = setv(e, st, a[0], ('vec', items(e, st, a[0]) + x))
    return one(setv(e, st, a[1], ('vec', ())), UNIT)


@model('std::vec::Vec::extend_from_slice')
def m_extend_slice(e, st, fr, t, a, ga):
    return one(setv(e, st, a[0], ('vec', items(e, st, a[0]) + items(e, st, a[1]))), UNIT)


@model('std::vec::Vec::clear', 'std::collections::HashMap::clear', 'ritelinked::LinkedHashMap::clear')
def m_clear(e, st, fr, t, a, ga):
    v = D(e, st, a[0])
    k = e.collkind(v)
    return one(setv(e, st, a[0], (k, ())), UNIT)


@model('std::vec::Vec::reserve', 'std::vec::Vec::shrink_to_fit', 'std::string::String::reserve')
def m_nop(e, st, fr, t, a, ga):
    return one(st, UNIT)


def is_empty(e, st, v):
    """[(st, bool)] emptiness of a collection"""
    v = D(e, st, v)
    if v[0] == 'str':
        return X.is_empty(e, st, v[1])
    if v[0] == 'sym':
        if e.elemT(v[2]) is not None or e.mapT(v[2]):
            return e.empty(st, v[1])
        return e.pred(st, ('b', 'is_empty(%s)' % render(v)))
    if v[0] == 'arr':
        return one(st, not v[1])
    out = []
    cur = [st]
    its = list(v[1])
    # certain members first
    for it in its:
        if it[0] in ('one', 'set', 'upd') or (it[0] == 'acc' and it[2]):
            return one(st, False)
    for it in its:
        nx = []
        for s2 in cur:
            if it[0] == 'acc':
                raise NeedPeel(it[1])
            if it[0] == 'rest':
                for s3, b in e.pred(s2, ('e', '%s[%s%+d..]' % (it[1], it[2], it[3]))):
                    (nx.append(s3) if b else out.append((s3, False)))
                continue
            if it[0] == 'each':
                if any(not b for _, b in it[3]):
                    key = ('e', '%s/%s?%s' % (it[1], it[2], E._facts(tuple(g for gs, b in it[3] if b for g in gs))))
                    if s2.facts.get(ek(it[1], it[2])) is True:
                        nx.append(s2)
                        continue
                    for s3, b in e.pred(s2, key):
                        (nx.append(s3) if b else out.append((s3, False)))
                    continue
                for s3, b in e.empty(s2, it[1], it[2]):
                    (nx.append(s3) if b else out.append((s3, False)))
                continue
            raise Undecided('emptiness of %s' % render(v))
        cur = nx
    return [(s2, True) for s2 in cur] + out


@model('std::vec::Vec::is_empty', '[T]::is_empty', 'std::collections::HashMap::is_empty', 'ritelinked::LinkedHashMap::is_empty',
       'std::string::String::is_empty', 'str::is_empty', 'std::collections::VecDeque::is_empty')
def m_is_empty(e, st, fr, t, a, ga):
    return [(s2, ('bool', b)) for s2, b in is_empty(e, st, a[0])]


def length(e, st, v):
    v = D(e, st, v)
    if v[0] == 'sym':
        return ('sym', 'len(%s)' % v[1], ('p', 'usize'))
    if v[0] == 'arr':
        return I(len(v[1]))
    if v[0] == 'str':
        if all(x[0] == 'L' for x in v[1]):
            return I(sum(len(x[1].encode()) for x in v[1]))
        n = 'len(%s)' % (v[1][0][1] if len(v[1]) == 1 and v[1][0][0] == 'A' else X.srender(v[1]))
        if all(x[0] in 'LA' for x in v[1]):
            e.lens[n] = v[1]
        return ('sym', n, ('p', 'usize'))
    its = v[1]
    if all(x[0] == 'one' for x in its):
        return I(len(its))
    if len(its) == 1 and its[0][0] == 'each' and not its[0][2] and len(its[0][3]) == 1 and len(its[0][3][0][1]) == 1:
        return ('sym', 'len(%s)' % its[0][1], ('p', 'usize'))
    return ('sym', 'len(%s)' % render(v), ('p', 'usize'))


@model('std::vec::Vec::len', '[T]::len', 'std::collections::HashMap::len', 'ritelinked::LinkedHashMap::len', 'std::string::String::len',
       'str::len', 'std::collections::VecDeque::len')
def m_len(e, st, fr, t, a, ga):
    return one(st, length(e, st, a[0]))


def end_elem(e, st, v, last):
    """[(st, item or None)]"""
    its = list(e.seqitems(D(e, st, v)))
    if last:
        its.reverse()
    if not its:
        return one(st, None)
    it = its[0]
    if it[0] == 'one':
        return one(st, it[1])
    if it[0] == 'each':
        out = []
        _, P, mod, alts = it
        for s2, b in e.empty(st, P, mod):
            if b:
                rest = tuple(reversed(its[1:])) if last else tuple(its[1:])
                out.extend(end_elem(e, s2, ('vec', rest), last))
                continue
            nm = '[$]' if last else {'': '[0]', 'init': '[0]', 'tail': '[1]'}.get(mod, '[?]')
            for g, body in alts:
                s3 = e.guards_state(s2, rename(tuple(g), P + '[*]', P + nm))
                if s3 is None:
                    continue
                bd = rename(tuple(body), P + '[*]', P + nm)
                if not bd or bd[0][0] != 'one':
                    raise Undecided('first/last of filtered sequence')
                out.append((s3, bd[-1 if last else 0][1]))
        return out
    if it[0] == 'rest' and not last:
        Q, base, off = it[1:]
        out = []
        for s2, b in e.pred(st, ('e', '%s[%s%+d..]' % (Q, base, off))):
            out.append((s2, None if b else ('sym', '%s[%s%+d]' % (Q, base, off), ('o', '?'))))
        return out
    if it[0] == 'acc':
        raise NeedPeel(it[1])
    raise Undecided('first/last')


def fo(r):
    return [(s2, NONE if v is None else Some(v)) for s2, v in r]


@model('[T]::first', 'std::collections::VecDeque::front')
def m_first(e, st, fr, t, a, ga):
    return fo(end_elem(e, st, a[0], False))


@model('[T]::last', 'std::collections::VecDeque::back')
def m_last(e, st, fr, t, a, ga):
    try:
        return fo(end_elem(e, st, a[0], True))
    except NeedPeel:
        v = D(e, st, a[0])
        T = dstT(e, fr, t)
        return one(st, e.app('?last', [v], T or ('o', '?')))


def as_int(v):
    return v[1] if v[0] == 'int' else None


def index(e, st, v, idx):
    v = D(e, st, v)
    idx = D(e, st, idx)
    n = as_int(idx)
    if v[0] == 'arr' and n is not None:
        return v[1][n]
    if v[0] == 'vec' and n is not None and all(x[0] == 'one' for x in v[1][:n + 1]) and len(v[1]) > n:
        return v[1][n][1]
    if v[0] == 'sym':
        T = e.elemT(v[2])
        if T:
            r = render(idx)
            if idx[0] == 'sym' and idx[1] == 'idx(%s)' % v[1]:
                r = '*'
            return e.mk('%s[%s]' % (v[1], r), T)
    raise Undecided('index into %s' % render(v))


def cindex(e, st, v, off, from_end):
    v = D(e, st, v)
    if v[0] == 'arr':
        return v[1][-off] if from_end else v[1][off]
    if v[0] == 'vec' and all(x[0] == 'one' for x in v[1]):
        return v[1][-off][1] if from_end else v[1][off][1]
    if v[0] == 'sym':
        T = e.elemT(v[2])
        if T:
            return e.mk('%s[%s]' % (v[1], ('$' if off == 1 else '-%d' % off) if from_end else off), T)
    raise Undecided('slice pattern')


def index_put(e, st, v, idx, val):
    n = as_int(D(e, st, idx))
    if v[0] == 'arr' and n is not None:
        f = list(v[1])
        f[n] = val
        return ('arr', tuple(f))
    if v[0] == 'vec' and n is not None and len(v[1]) > n and all(x[0] == 'one' for x in v[1][:n + 1]):
        f = list(v[1])
        f[n] = ('one', val)
        return ('vec', tuple(f))
    raise Undecided('indexed store')


@model('std::ops::Index::index')
def m_index(e, st, fr, t, a, ga):
    v = D(e, st, a[0])
    ix = D(e, st, a[1])
    if ix[0] == 'adt' and ix[1].startswith('std::ops::Range'):
        return [(s2, w) for s2, w in rng(e, st, fr, t, v, ix, True)]
    if v[0] == 'map' or (v[0] == 'sym' and e.mapT(v[2])):
        out = []
        for s2, w in map_get(e, st, v, ix):
            if w is None:
                e.panic(s2, fr, t, 'index of missing key')
            else:
                out.append((s2, w))
        return out
    n = as_int(ix)
    its = e.seqitems(v)
    if n is not None and len(its) > n and all(x[0] == 'one' for x in its[:n + 1]):
        return one(st, its[n][1])
    if v[0] == 'sym' and ix[0] == 'sym' and ix[1] == 'idx(%s)' % v[1]:
        return one(st, index(e, st, v, ix))
    if n == 0:
        out = []
        for s2, w in end_elem(e, st, v, False):
            if w is None:
                e.panic(s2, fr, t, 'index out of bounds')
            else:
                out.append((s2, w))
        return out
    e.panic(st, fr, t, 'index out of bounds')
    return one(st, index(e, st, v, ix))


@model('std::ops::IndexMut::index_mut')
def m_index_mut(e, st, fr, t, a, ga):
    v = D(e, st, a[0])
    ix = D(e, st, a[1])
    if a[0][0] == 'mref' and as_int(ix) is not None:
        return one(st, ('mref', a[0][1], a[0][2] + (('el', ix),)))
    raise Undecided('index_mut')


def rng(e, st, fr, t, v, ix, panics):
    """v[range]; for get() (panics False) the result is an Option"""
    n = ix[1].split('::')[-1]
    lo, hi, incl = None, None, False
    if n == 'RangeFull':
        pass
    elif n == 'RangeFrom':
        lo = ix[3][0]
    elif n == 'RangeTo':
        hi = ix[3][0]
    elif n == 'Range':
        lo, hi = ix[3][:2]
    elif n == 'RangeInclusive':
        lo, hi, incl = ix[3][0], ix[3][1], True
    elif n == 'RangeToInclusive':
        hi, incl = ix[3][0], True
    if v[0] == 'str' and not incl:
        # positions that were found in the text
        a, b = (D(e, st, x) if x is not None else None for x in (lo, hi))
        w, ok = v[1], True
        if b is not None and as_int(b) is None:
            c = cutat(e, st, w, b)
            w, ok = (c[0], True) if c else (w, False)
            b = None
        if ok and a is not None and as_int(a) is None:
            if w is v[1]:
                c = cutat(e, st, w, a)
                w, ok = (c[1], True) if c else (w, False)
            else:
                ok = False
            a = None
        if ok and w is not v[1]:
            for q in (a, b):
                ok = ok and (q is None or as_int(q) is not None)
            if ok and b is None and (a is None or as_int(a) == 0):
                return one(st, ('str', w) if panics else Some(('str', w)))
            if ok and b is None:
                v, lo, hi = ('str', w), a, None
    lo = as_int(D(e, st, lo)) if lo is not None else 0
    h = hi
    if hi is not None:
        h = as_int(D(e, st, hi))
        if h is not None and incl:
            h += 1
    if v[0] == 'str':
        r = X.substr(e, st, v[1], lo, h, hi is None)
        out = []
        for s2, w in r:
            if w is None:
                if panics:
                    e.panic(s2, fr, t, 'slice out of bounds or inside a character')
                else:
                    out.append((s2, NONE))
            else:
                out.append((s2, ('str', w) if panics else Some(('str', w))))
        return out
    its = e.seqitems(v)
    if lo == 0 and hi is None:
        return one(st, v if panics else Some(v))
    if lo is not None and hi is None and len(its) >= lo and all(x[0] == 'one' for x in its[:lo]):
        w = ('vec', its[lo:])
        return one(st, w if panics else Some(w))
    if lo is not None and h is not None and len(its) >= h and all(x[0] == 'one' for x in its[:h]):
        w = ('vec', its[lo:h])
        return one(st, w if panics else Some(w))
    if lo == 1 and hi is None and len(its) == 1 and its[0][0] == 'each' and its[0][2] == '':
        out = []
        for s2, b in e.empty(st, its[0][1]):
            if b:
                if panics:
                    e.panic(s2, fr, t, 'slice out of bounds')
                else:
                    out.append((s2, NONE))
            else:
                w = ('vec', (('each', its[0][1], 'tail', its[0][3]),))
                out.append((s2, w if panics else Some(w)))
        return out
    raise Undecided('slice of %s' % render(v))


@model('str::get', '[T]::get', 'std::vec::Vec::get')
def m_get(e, st, fr, t, a, ga):
    v = D(e, st, a[0])
    ix = D(e, st, a[1])
    if ix[0] == 'adt' and ix[1].startswith('std::ops::Range'):
        return rng(e, st, fr, t, v, ix, False)
    n = as_int(ix)
    if n == 0:
        return fo(end_elem(e, st, v, False))
    its = e.seqitems(v)
    if n is not None and len(its) > n and all(x[0] == 'one' for x in its[:n + 1]):
        return one(st, Some(its[n][1]))
    if n is not None and all(x[0] == 'one' for x in its):
        return one(st, NONE)
    if v[0] == 'sym' and e.elemT(v[2]):
        if ix[0] == 'sym' and ix[1] == 'idx(%s)' % v[1]:
            return one(st, Some(index(e, st, v, ix)))
        return one(st, ('sym', 'get(%s, %s)' % (v[1], render(ix)), ('a', OPT, (e.elemT(v[2]),))))
    raise Undecided('get')


@model('std::vec::Vec::remove')
def m_vec_remove(e, st, fr, t, a, ga):
    v = D(e, st, a[0])
    ix = D(e, st, a[1])
    n = as_int(ix)
    its = e.seqitems(v)
    if n is not None and len(its) > n and all(x[0] == 'one' for x in its[:n + 1]):
        return one(setv(e, st, a[0], ('vec', its[:n] + its[n + 1:])), its[n][1])
    if n == 0:
        return take_front(e, st, fr, t, a[0], v, its, panics=True)
    raise Undecided('Vec::remove')


def take_front(e, st, fr, t, ref, v, its, panics):
    """remove the first element of a vector"""
    out = []
    if not its:
        if panics:
            e.panic(st, fr, t, 'remove from an empty list')
            return []
        return one(st, NONE)
    wrapv = (lambda x: x) if panics else Some
    it = its[0]
    if it[0] == 'one':
        return one(setv(e, st, ref, ('vec', its[1:])), wrapv(it[1]))
    if it[0] == 'each' and it[2] == '' and len(it[3]) == 1 and not it[3][0][0] and len(it[3][0][1]) == 1 and len(its) == 1 \
            and it[3][0][1][0][0] == 'one' and it[3][0][1][0][1] in (('str', (('A', it[1] + '[*]', e.cls.get(it[1] + '[*]', e.defcls)),)), ('sym', it[1] + '[*]', it[3][0][1][0][1][-1])):
        if it[3][0][1][0][1][0] == 'sym':
            e.restT[it[1]] = it[3][0][1][0][1][2]
        its = (('rest', it[1], '', 0),)
        it = its[0]
    if it[0] == 'rest' and len(its) == 1:
        Q, base, off = it[1:]
        T = e.restT.get(Q, ('a', STRING, ()))
        for s2, b in rest_empty(e, st, Q, base, off):
            if b:
                if panics:
                    e.panic(s2, fr, t, 'remove from an empty list')
                else:
                    out.append((s2, NONE))
            else:
                out.append((setv(e, s2, ref, ('vec', (('rest', Q, base, off + 1),))), wrapv(e.mk(rest_path(Q, base, off), T))))
        return out
    if it[0] == 'acc':
        raise NeedPeel(it[1])
    raise Undecided('Vec::remove of %s' % render(v))


def rest_path(Q, base, off):
    return '%s[%s%+d]' % (Q, base, off)


def rest_empty(e, st, Q, base, off):
    if not base and off == 0:
        return e.pred(st, ('e', Q))
    for k, f in st.facts.items():
        if k[0] == 'e' and f is True and k[1].startswith('%s[%s' % (Q, base)) and k[1].endswith('..]'):
            try:
                o = int(k[1][len('%s[%s' % (Q, base)):-3])
            except ValueError:
                continue
            if o <= off:
                return one(st, True)
    return e.pred(st, ('e', '%s[%s%+d..]' % (Q, base, off)))


@model('std::collections::VecDeque::pop_front')
def m_pop_front(e, st, fr, t, a, ga):
    v = D(e, st, a[0])
    return take_front(e, st, fr, t, a[0], v, e.seqitems(v), panics=False)


@model('std::vec::Vec::pop', 'std::collections::VecDeque::pop_back')
def m_pop(e, st, fr, t, a, ga):
    v = D(e, st, a[0])
    its = e.seqitems(v)
    if not its:
        return one(st, NONE)
    if its[-1][0] == 'one':
        return one(setv(e, st, a[0], ('vec', its[:-1])), Some(its[-1][1]))
    raise Undecided('Vec::pop')


@model('std::vec::Vec::insert')
def m_vec_insert(e, st, fr, t, a, ga):
    v = D(e, st, a[0])
    n = as_int(D(e, st, a[1]))
    its = e.seqitems(v)
    if n is not None and (n == 0 or (len(its) >= n and all(x[0] == 'one' for x in its[:n]))):
        return one(setv(e, st, a[0], ('vec', its[:n] + (('one', a[2]),) + its[n:])), UNIT)
    raise Undecided('Vec::insert')


@model('std::vec::Vec::drain')
def m_drain(e, st, fr, t, a, ga):
    v = D(e, st, a[0])
    ix = D(e, st, a[1])
    if ix[0] == 'adt' and ix[1].endswith('RangeFull'):
        its = e.seqitems(v)
        st = setv(e, st, a[0], ('vec', ()))
        return mksrc(e, st, its)
    n = as_int(D(e, st, ix[3][0])) if ix[0] == 'adt' and ix[1].split('::')[-1] in ('RangeFrom', 'RangeTo') else None
    its = e.seqitems(v)
    if n is not None and len(its) >= n and all(x[0] == 'one' for x in its[:n]):
        head, tail = its[:n], its[n:]
        if ix[1].endswith('RangeTo'):
            head, tail = tail, head
        return mksrc(e, setv(e, st, a[0], ('vec', head)), tail)
    raise Undecided('drain')


@model('[T]::reverse')
def m_reverse(e, st, fr, t, a, ga):
    its = items(e, st, a[0])
    return one(setv(e, st, a[0], ('vec', rev_items(its))), UNIT)


def rev_items(its):
    out = []
    for it in reversed(its):
        if it[0] == 'one':
            out.append(it)
        elif it[0] == 'each':
            m = it[2]
            m = {'': 'rev', 'rev': ''}.get(m)
            if m is None:
                raise Undecided('reverse')
            out.append(('each', it[1], m, tuple((g, rev_items(b)) for g, b in it[3])))
        else:
            raise Undecided('reverse')
    return tuple(out)


def ckey(e, st, v):
    """a concrete key that sorts as the program sorts it, or None"""
    v = D(e, st, v)
    if v[0] in ('int', 'bool', 'char'):
        return (v[1],)
    if v[0] == 'str':
        l = X.litof(v[1])
        return None if l is None else (l.encode(),)
    if v[0] in ('tup', 'arr'):
        ks = [ckey(e, st, x) for x in v[1]]
        return None if None in ks else tuple(ks)
    return None


def sort_items(e, st, its, key=None):
    """the items in sorted order; elements of a symbolic list are in an order that is not the one they are held in"""
    if all(i[0] == 'one' for i in its):
        if len(its) < 2:
            return its
        ks = [ckey(e, st, key(st, i[1]) if key else i[1]) for i in its]
        if None in ks:
            raise Undecided('sort of %s' % render(('vec', its)))
        return tuple(its[i] for i in sorted(range(len(its)), key=lambda i: ks[i]))
    if len(its) == 1 and its[0][0] == 'each' and its[0][2] in ('', 'rev', 'sort'):
        if st.facts.get(('e', its[0][1])) is True:
            return ()
        return ((its[0][0], its[0][1], 'sort', its[0][3]),)
    if all(i[0] == 'each' and i[2] in ('', 'rev', 'sort') for i in its):
        left = [i for i in its if st.facts.get(('e', i[1])) is not True]
        if len(left) > 1:
            return tuple((i[0], i[1], 'sort', i[3]) for i in left)
    raise Undecided('sort of %s' % render(('vec', its)))


@model('[T]::sort', '[T]::sort_unstable')
def m_sort(e, st, fr, t, a, ga):
    return one(setv(e, st, a[0], ('vec', sort_items(e, st, items(e, st, a[0])))), UNIT)


@model('[T]::sort_by_key', '[T]::sort_by_cached_key', '[T]::sort_unstable_by_key')
def m_sort_by_key(e, st, fr, t, a, ga):
    def key(s, x):
        r = e.callv(s, a[1], [x])
        if len(r) != 1:
            raise Undecided('sort key')
        return r[0][1]
    return one(setv(e, st, a[0], ('vec', sort_items(e, st, items(e, st, a[0]), key))), UNIT)


@model('[T]::sort_by', '[T]::sort_unstable_by')
def m_sort_by(e, st, fr, t, a, ga):
    its = items(e, st, a[0])
    if its and all(i[0] == 'each' for i in its):
        return one(setv(e, st, a[0], ('vec', sort_items(e, st, its))), UNIT)
    if all(i[0] == 'one' for i in its):
        cur = [(st, ())]
        for it in its:
            nx = []
            for s, done in cur:
                # insert behind everything that is not greater
                front = [(s, len(done))]
                fin = []
                while front:
                    s1, k = front.pop()
                    if k == 0:
                        fin.append((s1, 0))
                        continue
                    for s2, r, _ in e.callv(s1, a[1], [done[k - 1][1], it[1]]):
                        for s3, o in e.variant(s2, r):
                            (front if o == 2 else fin).append((s3, k - 1 if o == 2 else k))
                nx += [(s1, done[:k] + (it,) + done[k:]) for s1, k in fin]
            cur = nx
            if len(cur) > 64:
                raise Undecided('sort_by of %s' % render(('vec', its)))
        return [(setv(e, s, a[0], ('vec', done)), UNIT) for s, done in cur]
    raise Undecided('sort_by of %s' % render(('vec', its)))


def ordering(i):
    return ('adt', 'std::cmp::Ordering', i, ())


def order3(e, st, a, b):
    """[(state, 0/1/2 for less, equal, greater)]"""
    a, b = D(e, st, a), D(e, st, b)
    ka, kb = ckey(e, st, a), ckey(e, st, b)
    if ka is not None and kb is not None:
        return one(st, (ka > kb) - (ka < kb) + 1)
    if a == b and not has_acc(a):
        return one(st, 1)
    if a[0] in ('tup', 'arr') and b[0] == a[0]:
        cur, out = [st], []
        for x, y in zip(a[1], b[1]):
            nx = []
            for s in cur:
                for s2, o in order3(e, s, x, y):
                    (nx if o == 1 else out).append(s2 if o == 1 else (s2, o))
            cur = nx
        return out + [(s, 1) for s in cur]
    if a[0] == 'str' or b[0] == 'str':
        raise Undecided('order of %s and %s' % (render(a), render(b)))
    out = []
    for s2, l in num_lt(e, st, a, b):
        if l:
            out.append((s2, 0))
        else:
            out += [(s3, 1 if q else 2) for s3, q in num_eq(e, s2, a, b)]
    return out


@model('std::cmp::Ord::cmp')
def m_cmp3(e, st, fr, t, a, ga):
    return [(s2, ordering(o)) for s2, o in order3(e, st, a[0], a[1])]


@model('std::cmp::PartialOrd::partial_cmp')
def m_pcmp3(e, st, fr, t, a, ga):
    return [(s2, Some(ordering(o))) for s2, o in order3(e, st, a[0], a[1])]


@model('std::cmp::Ordering::reverse')
def m_ord_rev(e, st, fr, t, a, ga):
    return [(s2, ordering(2 - o)) for s2, o in e.variant(st, D(e, st, a[0]))]


@model('std::cmp::Ordering::then')
def m_ord_then(e, st, fr, t, a, ga):
    return [(s2, ordering(o) if o != 1 else a[1]) for s2, o in e.variant(st, D(e, st, a[0]))]


@model('std::cmp::Ordering::then_with')
def m_ord_then_with(e, st, fr, t, a, ga):
    out = []
    for s2, o in e.variant(st, D(e, st, a[0])):
        out += one(s2, ordering(o)) if o != 1 else [(s3, v) for s3, v, _ in e.callv(s2, a[1], [])]
    return out


@model('[T]::contains')
def m_contains(e, st, fr, t, a, ga):
    v = D(e, st, a[0])
    its = e.seqitems(v)
    x = D(e, st, a[1])
    if all(i[0] == 'one' for i in its):
        cur = [st]
        out = []
        for i in its:
            nx = []
            for s2 in cur:
                for s3, b in eq(e, s2, i[1], x):
                    (out.append((s3, TRUE)) if b else nx.append(s3))
            cur = nx
        return out + [(s2, FALSE) for s2 in cur]
    return [(s2, ('bool', b)) for s2, b in e.pred(st, ('b', 'contains(%s, %s)' % (render(v), render(x))))]


@model('[T]::concat')
def m_concat(e, st, fr, t, a, ga):
    return join_items(e, st, items(e, st, a[0]), '')


@model('[T]::join')
def m_join(e, st, fr, t, a, ga):
    sep = D(e, st, a[1])
    if sep[0] == 'char':
        sep = lit(sep[1])
    if sep[0] != 'str' or not all(x[0] == 'L' for x in sep[1]):
        raise Undecided('join separator')
    return join_items(e, st, items(e, st, a[0]), ''.join(x[1] for x in sep[1]))


def join_items(e, st, its, sep):
    def conv(its):
        out = []
        for it in its:
            if it[0] == 'one':
                v = D(e, st, it[1])
                if v[0] == 'str':
                    out.append(X.embed(v[1]))
                elif v[0] == 'char' or (v[0] == 'sym' and v[2] == ('p', 'char')):
                    out.append(char_segs(e, v))
                else:
                    raise Undecided('join of %s' % render(v))
            elif it[0] == 'each':
                out.append((('each', it[1], it[2], tuple((g, X.joined(conv(b), sep) if b else ()) for g, b in it[3])),))
            else:
                raise Undecided('join')
        return out
    if not sep:
        return one(st, ('str', cat(*[x for x in conv(its)])))
    if all(it[0] == 'one' for it in its):
        parts = conv(its)
        segs = ()
        for i, p in enumerate(parts):
            segs = cat(segs, (('L', sep),) if i else (), p)
        return one(st, ('str', segs))
    # every part followed by the separator, except the last one
    segs = ()
    for p in conv(its):
        if len(p) == 1 and p[0][0] == 'each':
            ev = p[0]
            segs = cat(segs, (('each', ev[1], ev[2], tuple((g, cat(b, (('E', sep),)) if b else ()) for g, b in ev[3])),))
        else:
            segs = cat(segs, (('part', cat(p, (('E', sep),))),))
    return one(st, ('str', (('grp', segs),)))


@model('std::boxed::Box::new_uninit')
def m_new_uninit(e, st, fr, t, a, ga):
    st = st.copy()
    c = ('tmp', e.fresh())
    st.cells[c] = ('uninit',)
    return one(st, ('mref', c, ()))


@model('std::boxed::box_assume_init_into_vec_unsafe', 'std::boxed::Box::assume_init')
def m_assume(e, st, fr, t, a, ga):
    v = D(e, st, a[0])
    while v[0] == 'adt' and v[3]:
        v = D(e, st, v[3][-1])
    return one(st, ('vec', e.seqitems(v)))


@model('std::vec::from_elem')
def m_from_elem(e, st, fr, t, a, ga):
    n = as_int(D(e, st, a[1]))
    if n is not None and n < 64:
        return one(st, ('vec', tuple(('one', a[0]) for _ in range(n))))
    return one(st, ('vec', (('each', '0..%s' % render(D(e, st, a[1])), '', (((), (('one', a[0]),)),)),)))


# ===================================================================== maps
def keyeq(e, st, a, b):
    if a == b:
        return True
    if a[0] == 'str' and b[0] == 'str' and all(x[0] == 'L' for x in a[1]) and all(x[0] == 'L' for x in b[1]):
        return False
    if a[0] == 'int' and b[0] == 'int':
        return False
    return None


def map_key(e, st, k):
    k = D(e, st, k)
    if k[0] == 'str':
        k = ('str', X.resolve(e, st, k[1]))
    if k[0] == 'lin' or k[0] == 'sym':
        pass
    return k


def mapbase(e, v):
    """a map value as (base path or None, operations)"""
    if v[0] == 'sym':
        return ('map', (('base', v[1], v[2]),))
    return v


def map_get(e, st, v, k, remove=False):
    """[(st, value or None)] lookup of key k"""
    v = D(e, st, v)
    k = map_key(e, st, k)
    its = v[1] if v[0] == 'map' else (('base', v[1], v[2]),)
    for it in reversed(its):
        if it[0] == 'one':
            kk, vv = it[1][1]
            c = keyeq(e, st, kk, k)
            if c:
                return one(st, vv)
            if c is None:
                q = [(s2, b) for s2, b in eq(e, st, kk, k)]
                out = []
                for s2, b in q:
                    if b:
                        out.append((s2, vv))
                    else:
                        i = its.index(it)
                        out.extend(map_get(e, s2, ('map', its[:i] + its[i + 1:]), k))
                return out
            continue
        if it[0] == 'rm':
            if keyeq(e, st, it[1], k):
                return one(st, None)
            if keyeq(e, st, it[1], k) is None:
                out = []
                for s2, b in eq(e, st, it[1], k):
                    if b:
                        out.append((s2, None))
                    else:
                        i = its.index(it)
                        out.extend(map_get(e, s2, ('map', its[:i] + its[i + 1:]), k))
                return out
            continue
        if it[0] == 'base':
            P, T = it[1], it[2]
            kT, vT = T[2][0], T[2][1]
            out = []
            star = P + '[*].'
            if k[0] == 'str' and len(k[1]) == 1 and k[1][0][0] == 'A' and k[1][0][1].startswith(star):
                # the key of the very element under consideration
                kk = e.seqitems(('sym', P, T))[0][3][0][1][0][1][1][0]
                if kk == k:
                    return one(st, e.mk(P + '[*].val', vT))
            for s2, b in e.pred(st, ('has', P, render(k))):
                out.append((s2, e.mk('%s{%s}' % (P, render(k)), vT) if b else None))
            return out
        if it[0] == 'each':
            if e.distinct and all(x[0] == 'rm' for _, b in it[3] for x in b):
                continue      # earlier elements took out entries of other names
            return map_get_each(e, st, its, it, k)
        if it[0] == 'acc' and e.distinct and it[1] in e.accstart:
            e.acclook.add(it[1])
            return map_get(e, st, ('map', e.accstart[it[1]]), k)
        if it[0] == 'upd':
            if keyeq(e, st, it[1], k):
                raise Undecided('lookup of an updated entry')
            continue
        raise Undecided('map lookup in %s' % (render(v)))
    return one(st, None)


def map_get_each(e, st, its, it, k):
    """a map built by a loop over P: the entry whose key is k"""
    _, P, mod, alts = it
    if all(len(b) == 1 and b[0][0] == 'one' for _, b in alts) and not mod:
        keys = {b[0][1][1][0] for _, b in alts}
        if len(keys) == 1:
            key = keys.pop()
            if key == k:
                out = []
                for g, b in alts:
                    s2 = e.guards_state(st, g)
                    if s2 is not None:
                        out.append((s2, b[0][1][1][1]))
                return out
            name = '%s{%s=%s}' % (P, render(key), render(k))
            i = its.index(it)
            out = []
            for s2, has in e.pred(st, ('has', P + '|' + render(key), render(k))):
                if not has:
                    out.extend(map_get(e, s2, ('map', its[:i]), k))
                    continue
                for g, b in alts:
                    s3 = e.guards_state(s2, rename(tuple(g), P + '[*]', name))
                    if s3 is not None:
                        out.append((s3, rename(b[0][1][1][1], P + '[*]', name)))
            return out
    raise Undecided('map lookup in a loop-built map')


def map_slot(e, st, v, k):
    if v[0] == 'map' and v[1] and v[1][-1][0] == 'upd' and v[1][-1][1] == k:
        _, _, d, ws, T = v[1][-1]
        base = e.mk('?slot', T) if T else None
        if base is None:
            raise Undecided('slot type')
        cur = e.expand(base)
        for pr, val in ws:
            cur = e.upd(st, cur, pr, val)
        return cur
    r = map_get(e, st, v, k)
    if len(r) == 1 and r[0][1] is not None:
        return r[0][1]
    for s2, x in r:
        if x is not None:
            return x
    raise Undecided('map slot')


def map_put(e, st, v, k, val):
    its = v[1] if v[0] == 'map' else (('base', v[1], v[2]),)
    if its and its[-1][0] == 'upd' and its[-1][1] == k:
        raise Undecided('slot overwritten')
    out = []
    done = False
    for it in its:
        if it[0] == 'one' and keyeq(e, st, it[1][1][0], k):
            out.append(('one', ('tup', (k, val))))
            done = True
        else:
            out.append(it)
    if not done:
        out.append(('one', ('tup', (k, val))))
    return ('map', tuple(out))


def map_upd(e, st, v, k, rest, val):
    """store through a slot obtained from entry().or_insert_with()"""
    it = v[1][-1]
    return ('map', v[1][:-1] + (('upd', it[1], it[2], it[3] + ((rest, val),), it[4]),))


def mapitems(e, v):
    v = v if v[0] == 'map' else ('map', (('base', v[1], v[2]),))
    out = ()
    for it in v[1]:
        if it[0] == 'base':
            out += e.seqitems(('sym', it[1], it[2]))
        elif it[0] == 'rm':
            out += (it,)
        else:
            out += (it,)
    return out


@model('std::collections::HashMap::new', 'ritelinked::LinkedHashMap::new', 'std::collections::BTreeMap::new',
       'ritelinked::LinkedHashMap::with_capacity', 'std::collections::HashMap::with_capacity',
       'std::collections::HashSet::new')
def m_map_new(e, st, fr, t, a, ga):
    return one(st, ('map', ()))


@model('std::collections::HashMap::insert', 'ritelinked::LinkedHashMap::insert', 'std::collections::BTreeMap::insert')
def m_map_insert(e, st, fr, t, a, ga):
    v = D(e, st, a[0])
    k = map_key(e, st, a[1])
    its = v[1] if v[0] == 'map' else (('base', v[1], v[2]),)
    T = dstT(e, fr, t)
    old = ('sym', '?old', T) if T else NONE
    if all(it[0] == 'one' for it in its):
        pass
    for it in its:
        if it[0] == 'one' and keyeq(e, st, it[1][1][0], k):
            return one(setv(e, st, a[0], map_put(e, st, v, k, a[2])), Some(it[1][1][1]))
    if not its:
        old = NONE
    return one(setv(e, st, a[0], ('map', its + (('one', ('tup', (k, a[2]))),))), old)


@model('std::collections::HashMap::get', 'ritelinked::LinkedHashMap::get', 'std::collections::BTreeMap::get')
def m_map_get(e, st, fr, t, a, ga):
    return fo(map_get(e, st, a[0], a[1]))


@model('std::collections::HashMap::contains_key', 'ritelinked::LinkedHashMap::contains_key', 'std::collections::BTreeMap::contains_key')
def m_map_has(e, st, fr, t, a, ga):
    return [(s2, ('bool', v is not None)) for s2, v in map_get(e, st, a[0], a[1])]


@model('std::collections::HashMap::remove', 'ritelinked::LinkedHashMap::remove', 'std::collections::BTreeMap::remove')
def m_map_remove(e, st, fr, t, a, ga):
    v = D(e, st, a[0])
    k = map_key(e, st, a[1])
    out = []
    for s2, x in map_get(e, st, v, k):
        if x is None:
            out.append((s2, NONE))
            continue
        its = v[1] if v[0] == 'map' else (('base', v[1], v[2]),)
        n = tuple(it for it in its if not (it[0] == 'one' and keyeq(e, s2, it[1][1][0], k)))
        if len(n) == len(its):
            n = its + (('rm', k),)
        out.append((setv(e, s2, a[0], ('map', n)), Some(x)))
    return out


@model('ritelinked::LinkedHashMap::get_mut', 'std::collections::HashMap::get_mut', 'std::collections::BTreeMap::get_mut')
def m_map_get_mut(e, st, fr, t, a, ga):
    k = map_key(e, st, a[1])
    out = []
    for s2, x in map_get(e, st, a[0], k):
        if x is None:
            out.append((s2, NONE))
        else:
            out.append((s2, Some(('mref', a[0][1], a[0][2] + (('key', k),)))))
    return out


@model('ritelinked::LinkedHashMap::entry', 'std::collections::HashMap::entry', 'std::collections::BTreeMap::entry')
def m_entry(e, st, fr, t, a, ga):
    return one(st, ('entry', a[0], map_key(e, st, a[1])))


def entry_slot(e, st, ent, mkdef, vT):
    _, ref, k = ent
    v = D(e, st, ref)
    its = v[1] if v[0] == 'map' else (('base', v[1], v[2]),)
    out = []
    known = None
    for it in its:
        if it[0] == 'one':
            c = keyeq(e, st, it[1][1][0], k)
            if c:
                known = True
    if known:
        return one(st, ('mref', ref[1], ref[2] + (('key', k),)))
    if all(it[0] == 'one' and keyeq(e, st, it[1][1][0], k) is False for it in its):
        for s2, d in mkdef(st):
            s2 = setv(e, s2, ref, ('map', its + (('one', ('tup', (k, d))),)))
            out.append((s2, ('mref', ref[1], ref[2] + (('key', k),))))
        return out
    for s2, d in mkdef(st):
        s2 = setv(e, s2, ref, ('map', its + (('upd', k, d, (), vT),)))
        out.append((s2, ('mref', ref[1], ref[2] + (('key', k),))))
    return out


def slotT(ga, d=None):
    for x in ga:
        pass
    return ga[1] if len(ga) > 1 else None


@model('ritelinked::linked_hash_map::Entry::or_insert_with', 'std::collections::hash_map::Entry::or_insert_with')
def m_or_insert_with(e, st, fr, t, a, ga):
    return entry_slot(e, st, a[0], lambda s: call1(e, s, a[1], []), slotT(ga))


@model('ritelinked::linked_hash_map::Entry::or_insert', 'std::collections::hash_map::Entry::or_insert')
def m_or_insert(e, st, fr, t, a, ga):
    return entry_slot(e, st, a[0], lambda s: one(s, a[1]), slotT(ga))


@model('ritelinked::linked_hash_map::Entry::or_default', 'std::collections::hash_map::Entry::or_default')
def m_or_default(e, st, fr, t, a, ga):
    return entry_slot(e, st, a[0], lambda s: default(e, s, ga[1]), slotT(ga))


def proj_items(its, i):
    out = []
    for it in its:
        if it[0] == 'one':
            out.append(('one', it[1][1][i]))
        elif it[0] == 'each':
            out.append(('each', it[1], it[2], tuple((g, proj_items(b, i)) for g, b in it[3])))
        else:
            raise Undecided('values of a map with %s' % it[0])
    return tuple(out)


def isbtree(t):
    return 'collections::BTreeMap' in (t.get('r') or t.get('f') or '')


def btree(e, st, t, its):
    """a BTreeMap hands out its entries in the order of the keys"""
    if not isbtree(t):
        return its
    return sort_items(e, st, its, lambda s, x: D(e, s, x)[1][0])


def hashed(e, st, v, its):
    if e.hashorder is not None:
        e.hashorder.append(render(v))
    return its


@model('ritelinked::LinkedHashMap::values', 'ritelinked::LinkedHashMap::into_values', 'std::collections::HashMap::values',
       'std::collections::HashMap::into_values', 'std::collections::BTreeMap::values', 'std::collections::BTreeMap::into_values')
def m_values(e, st, fr, t, a, ga):
    return mksrc(e, st, proj_items(btree(e, st, t, mapitems(e, D(e, st, a[0]))), 1))


@model('ritelinked::LinkedHashMap::keys', 'ritelinked::LinkedHashMap::into_keys', 'std::collections::HashMap::keys',
       'std::collections::HashMap::into_keys', 'std::collections::BTreeMap::keys', 'std::collections::BTreeMap::into_keys')
def m_keys(e, st, fr, t, a, ga):
    return mksrc(e, st, proj_items(btree(e, st, t, mapitems(e, D(e, st, a[0]))), 0))


@model('ritelinked::LinkedHashMap::iter', 'std::collections::HashMap::iter', '[T]::iter', 'std::collections::BTreeMap::iter',
       'ritelinked::LinkedHashMap::drain', 'std::collections::HashMap::drain', 'std::collections::VecDeque::iter')
def m_iter(e, st, fr, t, a, ga):
    if t['f'].endswith('::drain'):
        v = D(e, st, a[0])
        return into_iter(e, setv(e, st, a[0], ('map', ())), v)
    if isbtree(t):
        return mksrc(e, st, btree(e, st, t, mapitems(e, D(e, st, a[0]))))
    return into_iter(e, st, D(e, st, a[0]))


@model('ritelinked::LinkedHashMap::front')
def m_front(e, st, fr, t, a, ga):
    v = D(e, st, a[0])
    its = mapitems(e, v)
    if v[0] == 'sym':
        P = v[1]
        out = []
        for s2, b in e.empty(st, P):
            out.append((s2, NONE if b else Some(rename(its[0][3][0][1][0][1], P + '[*]', P + '[0]'))))
        return out
    its2 = tuple(i for i in its if i[0] != 'rm')
    if its2 != its:
        T = dstT(e, fr, t)
        return one(st, e.app('front', [v], T or ('o', '?')))
    return fo(end_elem(e, st, ('vec', its), False))


# ===================================================================== iterators
def mksrc(e, st, its):
    uid = (e.fresh(), e.loopdepth)
    st = st.copy()
    st.streams[uid] = tuple(its)
    return [(st, ('iter', 'src', uid))]


def into_iter(e, st, v):
    v0 = v
    v = D(e, st, v)
    if v[0] == 'iter':
        return one(st, v0)
    if v[0] == 'adt' and v[1] in (OPT,):
        return O(e, st, v, lambda s, p: mksrc(e, s, (('one', p),)), lambda s: mksrc(e, s, ()))
    if v[0] == 'adt' and v[1].startswith('std::ops::Range'):
        return range_iter(e, st, v)
    if v[0] == 'sym' and v[2][0] == 'a' and v[2][1] == OPT:
        return O(e, st, v, lambda s, p: mksrc(e, s, (('one', p),)), lambda s: mksrc(e, s, ()))
    if v[0] == 'adt' or v[0] == 'mref':
        return one(st, v0)       # a local iterator type
    if v[0] == 'map' or (v[0] == 'sym' and e.mapT(v[2])):
        if v0[0] == 'mref':
            raise Undecided('iteration by mutable reference')
        return mksrc(e, st, mapitems(e, v))
    if v0[0] == 'mref' and not (v[0] == 'vec' and False):
        return iter_mut(e, st, v0, v)
    return mksrc(e, st, e.seqitems(v))


def iter_mut(e, st, ref, v):
    its = e.seqitems(v)
    if all(i[0] == 'one' for i in its):
        return mksrc(e, st, tuple(('one', ('mref', ref[1], ref[2] + (('el', I(i)),))) for i in range(len(its))))
    raise Undecided('iteration by mutable reference')


def range_iter(e, st, v):
    n = v[1].split('::')[-1]
    if n == 'Range' or n == 'RangeInclusive':
        lo, hi = D(e, st, v[3][0]), D(e, st, v[3][1])
        a, b = as_int(lo), as_int(hi)
        if a is not None and b is not None:
            if n == 'RangeInclusive':
                b += 1
            if b - a <= 64:
                return mksrc(e, st, tuple(('one', ('int', i, tyof(lo))) for i in range(a, b)))
        if a == 0 and n == 'Range' and hi[0] == 'sym' and hi[1].startswith('len('):
            P = hi[1][4:-1]
            return mksrc(e, st, (('each', P, '', (((), (('one', ('sym', 'idx(%s)' % P, ('p', 'usize'))),)),)),))
    if n == 'RangeFrom':
        return one(st, ('iter', 'from', D(e, st, v[3][0])))
    raise Undecided('range')


@model('std::iter::IntoIterator::into_iter', 'std::vec::Vec::into_iter')
def m_into_iter(e, st, fr, t, a, ga):
    if isbtree(t):
        return mksrc(e, st, btree(e, st, t, mapitems(e, D(e, st, a[0]))))
    return into_iter(e, st, a[0])


@model('[T]::iter_mut', 'std::vec::Vec::iter_mut')
def m_iter_mut(e, st, fr, t, a, ga):
    v = D(e, st, a[0])
    return iter_mut(e, st, a[0], v)


def nxt(e, st, it):
    """[(state, iterator, item or None)]"""
    if it[0] == 'mref':
        v = e.rmref(st, it)
        if v[0] == 'adt':
            return nxt_local(e, st, it)
        out = []
        for s2, i2, x in nxt(e, st, v):
            if i2 != v:
                s2 = s2.copy()
                e.wref(s2, it, i2)
            out.append((s2, it, x))
        return out
    if it[0] == 'adt':
        # a local iterator type held by value
        c = ('tmp', e.fresh())
        st = st.copy()
        st.cells[c] = it
        out = []
        for s2, _, x in nxt(e, st, ('mref', c, ())):
            s2 = s2.copy()
            out.append((s2, s2.cells.pop(c), x))
        return out
    if it[0] != 'iter':
        raise Undecided('next of %s' % render(it))
    k = it[1]
    if k == 'src':
        return [(s2, it, x) for s2, x in nxt_src(e, st, it[2])]
    if k == 'map':
        out = []
        for s2, i2, x in nxt(e, st, it[2]):
            if x is None or x is SKIP:
                out.append((s2, ('iter', 'map', i2, it[3]), x))
                continue
            for s3, v, nf in e.callv(s2, it[3], [x]):
                out.append((s3, ('iter', 'map', i2, nf), v))
        return out
    if k == 'inspect':
        out = []
        for s2, i2, x in nxt(e, st, it[2]):
            if x is None or x is SKIP:
                out.append((s2, ('iter', k, i2, it[3]), x))
                continue
            for s3, v, nf in e.callv(s2, it[3], [x]):
                out.append((s3, ('iter', k, i2, nf), x))
        return out
    if k in ('filter', 'filter_map', 'skip_while'):
        out = []
        work = [(st, it)]
        n = 0
        while work:
            s1, it1 = work.pop()
            n += 1
            if n > 256:
                raise Undecided('filter')
            for s2, i2, x in nxt(e, s1, it1[2]):
                if x is None or x is SKIP:
                    out.append((s2, ('iter', k, i2) + it1[3:], x))
                    continue
                if k == 'skip_while' and it1[4]:
                    out.append((s2, ('iter', k, i2) + it1[3:], x))
                    continue
                for s3, v, nf in e.callv(s2, it1[3], [x]):
                    if k == 'filter':
                        for s4, b in e.truth(s3, v):
                            if b:
                                out.append((s4, ('iter', k, i2, nf), x))
                            else:
                                work_or_skip(e, out, work, s4, ('iter', k, i2, nf))
                    elif k == 'skip_while':
                        for s4, b in e.truth(s3, v):
                            if not b:
                                out.append((s4, ('iter', k, i2, nf, True), x))
                            else:
                                work_or_skip(e, out, work, s4, ('iter', k, i2, nf, False))
                    else:
                        for s4, p in e.opt(s3, v):
                            if p is not None:
                                out.append((s4, ('iter', k, i2, nf), p))
                            else:
                                work_or_skip(e, out, work, s4, ('iter', k, i2, nf))
        return out
    if k == 'repeat':
        return [(st, it, it[2])]
    if k == 'from_fn':
        return [(s3, ('iter', k, nf), p) for s2, v, nf in e.callv(st, it[2], []) for s3, p in e.opt(s2, v)]
    if k == 'successors':
        out = []
        for s2, p in e.opt(st, it[2]):
            if p is None:
                out.append((s2, ('iter', k, NONE, it[3]), None))
            else:
                out.extend((s3, ('iter', k, v, nf), p) for s3, v, nf in e.callv(s2, it[3], [p]))
        return out
    if k == 'from':
        n = it[2]
        return [(st, ('iter', k, binop(e, st, 'Add', n, ('int', 1, tyof(n)))[0][1]), n)]
    if k == 'enumerate':
        out = []
        for s2, i2, x in nxt(e, st, it[2]):
            if x is None or x is SKIP:
                out.append((s2, ('iter', k, i2, it[3]), x))
            else:
                n = it[3]
                out.append((s2, ('iter', k, i2, binop(e, s2, 'Add', n, I(1))[0][1]), ('tup', (n, x))))
        return out
    if k == 'chain':
        a, b = it[2], it[3]
        if a is not None:
            out = []
            for s2, i2, x in nxt(e, st, a):
                if x is SKIP:
                    out.append((s2, ('iter', 'chain', i2, b), SKIP))
                elif x is None:
                    out.extend(nxt(e, s2, ('iter', 'chain', None, b)))
                else:
                    out.append((s2, ('iter', 'chain', i2, b), x))
            return out
        return [(s2, ('iter', 'chain', None, i2), x) for s2, i2, x in nxt(e, st, b)]
    if k in ('take_while', 'map_while'):
        if it[4]:
            return [(st, it, None)]
        out = []
        for s2, i2, x in nxt(e, st, it[2]):
            if x is None or x is SKIP:
                out.append((s2, ('iter', k, i2, it[3], False), x))
                continue
            for s3, v, nf in e.callv(s2, it[3], [x]):
                if k == 'map_while':
                    for s4, p in e.opt(s3, v):
                        out.append((s4, ('iter', k, i2, nf, p is None), p))
                    continue
                for s4, b in e.truth(s3, v):
                    out.append((s4, ('iter', k, i2, nf, not b), x if b else None))
        return out
    if k == 'scan':
        if it[5]:
            return [(st, it, None)]
        out = []
        for s2, i2, x in nxt(e, st, it[2]):
            if x is None or x is SKIP:
                out.append((s2, ('iter', k, i2, it[3], it[4], False), x))
                continue
            for s3, v, nf in e.callv(s2, it[3], [('mref', it[4], ()), x]):
                for s4, p in e.opt(s3, v):
                    out.append((s4, ('iter', k, i2, nf, it[4], p is None), p))
        return out
    if k == 'peekable':
        if it[3] is not None:
            x = it[3]
            return [(st, ('iter', k, it[2], None), None if x == ('end',) else x)]
        return [(s2, ('iter', k, i2, None), x) for s2, i2, x in nxt(e, st, it[2])]
    if k == 'zip':
        out = []
        for s2, i2, x in nxt(e, st, it[2]):
            if x is None or x is SKIP:
                out.append((s2, ('iter', k, i2, it[3]), x))
                continue
            for s3, j2, y in nxt(e, s2, it[3]):
                if y is SKIP:
                    raise Undecided('zip with a filtered sequence')
                out.append((s3, ('iter', k, i2, j2), None if y is None else ('tup', (x, y))))
        return out
    if k == 'skip':
        n = it[3]
        cur = [(st, it[2])]
        out = []
        for _ in range(n):
            nx = []
            for s2, i2 in cur:
                for s3, i3, x in nxt(e, s2, i2):
                    if x is None:
                        out.append((s3, ('iter', 'skip', i3, 0), None))
                    else:
                        nx.append((s3, i3))
            cur = nx
        for s2, i2 in cur:
            out.extend((s3, ('iter', 'skip', i3, 0), x) for s3, i3, x in nxt(e, s2, i2))
        return out
    if k == 'take':
        if it[3] <= 0:
            return [(st, it, None)]
        mk = inside_each(e, st, it[2])
        if mk:
            # any one of unboundedly many elements: it may be among the first ones or not
            out = []
            for s2, i2, x in nxt(e, st, it[2]):
                if x is None or x is SKIP:
                    out.append((s2, ('iter', k, i2, it[3]), x))
                    continue
                for s3, b in e.pred(s2, ('b', 'among the first %d(%s[*])' % (it[3], mk))):
                    out.append((s3, ('iter', k, i2, it[3]), x if b else SKIP))
            return out
        return [(s2, ('iter', k, i2, it[3] if x is SKIP else it[3] - 1), x) for s2, i2, x in nxt(e, st, it[2])]
    if k == 'flat':
        # (flat, outer, current or None)
        out = []
        if it[3] is not None:
            for s2, i2, x in nxt(e, st, it[3]):
                if x is None:
                    out.extend(nxt(e, s2, ('iter', k, it[2], None)))
                else:
                    out.append((s2, ('iter', k, it[2], i2), x))
            return out
        for s2, i2, x in nxt(e, st, it[2]):
            if x is None or x is SKIP:
                out.append((s2, ('iter', k, i2, None), x))
                continue
            for s3, inner in into_iter(e, s2, x):
                out.extend(nxt(e, s3, ('iter', k, i2, inner)))
        return out
    raise Undecided('iterator %s' % k)


@model('std::iter::Iterator::scan')
def m_scan(e, st, fr, t, a, ga):
    st = st.copy()
    c = ('in', e.fresh())
    st.cells[c] = a[1]
    r = one(st, a[0]) if a[0][0] in ('iter', 'mref', 'adt') else into_iter(e, st, a[0])
    return [(s2, ('iter', 'scan', i, a[2], c, False)) for s2, i in r]


def inside_each(e, st, it):
    """the list of unknown length whose elements the iterator is passing over in a loop, if any"""
    while it and (it[0] == 'mref' or it[0] == 'iter' and it[1] not in ('src', 'chain', 'flat', 'zip')):
        it = e.rmref(st, it) if it[0] == 'mref' else it[2]
    if it and it[0] == 'iter' and it[1] == 'chain':
        return inside_each(e, st, it[2]) or inside_each(e, st, it[3])
    if it and it[0] == 'iter' and it[1] == 'src':
        for c in st.streams.get(it[2], ()):
            if c[0] == 'mark':
                return c[2]
    return None


SKIP = ('skip!',)


def exhausted(st, it):
    if it[0] != 'iter':
        return False
    if it[1] == 'src':
        ch = st.streams.get(it[2], ())
        return all(c[0] == 'each' and st.facts.get(ek(c[1], c[2])) is True for c in ch)
    if it[1] in ('map', 'filter', 'filter_map', 'inspect', 'enumerate', 'skip_while', 'take_while', 'map_while', 'skip', 'scan'):
        return exhausted(st, it[2])
    if it[1] == 'peekable':
        return it[3] is None and exhausted(st, it[2])
    if it[1] == 'chain':
        return (it[2] is None or exhausted(st, it[2])) and exhausted(st, it[3])
    if it[1] == 'flat':
        return exhausted(st, it[2]) and (it[3] is None or exhausted(st, it[3]))
    return False


def normiter(st, v):
    if not isinstance(v, tuple) or not v:
        return v
    if v[0] == 'iter' and v[1] == 'chain' and v[2] is not None and exhausted(st, v[2]):
        return ('iter', 'chain', None, normiter(st, v[3]))
    if v[0] == 'iter' and v[1] == 'flat' and v[3] is not None and exhausted(st, v[3]):
        return ('iter', 'flat', normiter(st, v[2]), None)
    if v[0] in ('iter', 'adt', 'tup', 'clo'):
        out = []
        ch = False
        for x in v:
            y = normiter(st, x) if isinstance(x, tuple) else x
            ch = ch or y is not x
            out.append(y)
        return tuple(out) if ch else v
    if isinstance(v[0], tuple):
        out = tuple(normiter(st, x) for x in v)
        return out if any(a is not b for a, b in zip(out, v)) else v
    return v


def normiters(e, st):
    n = None
    for c, v in st.cells.items():
        y = normiter(st, v)
        if y is not v:
            if n is None:
                n = st.copy()
            n.cells[c] = y
    return n or st


def work_or_skip(e, out, work, st, it):
    """an element was filtered out: let the driving loop continue with the next one"""
    out.append((st, it, SKIP))


def nxt_src(e, st, uid):
    ch = st.streams[uid]
    while ch and ch[0][0] == 'each' and st.facts.get(ek(ch[0][1], ch[0][2])) is True:
        ch = ch[1:]
        st = st.copy()
        st.streams[uid] = ch
    if not ch:
        return [(st, None)]
    h = ch[0]
    if h[0] == 'one':
        s2 = st.copy()
        s2.streams[uid] = ch[1:]
        return [(s2, h[1])]
    if h[0] == 'END':
        return [(st, None)]
    if h[0] == 'sepend':
        # blank lines between this element and the next one - or the end of the text
        s2 = st.copy()
        s2.streams[uid] = tuple(('one', lit('')) for _ in range(h[1])) + ch[1:]
        s3 = st.copy()
        s3.streams[uid] = (('END',),) + tuple(c for c in ch if c[0] == 'mark')
        return nxt_src(e, s2, uid) + [(s3, None)]
    if h[0] == 'each':
        if e.loopdepth > uid[1] and e.loopdepth > 0:
            raise NeedEach(uid)
        heads, _, _ = e.peel(st, uid, h[1], h[2], h[3], ch[1:])
        out = []
        for s2 in heads:
            out.extend(nxt_src(e, s2, uid))
        return out
    if h[0] == 'alt':
        out = []
        for g, body in h[1]:
            s2 = e.guards_state(st, g)
            if s2 is not None:
                s2.streams[uid] = tuple(body) + ch[1:]
                out.extend(nxt_src(e, s2, uid))
        return out
    if h[0] == 'mark':
        raise Overshoot(uid, h)
    if h[0] == 'acc':
        raise NeedPeel(h[1])
    if h[0] == 'rest':
        Q, base, off = h[1:]
        T = e.restT.get(Q, ('a', STRING, ()))
        out = []
        raise Undecided('iteration over a consumed list')
    raise Undecided('stream %s' % (h[0],))


def nxt_local(e, st, ref):
    v = e.rmref(st, ref)
    for ar, path, im in e.p.implidx.get(('std::iter::Iterator', 'next'), []):
        if ar[0][0] == 'a' and ar[0][1] == v[1] and path in e.p.bodies:
            out = []
            for s2, r in e.call_local(st, path, [ref], ()):
                for s3, p in e.opt(s2, r):
                    out.append((s3, ref, p))
            return out
    raise Undecided('iterator %s' % v[1])


def noskip(e, st, it):
    """next() for a single request: retry over filtered elements"""
    out = []
    work = [(st, it, 0)]
    while work:
        s1, i1, n = work.pop()
        if n > 64:
            raise Undecided('filter')
        for s2, i2, x in nxt(e, s1, i1):
            if x is SKIP or x == SKIP:
                work.append((s2, i2, n + 1))
            else:
                out.append((s2, i2, x))
    return out


@model('std::iter::Iterator::next')
def m_next(e, st, fr, t, a, ga):
    out = []
    r = a[0]
    for s2, i2, x in noskip(e, st, r):
        if r[0] != 'mref':
            raise Undecided('next by value')
        out.append((s2, NONE if x is None else Some(x)))
    return out


@model('std::iter::Peekable::peek')
def m_peek(e, st, fr, t, a, ga):
    r = a[0]
    it = D(e, st, r)
    if it[3] is not None:
        x = it[3]
        return one(st, NONE if x == ('end',) else Some(x))
    out = []
    try:
        nx = noskip(e, st, it[2])
    except Overshoot as o:
        # at the end of the generic element: what follows is the next element of the same sequence
        if it[2][0] != 'iter' or it[2][1] != 'src' or len(o.where) < 5:
            raise
        _, _, P, mod, alts = o.where
        if mod in ('', 'tail'):
            raise E.NeedLast(o.uid)
        if mod not in ('init', 'mid'):
            raise
        for g, body in alts:
            s2 = e.guards_state(st, tuple(rename(tuple(g), P + '[*]', P + '[+]')))
            if s2 is None:
                continue
            if not body or body[0][0] != 'one':
                raise
            out.append((s2, Some(rename(body[0][1], P + '[*]', P + '[+]'))))
        return out
    for s2, i2, x in nx:
        s2 = setv(e, s2, r, ('iter', 'peekable', i2, ('end',) if x is None else x))
        out.append((s2, NONE if x is None else Some(x)))
    return out


@model('std::iter::Peekable::next_if')
def m_next_if(e, st, fr, t, a, ga):
    out = []
    for s2, o in m_peek(e, st, fr, t, a, ga):
        if o == NONE:
            out.append((s2, NONE))
            continue
        for s3, v in call1(e, s2, a[1], [o[3][0]]):
            for s4, b in e.truth(s3, v):
                if b:
                    for s5, i5, x in noskip(e, s4, a[0]):
                        out.append((s5, Some(x)))
                else:
                    out.append((s4, NONE))
    return out


def adaptor(kind, extra):
    def f(e, st, fr, t, a, ga):
        it = a[0]
        if it[0] not in ('iter', 'mref', 'adt'):
            r = into_iter(e, st, it)
            return [(s2, ('iter', kind, i) + extra(e, s2, a)) for s2, i in r]
        return one(st, ('iter', kind, it) + extra(e, st, a))
    return f


def byvalue(it):
    """an iterator that owns its sequence: it may be run to its end at once"""
    if it[0] != 'iter':
        return False
    if it[1] == 'src':
        return True
    if it[1] in ('map', 'filter', 'filter_map', 'inspect', 'flat', 'enumerate', 'skip', 'take', 'skip_while', 'take_while'):
        return byvalue(it[2]) and (it[1] != 'flat' or it[3] is None)
    if it[1] in ('chain', 'zip'):
        return it[2] is not None and byvalue(it[2]) and byvalue(it[3])
    return False


def pureclo(e, f):
    """a closure that captures nothing by mutable reference"""
    if f[0] == 'fn':
        return f[1][0] != '#'
    return f[0] == 'clo' and not any(u[0] == 'mref' for u in f[2])


def tovec(e, st, key, it):
    return [(s2, v) for s2, k, v in vloop(e, st, key, it, ('vec', ()),
                                          lambda s, acc, x: [(s, 'c', ('vec', acc[1] + (('one', x),)))])]


def eager(kind):
    lazy = M['std::iter::Iterator::' + kind]

    def f(e, st, fr, t, a, ga):
        it = a[0]
        if not byvalue(it) or not pureclo(e, a[1]):
            return lazy(e, st, fr, t, a, ga)

        def step(s, acc, x):
            out = []
            for s2, v, _ in e.callv(s, a[1], [x]):
                if kind == 'filter':
                    for s3, b in e.truth(s2, v):
                        out.append((s3, 'c', ('vec', acc[1] + (('one', x),)) if b else acc))
                else:
                    for s3, p in e.opt(s2, v):
                        out.append((s3, 'c', acc if p is None else ('vec', acc[1] + (('one', p),))))
            return out
        out = []
        for s2, k, v in vloop(e, st, lname(fr, t), it, ('vec', ()), step):
            out.extend(mksrc(e, s2, v[1]))
        return out
    return f


for _n, _k, _x in [
    ('map', 'map', lambda e, st, a: (a[1],)), ('filter', 'filter', lambda e, st, a: (a[1],)),
    ('filter_map', 'filter_map', lambda e, st, a: (a[1],)), ('enumerate', 'enumerate', lambda e, st, a: (I(0),)),
    ('take_while', 'take_while', lambda e, st, a: (a[1], False)), ('map_while', 'map_while', lambda e, st, a: (a[1], False)),
    ('skip_while', 'skip_while', lambda e, st, a: (a[1], False)),
    ('peekable', 'peekable', lambda e, st, a: (None,)), ('inspect', 'inspect', lambda e, st, a: (a[1],)),
]:
    M['std::iter::Iterator::' + _n] = adaptor(_k, _x)
for _n in ('filter', 'filter_map'):
    M['std::iter::Iterator::' + _n] = eager(_n)


@model('std::iter::Iterator::cloned', 'std::iter::Iterator::copied')
def m_itid(e, st, fr, t, a, ga):
    return one(st, a[0])


@model('std::iter::Iterator::chain')
def m_chain(e, st, fr, t, a, ga):
    return [(s2, ('iter', 'chain', a[0], b)) for s2, b in into_iter(e, st, a[1])]


@model('std::iter::Iterator::zip', 'std::iter::zip')
def m_zip(e, st, fr, t, a, ga):
    return [(s3, ('iter', 'zip', i, b)) for s2, b in into_iter(e, st, a[1]) for s3, i in into_iter(e, s2, a[0])]


@model('std::iter::Iterator::skip')
def m_skip(e, st, fr, t, a, ga):
    n = as_int(D(e, st, a[1]))
    if n is None:
        raise Undecided('skip')
    it = a[0]
    if it[0] == 'iter' and it[1] == 'src' and n == 1:
        ch = st.streams[it[2]]
        if ch and ch[0][0] == 'each' and ch[0][2] == '':
            st = st.copy()
            st.streams[it[2]] = (('each', ch[0][1], 'tail', ch[0][3]),) + ch[1:]
            return one(st, it)
    return one(st, ('iter', 'skip', a[0], n))


@model('std::iter::Iterator::take')
def m_itake(e, st, fr, t, a, ga):
    n = as_int(D(e, st, a[1]))
    if n is None:
        raise Undecided('take')
    return one(st, ('iter', 'take', a[0], n))


@model('std::iter::Iterator::rev')
def m_rev(e, st, fr, t, a, ga):
    it = a[0]
    if it[0] == 'iter' and it[1] == 'src':
        st = st.copy()
        st.streams[it[2]] = rev_items(st.streams[it[2]])
        return one(st, it)
    if it[0] == 'iter' and it[1] in ('map', 'filter', 'filter_map'):
        out = []
        for s2, i2 in m_rev(e, st, fr, t, [it[2]], ga):
            out.append((s2, ('iter', it[1], i2) + it[3:]))
        return out
    if it[0] == 'adt':
        out = []
        for s2, i2 in into_iter(e, st, it):
            out.extend(m_rev(e, s2, fr, t, [i2], ga))
        return out
    raise Undecided('rev')


def flat_eager(e, st, fr, t, it):
    """flatten an owned iterator of sequences"""
    def step(s, acc, x):
        out = []
        for s2, i2 in into_iter(e, s, x):
            if i2[0] == 'iter' and i2[1] == 'src':
                its = s2.streams[i2[2]]
                s2 = s2.copy()
                s2.streams[i2[2]] = ()
                out.append((s2, 'c', ('vec', acc[1] + its)))
            else:
                for s3, v in tovec(e, s2, lname(fr, t), i2):
                    out.append((s3, 'c', ('vec', acc[1] + v[1])))
        return out
    out = []
    for s2, k, v in vloop(e, st, lname(fr, t), it, ('vec', ()), step):
        out.extend(mksrc(e, s2, v[1]))
    return out


@model('std::iter::Iterator::flat_map')
def m_flat_map(e, st, fr, t, a, ga):
    if byvalue(a[0]) and pureclo(e, a[1]):
        return flat_eager(e, st, fr, t, ('iter', 'map', a[0], a[1]))
    return one(st, ('iter', 'flat', ('iter', 'map', a[0], a[1]), None))


@model('std::iter::Iterator::flatten')
def m_flatten(e, st, fr, t, a, ga):
    if byvalue(a[0]):
        return flat_eager(e, st, fr, t, a[0])
    return one(st, ('iter', 'flat', a[0], None))


@model('std::iter::once')
def m_once(e, st, fr, t, a, ga):
    return mksrc(e, st, (('one', a[0]),))


@model('std::iter::empty')
def m_empty_it(e, st, fr, t, a, ga):
    return mksrc(e, st, ())


# ------------------------------------------------------------- consuming
def vloop(e, st, key, it, init, step):
    """drive iterator `it`.  step(state, acc, item) -> [(state, 'c', acc) | (state, 'x', value)]
    returns [(state, 'end', acc) | (state, 'brk', value)]"""
    c = ('tmp', e.fresh())
    i = ('tmp', e.fresh())
    st = st.copy()
    if it[0] not in ('iter', 'mref', 'adt'):
        (st, it), = into_iter(e, st, it)
        st = st.copy()
    st.cells[c] = init
    st.cells[i] = it

    def once(s1):
        outs = []
        for s2, i2, x in nxt(e, s1, s1.cells[i]):
            s2 = s2.copy()
            s2.cells[i] = i2
            if x is None:
                outs.append(('exit', 'end', s2))
            elif x is SKIP or x == SKIP:
                outs.append(('head', s2))
            else:
                for s3, k, v in step(s2, s2.cells[c], x):
                    s3 = s3.copy()
                    s3.cells[c] = v
                    outs.append(('head', s3) if k == 'c' else ('exit', 'brk', s3))
        return outs
    done, exits = e.do_loop((key, 'iterator'), st, once, lambda cell: True, None)
    res = []
    for k, s2 in exits:
        s2 = s2.copy()
        v = s2.cells.pop(c)
        s2.cells.pop(i, None)
        res.append((s2, k, v))
    return res


def lname(fr, t):
    return '%s' % (fr.name if fr and fr.name else '?')


@model('std::iter::Iterator::fold')
def m_fold(e, st, fr, t, a, ga):
    def step(s, acc, x):
        return [(s2, 'c', v) for s2, v, _ in e.callv(s, a[2], [acc, x])]
    return [(s2, v) for s2, k, v in vloop(e, st, lname(fr, t), a[0], a[1], step)]


@model('std::iter::Iterator::try_fold')
def m_try_fold(e, st, fr, t, a, ga):
    R_ = ga[-1] if ga else None
    isopt = R_ is not None and R_[0] == 'a' and R_[1] == OPT

    def step(s, acc, x):
        out = []
        for s2, r, _ in e.callv(s, a[2], [acc, x]):
            if isopt or (r[0] == 'adt' and r[1] == OPT):
                for s3, p in e.opt(s2, r):
                    out.append((s3, 'x', NONE) if p is None else (s3, 'c', p))
            else:
                for s3, ok, p in e.res(s2, r):
                    out.append((s3, 'c', p) if ok else (s3, 'x', Err(p)))
        return out
    mk = Some if isopt else Ok
    return [(s2, mk(v) if k == 'end' else v) for s2, k, v in vloop(e, st, lname(fr, t), a[0], a[1], step)]


@model('std::iter::Iterator::try_for_each')
def m_try_for_each(e, st, fr, t, a, ga):
    def step(s, acc, x):
        out = []
        for s2, r, _ in e.callv(s, a[1], [x]):
            for s3, ok, p in e.res(s2, r):
                out.append((s3, 'c', UNIT) if ok else (s3, 'x', Err(p)))
        return out
    return [(s2, Ok(UNIT) if k == 'end' else v) for s2, k, v in vloop(e, st, lname(fr, t), a[0], UNIT, step)]


@model('std::iter::Iterator::for_each')
def m_for_each(e, st, fr, t, a, ga):
    def step(s, acc, x):
        return [(s2, 'c', UNIT) for s2, v, _ in e.callv(s, a[1], [x])]
    return [(s2, UNIT) for s2, k, v in vloop(e, st, lname(fr, t), a[0], UNIT, step)]


@model('std::iter::Iterator::any')
def m_any(e, st, fr, t, a, ga):
    def step(s, acc, x):
        out = []
        for s2, v, _ in e.callv(s, a[1], [x]):
            for s3, b in e.truth(s2, v):
                out.append((s3, 'x', TRUE) if b else (s3, 'c', acc))
        return out
    return [(s2, FALSE if k == 'end' else v) for s2, k, v in vloop(e, st, lname(fr, t), a[0], UNIT, step)]


@model('std::iter::Iterator::all')
def m_all(e, st, fr, t, a, ga):
    def step(s, acc, x):
        out = []
        for s2, v, _ in e.callv(s, a[1], [x]):
            for s3, b in e.truth(s2, v):
                out.append((s3, 'c', acc) if b else (s3, 'x', FALSE))
        return out
    return [(s2, TRUE if k == 'end' else v) for s2, k, v in vloop(e, st, lname(fr, t), a[0], UNIT, step)]


@model('std::iter::Iterator::find')
def m_find(e, st, fr, t, a, ga):
    def step(s, acc, x):
        out = []
        for s2, v, _ in e.callv(s, a[1], [x]):
            for s3, b in e.truth(s2, v):
                out.append((s3, 'x', Some(x)) if b else (s3, 'c', acc))
        return out
    return [(s2, NONE if k == 'end' else v) for s2, k, v in vloop(e, st, lname(fr, t), a[0], UNIT, step)]


@model('std::iter::Iterator::find_map')
def m_find_map(e, st, fr, t, a, ga):
    def step(s, acc, x):
        out = []
        for s2, v, _ in e.callv(s, a[1], [x]):
            for s3, p in e.opt(s2, v):
                out.append((s3, 'c', acc) if p is None else (s3, 'x', Some(p)))
        return out
    return [(s2, NONE if k == 'end' else v) for s2, k, v in vloop(e, st, lname(fr, t), a[0], UNIT, step)]


@model('std::iter::Iterator::position')
def m_position(e, st, fr, t, a, ga):
    def step(s, acc, x):
        out = []
        for s2, v, _ in e.callv(s, a[1], [x]):
            for s3, b in e.truth(s2, v):
                out.append((s3, 'x', Some(acc)) if b else (s3, 'c', binop(e, s3, 'Add', acc, I(1))[0][1]))
        return out
    return [(s2, NONE if k == 'end' else v) for s2, k, v in vloop(e, st, lname(fr, t), a[0], I(0), step)]


@model('std::iter::Iterator::count')
def m_count(e, st, fr, t, a, ga):
    def step(s, acc, x):
        return [(s, 'c', binop(e, s, 'Add', acc, I(1))[0][1])]
    return [(s2, v) for s2, k, v in vloop(e, st, lname(fr, t), a[0], I(0), step)]


@model('std::iter::Iterator::last')
def m_itlast(e, st, fr, t, a, ga):
    def step(s, acc, x):
        return [(s, 'c', acc + (('one', x),))]
    out = []
    for s2, k, v in vloop(e, st, lname(fr, t), a[0], ('vec', ()), lambda s, acc, x: [(s, 'c', ('vec', acc[1] + (('one', x),)))]):
        out.extend(fo(end_elem(e, s2, v, True)))
    return out


@model('std::iter::Iterator::nth')
def m_nth(e, st, fr, t, a, ga):
    n = as_int(D(e, st, a[1]))
    if n is None:
        raise Undecided('nth')
    cur = [st]
    out = []
    for _ in range(n):
        nx = []
        for s2 in cur:
            for s3, i3, x in noskip(e, s2, a[0]):
                if x is None:
                    out.append((s3, NONE))
                else:
                    nx.append(s3)
        cur = nx
    for s2 in cur:
        out.extend(m_next(e, s2, fr, t, a, ga))
    return out


def coll_init(T):
    if T[0] == 'a':
        if T[1] == STRING:
            return ('str', ())
        if T[1] in VECS or T[1] == 'std::boxed::Box':
            return ('vec', ())
        if T[1] in LMAPS or T[1] in HMAPS:
            return ('map', ())
    if T == UNIT_T:
        return UNIT
    if T[0] in ('o', 'par'):
        return ('vec', ())
    raise Undecided('collect into %s' % tn(T))


def coll_add(e, st, acc, x):
    if acc == UNIT:
        return acc
    if acc[0] == 'vec':
        return ('vec', acc[1] + (('one', x),))
    if acc[0] == 'str':
        x = D(e, st, x)
        return ('str', cat(acc[1], X.embed(x[1]) if x[0] == 'str' else char_segs(e, x)))
    x = D(e, st, x)
    if x[0] == 'sym':
        x = e.expand(x)
    k = map_key(e, st, x[1][0])
    return map_put(e, st, acc, k, x[1][1])


def collect_into(e, st, key, it, T):
    wrapk = None
    inner = T
    if T[0] == 'a' and T[1] in (RES, OPT):
        wrapk = T[1]
        inner = T[2][0]
    init = coll_init(inner)

    def step(s, acc, x):
        if wrapk == RES:
            out = []
            for s2, ok, p in e.res(s, x):
                out.append((s2, 'c', coll_add(e, s2, acc, p)) if ok else (s2, 'x', Err(p)))
            return out
        if wrapk == OPT:
            out = []
            for s2, p in e.opt(s, x):
                out.append((s2, 'x', NONE) if p is None else (s2, 'c', coll_add(e, s2, acc, p)))
            return out
        return [(s, 'c', coll_add(e, s, acc, x))]
    mk = (lambda v: v) if wrapk is None else Ok if wrapk == RES else Some
    return [(s2, mk(v) if k == 'end' else v) for s2, k, v in vloop(e, st, key, it, init, step)]


@model('std::iter::Iterator::collect')
def m_collect(e, st, fr, t, a, ga):
    T = ga[1] if len(ga) > 1 else dstT(e, fr, t)
    return collect_into(e, st, lname(fr, t), a[0], T)


@model('std::iter::FromIterator::from_iter')
def m_from_iter(e, st, fr, t, a, ga):
    out = []
    for s2, it in into_iter(e, st, a[0]):
        out.extend(collect_into(e, s2, lname(fr, t), it, ga[0]))
    return out


@model('std::iter::Extend::extend', 'std::vec::Vec::extend')
def m_extend(e, st, fr, t, a, ga):
    r = a[0]
    v = D(e, st, r)
    kind = e.collkind(v)
    if v[0] == 'sym':
        v = (kind, (('base', v[1], v[2]),)) if kind == 'map' else (kind, e.seqitems(v))
    out = []
    for s2, it in into_iter(e, st, a[1]):
        for s3, k, acc in vloop(e, s2, lname(fr, t), it, v, lambda s, acc, x: [(s, 'c', coll_add(e, s, acc, x))]):
            out.append((setv(e, s3, r, acc), UNIT))
    return out


@model('std::iter::Iterator::size_hint')
def m_size_hint(e, st, fr, t, a, ga):
    return one(st, ('sym', '?size', ('o', '?')))


@model('std::iter::Iterator::partition', 'std::iter::Iterator::unzip')
def m_partition(e, st, fr, t, a, ga):
    unz = t.get('m') == 'unzip' or (t.get('f') or '').endswith('unzip')

    def step(s, acc, x):
        if unz:
            x = e.expand(D(e, s, x))
            return [(s, 'c', ('tup', (coll_add(e, s, acc[1][0], x[1][0]), coll_add(e, s, acc[1][1], x[1][1]))))]
        out = []
        for s2, v, _ in e.callv(s, a[1], [x]):
            for s3, b in e.truth(s2, v):
                f = list(acc[1])
                f[0 if b else 1] = coll_add(e, s3, f[0 if b else 1], x)
                out.append((s3, 'c', ('tup', tuple(f))))
        return out
    return [(s2, v) for s2, k, v in vloop(e, st, lname(fr, t), a[0], ('tup', (('vec', ()), ('vec', ()))), step)]


# ===================================================================== strings
@model('std::string::String::new', 'std::string::String::with_capacity')
def m_string_new(e, st, fr, t, a, ga):
    return one(st, lit(''))


@model('std::string::String::push_str', 'std::ops::AddAssign::add_assign')
def m_push_str(e, st, fr, t, a, ga):
    v = D(e, st, a[0])
    x = D(e, st, a[1])
    if v[0] != 'str':
        out = []
        for s2, r in binop(e, st, 'Add', v, x):
            out.append((setv(e, s2, a[0], r), UNIT))
        return out
    return one(setv(e, st, a[0], ('str', cat(v[1], X.embed(x[1])))), UNIT)


@model('std::ops::Add::add')
def m_str_add(e, st, fr, t, a, ga):
    v, x = D(e, st, a[0]), D(e, st, a[1])
    if v[0] != 'str':
        return binop(e, st, 'Add', v, x)
    return one(st, ('str', cat(X.embed(v[1]), X.embed(x[1]))))


@model('std::string::String::push')
def m_str_push(e, st, fr, t, a, ga):
    v = D(e, st, a[0])
    return one(setv(e, st, a[0], ('str', cat(v[1], char_segs(e, D(e, st, a[1]))))), UNIT)


@model('std::string::String::clear')
def m_str_clear(e, st, fr, t, a, ga):
    return one(setv(e, st, a[0], lit('')), UNIT)


@model('std::string::String::pop')
def m_str_pop(e, st, fr, t, a, ga):
    v = D(e, st, a[0])
    out = []
    for s2, rest, ch in X.pop(e, st, v[1]):
        if ch is None:
            out.append((s2, NONE))
        else:
            out.append((setv(e, s2, a[0], ('str', rest)), Some(ch)))
    return out


def cutprefix(segs, pre):
    """what follows pre in segs, or None"""
    segs, pre = list(segs), list(pre)
    while pre:
        if not segs:
            return None
        p, s = pre[0], segs[0]
        if p == s:
            pre, segs = pre[1:], segs[1:]
        elif p[0] == 'L' and s[0] == 'L' and s[1].startswith(p[1]):
            pre, segs = pre[1:], [('L', s[1][len(p[1]):])] + segs[1:]
        else:
            return None
    return segs


@model('std::string::String::truncate')
def m_str_truncate(e, st, fr, t, a, ga):
    v, n = D(e, st, a[0]), D(e, st, a[1])
    k = as_int(n)
    if k == 0:
        return one(setv(e, st, a[0], lit('')), UNIT)
    if k is not None and v[0] == 'str':
        b = v[1][0][1].encode() if v[1] and v[1][0][0] == 'L' else b''
        if len(b) >= k or not v[1] or len(v[1]) == 1 and v[1][0][0] == 'L':
            try:
                return one(setv(e, st, a[0], lit(b[:k].decode())), UNIT)
            except UnicodeDecodeError:
                pass
    l = lin(n)
    if l and v[0] == 'str' and l[0] in e.lens:
        pre, d = e.lens[l[0]], -l[1]
        if cutprefix(v[1], pre) is not None and d >= 0:
            pre = list(pre)
            while d and pre and pre[-1][0] == 'L' and pre[-1][1].isascii():
                x = min(d, len(pre[-1][1]))
                pre[-1] = ('L', pre[-1][1][:-x])
                d -= x
                if not pre[-1][1]:
                    pre.pop()
            if not d:
                return one(setv(e, st, a[0], ('str', tuple(pre))), UNIT)
    raise Undecided('truncate')


@model('std::string::String::insert_str')
def m_insert_str(e, st, fr, t, a, ga):
    v = D(e, st, a[0])
    if as_int(D(e, st, a[1])) == 0:
        return one(setv(e, st, a[0], ('str', cat(X.embed(D(e, st, a[2])[1]), v[1]))), UNIT)
    raise Undecided('insert_str')


@model('std::string::String::insert')
def m_insert_ch(e, st, fr, t, a, ga):
    v = D(e, st, a[0])
    if as_int(D(e, st, a[1])) == 0:
        return one(setv(e, st, a[0], ('str', cat(char_segs(e, D(e, st, a[2])), v[1]))), UNIT)
    raise Undecided('insert')


def patstr(e, st, p):
    """a literal pattern as text, or None"""
    p = D(e, st, p)
    if p[0] == 'char':
        return p[1]
    if p[0] == 'str' and all(x[0] == 'L' for x in p[1]):
        return ''.join(x[1] for x in p[1])
    return None


def need_pat(e, st, p):
    r = patstr(e, st, p)
    if r is None:
        raise Undecided('pattern %s' % render(D(e, st, p)))
    return r


@model('str::starts_with')
def m_starts(e, st, fr, t, a, ga):
    v = D(e, st, a[0])
    p = patstr(e, st, a[1])
    if p is None:
        r = X.strip_sym(e, st, v[1], D(e, st, a[1]), True)
        return [(s2, ('bool', x is not None)) for s2, x in r]
    return [(s2, ('bool', x is not None)) for s2, x in X.strip_prefix(e, st, v[1], p)]


@model('str::ends_with')
def m_ends(e, st, fr, t, a, ga):
    v = D(e, st, a[0])
    p = need_pat(e, st, a[1])
    return [(s2, ('bool', x is not None)) for s2, x in X.strip_suffix(e, st, v[1], p)]


def fs(r):
    return [(s2, NONE if x is None else Some(('str', x))) for s2, x in r]


@model('str::strip_prefix')
def m_strip_prefix(e, st, fr, t, a, ga):
    return fs(X.strip_prefix(e, st, D(e, st, a[0])[1], need_pat(e, st, a[1])))


@model('str::strip_suffix')
def m_strip_suffix(e, st, fr, t, a, ga):
    return fs(X.strip_suffix(e, st, D(e, st, a[0])[1], need_pat(e, st, a[1])))


@model('str::trim')
def m_trim(e, st, fr, t, a, ga):
    return [(s2, ('str', x)) for s2, x in X.trim(e, st, D(e, st, a[0])[1], True, True)]


@model('str::trim_end', 'str::trim_right')
def m_trim_end(e, st, fr, t, a, ga):
    return [(s2, ('str', x)) for s2, x in X.trim(e, st, D(e, st, a[0])[1], False, True)]


@model('str::trim_start', 'str::trim_left')
def m_trim_start(e, st, fr, t, a, ga):
    return [(s2, ('str', x)) for s2, x in X.trim(e, st, D(e, st, a[0])[1], True, False)]


@model('str::split')
def m_split(e, st, fr, t, a, ga):
    sep = need_pat(e, st, a[1])
    out = []
    for s2, its in X.split(e, st, D(e, st, a[0])[1], sep):
        out.extend(mksrc(e, s2, its))
    return out


@model('str::lines')
def m_lines(e, st, fr, t, a, ga):
    out = []
    for s2, its in X.split(e, st, D(e, st, a[0])[1], '\n'):
        if its and its[-1] == ('one', lit('')):
            its = its[:-1]
        out.extend(mksrc(e, s2, its))
    return out


@model('str::split_whitespace', 'str::split_ascii_whitespace')
def m_split_ws(e, st, fr, t, a, ga):
    v = D(e, st, a[0])
    if len(v[1]) == 1 and v[1][0][0] == 'A':
        P = v[1][0][1] + '.words'
        return mksrc(e, st, (('each', P, '', (((), (('one', ('str', (('A', P + '[*]', 'word'),))),)),)),))
    raise Undecided('split_whitespace')


@model('str::split_once')
def m_split_once(e, st, fr, t, a, ga):
    sep = need_pat(e, st, a[1])
    out = []
    for s2, r in X.split_once(e, st, D(e, st, a[0])[1], sep):
        out.append((s2, NONE if r is None else Some(('tup', (('str', r[0]), ('str', r[1]))))))
    return out


@model('str::rsplit_once')
def m_rsplit_once(e, st, fr, t, a, ga):
    sep = need_pat(e, st, a[1])
    out = []
    for s2, r in X.split_once(e, st, D(e, st, a[0])[1], sep, True):
        out.append((s2, NONE if r is None else Some(('tup', (('str', r[0]), ('str', r[1]))))))
    return out


@model('str::contains')
def m_str_contains(e, st, fr, t, a, ga):
    sep = need_pat(e, st, a[1])
    return [(s2, ('bool', r is not None)) for s2, r in X.split_once(e, st, D(e, st, a[0])[1], sep)]


@model('str::find')
def m_str_find(e, st, fr, t, a, ga):
    sep = need_pat(e, st, a[1])
    v = D(e, st, a[0])
    out = []
    for s2, r in X.split_once(e, st, v[1], sep):
        if r is None:
            out.append((s2, NONE))
        else:
            out.append((s2, Some(found(e, s2, v[1], r, sep))))
    return out


def found(e, st, segs, r, sep):
    """the position of sep in segs, which it splits into r"""
    n = length(e, st, ('str', r[0]))
    if n[0] == 'sym':
        e.cuts[n[1]] = (X.resolve(e, st, segs), r[0], X.cat((('L', sep),), r[1]))
    return n


def cutat(e, st, segs, ix):
    """(before, after) of a position that was measured in this text, or None"""
    l = lin(ix)
    if not l or not l[0]:
        return None
    segs = X.resolve(e, st, segs)
    c = e.cuts.get(l[0])
    if c and c[0] == segs:
        pre, rest = c[1:]
    elif l[0] in e.lens and cutprefix(segs, e.lens[l[0]]) is not None:
        pre, rest = e.lens[l[0]], tuple(cutprefix(segs, e.lens[l[0]]))
    else:
        return None
    d = l[1]
    if d > 0:
        if not rest or rest[0][0] != 'L' or not rest[0][1].isascii() or len(rest[0][1]) < d:
            return None
        return X.cat(pre, (('L', rest[0][1][:d]),)), X.cat((('L', rest[0][1][d:]),), rest[1:])
    if d < 0:
        if not pre or pre[-1][0] != 'L' or not pre[-1][1].isascii() or len(pre[-1][1]) < -d:
            return None
        return X.cat(pre[:-1], (('L', pre[-1][1][:d]),)), X.cat((('L', pre[-1][1][d:]),), rest)
    return pre, rest


@model('str::rfind')
def m_str_rfind(e, st, fr, t, a, ga):
    sep = need_pat(e, st, a[1])
    v = D(e, st, a[0])
    return [(s2, NONE if r is None else Some(found(e, s2, v[1], r, sep))) for s2, r in X.split_once(e, st, v[1], sep, True)]


@model('str::split_at', 'str::split_at_checked')
def m_str_split_at(e, st, fr, t, a, ga):
    v, n = D(e, st, a[0]), as_int(D(e, st, a[1]))
    checked = 'checked' in t['f']
    if n is None:
        c = cutat(e, st, v[1], D(e, st, a[1]))
        if c is None:
            raise Undecided('split_at')
        r = ('tup', (('str', c[0]), ('str', c[1])))
        return one(st, Some(r) if checked else r)
    out = []
    for s2, x in X.substr(e, st, v[1], 0, n, False):
        for s3, y in ([(s2, None)] if x is None else X.substr(e, s2, v[1], n, None, True)):
            if x is not None and y is not None:
                r = ('tup', (('str', x), ('str', y)))
                out.append((s3, Some(r) if checked else r))
            elif checked:
                out.append((s3, NONE))
            else:
                e.panic(s3, fr, t, 'text split out of bounds or inside a character')
    return out


@model('str::chars')
def m_chars(e, st, fr, t, a, ga):
    return mksrc(e, st, X.chars(e, D(e, st, a[0])[1]))


@model('str::replace')
def m_replace_str(e, st, fr, t, a, ga):
    v = D(e, st, a[0])
    x, y = need_pat(e, st, a[1]), need_pat(e, st, a[2])
    if all(s[0] == 'L' for s in v[1]):
        return one(st, lit(''.join(s[1] for s in v[1]).replace(x, y)))
    return one(st, ('str', (('A', 'replace(%s,%r,%r)' % (X.srender(v[1]), x, y), 'raw'),)))


@model('char::to_ascii_uppercase', 'char::to_uppercase')
def m_upper(e, st, fr, t, a, ga):
    v = D(e, st, a[0])
    if v[0] == 'char':
        return one(st, ('char', v[1].upper()))
    return one(st, ('sym', 'upper(%s)' % render(v), ('p', 'char')))


@model('char::to_ascii_lowercase', 'char::to_lowercase')
def m_lower(e, st, fr, t, a, ga):
    v = D(e, st, a[0])
    if v[0] == 'char':
        return one(st, ('char', v[1].lower()))
    return one(st, ('sym', 'lower(%s)' % render(v), ('p', 'char')))


@model('str::to_uppercase', 'str::to_ascii_uppercase', 'str::to_lowercase', 'str::to_ascii_lowercase')
def m_case(e, st, fr, t, a, ga):
    v = D(e, st, a[0])
    up = 'upper' in (t.get('f') or '')
    if all(s[0] == 'L' for s in v[1]):
        x = ''.join(s[1] for s in v[1])
        return one(st, lit(x.upper() if up else x.lower()))
    # letter by letter: the case of a piece is that of its parts, and separators are not letters
    segs = X.resolve(e, st, v[1])
    if all(q[0] == 'L' or q[0] == 'A' and (q[2] in ('id', 'line', 'word') or q[2] == 'json' and len(q) > 3) for q in segs):
        f = 'upper' if up else 'lower'
        return one(st, ('str', tuple(('L', q[1].upper() if up else q[1].lower()) if q[0] == 'L' else ('A', '%s(%s)' % (f, q[1]), 'line' if q[2] == 'json' else q[2]) for q in segs)))
    return one(st, ('str', (('A', '%s(%s)' % ('upper' if up else 'lower', X.srender(v[1])), 'raw'),)))


def parse_as(e, st, v, T):
    """str::parse::<T>"""
    v = D(e, st, v)
    if T[0] == 'a' and T[1] == STRING:
        return one(st, Ok(v))
    ER = ('o', 'Parse%sError' % ('Int' if T[0] == 'p' and T[1] in INTS else 'Bool' if T == BOOL_T else 'Float' if T[0] == 'p' else ''))
    p = e.p.find_impl('std::str::FromStr', 'from_str', T) if T[0] == 'a' else None
    if p:
        return e.call_local(st, p, [v], (T,))
    segs = X.resolve(e, st, v[1])
    if all(s[0] == 'L' for s in segs):
        x = ''.join(s[1] for s in segs)
        if T == BOOL_T:
            if x in ('true', 'false'):
                return one(st, Ok(('bool', x == 'true')))
            return one(st, Err(('sym', 'ParseBoolError(%r)' % x, ER)))
        if T[0] == 'p' and T[1] in INTS:
            if re.fullmatch(r'[+-]?[0-9]+', x):
                n = int(x)
                w, sg = INTS[T[1]]
                lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
                if lo <= n <= hi and not (x[0] == '-' and not sg):
                    return one(st, Ok(('int', n, T[1])))
            return one(st, Err(('sym', 'ParseIntError(%r)' % x, ER)))
        if T[0] == 'p' and T[1] in ('f32', 'f64'):
            try:
                return one(st, Ok(('flt', repr(float(x)))))
            except ValueError:
                return one(st, Err(('sym', 'ParseFloatError(%r)' % x, ER)))
        if T == ('p', 'char'):
            return one(st, Ok(('char', x)) if len(x) == 1 else Err(('sym', 'CharError', ER)))
    if len(segs) == 1 and segs[0][0] == 'A' and segs[0][2] == 'num' and len(segs[0]) > 3:
        val = segs[0][3]
        if tyof(val) == (T[1] if T[0] == 'p' else None):
            return one(st, Ok(val))
        if val[0] == 'flt' and T[0] == 'p' and T[1] in ('f32', 'f64'):
            return one(st, Ok(val))
        if val[0] == 'pad' and tyof(val[4]) == (T[1] if T[0] == 'p' else None):
            return one(st, Ok(val[4]))
        if T[0] == 'p' and T[1] in INTS and tyof(val) in INTS:
            w, sg = INTS[T[1]]
            w0, sg0 = INTS[tyof(val)]
            if (sg == sg0 and w >= w0) or (sg and not sg0 and w > w0):
                return one(st, Ok(('cast', T[1], val)))
            # narrowing: may be rejected
            path = 'parse<%s>(%s)' % (tn(T), render(val))
            return [(s2, Ok(('cast', T[1], val)) if b else Err(('sym', path + '@Err', ER)))
                    for s2, b in e.pred(st, ('b', 'fits<%s>(%s)' % (T[1], render(val))))]
    if len(segs) == 1 and segs[0][0] == 'A' and segs[0][2] == 'id' and e.idnotnum:
        return one(st, Err(('sym', 'ParseError(%s)' % segs[0][1], ER)))
    path = 'parse<%s>(%s)' % (tn(T), X.srender(segs))
    v = ('sym', path, ('a', RES, (T, ER)))
    return one(st, v)


@model('str::trim_end_matches', 'str::trim_start_matches', 'str::trim_matches', 'str::trim_left_matches', 'str::trim_right_matches')
def m_trim_matches(e, st, fr, t, a, ga):
    v = D(e, st, a[0])
    n = (t.get('f') or '').split('::')[-1]
    x = D(e, st, a[1])
    if x[0] not in ('str', 'char'):
        raise Undecided('%s with %s' % (n, render(x)))
    x = need_pat(e, st, a[1])
    if x and all(s[0] == 'L' for s in v[1]):
        y = ''.join(s[1] for s in v[1])
        while 'start' not in n and 'left' not in n and y.endswith(x):
            y = y[:-len(x)]
        while 'end' not in n and 'right' not in n and y.startswith(x):
            y = y[len(x):]
        return one(st, lit(y))
    r = X.strip_nl(e, st, v[1], 'end' not in n and 'right' not in n, 'start' not in n and 'left' not in n) if x == '\n' else None
    if r is not None:
        return [(s2, ('str', y)) for s2, y in r]
    return one(st, ('str', (('A', '%s(%s,%r)' % (n, X.srender(v[1]), x), 'raw'),)))


@model('str::parse')
def m_parse(e, st, fr, t, a, ga):
    return parse_as(e, st, a[0], ga[0])


@model('std::str::FromStr::from_str')
def m_from_str(e, st, fr, t, a, ga):
    return parse_as(e, st, a[0], ga[0])


@model('u32::from_str_radix', 'i64::from_str_radix', 'u64::from_str_radix', 'i32::from_str_radix', 'u8::from_str_radix')
def m_radix(e, st, fr, t, a, ga):
    v = D(e, st, a[0])
    r = as_int(D(e, st, a[1]))
    ty = norm(t['f']).split('::')[0]
    ER = ('o', 'ParseIntError')
    segs = X.resolve(e, st, v[1])
    if all(s[0] == 'L' for s in segs):
        x = ''.join(s[1] for s in segs)
        try:
            n = int(x, r)
            w, sg = INTS[ty]
            if 0 <= n < (1 << w):
                return one(st, Ok(('int', n, ty)))
        except ValueError:
            pass
        return one(st, Err(('sym', 'ParseIntError(%r)' % x, ER)))
    return one(st, ('sym', 'radix%d<%s>(%s)' % (r, ty, X.srender(segs)), ('a', RES, (('p', ty), ER))))


@model('std::string::String::from_utf8', 'std::str::from_utf8')
def m_from_utf8(e, st, fr, t, a, ga):
    v = D(e, st, a[0])
    return one(st, e.app('utf8', [v], ('a', RES, (('a', STRING, ()), ('o', 'FromUtf8Error')))))


@model('[T]::strip_prefix', '[T]::strip_suffix')
def m_bytes_strip(e, st, fr, t, a, ga):
    v, x = D(e, st, a[0]), D(e, st, a[1])
    if v[0] != 'sym':
        raise Undecided('%s of %s' % (norm(t['f']), render(v)))
    return one(st, e.app('without_' + norm(t['f']).split('_')[-1], [v, x], ('a', OPT, (v[2],))))


@model('[T]::trim_ascii', '[T]::trim_ascii_start', '[T]::trim_ascii_end', '[T]::to_ascii_lowercase', '[T]::to_ascii_uppercase')
def m_bytes_trim(e, st, fr, t, a, ga):
    v = D(e, st, a[0])
    if v[0] != 'sym':
        raise Undecided('%s of %s' % (norm(t['f']), render(v)))
    return one(st, e.app(norm(t['f']).split('::')[-1], [v], v[2]))


@model('std::string::String::from_utf8_lossy')
def m_utf8_lossy(e, st, fr, t, a, ga):
    return one(st, e.app('utf8_lossy', [D(e, st, a[0])], ('a', STRING, ())))


# ===================================================================== json
@model('serde_json::to_string')
def m_json_to(e, st, fr, t, a, ga):
    v = D(e, st, a[0])
    ok = Ok(('str', (('A', 'json(%s)' % render(v), 'json', ('json', v, strip_ref(ga[0]))),)))
    if not e.faults:
        return one(st, ok)
    key = ('v', 'to_string(%s)' % render(v))
    return [(s2, ok if b else Err(('sym', 'to_string(%s)@Err' % render(v), ('o', 'serde_json::Error')))) for s2, b in e.pred(st, key)]


@model('serde_json::to_string_pretty')
def m_json_pretty(e, st, fr, t, a, ga):
    # the same JSON, spread over several lines
    v = D(e, st, a[0])
    return one(st, Ok(('str', (('L', '{\n  '), ('A', 'pretty(%s)' % render(v), 'line', ('json', v, strip_ref(ga[0]))), ('L', '\n}')))))


@model('serde_json::from_str')
def m_json_from(e, st, fr, t, a, ga):
    v = D(e, st, a[0])
    T = strip_ref(ga[-1])
    segs = v[1]
    if len(segs) == 3 and segs[0] == ('L', '{\n  ') and segs[2] == ('L', '\n}') and segs[1][0] == 'A' and segs[1][1].startswith('pretty('):
        segs = (('A', segs[1][1], 'json', segs[1][3]),)
    if len(segs) == 1 and segs[0][0] == 'A' and segs[0][2] == 'json' and len(segs[0]) > 3:
        _, x, S = segs[0][3]
        if S == T:
            return one(st, Ok(x))
        return one(st, e.app('reread<%s as %s>' % (tn(S), tn(T)), [x], ('a', RES, (T, ('o', 'serde_json::Error')))))
    if e.rejects(segs):
        return one(st, Err(('sym', 'json_error(%s)' % X.srender(segs), ('o', 'serde_json::Error'))))
    return one(st, ('sym', 'from_json<%s>(%s)' % (tn(T), X.srender(segs)), ('a', RES, (T, ('o', 'serde_json::Error')))))


# ===================================================================== files, paths, random
def opaque_call(name, rT, fact=False):
    def f(e, st, fr, t, a, ga):
        vals = [D(e, st, x) for x in a]
        st = st.ev('ext', name, tuple(vals))
        path = '%s(%s)' % (name, ', '.join(render(v) for v in vals))
        T = rT or dstT(e, fr, t) or ('o', '?')
        return one(st, e.mk(path, T, cls='raw'))
    return f


IOE = ('o', 'std::io::Error')
BYTES = ('a', 'std::vec::Vec', (('p', 'u8'),))
M['std::fs::read'] = opaque_call('fs::read', ('a', RES, (BYTES, IOE)))
M['std::fs::write'] = opaque_call('fs::write', ('a', RES, (UNIT_T, IOE)))
M['std::path::Path::exists'] = opaque_call('exists', BOOL_T)
M['std::path::Path::is_file'] = opaque_call('is_file', BOOL_T)
M['std::path::Path::file_name'] = opaque_call('file_name', ('a', OPT, (('p', 'str'),)))
M['std::path::Path::parent'] = opaque_call('parent', ('a', OPT, (('a', 'std::path::Path', ()),)))
M['std::path::Path::to_str'] = opaque_call('to_str', ('a', OPT, (('p', 'str'),)))
M['std::path::Path::join'] = opaque_call('path_join', None)


@model('std::path::Path::file_name', 'std::path::Path::parent', 'std::path::Path::file_stem')
def m_path(e, st, fr, t, a, ga):
    v = D(e, st, a[0])
    n = norm(t['f']).split('::')[-1]
    T = ('a', 'std::path::Path', ()) if n == 'parent' else ('a', 'std::ffi::OsStr', ())
    return one(st, ('sym', '%s(%s)' % (n, render(v)), ('a', OPT, (T,))))


@model('std::path::Path::exists', 'std::path::Path::is_file')
def m_exists(e, st, fr, t, a, ga):
    v = D(e, st, a[0])
    return one(st, ('sym', 'exists(%s)' % render(v), BOOL_T))


@model('std::ffi::OsStr::to_str')
def m_osstr(e, st, fr, t, a, ga):
    v = D(e, st, a[0])
    return one(st, ('sym', 'to_str(%s)' % render(v), ('a', OPT, (STR_T,))))


@model('std::ffi::OsStr::to_string_lossy', 'std::path::Path::to_string_lossy')
def m_lossy(e, st, fr, t, a, ga):
    v = D(e, st, a[0])
    return one(st, e.app('lossy', [v], STR_T))


@model('rand::random')
def m_random(e, st, fr, t, a, ga):
    e.nrand += 1
    return one(st, ('sym', 'random()', ga[0] if ga else ('p', 'u32')))


@model('block_modes::BlockMode::new_from_slices')
def m_cipher(e, st, fr, t, a, ga):
    T = ga[0] if ga else ('o', 'cipher')
    k, iv = D(e, st, a[0]), D(e, st, a[1])
    path = 'cipher<%s>(%s, %s)' % (tn(T), render(k), render(iv))
    if e.faults:
        return one(st, ('sym', path, ('a', RES, (T, ('o', 'InvalidKeyIvLength')))))
    return one(st, Ok(('sym', path, T)))


@model('block_modes::BlockMode::encrypt_vec')
def m_encrypt(e, st, fr, t, a, ga):
    return one(st, e.app('encrypt', [D(e, st, a[0]), D(e, st, a[1])], BYTES))


@model('block_modes::BlockMode::decrypt_vec')
def m_decrypt_vec(e, st, fr, t, a, ga):
    return one(st, e.app('decrypt', [D(e, st, a[0]), D(e, st, a[1])], ('a', RES, (BYTES, ('o', 'BlockModeError')))))


@model('block_modes::BlockMode::decrypt')
def m_decrypt(e, st, fr, t, a, ga):
    buf = D(e, st, a[1])
    r = e.app('decrypt', [D(e, st, a[0]), buf], ('a', RES, (BYTES, ('o', 'BlockModeError'))))
    st = setv(e, st, a[1], e.app('scratch', [buf], BYTES)) if a[1][0] == 'mref' else st
    return one(st, r)


@model('thiserror::__private::AsDisplay::as_display')
def m_asd(e, st, fr, t, a, ga):
    return one(st, D(e, st, a[0]))

import models2  # noqa: E402,F401  (registers further models)
