"""serde's data model as the derived code uses it: what a Serialize impl writes, and what the matching Deserialize impl
makes of it.  Values of other types inside a record are kept whole and are checked on their own."""
import re
from core import *
import models
from models import INTS, intcast, norm

SER = ('sym', 'serializer', ('o', 'serializer'))
ERR_T = ('o', 'serde error')
STR_T, STRING_T = ('p', 'str'), ('a', STRING, ())
NUMS = ['i8', 'u8', 'i16', 'u16', 'i32', 'u32', 'i64', 'u64', 'isize', 'usize', 'f32', 'f64']


class Hooks(dict):
    def get(s, k, d=None):
        return dict.get(s, re.sub(r'__private\d+', '__private', norm(k)) if k else k, d)


def strip(T):
    while T[0] == 'r' or T[0] == 'a' and T[1] == 'std::boxed::Box':
        T = T[2] if T[0] == 'r' else T[2][0]
    return T


def isstr(T):
    return T in (STR_T, STRING_T) or T[0] == 'a' and T[1] == 'std::borrow::Cow'


class Codec:
    def __init__(s, ck, **kw):
        s.ck = ck
        s.p = ck.p
        s.e = e = ck.eng(**kw)
        s.nodes, s.maps, s.objs, s.flats = [], [], [], []
        s.pairs = {}      # (serialize fn, deserialize fn) -> type
        s.uses = {}       # types with a codec of their own that are written / read
        e.hooks = Hooks(e.hooks)
        H = e.hooks
        for ty in NUMS + ['bool', 'char', 'str']:
            H['serde::Serializer::serialize_' + ty] = s.w_prim(ty)
        H['serde::Serializer::collect_str'] = s.w_collect_str
        H['serde::Serializer::serialize_unit_variant'] = s.w_unit_variant
        H['serde::Serializer::serialize_newtype_struct'] = s.w_newtype
        H['serde::Serializer::serialize_some'] = s.w_some
        H['serde::Serializer::serialize_none'] = lambda e, st, fr, t, a: [(st, s.okn(('val', ('p', 'null'), UNIT)))]
        H['serde::Serializer::serialize_struct'] = s.w_struct
        H['serde::Serializer::serialize_map'] = s.w_struct
        for tr, m, vi in (('SerializeStruct', 'serialize_field', 1), ('SerializeMap', 'serialize_entry', 2)):
            H['serde::ser::%s::%s' % (tr, m)] = s.w_field(vi)
            H['serde::ser::%s::end' % tr] = s.w_end
        H['serde::ser::SerializeStruct::skip_field'] = lambda e, st, fr, t, a: [(st, Ok(UNIT))]
        H['serde::Serialize::serialize'] = s.w_value
        H['serde::Deserialize::deserialize'] = s.r_value
        for m in ('struct', 'map', 'enum', 'identifier', 'any', 'newtype_struct', 'str', 'string', 'option', 'bool', 'ignored_any', 'seq', 'tuple') + tuple(NUMS):
            H['serde::Deserializer::deserialize_' + m] = s.r_via(m)
        H['serde::de::MapAccess::next_key'] = s.r_key
        H['serde::de::MapAccess::next_value'] = s.r_next
        H['serde::de::MapAccess::next_value_seed'] = s.r_next_seed
        H['serde::de::EnumAccess::variant'] = s.r_variant
        H['serde::de::VariantAccess::unit_variant'] = lambda e, st, fr, t, a: [(st, Ok(UNIT))]
        H['serde::__private::de::missing_field'] = s.r_missing
        H['serde::__private::de::ContentVisitor::new'] = lambda e, st, fr, t, a: [(st, ('sym', 'contentvisitor', ('o', 'ContentVisitor')))]
        for n in ('missing_field', 'duplicate_field', 'unknown_field', 'unknown_variant', 'custom', 'invalid_value', 'invalid_type', 'invalid_length'):
            H['serde::de::Error::' + n] = s.err(n)
        H['serde::ser::Error::custom'] = s.err('custom')
        # codec functions of `with` modules are paired, not entered
        for n, b in s.p.bodies.items():
            if not n.startswith('<') and '{' not in n and '#' not in n and b.get('args') in (1, 2) and n.split('::')[-1].startswith(('serialize', 'deserialize')):
                H[norm(n)] = s.w_with(n) if b['args'] == 2 else s.r_with(n)
        s.inside = None

    # ---------------------------------------------------------------- helpers
    def err(s, n):
        return lambda e, st, fr, t, a: [(st, ('sym', 'serde_%s' % n, ERR_T))]

    def node(s, n):
        s.nodes.append(n)
        return ('sym', 'json#%d' % (len(s.nodes) - 1), ('o', 'json'))

    def okn(s, n):
        return Ok(s.node(n))

    def get(s, v):
        if v[0] == 'sym' and v[1].startswith('json#'):
            return s.nodes[int(v[1][5:])]
        return None

    def ga(s, fr, t):
        return s.e.tyargs(fr, t.get('ga')) if fr is not None and fr.body else tuple(s.p.T(i) for i in t.get('ga') or [])

    def codec_of(s, T):
        """(serialize fn, deserialize fn) of a local type"""
        if T[0] != 'a':
            return None, None
        return s.p.find_impl('serde::Serialize', 'serialize', T), s.p.find_impl('serde::Deserialize', 'deserialize', T)

    # ---------------------------------------------------------------- writing
    def w_prim(s, ty):
        def f(e, st, fr, t, a):
            return [(st, s.okn(('val', ('p', ty), e.deref(st, a[1]))))]
        return f

    def w_collect_str(s, e, st, fr, t, a):
        return [(s2, s.okn(('val', STR_T, ('str', x)))) for s2, x in models.display(e, st, a[1])]

    def w_unit_variant(s, e, st, fr, t, a):
        return [(st, s.okn(('val', STR_T, e.deref(st, a[3]))))]

    def w_newtype(s, e, st, fr, t, a):
        ga = s.ga(fr, t)
        return s.write(st, a[2], ga[1] if len(ga) > 1 else None)

    def w_some(s, e, st, fr, t, a):
        ga = s.ga(fr, t)
        return s.write(st, a[1], ga[1] if len(ga) > 1 else None)

    def write(s, st, v, T):
        """[(state, Ok(node) | Err)]"""
        e = s.e
        v = e.deref(st, v)
        T = strip(T) if T else None
        if v[0] == 'adt' and '__SerializeWith' in v[1]:
            fn = s.p.find_impl('serde::Serialize', 'serialize', ('a', v[1], ()))
            return e.call_local(st, fn, [v, SER], ())
        if T is None or T[0] in ('par', 'o'):
            T = v[2] if v[0] == 'sym' else ('a', v[1], ()) if v[0] == 'adt' else STRING_T if v[0] == 'str' else None
            if T is None:
                raise Undecided('type of a written value')
        ser, _ = s.codec_of(T)
        if ser:
            s.uses.setdefault(T, set()).add('w')
            return [(st, s.okn(('via', T, v)))]
        for U in inner(T):
            if s.codec_of(U)[0]:
                s.uses.setdefault(U, set()).add('w')
        return [(st, s.okn(('val', T, v)))]

    def w_value(s, e, st, fr, t, a):
        ga = s.ga(fr, t)
        return s.write(st, a[0], ga[0] if ga else None)

    def w_with(s, name):
        def f(e, st, fr, t, a):
            if s.inside == name:
                return None
            return [(st, s.okn(('with', name, e.deref(st, a[0]))))]
        return f

    def w_struct(s, e, st, fr, t, a):
        v = e.deref(st, a[0])
        if v[0] == 'adt' and 'FlatMapSerializer' in v[1]:
            s.flats.append(v[3][0])
            return [(st, Ok(('sym', 'jflat#%d' % (len(s.flats) - 1), ('o', 'struct serializer'))))]
        s.objs.append(())
        return [(st, Ok(('sym', 'jobj#%d' % (len(s.objs) - 1), ('o', 'struct serializer'))))]

    def w_field(s, vi):
        def f(e, st, fr, t, a):
            ref = a[0]
            cur = e.deref(st, ref)
            if cur[1].startswith('jflat#'):
                ref = s.flats[int(cur[1][6:])]
                cur = e.deref(st, ref)
            if not cur[1].startswith('jobj#'):
                raise Undecided('field of %s' % render(cur))
            k = e.deref(st, a[1])
            key = models.need_pat(e, st, k)
            ga = s.ga(fr, t)
            out = []
            for s2, r in s.write(st, a[2], ga[vi] if len(ga) > vi else None):
                for s3, ok, x in e.res(s2, r):
                    if not ok:
                        out.append((s3, Err(x)))
                        continue
                    s.objs.append(s.objs[int(cur[1][5:])] + ((key, s.get(x)),))
                    out.append((models.setv(e, s3, ref, ('sym', 'jobj#%d' % (len(s.objs) - 1), ('o', 'struct serializer'))), Ok(UNIT)))
            return out
        return f

    def w_end(s, e, st, fr, t, a):
        v = e.deref(st, a[0])
        if v[1].startswith('jflat#'):
            return [(st, Ok(UNIT))]
        return [(st, s.okn(('obj', s.objs[int(v[1][5:])])))]

    def serialize(s, st, fn, v):
        """[(state, node or None when it fails)]"""
        out = []
        for s2, r in s.e.call_local(st, fn, [v, SER], ()):
            for s3, ok, x in s.e.res(s2, r):
                out.append((s3, s.get(x) if ok else None))
                if ok and s.get(x) is None:
                    raise Undecided('written value %s' % render(x))
        return out

    # ---------------------------------------------------------------- reading
    def r_value(s, e, st, fr, t, a):
        ga = s.ga(fr, t)
        d = e.deref(st, a[0])
        n = s.get(d)
        if n is None:
            return None
        return s.read(st, n, ga[0])

    def read(s, st, n, T):
        """[(state, Result)] reading node n as a T"""
        e = s.e
        T = strip(T)
        if T[0] == 'a' and T[1].endswith('IgnoredAny'):
            return [(st, Ok(UNIT))]
        if T[0] == 'a' and '__DeserializeWith' in T[1]:
            return e.call_local(st, s.p.find_impl('serde::Deserialize', 'deserialize', T), [s.node(n)], ())
        if n[0] == 'via' and n[1] == T:
            s.uses.setdefault(T, set()).add('r')
            return [(st, Ok(n[2]))]
        _, de = s.codec_of(T)
        if de:
            if n[0] == 'via':
                raise Undecided('%s is written, %s is read' % (tn(n[1]), tn(T)))
            return e.call_local(st, de, [s.node(n)], ())
        if n[0] == 'val':
            return s.coerce(st, n[1], n[2], T)
        if n[0] == 'obj':
            return [(st, Err(('sym', 'serde_invalid_type(record)', ERR_T)))]
        raise Undecided('reading %s as %s' % (n[0], tn(T)))

    def coerce(s, st, T1, v, T):
        e = s.e
        T1 = strip(T1)
        bad = lambda: [(st, Err(('sym', 'serde_invalid_type(%s as %s)' % (tn(T1), tn(T)), ERR_T)))]
        if T1 == T or isstr(T1) and isstr(T):
            return [(st, Ok(v))]
        if T[0] == 'a' and T[1] == OPT:
            if T1 == ('p', 'null'):
                return [(st, Ok(NONE))]
            return [(s2, Ok(Some(r[3][0])) if r[2] == 0 else r) for s2, r in s.coerce(st, T1, v, T[2][0])]
        if T1[0] == 'a' and T1[1] == OPT:
            out = []
            for s2, x in e.opt(st, v):
                out += bad() if x is None else s.coerce(s2, T1[2][0], x, T)
            return out
        pr = lambda x: x[1] if x[0] == 'p' else None
        a, b = pr(T1), pr(T)
        if a in INTS and b in INTS:
            (w1, s1), (w2, s2) = INTS[a], INTS[b]
            lo1, hi1 = (-(1 << w1 - 1), (1 << w1 - 1) - 1) if s1 else (0, (1 << w1) - 1)
            lo2, hi2 = (-(1 << w2 - 1), (1 << w2 - 1) - 1) if s2 else (0, (1 << w2) - 1)
            v = e.deref(st, v)
            k = v[1] if v[0] == 'int' else e.known(st, v[1]) if v[0] == 'sym' else None
            if k is not None:
                return [(st, Ok(('int', k, b)))] if lo2 <= k <= hi2 else bad()
            if lo2 <= lo1 and hi1 <= hi2:
                return [(st, Ok(intcast(e, v, b)))]
            out = []
            src = v[2] if v[0] == 'cast' and pr(v[2][2] if v[2][0] == 'sym' else ('o',)) in INTS else None
            if src is not None and INTS[src[2][1]][0] <= w2 and src[2][1] == b:
                return [(st, Ok(src))] + []
            for s3, fits in e.pred(st, ('b', 'fits %s: %s' % (b, render(v)))):
                out.append((s3, Ok(intcast(e, v, b))) if fits else (s3, Err(('sym', 'serde_out_of_range(%s)' % b, ERR_T))))
            return out
        if (a in INTS or a in ('f32', 'f64')) and b in ('f32', 'f64'):
            return [(st, Ok(intcast(e, v, b)))]
        if a in ('bool', 'str', 'null', 'char', 'f32', 'f64') or isstr(T1) or a in INTS:
            if b in INTS or b in ('bool', 'f32', 'f64') or isstr(T):
                return bad()
        if T[0] == 'a' and T[1] == 'std::vec::Vec' and (a or isstr(T1)):
            return bad()
        raise Undecided('%s is written, %s is read' % (tn(T1), tn(T)))

    def r_with(s, name):
        def f(e, st, fr, t, a):
            if s.inside == name:
                return None
            n = s.get(e.deref(st, a[0]))
            if n is None or n[0] != 'with':
                return None
            s.pairs[(n[1], name)] = True
            return [(st, Ok(n[2]))]
        return f

    def visit(s, st, visitor, m, args):
        e = s.e
        v = e.deref(st, visitor)
        T = ('a', v[1], ()) if v[0] == 'adt' else v[2]
        fn = s.p.find_impl('serde::de::Visitor', m, T)
        if fn is None and m in ('visit_borrowed_str', 'visit_string'):
            fn = s.p.find_impl('serde::de::Visitor', 'visit_str', T)
        if fn is None:
            return [(st, Err(('sym', 'serde_invalid_type(%s)' % m, ERR_T)))]
        return e.call_local(st, fn, [v] + args, ())

    def r_via(s, m):
        def f(e, st, fr, t, a):
            d = e.deref(st, a[0])
            visitor = a[-1]
            if d[0] == 'adt' and 'FlatMapDeserializer' in d[1]:
                # takes the entries of the listed fields
                fields = []
                if m == 'struct':
                    arr = e.deref(st, a[2])
                    fields = [models.need_pat(e, st, x) for x in (arr[1] if arr[0] == 'arr' else ())]
                ents = []
                for it in e.seqitems(e.deref(st, d[3][0])):
                    if it[0] != 'one':
                        raise Undecided('collected entries')
                    o = it[1]
                    if o[0] == 'adt' and o[2] == 1:
                        k, v = e.deref(st, o[3][0])[1]
                        key = contentkey(e, st, k)
                        n = s.get(e.deref(st, v))
                        if key is None or n is None:
                            raise Undecided('collected entry %s' % render(o))
                        if m != 'struct' or key in fields:
                            ents.append((key, n))
                return s.visit(st, visitor, 'visit_map', [s.map(tuple(ents), None)])
            n = s.get(d)
            if n is None:
                raise Undecided('reader %s' % render(d))
            if n[0] == 'obj':
                if m in ('struct', 'map', 'any'):
                    return s.visit(st, visitor, 'visit_map', [s.map(n[1], None)])
                return [(st, Err(('sym', 'serde_invalid_type(record)', ERR_T)))]
            if n[0] == 'val':
                T, v = strip(n[1]), n[2]
                if m == 'newtype_struct':
                    return s.visit(st, visitor, 'visit_newtype_struct', [d])
                if m == 'enum' and isstr(T):
                    return s.visit(st, visitor, 'visit_enum', [d])
                if m in ('struct', 'map', 'enum', 'option', 'seq', 'tuple'):
                    if T[0] == 'p' or isstr(T):
                        return [(st, Err(('sym', 'serde_invalid_type(%s)' % tn(T), ERR_T)))]
                    raise Undecided('reading %s as %s' % (tn(T), m))
                if isstr(T):
                    return s.visit(st, visitor, 'visit_str', [v])
                if T == BOOL_T:
                    return s.visit(st, visitor, 'visit_bool', [v])
                if T[0] == 'p' and T[1] in INTS:
                    w = 'visit_i64' if INTS[T[1]][1] else 'visit_u64'
                    return s.visit(st, visitor, w, [intcast(e, e.deref(st, v), w[-3:])])
                if T[0] == 'p' and T[1] in ('f32', 'f64'):
                    return s.visit(st, visitor, 'visit_f64', [intcast(e, v, 'f64')])
            raise Undecided('reading %s as %s' % (n[0], m))
        return f

    def map(s, ents, cur):
        s.maps.append((ents, cur))
        return ('sym', 'jmap#%d' % (len(s.maps) - 1), ('o', 'map access'))

    def mapat(s, st, r):
        v = s.e.deref(st, r)
        if v[0] != 'sym' or not v[1].startswith('jmap#'):
            raise Undecided('map %s' % render(v))
        return s.maps[int(v[1][5:])]

    def r_key(s, e, st, fr, t, a):
        ents, _ = s.mapat(st, a[0])
        if not ents:
            return [(st, Ok(NONE))]
        ga = s.ga(fr, t)
        st = models.setv(e, st, a[0], s.map(ents[1:], ents[0][1]))
        out = []
        for s2, r in s.read(st, ('val', STR_T, ('str', (('L', ents[0][0]),) if ents[0][0] else ())), ga[1]):
            for s3, ok, x in e.res(s2, r):
                out.append((s3, Ok(Some(x)) if ok else Err(x)))
        return out

    def r_next(s, e, st, fr, t, a):
        _, cur = s.mapat(st, a[0])
        return s.read(st, cur, s.ga(fr, t)[1])

    def r_next_seed(s, e, st, fr, t, a):
        _, cur = s.mapat(st, a[0])
        return [(st, Ok(s.node(cur)))]

    def r_variant(s, e, st, fr, t, a):
        n = s.get(e.deref(st, a[0]))
        if n is None:
            raise Undecided('enum')
        out = []
        for s2, r in s.read(st, n, s.ga(fr, t)[1]):
            for s3, ok, x in e.res(s2, r):
                out.append((s3, Ok(('tup', (x, s.node(n)))) if ok else Err(x)))
        return out

    def r_missing(s, e, st, fr, t, a):
        T = strip(s.ga(fr, t)[0])
        if T[0] == 'a' and T[1] == OPT:
            return [(st, Ok(NONE))]
        return [(st, Err(('sym', 'serde_missing_field(%s)' % render(e.deref(st, a[0])), ERR_T)))]

    def deserialize(s, st, fn, n):
        """[(state, ok, value)]"""
        out = []
        for s2, r in s.e.call_local(st, fn, [s.node(n)], ()):
            out += s.e.res(s2, r)
        return out


def inner(T):
    if T[0] == 'a':
        for x in T[2]:
            yield x
            yield from inner(x)


def contentkey(e, st, k):
    k = e.deref(st, k)
    while k[0] == 'adt' and k[3]:
        k = e.deref(st, k[3][0])
    if k[0] == 'str' and all(q[0] == 'L' for q in k[1]):
        return ''.join(q[1] for q in k[1])
    return None
