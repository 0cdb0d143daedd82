"""Comparison of abstract values: does a computed value equal the value it should be, for every input of the path?

cmp(e, st, a, b) -> (verdict, why): 'y' equal for every input that takes this path, 'n' different for some input
that takes it, '?' cannot say (a part of the value came from something that is not modelled).
"""
from eng import *
from eng import _render
import text as X

Y = ('y', '')


def unknown(p):
    return p.startswith('?') or '(?' in p or ' ?' in p or '.?' in p


def has_unknown(v):
    if isinstance(v, str):
        return unknown(v)
    if isinstance(v, tuple):
        return any(has_unknown(x) for x in v)
    return False


def neg(a, b, why=''):
    if has_unknown(a) or has_unknown(b):
        return ('?', why or 'unmodelled part: %s / %s' % (render(a), render(b)))
    return ('n', why or '%s instead of %s' % (render(a), render(b)))


def worst(rs):
    q = None
    for r in rs:
        if r[0] == 'n':
            return r
        if r[0] == '?' and q is None:
            q = r
    return q or Y


def known(st, path):
    f = st.facts.get(('q', path))
    return None if f is None or isinstance(f, frozenset) else f


def feasible_ne(st, path, c):
    return True


def cmp(e, st, a, b, where=''):
    a, b = e.deref(st, a), e.deref(st, b)
    if a == b:
        return Y
    if a[0] == 'sym' and b[0] != 'sym':
        r, w = cmp(e, st, b, a, where)
        return r, w
    # b symbolic
    if b[0] == 'sym':
        T = b[2]
        if a[0] == 'sym':
            if a[1] == b[1]:
                return Y
            if e.is_enum(T) and e.is_enum(a[2]) and T[1] == a[2][1]:
                fa, fb = st.facts.get(('v', a[1])), st.facts.get(('v', b[1]))
                if fa is not None and fb is not None:
                    if fa != fb:
                        return neg(a, b, '%s: variant differs' % (where or b[1]))
                    return cmp(e, st, e.expand(a, fa), e.expand(b, fb), where)
            ca, cb = known(st, a[1]), known(st, b[1])
            if ca is not None and ca == cb:
                return Y
            ba, bb = st.facts.get(('b', a[1])), st.facts.get(('b', b[1]))
            if ba is not None and ba == bb:
                return Y
            if ba is not None and bb is not None or ca is not None and cb is not None:
                return neg(a, b, where + ': ' + '%s instead of %s' % (render(a), render(b)))
            if e.is_struct(T) and e.p.adts[T[1]].get('local') and not e.p.fields(T, 0) and a[2] == T:
                return Y
            if e.is_struct(T) and a[2] == T:
                pass
            # both sequences
            if e.elemT(T) is not None and e.elemT(a[2]) is not None or e.mapT(T) and e.mapT(a[2]):
                if st.facts.get(('e', a[1])) is True and st.facts.get(('e', b[1])) is True:
                    return Y
            return neg(a, b, '%s: %s instead of %s' % (where, render(a), render(b)) if where else '')
        if a[0] == 'adt':
            if e.is_struct(T):
                if T[1] != a[1]:
                    return neg(a, b)
                return cmp(e, st, a, e.expand(b), where)
            if e.is_enum(T):
                f = st.facts.get(('v', b[1]))
                if f is None:
                    if all_payload_eq_ok(e, a, b):
                        pass
                    # the path does not look at which variant it is; a fixed variant is wrong for some input,
                    # unless the type has a single variant
                    vs = [i for i, v in enumerate(e.p.variants(T[1])) if not any(t == ('p', '!') for _, t in e.p.fields(T, i))]
                    if len(vs) > 1:
                        return neg(a, b, '%s: always %s' % (where or b[1], render(a)))
                    f = vs[0]
                if f != a[2]:
                    return neg(a, b, '%s: %s where it was %s' % (where or b[1], render(a), e.p.variants(T[1])[f]['n']))
                return cmp(e, st, a, e.expand(b, f), where)
            return neg(a, b)
        if a[0] == 'tup':
            if T[0] == 't':
                return cmp(e, st, a, e.expand(b), where)
            return neg(a, b)
        if a[0] in ('vec', 'arr') and e.elemT(T) is not None:
            return cmp_items(e, st, e.seqitems(a), e.seqitems(b), where or b[1])
        if a[0] == 'map' and e.mapT(T):
            return cmp_map(e, st, a, b, where or b[1])
        if a[0] == 'int':
            k = known(st, b[1])
            if k is not None:
                return Y if k == a[1] else neg(a, b, '%s: %s where it was %s' % (where or b[1], a[1], k))
            iv = st.facts.get(('in', b[1]))
            if iv and iv[0] == iv[1] == a[1]:
                return Y
            return neg(a, b, '%s: always %s' % (where or b[1], render(a)))
        if a[0] == 'char':
            k = known(st, b[1])
            if k is not None:
                return Y if k == a[1] else neg(a, b)
            return neg(a, b, '%s: always %s' % (where or b[1], render(a)))
        if a[0] == 'bool':
            k = st.facts.get(('b', b[1]))
            if k is not None:
                return Y if k == a[1] else neg(a, b, '%s: %s where it was %s' % (where or b[1], a[1], k))
            return neg(a, b, '%s: always %s' % (where or b[1], render(a)))
        if a[0] == 'lin' and a[2] == 0 and a[1] == b[1]:
            return Y
        if a[0] == 'cast' and a[2] == b:
            return Y if a[1] == (T[1] if T[0] == 'p' else None) else ('n', '%s: narrowed to %s' % (where, a[1]))
        if a[0] == 'flt':
            k = known(st, b[1])
            return Y if k is not None and str(k) == a[1] else neg(a, b, '%s: always %s' % (where or b[1], a[1]))
        if a[0] == 'bits' and T[0] == 'p':
            import models
            if models.bits_is(e, a, b):
                return Y
            return neg(a, b)
        return neg(a, b, '%s: %s instead of %s' % (where, render(a), render(b)))
    if a[0] != b[0]:
        if {a[0], b[0]} == {'vec', 'arr'}:
            return cmp_items(e, st, e.seqitems(a), e.seqitems(b), where)
        if a[0] == 'lin' and b[0] == 'int' or b[0] == 'lin' and a[0] == 'int':
            l, i = (a, b) if a[0] == 'lin' else (b, a)
            k = known(st, l[1])
            if k is not None:
                return Y if k + l[2] == i[1] else neg(a, b)
        return neg(a, b, '%s: %s instead of %s' % (where, render(a), render(b)))
    k = a[0]
    if k == 'adt':
        if a[1] != b[1] or a[2] != b[2]:
            return neg(a, b, '%s: %s instead of %s' % (where, render(a), render(b)))
        vs = e.p.variants(a[1])
        names = [f['n'] for f in vs[a[2]]['f']] if vs else [str(i) for i in range(len(a[3]))]
        return worst(cmp(e, st, x, y, '%s.%s' % (where, n) if where else n) for n, x, y in zip(names, a[3], b[3]))
    if k == 'tup':
        if len(a[1]) != len(b[1]):
            return neg(a, b)
        return worst(cmp(e, st, x, y, '%s.%d' % (where, i)) for i, (x, y) in enumerate(zip(a[1], b[1])))
    if k == 'arr':
        if len(a[1]) != len(b[1]):
            return neg(a, b)
        return worst(cmp(e, st, x, y, where) for x, y in zip(a[1], b[1]))
    if k == 'vec':
        return cmp_items(e, st, a[1], b[1], where)
    if k == 'map':
        return cmp_map(e, st, a, b, where)
    if k == 'str':
        return cmp_str(e, st, a[1], b[1], where)
    if k == 'int':
        return Y if a[1] == b[1] else neg(a, b, '%s: %s instead of %s' % (where, a[1], b[1]))
    return neg(a, b, '%s: %s instead of %s' % (where, render(a), render(b)))


def all_payload_eq_ok(e, a, b):
    return False


# ---------------------------------------------------------------- sequences
def expand_items(e, st, items):
    """drop what is known to be empty, inline alternatives decided by the facts"""
    out = []
    for i in items:
        if i[0] == 'each':
            if st.facts.get(ek(i[1], i[2])) is True:
                continue
            if i[2] in ('tail', 'init', 'mid', 'tail2', 'rev', 'sort') and st.facts.get(('e', i[1])) is True:
                continue
            if all(not b for _, b in i[3]):
                continue
            # an element that is one element of itself, with one alternative
            out.append(i)
        elif i[0] == 'alt':
            for g, body in i[1]:
                s2 = e.guards_state(st, g)
                if s2 is not None and s2.facts == st.facts:
                    out.extend(expand_items(e, st, body))
                    break
            else:
                out.append(i)
        elif i[0] == 'base':
            out.extend(expand_items(e, st, e.seqitems(('sym', i[1], i[2]))))
        elif i[0] == 'mark':
            continue
        else:
            out.append(i)
    return whole(e, st, out)


def whole(e, st, items):
    """the elements before one and that one, when nothing follows it, are all elements"""
    for i, x in enumerate(items):
        if x[0] == 'each' and x[2][-1:] == '<' and st.facts.get(ek(x[1], x[2][:-1] + '>')) is True:
            sel = pick(e, st, x[3])
            if sel is not None and tuple(items[i + 1:i + 1 + len(sel)]) == tuple(sel):
                return whole(e, st, items[:i] + [('each', x[1], x[2][:-1], x[3])] + items[i + 1 + len(sel):])
    return items


def split_first(e, st, i):
    """('each', P, mod) -> [first element] + rest, when it is known to be non-empty; None otherwise"""
    _, P, mod, alts = i
    nm = {'': ('[0]', 'tail'), 'tail': ('[1]', 'tail2'), 'init': ('[0]', 'mid')}.get(mod)
    if not nm or st.facts.get(ek(P, mod)) is not False:
        return None
    sel = pick(e, st, rename(tuple(alts), P + '[*]', P + nm[0]))
    if sel is None:
        return None
    return list(sel) + [('each', P, nm[1], alts)]


def split_last(e, st, i):
    _, P, mod, alts = i
    nm = {'': ('[$]', 'init'), 'tail': ('[$]', 'mid')}.get(mod)
    if not nm or st.facts.get(ek(P, mod)) is not False:
        return None
    sel = pick(e, st, rename(tuple(alts), P + '[*]', P + nm[0]))
    if sel is None:
        return None
    return [('each', P, nm[1], alts)] + list(sel)


def pick(e, st, alts):
    """the body of the alternative that the facts select"""
    ok = []
    for g, b in alts:
        s2 = e.guards_state(st, g)
        if s2 is not None:
            ok.append((s2, b))
    bodies = {b for _, b in ok}
    if len(bodies) == 1:
        return bodies.pop()
    full = [b for s2, b in ok if s2.facts == st.facts]
    if len(full) == 1:
        return full[0]
    return None


def cmp_items(e, st, A, B, where):
    A, B = expand_items(e, st, A), expand_items(e, st, B)
    res = []
    n = 0
    while A or B:
        n += 1
        if n > 500:
            return ('?', 'sequence too long')
        if not A or not B:
            x = (A or B)[0]
            if x[0] == 'each':
                # may be empty in every case?
                f = st.facts.get(ek(x[1], x[2]))
                if has_unknown(x):
                    return ('?', 'unmodelled sequence %s' % x[1])
                return ('n', '%s: elements of %s are %s' % (where, x[1], 'extra' if A else 'missing'))
            if has_unknown(x):
                return ('?', 'unmodelled')
            return ('n', '%s: %s is %s' % (where, E_item(x), 'extra' if A else 'missing'))
        a, b = A[0], B[0]
        if a == b:
            A.pop(0)
            B.pop(0)
            continue
        if a[0] == 'one' and b[0] == 'one':
            r = cmp(e, st, a[1], b[1], where)
            if r[0] == 'n':
                return r
            res.append(r)
            A.pop(0)
            B.pop(0)
            continue
        if a[0] == 'each' and b[0] == 'each' and a[1] == b[1] and a[2] == b[2]:
            r = cmp_alts(e, st, a, b, where, cmp_items)
            if r[0] == 'n':
                return r
            res.append(r)
            A.pop(0)
            B.pop(0)
            continue
        # align: split off first / last elements
        done = False
        for S, o in ((A, b), (B, a)):
            i = S[0]
            if i[0] == 'each' and i[2] in ('', 'tail', 'init'):
                if o[0] == 'each' and o[1] == i[1] and o[2] in ('init', 'mid') and i[2] in ('', 'tail'):
                    s = split_last(e, st, i)
                elif o[0] == 'one':
                    s = split_first(e, st, i)
                else:
                    s = None
                if s is not None:
                    S[:1] = expand_items(e, st, s)
                    done = True
                    break
        if done:
            continue
        if has_unknown(a) or has_unknown(b) or a[0] in ('rest', 'acc', 'upd', 'rm') or b[0] in ('rest', 'acc', 'upd', 'rm'):
            return ('?', '%s: cannot align %s with %s' % (where, E_item(a), E_item(b)))
        if a[0] == 'each' and b[0] == 'each' and a[1] != b[1]:
            return ('n', '%s: elements of %s where elements of %s belong' % (where, a[1], b[1]))
        if a[0] == 'each' and b[0] == 'each':
            return ('n' if {a[2], b[2]} <= {'', 'tail', 'init', 'rev', 'sort'} else '?', '%s: %s of %s instead of %s' % (where, a[2] or 'all', a[1], b[2] or 'all'))
        if a[0] == 'alt' or b[0] == 'alt':
            return ('?', '%s: undecided alternative' % where)
        i, o = (a, b) if a[0] == 'each' else (b, a)
        return ('n', '%s: %s instead of %s' % (where, E_item(a), E_item(b)))
    return worst(res)


def E_item(i):
    import eng
    r = eng._items((i,))
    return r if len(r) < 300 else r[:300] + '...'


def cmp_alts(e, st, a, b, where, f):
    res = []
    for ga, ba in a[3]:
        for gb, bb in b[3]:
            s2 = e.guards_state(st, ga)
            s2 = s2 and e.guards_state(s2, gb)
            if s2 is None:
                continue
            r = f(e, s2, ba, bb, '%s[%s]' % (where, '*'))
            if r[0] == 'n':
                return r
            res.append(r)
    return worst(res)


# ---------------------------------------------------------------- maps
def merge_upd(e, st, items):
    """entry-style updates of one slot per element, several passes: combine them"""
    groups = {}
    out = []
    items = tuple(fold_upd(i) if i[0] == 'each' else i for i in items)
    for i in items:
        if i[0] == 'each' and any(x[0] == 'upd' for _, b in i[3] for x in b):
            if i[1] not in groups:
                groups[i[1]] = []
                out.append(('grp', i[1]))
            groups[i[1]].append(i)
        else:
            out.append(i)
    if not groups:
        return items
    res = []
    for o in out:
        if o[0] != 'grp':
            res.append(o)
            continue
        passes = groups[o[1]]
        alts = [((), None, None)]       # guards, key, slot
        for ps in passes:
            nalts = []
            for g, key, slot in alts:
                for g2, body in ps[3]:
                    base = St({}, {}, {}, ())
                    s2 = e.guards_state(base, g)
                    s2 = s2 and e.guards_state(s2, g2)
                    if s2 is None:
                        continue
                    k2, sl2 = key, slot
                    for u in body:
                        if u[0] != 'upd':
                            raise Undecided('mixed map updates')
                        if k2 is not None and k2 != u[1]:
                            raise Undecided('different keys')
                        if k2 is None:
                            k2, sl2 = u[1], u[2]
                        for projs, val in u[3]:
                            val = subst_slot(e, st, val, sl2)
                            sl2 = e.upd(s2, sl2, projs, val)
                    nalts.append((tuple(sorted(s2.facts.items(), key=repr)), k2, sl2))
            alts = nalts
            if len(alts) > 4000:
                raise Undecided('too many cases')
        res.append(('each', o[1], '', tuple((g, (('one', ('tup', (k, sl))),) if k is not None else ()) for g, k, sl in alts)))
    return tuple(res)


def fold_upd(i):
    """one slot updated once per inner element: a single update that adds all of them"""
    _, P, mod, alts = i
    nalts = []
    for g, body in alts:
        done = [(g, ())]
        for x in body:
            if x[0] == 'each' and any(u[0] == 'upd' for _, b in x[3] for u in b):
                Q, ia = x[1], x[3]
                us = [b for _, b in ia]
                if any(len(b) != 1 or b[0][0] != 'upd' or len(b[0][3]) != 1 for b in us) or len({(b[0][1], b[0][2], b[0][4], b[0][3][0][0]) for b in us}) != 1:
                    raise Undecided('updates in a nested loop')
                u = us[0][0]
                vals = [b[0][3][0][1] for b in us]
                if mentions_path(u[1], Q + '[*]') or any(v[0] not in ('map', 'vec') or not v[1] or v[1][0][0] != 'base' or not v[1][0][1].startswith('?slot') or v[1][0] != vals[0][1][0] for v in vals):
                    raise Undecided('updates in a nested loop')
                val = (vals[0][0], (vals[0][1][0], ('each', Q, x[2], tuple((ig, v[1][1:]) for (ig, _), v in zip(ia, vals)))))
                upd = ('upd', u[1], u[2], ((u[3][0][0], val),), u[4])
                k = ek(Q, x[2])
                done = [(g2 + ((k, True),), b) for g2, b in done] + [(g2 + ((k, False),), b + (upd,)) for g2, b in done]
            else:
                done = [(g2, b + (x,)) for g2, b in done]
        nalts += done
    return ('each', P, mod, tuple(nalts))


def mentions_path(v, p):
    if isinstance(v, tuple):
        return any(mentions_path(x, p) for x in v)
    return isinstance(v, str) and p in v


def subst_slot(e, st, v, slot):
    if isinstance(v, tuple):
        if v[:1] == ('sym',) and isinstance(v[1], str) and v[1].startswith('?slot'):
            return slot_at(e, st, slot, v[1][5:])
        if v[:1] in (('map',), ('vec',)) and len(v) == 2 and v[1] and v[1][0][0] == 'base' and v[1][0][1].startswith('?slot'):
            old = slot_at(e, st, slot, v[1][0][1][5:])
            return (v[0], tuple(old[1] if old[0] == v[0] else e.seqitems(old)) + subst_slot(e, st, v[1][1:], slot))
        return tuple(subst_slot(e, st, x, slot) for x in v)
    return v


def slot_at(e, st, slot, path):
    for n in [x for x in path.split('.') if x]:
        if slot[0] == 'sym':
            slot = e.expand(slot)
        vs = e.p.variants(slot[1])
        slot = slot[3][[f['n'] for f in vs[slot[2]]['f']].index(n)]
    return slot


def cmp_map(e, st, a, b, where, ignore_missing=False):
    A = expand_items(e, st, a[1] if a[0] == 'map' else e.seqitems(a))
    B = expand_items(e, st, b[1] if b[0] == 'map' else e.seqitems(b))
    return cmp_items(e, st, merge_upd(e, st, A), merge_upd(e, st, B), where)


# ---------------------------------------------------------------- texts
def norm_segs(e, st, segs):
    segs = X.resolve(e, st, segs)
    out = ()
    for s in segs:
        if s[0] == 'each':
            if st.facts.get(ek(s[1], s[2])) is True or (s[2] and st.facts.get(('e', s[1])) is True):
                continue
            # the characters of a text, one by one
            if len(s[3]) == 1 and s[1].endswith('.chars') and not s[3][0][0]:
                b = s[3][0][1]
                if len(b) == 1 and b[0][0] == 'A' and b[0][1] == s[1] + '[*]' and s[2] == '':
                    out = cat(out, (('A', s[1][:-6], 'raw'),))
                    continue
        out = cat(out, (s,))
    return out


def aeq(x, y):
    return x[0] == y[0] == 'A' and x[1] == y[1]


def cmp_str(e, st, a, b, where):
    a, b = list(norm_segs(e, st, a)), list(norm_segs(e, st, b))
    res = []
    while a or b:
        if not a or not b:
            x = (a or b)[0]
            if x[0] in ('E',):
                (a or b).pop(0)
                continue
            if has_unknown(x):
                return ('?', 'unmodelled text')
            return ('n', '%s: text %s is %s' % (where, X.srender((x,)), 'added' if a else 'lost'))
        x, y = a[0], b[0]
        if x == y or aeq(x, y):
            a.pop(0)
            b.pop(0)
            continue
        if x[0] == 'L' and y[0] == 'L':
            n = min(len(x[1]), len(y[1]))
            if x[1][:n] == y[1][:n]:
                a[:1] = [('L', x[1][n:])] if len(x[1]) > n else []
                b[:1] = [('L', y[1][n:])] if len(y[1]) > n else []
                continue
            return ('n', '%s: text %r instead of %r' % (where, x[1], y[1]))
        if x[0] == 'each' and y[0] == 'each' and x[1:3] == y[1:3]:
            r = cmp_alts(e, st, x, y, where, lambda e, s, p, q, w: cmp_str(e, s, p, q, w))
            if r[0] == 'n':
                return r
            res.append(r)
            a.pop(0)
            b.pop(0)
            continue
        if x[0] in ('grp', 'part') and y[0] == x[0]:
            r = cmp_str(e, st, x[1], y[1], where)
            if r[0] != 'y':
                return r
            a.pop(0)
            b.pop(0)
            continue
        if has_unknown(x) or has_unknown(y) or {x[0], y[0]} & {'grp', 'part', 'each', 'acc', 'alt'}:
            if x[0] == 'A' and y[0] == 'each' or y[0] == 'A' and x[0] == 'each':
                return ('n' if not has_unknown(x) and not has_unknown(y) else '?', '%s: %s instead of %s' % (where, X.srender((x,)), X.srender((y,))))
            return ('?', '%s: cannot compare %s with %s' % (where, X.srender((x,)), X.srender((y,))))
        return ('n', '%s: text %s instead of %s' % (where, X.srender(tuple(a)), X.srender(tuple(b))))
    return worst(res)
