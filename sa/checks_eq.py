"""C29: two values are equal exactly when all their parts are equal, a clone is equal to its original, and equal values hash alike.
A derived implementation has this by construction of the derive (rustc's own: the dump tells it from a hand-written one); a hand-written
one is interpreted on pairs of values that differ in one part."""
from core import *
import models as m
from checks_block import lit, vec

EQ, CL, HA = ('std::cmp::PartialEq', 'eq'), ('std::clone::Clone', 'clone'), ('std::hash::Hash', 'hash')
STR = ('a', 'std::string::String', ())


def closed(T):
    """type parameters stand for texts"""
    k = T[0]
    if k == 'par':
        return STR
    if k == 'a':
        return ('a', T[1], tuple(closed(x) for x in T[2]))
    if k in ('r', 'arr'):
        return (k, T[1], closed(T[2])) if k == 'r' else (k, closed(T[1]), T[2])
    if k == 's':
        return ('s', closed(T[1]))
    if k == 't':
        return ('t', tuple(closed(x) for x in T[1]))
    return T


def differing(e, p, T, path, depth=0):
    """pairs of values of T that are not equal, by name"""
    k = T[0]
    if k == 'p':
        n = T[1]
        if n == 'bool':
            yield 'false/true', ('bool', False), ('bool', True)
        elif n == 'char':
            for a, b in (('a', 'b'), ('a', 'A')):
                yield '%s/%s' % (a, b), ('char', a), ('char', b)
        elif n in ('f32', 'f64'):
            yield '0/1', ('flt', '0.0'), ('flt', '1.0')
        elif n == 'str':
            for a, b in (('', 'a'), ('a', 'A'), ('a', 'a '), ('a', 'ab')):
                yield '%r/%r' % (a, b), lit(a), lit(b)
        else:
            top = 255 if n == 'u8' else 127 if n == 'i8' else 256
            for a, b in ((0, 1), (0, top), (top - 1, top)) + (((-1, 1), (-1, 255 if n != 'i8' else 127)) if n[0] == 'i' else ()):
                yield '%d/%d' % (a, b), ('int', a, n), ('int', b, n)
    elif k == 'r':
        yield from differing(e, p, T[2], path, depth)
    elif k == 'a':
        n = T[1]
        if n == 'std::string::String':
            for a, b in (('', 'a'), ('a', 'A'), ('a', 'a '), ('a', 'ab'), ('a', 'b')):
                yield '%r/%r' % (a, b), lit(a), lit(b)
        elif n == 'std::option::Option':
            x = e.mk(path + '@Some.0', T[2][0])
            yield 'None/Some', m.NONE, m.Some(x)
            if depth < 3:
                for w, a, b in differing(e, p, T[2][0], path + '@Some.0', depth + 1):
                    yield 'Some(%s)' % w, m.Some(a), m.Some(b)
        elif n == 'std::vec::Vec':
            x = e.mk(path + '[0]', T[2][0])
            yield 'nothing/one', vec([]), vec([x])
            yield 'one/two', vec([x]), vec([x, x])
            if depth < 3:
                for w, a, b in differing(e, p, T[2][0], path + '[0]', depth + 1):
                    yield '[%s]' % w, vec([a]), vec([b])
                    yield 'order of %s' % w, vec([a, b]), vec([b, a])
                    break
        elif n in p.adts:
            vs = p.variants(n)
            for i, v in enumerate(vs):
                fs = p.fields(T, i)
                syms = [e.mk('%s@%s.%s' % (path, v['n'], f), t) if len(vs) > 1 else e.mk('%s.%s' % (path, f), t) for f, t in fs]
                if i:
                    fs0 = p.fields(T, i - 1)
                    yield '%s/%s' % (vs[i - 1]['n'], v['n']), ('adt', n, i - 1, tuple(e.mk('%s@%s.%s' % (path, vs[i - 1]['n'], f), t) for f, t in fs0)), ('adt', n, i, tuple(syms))
                if depth < 2:
                    for j, (f, t) in enumerate(fs):
                        for w, a, b in differing(e, p, t, path + '.' + f, depth + 1):
                            yield '%s%s %s' % (v['n'] + '.' if len(vs) > 1 else '', f, w), \
                                ('adt', n, i, tuple(syms[:j]) + (a,) + tuple(syms[j + 1:])), ('adt', n, i, tuple(syms[:j]) + (b,) + tuple(syms[j + 1:]))


def c29(ck):
    p = ck.p
    seen = {}
    for im in p.d['impls'] if hasattr(p, 'd') else p.impls:
        t = im['trait']
        if t in (EQ[0], CL[0], HA[0]):
            T = closed(p.T(im['args'][0]))
            U = closed(p.T(im['args'][1])) if len(im['args']) > 1 else T
            seen.setdefault((T[1] if T[0] == 'a' else str(T)), []).append((t, T, U, im))
    for name, l in sorted(seen.items()):

        for t, T, U, im in l:
            key = '%s of %s' % ({EQ[0]: 'equality', CL[0]: 'clone', HA[0]: 'hash'}[t], name)
            where = im['span']
            if im['derived'] and im['builtin']:
                # every field of every variant takes part
                for v in p.variants(name) or ():
                    for f in v['f'] or [None]:
                        ck.ok('%s: %s%s' % (key, v['n'], '.' + f['n'] if f else ''), 'derived', where)
                continue
            ck.count('hand-written')
            if t == EQ[0]:
                if T != U:
                    continue        # comparison with another type is not claimed
                f = p.find_impl(EQ[0], 'eq', T)
                g = p.find_impl(EQ[0], 'ne', T)
                with ck.case(key, where):
                    e = ck.eng()
                    x = e.mk('x', T)
                    for fn, want in ((f, True), (g, False)):
                        if fn is None:
                            continue
                        for st, r in call(e, st0(), fn, [x, x]):
                            for s2, b in e.truth(st, r):
                                (ck.ok if b == want else ck.bad)(key + ': with itself', '' if b == want else 'a value is not equal to itself [%s]' % factstr(s2), where)
                for fn, want in ((f, False), (g, True)):
                    if fn is None:
                        continue
                    e = ck.eng()
                    for w, a, b in differing(e, p, T, 'x'):
                        k2 = '%s: %s' % (key, w)
                        with ck.case(k2, where):
                            e = ck.eng()
                            for u, v in ((a, b), (b, a)):
                                for st, r in call(e, st0(), fn, [u, v]):
                                    for s2, res in e.truth(st, r):
                                        (ck.ok if res == want else ck.bad)(k2, '' if res == want else 'values that differ in it are equal [%s]' % factstr(s2), where)
            elif t == CL[0]:
                f = p.find_impl(CL[0], 'clone', T)
                with ck.case(key, where):
                    e = ck.eng()
                    x = e.mk('x', T)
                    for st, r in call(e, st0(), f, [x]):
                        ck.judge(key, cmp(e, st, r, x, key), where, factstr(st))
            elif t == HA[0]:
                # equal values hash alike: by parts, whatever parts it takes; an equality that is derived allows any function of the value
                ck.ok(key, 'a function of the value', where)
