"""Provenance analysis over MIR: an abstract interpreter whose values record where a datum comes from.

Abstract values are hashable tuples (see the constructors below); collections and texts are sequences of
items in which `each(P)` stands for "for every element of P, in order", so loops are summarised rather than
unrolled: the body is interpreted once for a generic element P[*] and what it appends to its accumulators
becomes the body of an `each`.  States are partitioned on the facts (variant, emptiness, equality with a
constant) the program itself branches on.  No solver is involved.
"""
import sys
import time
import hashlib
from prog import *

sys.setrecursionlimit(20000)


# opaque functions whose result has an element for every element of their first argument (decided by C09)
KEEPS = ('api::view::flatten_views',)


class Undecided(Exception):
    pass


class Deep(Undecided):
    """unrolling went deeper than asked for"""


class NeedEach(Exception):
    def __init__(s, uid):
        s.uid = uid


class NeedPeel(Exception):
    """the loop body asks whether an accumulator is still empty"""
    def __init__(s, k):
        s.k = k


class NeedLast(Exception):
    """the loop body looks ahead: is there another element?"""
    def __init__(s, uid):
        s.uid = uid


class Overshoot(Exception):
    """a reader of one element asks for input past the end of that element"""
    def __init__(s, uid, where):
        s.uid = uid
        s.where = where


NONE = ('adt', OPT, 0, ())
UNIT = ('tup', ())
TRUE, FALSE = ('bool', True), ('bool', False)


def Some(v):
    return ('adt', OPT, 1, (v,))


def Ok(v):
    return ('adt', RES, 0, (v,))


def Err(v):
    return ('adt', RES, 1, (v,))


def I(n, t='usize'):
    return ('int', n, t)


def lit(t):
    return ('str', (('L', t),) if t else ())


def cat(*parts):
    """concatenate seg tuples, merging adjacent literals"""
    out = []
    for p in parts:
        for s in p:
            if s[0] == 'L':
                if not s[1]:
                    continue
                if out and out[-1][0] == 'L':
                    out[-1] = ('L', out[-1][1] + s[1])
                    continue
            out.append(s)
    return tuple(out)


def sub_acc(v, m):
    if not isinstance(v, tuple):
        return v
    ch = False
    out = []
    for x in v:
        if isinstance(x, tuple):
            if x and x[0] == 'acc' and x[1] in m:
                out.extend(m[x[1]])
                ch = True
                continue
            y = sub_acc(x, m)
            if y is not x:
                ch = True
            out.append(y)
        else:
            out.append(x)
    return tuple(out) if ch else v


def rename(v, a, b):
    if isinstance(v, str):
        return v.replace(a, b) if a in v else v
    if isinstance(v, tuple):
        ch = False
        out = []
        for x in v:
            y = rename(x, a, b)
            if y is not x:
                ch = True
            out.append(y)
        return tuple(out) if ch else v
    return v


def mentions(v, a):
    if isinstance(v, str):
        return a in v
    if isinstance(v, tuple):
        return any(mentions(x, a) for x in v)
    return False


def has_acc(v):
    if isinstance(v, tuple):
        if v and v[0] == 'acc':
            return True
        return any(has_acc(x) for x in v)
    return False


def short(n):
    n = n.replace('parser::', '').replace('std::', '')
    return n


def ek(P, mod):
    return ('e', P + ('/' + mod if mod else ''))


def render(v, top=True):
    r = _render(v)
    if len(r) > 600:
        r = r[:200] + '#' + hashlib.md5(r.encode()).hexdigest()[:8]
    return r


def _segs(segs):
    out = []
    for s in segs:
        if s[0] == 'L':
            out.append(repr(s[1]))
        elif s[0] == 'A':
            out.append(s[1])
        elif s[0] == 'each':
            out.append('each(%s%s: %s)' % (s[1], '/' + s[2] if s[2] else '', ' | '.join(
                ('[%s] ' % _facts(g) if g else '') + _segs(b) for g, b in s[3])))
        else:
            out.append(str(s))
    return ' ++ '.join(out) or "''"


def _facts(g):
    return ', '.join('%s%s=%s' % ('' if k[0] == 'v' else k[0] + ':', k[1] + (('~' + str(k[2])) if len(k) > 2 else ''), v) for k, v in g)


def _items(items):
    out = []
    for s in items:
        if s[0] == 'one':
            out.append(_render(s[1]))
        elif s[0] == 'each':
            out.append('each(%s%s: %s)' % (s[1], '/' + s[2] if s[2] else '', ' | '.join(
                ('[%s] ' % _facts(g) if g else '') + _items(b) for g, b in s[3])))
        elif s[0] in ('set', 'rm'):
            out.append('%s(%s)' % (s[0], ','.join(_render(x) for x in s[1:])))
        else:
            out.append(str(s))
    return ', '.join(out)


VN = {}


def _render(v):
    k = v[0]
    if k == 'int':
        return str(v[1])
    if k in ('bool', 'char'):
        return str(v[1])
    if k == 'sym':
        return v[1]
    if k == 'str':
        return _segs(v[1])
    if k == 'tup':
        return '(' + ', '.join(map(_render, v[1])) + ')'
    if k == 'adt':
        vs = VN.get(v[1])
        n = v[1].split('::')[-1]
        if vs and len(vs) > 1:
            n = vs[v[2]]['n'] if v[1] in (OPT, RES) else n + '::' + vs[v[2]]['n']
        if not v[3]:
            return n
        if vs:
            return n + '{' + ', '.join('%s: %s' % (f['n'], _render(x)) if not f['n'].isdigit() else _render(x)
                                       for f, x in zip(vs[v[2]]['f'], v[3])) + '}'
        return n + '{' + ', '.join(map(_render, v[3])) + '}'
    if k == 'vec' or k == 'arr':
        return '[' + _items(v[1]) + ']' if k == 'vec' else '[' + ', '.join(map(_render, v[1])) + ']'
    if k == 'map':
        return '{' + _items(v[1]) + '}'
    if k == 'lin':
        return '%s%+d' % (v[1], v[2])
    if k == 'cast':
        return '(%s as %s)' % (_render(v[2]), v[1])
    if k == 'bits':
        return 'bits(%s)' % ','.join(str(b) if not isinstance(b, tuple) else '%s.%d' % b for b in v[2])
    if k == 'mref':
        return '&mut'
    if k == 'clo':
        return 'closure'
    if k == 'fn':
        return v[1]
    return str(v)


class St:
    __slots__ = ('cells', 'facts', 'streams', 'log')

    def __init__(s, cells, facts, streams, log):
        s.cells, s.facts, s.streams, s.log = cells, facts, streams, log

    def copy(s):
        return St(dict(s.cells), dict(s.facts), dict(s.streams), s.log)

    def with_fact(s, k, v):
        n = s.copy()
        n.facts[k] = v
        return n

    def ev(s, *e):
        n = s.copy()
        n.log = s.log + (e,)
        return n


class Frame:
    __slots__ = ('id', 'name', 'body', 'env')

    def __init__(s, i, name, body, env):
        s.id, s.name, s.body, s.env = i, name, body, env


class Eng:
    def __init__(s, prog, opaque=(), budget=60000, deadline=240, alias=True):
        s.p = prog
        VN.update({n: a['variants'] for n, a in prog.adts.items()})
        s.n = 0
        s.opaque = opaque if callable(opaque) else (lambda n, o=tuple(opaque): n in o)
        s.stack = []
        s.unroll = 0      # how often a function may be on the stack (shapes given in full)
        s.panics = []          # (function, span, what, facts)
        s.steps = 0
        s.budget = budget
        s.t0 = time.time()
        s.deadline = deadline
        s.celltype = {}
        s.fns = set()          # functions interpreted
        s.ext = {}             # external callees without a model
        s.apps = {}            # path -> (name, args)
        s.paths = 0
        s.sites = 0
        s.cls = {}             # path -> text class override
        s.defcls = 'id'
        s.hooks = {}           # callee name -> function(eng, st, fr, term, args) -> [(st, v)] or None
        s.alias = alias
        s.nloops = 0
        s.neach = 0
        s.overshoots = []
        s.over_ok = {}
        s.over_depth = 0
        s.relations = []
        s.lens = {}            # len(..) -> the text
        s.cuts = {}
        s.overflow = False     # numbers that come from the input may overflow in checked arithmetic
        s.loopdepth = 0
        s.bits = False         # keep bit-level provenance through casts
        s.faults = False       # let serialisation fail
        s.idnotnum = False
        s.distinct = False     # names within one list are pairwise distinct (a stated precondition)
        s.accstart = {}
        s.acclook = set()
        s.restT = {}
        s.hashorder = None
        s.nrand = 0
        s.rejects = lambda segs: False
        import models
        s.m = models

    def fresh(s):
        s.n += 1
        return s.n

    # ------------------------------------------------------------- symbols
    def mk(s, path, T, cls=None):
        k = T[0]
        if k == 'p':
            if T[1] == 'str':
                return ('str', (('A', path, cls or s.cls.get(path, s.defcls)),))
            return ('sym', path, T)
        if k == 'r':
            return s.mk(path, T[2], cls)
        if k == 't':
            return ('tup', tuple(s.mk('%s.%d' % (path, i), t) for i, t in enumerate(T[1])))
        if k == 'a':
            if T[1] == STRING:
                return ('str', (('A', path, cls or s.cls.get(path, s.defcls)),))
            if T[1] == 'std::boxed::Box' or T[1] == 'std::borrow::Cow':
                return s.mk(path, T[2][0], cls)
            if T[1] in s.p.adts and T[1] not in (OPT, RES):
                a = s.p.adts[T[1]]
        return ('sym', path, T)

    def is_struct(s, T):
        return T[0] == 'a' and T[1] in s.p.adts and s.p.adts[T[1]]['kind'] == 'struct'

    def is_enum(s, T):
        return T[0] == 'a' and T[1] in s.p.adts and s.p.adts[T[1]]['kind'] == 'enum'

    KEYED = {'parser::logic::variable::Variable': 'name', 'parser::logic::list_variable::ListVariable': 'name',
             'parser::logic::more_block::MoreBlock': 'id', 'parser::logic::ScreenLogic': 'name'}

    def expand(s, v, variant=None):
        """symbolic struct/enum/tuple value -> aggregate with symbolic fields"""
        if v[0] != 'sym':
            return v
        T = v[2]
        if T[0] == 't':
            return s.mk(v[1], T)
        if T[0] == 'a' and T[1] in s.p.adts:
            a = s.p.adts[T[1]]
            if a['kind'] == 'struct':
                variant = 0
            if variant is None:
                raise Undecided('expand enum %s' % v[1])
            fs = s.p.fields(T, variant)
            pre = v[1] if a['kind'] == 'struct' else '%s@%s' % (v[1], a['variants'][variant]['n'])
            return ('adt', T[1], variant, tuple(s.mk('%s.%s' % (pre, n), t) for n, t in fs))
        return v

    def elemT(s, T):
        if T[0] == 'a' and T[1] in VECS:
            return T[2][0]
        if T[0] in ('s', 'arr'):
            return T[1]
        return None

    def mapT(s, T):
        return T[0] == 'a' and (T[1] in LMAPS or T[1] in HMAPS)

    def seqitems(s, v):
        """items of a vec/map value"""
        if v[0] in ('vec', 'map'):
            return v[1]
        if v[0] == 'arr':
            return tuple(('one', x) for x in v[1])
        if v[0] == 'sym':
            T = v[2]
            e = s.elemT(T)
            P = v[1]
            if e is not None:
                return (('each', P, '', (((), (('one', s.mk(P + '[*]', e)),)),)),)
            if s.mapT(T):
                kT, vT = T[2][0], T[2][1]
                val = s.mk(P + '[*].val', vT)
                f = s.KEYED.get(vT[1]) if s.alias and vT[0] == 'a' else None
                key = s.mk(P + '[*].val.' + f, kT) if f else s.mk(P + '[*].key', kT)
                return (('each', P, '', (((), (('one', ('tup', (key, val))),)),)),)
        if v[0] == 'str':
            raise Undecided('string as sequence')
        raise Undecided('sequence of %s' % (render(v)))

    # ------------------------------------------------------------- places
    def rmref(s, st, r):
        v = st.cells.get(r[1])
        if v is None:
            raise Undecided('dangling reference')
        for p in r[2]:
            v = s.proj(st, v, p)
        return v

    def deref(s, st, v):
        while v[0] == 'mref':
            v = s.rmref(st, v)
        return v

    def proj(s, st, v, p, fr=None):
        k = p[0]
        if p == '*':
            if v[0] == 'mref':
                return s.rmref(st, v)
            return v
        if k == 'f':
            if s.isunique(p):
                return v      # a Box is its contents
            return s.field(st, v, p[1], p[2] if len(p) > 2 else None)
        if k == 'd':
            return ('dc', v, p[1])
        if k == 'key':
            return s.m.map_slot(s, st, v, p[1])
        if k == 'i':
            idx = st.cells[(fr.id, p[1])]
            return s.m.index(s, st, v, idx)
        if k == 'ci':
            return s.m.cindex(s, st, v, p[1], p[2])
        if k == 'el':
            return s.m.index(s, st, v, p[1])
        raise Undecided('projection %s' % (p,))

    def isunique(s, p):
        T = p[2] if len(p) > 2 else None
        if not isinstance(T, int):
            return False
        T = s.p.T(T)
        return T[0] == 'a' and T[1] in ('std::ptr::Unique', 'std::ptr::NonNull', 'std::boxed::BoxRaw')

    def field(s, st, v, i, T=None):
        k = v[0]
        if k == 'tup':
            return v[1][i]
        if k == 'uninit':
            return v
        if k == 'adt':
            return v[3][i]
        if k == 'clo':
            return v[2][i]
        if k == 'dc':
            b = v[1]
            if b[0] == 'mref':
                b = s.deref(st, b)
            if b[0] == 'adt':
                if b[2] != v[2]:
                    raise Undecided('downcast mismatch')
                return b[3][i]
            if b[0] == 'sym':
                return s.expand(b, v[2])[3][i]
        if k == 'sym':
            e = s.expand(v)
            if e[0] == 'adt':
                return e[3][i]
            if e[0] == 'tup':
                return e[1][i]
            if T is not None:
                TT = s.p.T(T) if isinstance(T, int) else T
                return s.mk('%s.%d' % (v[1], i), TT)
        if k == 'mref':
            return s.field(st, s.deref(st, v), i, T)
        raise Undecided('field %d of %s' % (i, render(v)))

    def rplace(s, st, fr, pl):
        v = st.cells.get((fr.id, pl[0]))
        if v is None:
            raise Undecided('read of unset local _%d in %s' % (pl[0], fr.name))
        for p in pl[1]:
            v = s.proj(st, v, p, fr)
        if v[0] == 'dc':
            v = v[1]
        return v

    def cproj(s, st, fr, p):
        """projection in the form kept inside a mutable reference"""
        if p == '*':
            return None
        if p[0] == 'f':
            return ('f', p[1], p[2])
        if p[0] == 'd':
            return ('d', p[1])
        if p[0] == 'i':
            return ('el', st.cells[(fr.id, p[1])])
        return tuple(p)

    def lref(s, st, fr, pl):
        """mutable reference to a place"""
        cell = (fr.id, pl[0])
        projs = ()
        for p in pl[1]:
            if p == '*':
                v = st.cells.get(cell)
                if v is None:
                    raise Undecided('unset')
                for q in projs:
                    v = s.proj(st, v, q)
                if v[0] == 'mref':
                    cell, projs = v[1], v[2]
            elif p[0] == 'f' and s.isunique(p):
                pass
            else:
                projs = projs + (s.cproj(st, fr, p),)
        return ('mref', cell, projs)

    def wref(s, st, r, val):
        """store through a mutable reference; st is modified"""
        if not r[2]:
            st.cells[r[1]] = val
        else:
            base = st.cells.get(r[1])
            if base is None:
                raise Undecided('store to unset cell')
            st.cells[r[1]] = s.upd(st, base, r[2], val)
        if isinstance(r[1], tuple) and r[1][0] == 'heap':
            st.log = st.log + (('store', r[1][2], r[2], val),)

    def upd(s, st, v, projs, val):
        if not projs or v == ('uninit',):
            return val
        p, rest = projs[0], projs[1:]
        k = p[0]
        if k == 'f':
            i = p[1]
            if v[0] == 'sym':
                v = s.expand(v)
            if v[0] == 'tup':
                f = list(v[1])
                f[i] = s.upd(st, f[i], rest, val)
                return ('tup', tuple(f))
            if v[0] == 'adt':
                f = list(v[3])
                while len(f) <= i:
                    f.append(UNIT)
                f[i] = s.upd(st, f[i], rest, val)
                return ('adt', v[1], v[2], tuple(f))
            if v[0] == 'clo':
                f = list(v[2])
                f[i] = s.upd(st, f[i], rest, val)
                return ('clo', v[1], tuple(f), v[3])
        if k == 'd':
            if v[0] == 'sym':
                v = s.expand(v, p[1])
            return s.upd(st, v, rest, val)
        if k == 'key':
            if v[0] == 'map' and v[1] and v[1][-1][0] == 'upd' and v[1][-1][1] == p[1]:
                return s.m.map_upd(s, st, v, p[1], rest, val)
            if rest:
                cur = s.m.map_slot(s, st, v, p[1])
                val = s.upd(st, cur, rest, val)
            return s.m.map_put(s, st, v, p[1], val)
        if k == 'el':
            cur = s.m.index(s, st, v, p[1])
            return s.m.index_put(s, st, v, p[1], s.upd(st, cur, rest, val))
        raise Undecided('store into %s of %s' % (p, render(v)))

    def wplace(s, st, fr, pl, val):
        if not pl[1]:
            st.cells[(fr.id, pl[0])] = val
            return
        r = s.lref(st, fr, pl)
        if r[2] or r[1] != (fr.id, pl[0]):
            if r[1] == (fr.id, pl[0]) and r[1] not in st.cells:
                # field-wise initialisation of a local
                T = s.celltype.get(r[1])
                if T and T[0] == 'a' and T[1] in s.p.adts:
                    st.cells[r[1]] = ('adt', T[1], 0, tuple(UNIT for _ in s.p.fields(T, 0)))
                elif T and T[0] == 't':
                    st.cells[r[1]] = ('tup', tuple(UNIT for _ in T[1]))
            s.wref(st, r, val)
        else:
            st.cells[r[1]] = val

    # ------------------------------------------------------------- constants and operands
    def const(s, st, fr, c):
        T = s.p.subst(s.p.T(c['t']), fr.env)
        if 'str' in c:
            return lit(c['str'])
        if 'bytes' in c:
            return ('bytes', tuple(c['bytes']))
        if 'int' in c:
            n = int(c['int'])
            if T == BOOL_T:
                return ('bool', bool(n))
            if T == ('p', 'char'):
                return ('char', chr(n))
            if T[0] == 'p' and T[1] in INTS:
                return ('int', n, T[1])
            if T[0] == 'p' and T[1] in ('f32', 'f64'):
                import struct
                b = n & ((1 << (64 if T[1] == 'f64' else 32)) - 1)
                f = struct.unpack('<d', struct.pack('<Q', b))[0] if T[1] == 'f64' else struct.unpack('<f', struct.pack('<I', b))[0]
                return ('flt', repr(f))
            if T[0] == 'a' and s.is_enum(T):
                if 'variant' in c:
                    return ('adt', T[1], c['variant'], ())
                for i, v in enumerate(s.p.variants(T[1])):
                    if v['d'] is not None and int(v['d']) == n:
                        return ('adt', T[1], i, ())
            return ('int', n, tn(T))
        if 'variant' in c and T[0] == 'a':
            return ('adt', T[1], c['variant'], ())
        if 'promoted' in c or 'item' in c:
            nm = c.get('promoted') or c.get('item')
            if nm in s.p.bodies:
                outs = s.call_body(st, nm, [], fr.env)
                if len(outs) == 1:
                    # promoted bodies are pure
                    return outs[0][1]
            raise Undecided('constant %s' % nm)
        if T[0] == 'fnd':
            return ('fn', T[1], T[2])
        if T[0] == 't' and not T[1]:
            return UNIT
        if T[0] == 'clo':
            return ('clo', T[1], (), ())
        if T[0] == 'a' and s.is_enum(T):
            raw = c.get('raw', '')
            for i, v in enumerate(s.p.variants(T[1])):
                if raw.split('::')[-1].split('(')[0].strip() == v['n'] and not v['f']:
                    return ('adt', T[1], i, ())
            if T[1] == OPT and 'None' in raw:
                return NONE
        if T[0] == 'a' and s.is_struct(T) and not s.p.fields(T, 0):
            return ('adt', T[1], 0, ())
        return ('sym', 'const(%s)' % c.get('raw', '?'), T)

    def op(s, st, fr, o):
        if o[0] == 'k':
            return s.const(st, fr, o[1])
        return s.rplace(st, fr, o[1])

    # ------------------------------------------------------------- facts
    def variant(s, st, v):
        """[(state, variant index)]"""
        v = s.deref(st, v)
        if v[0] == 'adt':
            return [(st, v[2])]
        if v[0] == 'sym' and s.is_enum(v[2]):
            f = st.facts.get(('v', v[1]))
            if f is not None:
                return [(st, f)]
            out = []
            for i, va in enumerate(s.p.variants(v[2][1])):
                if any(t == ('p', '!') for _, t in s.p.fields(v[2], i)):
                    continue
                out.append((st.with_fact(('v', v[1]), i), i))
            return out
        if v[0] == 'sym' and s.is_struct(v[2]):
            return [(st, 0)]
        raise Undecided('variant of %s' % render(v))

    def opt(s, st, v):
        """[(state, payload or None)] for an Option value"""
        v = s.deref(st, v)
        out = []
        for st2, i in s.variant(st, v):
            if i == 0:
                out.append((st2, None))
            else:
                out.append((st2, s.field(st2, ('dc', v, 1), 0)))
        return out

    def res(s, st, v):
        """[(state, is_ok, payload)]"""
        v = s.deref(st, v)
        out = []
        for st2, i in s.variant(st, v):
            out.append((st2, i == 0, s.field(st2, ('dc', v, i), 0)))
        return out

    def pred(s, st, key):
        """fork on an opaque predicate"""
        f = st.facts.get(key)
        if f is not None:
            return [(st, f)]
        return [(st.with_fact(key, True), True), (st.with_fact(key, False), False)]

    def truth(s, st, v):
        v = s.deref(st, v)
        if v[0] == 'bool':
            return [(st, v[1])]
        if v[0] == 'sym':
            return s.pred(st, ('b', v[1]))
        raise Undecided('truth of %s' % render(v))

    def empty(s, st, P, mod=''):
        if mod in ('tail', 'init') and st.facts.get(('e', P)) is True:
            return [(st, True)]
        return s.pred(st, ek(P, mod))

    SAMPLES = [chr(i) for i in range(128)] + list('\xa0\xb2\xdf\xe9\xc9\u01c5\u0663\u2028\u3000\u6f22\uffff\U0001f600')

    def char_ok(s, st, path):
        """is there a character for which all that the path has tested holds?"""
        f = st.facts.get(('ch', path), ())
        q = st.facts.get(('q', path))
        cs = [q] if isinstance(q, str) and len(q) == 1 else [c for c in s.SAMPLES if not q or c not in q]
        return any(all(g(c) == w for _, g, w in f) for c in cs)

    def charpred(s, st, path, name, g):
        """fork on a property of an unknown character"""
        out = []
        f = st.facts.get(('ch', path), ())
        for n, _, w in f:
            if n == name:
                return [(st, w)]
        for w in (True, False):
            s2 = st.with_fact(('ch', path), f + ((name, g, w),))
            if s.char_ok(s2, path):
                out.append((s2, w))
        return out

    def eqconst(s, st, path, c):
        if ('ch', path) in st.facts:
            return [(s2, w) for s2, w in s.eqconst0(st, path, c) if s.char_ok(s2, path)]
        return s.eqconst0(st, path, c)

    def eqconst0(s, st, path, c):
        """fork on path == constant c"""
        f = st.facts.get(('q', path))
        if f is not None:
            if isinstance(f, frozenset):
                if c in f:
                    return [(st, False)]
                return [(st.with_fact(('q', path), c), True), (st.with_fact(('q', path), f | {c}), False)]
            return [(st, f == c)]
        return [(st.with_fact(('q', path), c), True), (st.with_fact(('q', path), frozenset([c])), False)]

    def known(s, st, path):
        f = st.facts.get(('q', path))
        return None if f is None or isinstance(f, frozenset) else f

    # ------------------------------------------------------------- running bodies
    def tick(s):
        s.steps += 1
        if s.steps > s.budget * 20 or time.time() - s.t0 > s.deadline:
            raise Undecided('budget')

    def call_body(s, st, name, args, env):
        """run a local body; returns [(st, value)]"""
        b = s.p.bodies[name]
        s.fns.add(name)
        if len(s.stack) > 60:
            raise Undecided('call depth')
        fr = Frame(s.fresh(), name, b, env)
        st = st.copy()
        for i, t in enumerate(b['locals']):
            s.celltype[(fr.id, i)] = s.p.subst(s.p.T(t), env)
        for i, a in enumerate(args):
            st.cells[(fr.id, i + 1)] = a
        if s.celltype[(fr.id, 0)] == UNIT_T:
            st.cells[(fr.id, 0)] = UNIT
        s.stack.append(name)
        try:
            outs = s.run(fr, 0, st, None, None)
        finally:
            s.stack.pop()
        res = []
        for o in outs:
            if o[0] != 'ret':
                raise Undecided('fell out of body')
            st2 = o[1]
            v = st2.cells.get((fr.id, 0), UNIT)
            st2 = st2.copy()
            for k in [k for k in st2.cells if k[0] == fr.id]:
                del st2.cells[k]
            res.append((st2, v))
        s.paths += len(res)
        if s.paths > s.budget:
            raise Undecided('path budget')
        return res

    def run(s, fr, bb, st, blocks, head):
        """run from bb; blocks/head restrict to one loop iteration.
        returns [('ret', st) | ('head', st) | ('exit', bb, st)]"""
        loops = s.p.loopinfo(fr.name)
        out = []
        work = [(bb, st, True)]
        while work:
            bb, st, start = work.pop()
            if not start:
                if head is not None and bb == head:
                    out.append(('head', st))
                    continue
                if blocks is not None and bb not in blocks:
                    out.append(('exit', bb, st))
                    continue
            if bb in loops and bb != head:
                for o in s.mir_loop(fr, bb, loops[bb], st):
                    if o[0] == 'exit':
                        work.append((o[1], o[2], False))
                    else:
                        out.append(o)
                continue
            for nb, st2 in s.block(fr, bb, st):
                if nb is None:
                    out.append(('ret', st2))
                else:
                    work.append((nb, st2, False))
        return out

    def mir_loop(s, fr, head, blocks, st):
        live, taken = s.p.liveness(fr.name)
        lv = live[head] | taken

        def it(st):
            return [o if o[0] == 'head' else ('exit', o, o[-1]) for o in s.run(fr, head, st, blocks, head)]

        def islive(cell):
            return cell[0] != fr.id or cell[1] in lv
        done, exits = s.do_loop((fr.name, head), st, it, islive, None)
        out = []
        for o, st2 in exits:
            out.append(o[:-1] + (st2,))
        return out

    def block(s, fr, bb, st):
        s.tick()
        b = fr.body['b'][bb]
        if b is None:
            return []
        st = st.copy()
        for pl, rv, sp in b[0]:
            outs = s.rvalue(fr, st, rv, pl)
            if len(outs) == 1:
                st = outs[0][0]
                s.wplace(st, fr, pl, outs[0][1])
            else:
                # a forking rvalue (discriminant read of an unknown enum): continue every branch
                res = []
                idx = b[0].index([pl, rv, sp])
                for st2, v in outs:
                    st2 = st2.copy()
                    s.wplace(st2, fr, pl, v)
                    res.extend(s.block_from(fr, bb, st2, idx + 1))
                return res
        return s.term(fr, bb, st, b[1])

    def block_from(s, fr, bb, st, idx):
        b = fr.body['b'][bb]
        for j in range(idx, len(b[0])):
            pl, rv, sp = b[0][j]
            outs = s.rvalue(fr, st, rv, pl)
            if len(outs) == 1:
                st = outs[0][0]
                s.wplace(st, fr, pl, outs[0][1])
            else:
                res = []
                for st2, v in outs:
                    st2 = st2.copy()
                    s.wplace(st2, fr, pl, v)
                    res.extend(s.block_from(fr, bb, st2, j + 1))
                return res
        return s.term(fr, bb, st, b[1])

    def rvalue(s, fr, st, rv, pl):
        k = rv[0]
        if k == 'use':
            return [(st, s.op(st, fr, rv[1]))]
        if k == 'ref':
            if rv[2]:
                return [(st, s.lref(st, fr, rv[1]))]
            return [(st, s.rplace(st, fr, rv[1]))]
        if k == 'agg':
            ops = tuple(s.op(st, fr, o) for o in rv[2])
            kd = rv[1]
            if kd[0] == 'tuple':
                return [(st, ('tup', ops))]
            if kd[0] == 'array':
                return [(st, ('arr', ops))]
            if kd[0] == 'closure':
                return [(st, ('clo', kd[1], ops, tuple(sorted(fr.env.items()))))]
            if kd[0] == 'adt':
                return [(st, ('adt', kd[1], kd[2], ops))]
            raise Undecided('aggregate %s' % kd)
        if k == 'discr':
            v = s.rplace(st, fr, rv[1])
            v = s.deref(st, v)
            if v[0] == 'adt' or (v[0] == 'sym' and s.is_enum(v[2])):
                name = v[1] if v[0] == 'adt' else v[2][1]
                vs = s.p.variants(name)
                out = []
                dT = s.celltype.get((fr.id, pl[0]), ()) if not pl[1] else ()
                dT = dT[1] if dT and dT[0] == 'p' and dT[1] in INTS else 'isize'
                for st2, i in s.variant(st, v):
                    d = vs[i]['d'] if vs else i
                    out.append((st2, ('int', int(d) if d is not None else i, dT)))
                return out
            raise Undecided('discriminant of %s' % render(v))
        if k == 'cast':
            return [(st, s.cast(st, fr, rv[1], s.op(st, fr, rv[2]), s.p.subst(s.p.T(rv[3]), fr.env)))]
        if k == 'bin':
            a, b = s.op(st, fr, rv[2]), s.op(st, fr, rv[3])
            return s.m.binop(s, st, rv[1], s.deref(st, a), s.deref(st, b))
        if k == 'un':
            a = s.deref(st, s.op(st, fr, rv[2]))
            if rv[1] == 'Not':
                if a[0] == 'bool':
                    return [(st, ('bool', not a[1]))]
                if a[0] == 'int':
                    w, sg = INTS[a[2]]
                    return [(st, ('int', ~a[1] & ((1 << w) - 1), a[2]))] if not sg else [(st, ('int', ~a[1], a[2]))]
                return [(s2, ('bool', not t)) for s2, t in s.truth(st, a)]
            if rv[1] == 'Neg' and a[0] == 'int':
                return [(st, ('int', -a[1], a[2]))]
            if rv[1] == 'PtrMetadata':
                return [(st, s.m.length(s, st, a))]
            s.ext['operation ' + rv[1]] = s.ext.get('operation ' + rv[1], 0) + 1
            return [(st, s.app('?' + rv[1], [a], ('p', 'i32')))]
        if k == 'repeat':
            v = s.op(st, fr, rv[1])
            n = rv[2]
            return [(st, ('arr', tuple(v for _ in range(int(n)))))]
        if k == 'setdiscr':
            v = s.rplace(st, fr, pl)
            T = s.celltype.get((fr.id, pl[0])) if not pl[1] else None
            if v[0] == 'adt':
                return [(st, ('adt', v[1], rv[1], v[3]))]
        raise Undecided('rvalue %s' % (rv,))

    def cast(s, st, fr, kind, v, T):
        v = s.deref(st, v) if v[0] == 'mref' and T[0] == 'p' else v
        if T[0] == 'p' and (T[1] in INTS or T[1] in ('f32', 'f64', 'char')):
            return s.m.intcast(s, v, T[1])
        return v

    def app(s, name, args, T):
        path = '%s(%s)' % (name, ', '.join(render(a) for a in args))
        s.apps[path] = (name, tuple(args))
        return s.mk(path, T, cls='raw')

    def panic(s, st, fr, term, what):
        s.panics.append((fr.name, term.get('sp'), what, dict(st.facts), st.log))

    def term(s, fr, bb, st, t):
        k = t['k']
        if k == 'goto':
            return [(t['t'], st)]
        if k == 'return':
            return [(None, st)]
        if k == 'unreachable':
            return []
        if k == 'switch':
            v = s.deref(st, s.op(st, fr, t['d']))
            return s.switch(st, v, t)
        if k == 'assert':
            v = s.op(st, fr, t['c'])
            out = []
            for st2, b in s.truth(st, v):
                if b == t['e']:
                    out.append((t['t'], st2))
                else:
                    s.panic(st2, fr, t, 'assert ' + str(t.get('msg')))
            return out
        if k == 'call':
            out = []
            for st2, v in s.call(fr, st, t):
                if t.get('t') is None:
                    continue
                st2 = st2.copy()
                s.wplace(st2, fr, t['dst'], v)
                out.append((t['t'], st2))
            return out
        raise Undecided('terminator %s' % k)

    def switch(s, st, v, t):
        ts = [(int(a), b) for a, b in t['ts']]
        if v[0] == 'bool':
            v = ('int', int(v[1]), 'bool')
        if v[0] == 'char':
            v = ('int', ord(v[1]), 'char')
        if v[0] == 'int':
            for a, b in ts:
                if a == v[1] or (v[2] in INTS and INTS[v[2]][1] and a == v[1] % (1 << INTS[v[2]][0])):
                    return [(b, st)]
            return [(t['o'], st)] if t.get('o') is not None else []
        if v[0] == 'sym' and v[2] == BOOL_T:
            out = []
            for st2, b in s.pred(st, ('b', v[1])):
                for a, tb in ts:
                    if a == int(b):
                        out.append((tb, st2))
                        break
                else:
                    out.append((t['o'], st2))
            return out
        if v[0] in ('sym', 'cast', 'lin', 'bits'):
            key = v[1] if v[0] == 'sym' else render(v)
            ch = v[0] == 'sym' and v[2] == ('p', 'char')
            w = INTS.get(v[2][1]) if v[0] == 'sym' and v[2][0] == 'p' else None
            out = []
            cur = st
            for a, b in ts:
                if w and w[1] and a >= 1 << (w[0] - 1):
                    a -= 1 << w[0]
                nxt = None
                for st2, e in s.eqconst(cur, key, chr(a) if ch else a):
                    if e:
                        out.append((b, st2))
                    else:
                        nxt = st2
                cur = nxt
                if cur is None:
                    return out
            if t.get('o') is not None:
                out.append((t['o'], cur))
            return out
        raise Undecided('switch on %s' % render(v))

    # ------------------------------------------------------------- calls
    def tyargs(s, fr, ids):
        return tuple(s.p.subst(s.p.T(i), fr.env) for i in ids or [])

    def bind_env(s, name, targs):
        gp = s.p.bodies[name].get('gp') or []
        env = {}
        for nm, i in gp:
            if i < len(targs):
                env[nm] = targs[i]
        return env

    def call(s, fr, st, t):
        s.sites += 1
        args = [s.op(st, fr, a) for a in t['a']]
        if 'fp' in t:
            f = s.op(st, fr, t['fp']) if isinstance(t['fp'], list) else None
            if f is None:
                raise Undecided('call through pointer')
            return [(a, b) for a, b, _ in s.callv(st, f, args)]
        name = t['f']
        ga = s.tyargs(fr, t.get('ga'))
        target = None
        targs = ga
        if t.get('r') and t.get('rl'):
            target, targs = t['r'], s.tyargs(fr, t.get('ra'))
        elif t.get('local'):
            target = name
        if t.get('trait') and not (target and target in s.p.bodies):
            r = s.dispatch(st, fr, t, args, ga)
            if r:
                target, targs = r
        h = s.hooks.get(target or name)
        if h:
            r = h(s, st, fr, t, args)
            if r is not None:
                return r
        if t.get('trait') in ('std::ops::Fn', 'std::ops::FnMut', 'std::ops::FnOnce') and len(args) == 2 and target and target in s.p.bodies:
            # a closure called by name: its arguments come as one tuple
            a = s.deref(st, args[1])
            if a[0] == 'tup':
                return [(x, y) for x, y, _ in s.callv(st, args[0], list(a[1]))]
        if target and target in s.p.bodies:
            return s.call_local(st, target, args, targs)
        return s.call_ext(fr, st, t, name, args, ga)

    def call_local(s, st, target, args, targs):
        if s.unroll and target in s.stack and not s.opaque(target):
            if s.stack.count(target) >= s.unroll:
                raise Deep('recursion of %s does not end' % target)
        elif s.opaque(target) or target in s.stack:
            return s.call_opaque(st, target, args, targs)
        b = s.p.bodies[target]
        env = s.bind_env(target, targs)
        return s.call_body(st, target, args, env)

    def call_opaque(s, st, target, args, targs):
        b = s.p.bodies[target]
        env = s.bind_env(target, targs)
        vals = [s.deref(st, a) for a in args]
        path = '%s(%s)' % (short(target), ', '.join(render(a) for a in vals))
        s.apps[path] = (target, tuple(vals))
        st = st.copy()
        st.log = st.log + (('opq', target, tuple(vals)),)
        if target in KEEPS and vals[0][0] == 'vec' and any(i[0] == 'one' for i in vals[0][1]):
            st = st.with_fact(('e', path), False)
        for i, a in enumerate(args):
            if a[0] == 'mref':
                T = s.p.subst(s.p.T(b['locals'][i + 1]), env)
                if T[0] == 'r' and T[1]:
                    s.wref(st, a, s.mk('%s!%d' % (path, i), T[2]))
        T = s.p.subst(s.p.T(b['locals'][0]), env)
        return [(st, s.mkmut(st, path, T))]

    def mkmut(s, st, path, T):
        """fresh result; a returned &mut gets a heap cell of its own"""
        if T[0] == 'r' and T[1]:
            c = ('heap', s.fresh(), path)
            st.cells[c] = s.mk(path, T[2])
            return ('mref', c, ())
        if T[0] == 'a' and T[1] in (OPT, RES) and any(x[0] == 'r' and x[1] for x in T[2]):
            return ('sym', path, T)
        return s.mk(path, T)

    def dispatch(s, st, fr, t, args, ga):
        """resolve a trait call on a type parameter (or an unresolved impl) by the receiver"""
        tr, m = t['trait'], t['m']
        cand = []
        if ga:
            cand.append(ga[0])
            if ga[0][0] == 'r':
                cand.append(ga[0][2])
        if args:
            v = s.deref(st, args[0])
            if v[0] == 'adt':
                a = s.p.adts.get(v[1])
                for ar, path, im in s.p.implidx.get((tr, m), []):
                    if ar[0][0] == 'a' and ar[0][1] == v[1] and path in s.p.bodies:
                        if len(ar) > 1 and len(ga) > 1 and not all(match(x, y, {}) for x, y in zip(ar[1:], ga[1:])):
                            continue
                        if ar[0][0] == 'a' and ga and ga[0][0] == 'a' and ga[0][1] != v[1]:
                            continue
                        return path, ga
            if v[0] == 'sym':
                cand.append(v[2])
        for T in cand:
            p = s.p.find_impl(tr, m, T, ga[1:] if len(ga) > 1 else None)
            if p:
                return p, ga
        return None

    def callv(s, st, f, args):
        """call a function value; returns [(st, value, new function value)]"""
        f0 = f
        if f[0] == 'mref':
            inner = s.deref(st, f)
            if inner[0] == 'clo':
                out = []
                for st2, v, nf in s.callv(st, inner, args):
                    if nf != inner:
                        st2 = st2.copy()
                        s.wref(st2, f, nf)
                    out.append((st2, v, f0))
                return out
            f = inner
        if f[0] == 'clo':
            name = f[1]
            if name not in s.p.bodies:
                raise Undecided('closure without body %s' % name)
            b = s.p.bodies[name]
            env = dict(f[3])
            T1 = s.p.T(b['locals'][1]) if len(b['locals']) > 1 and b['args'] else None
            if T1 and T1[0] == 'r' and T1[1]:
                st = st.copy()
                c = ('tmp', s.fresh())
                st.cells[c] = f
                out = []
                for st2, v in s.call_body(st, name, [('mref', c, ())] + list(args), env):
                    nf = st2.cells.pop(c)
                    out.append((st2, v, nf))
                return out
            return [(a, b2, f) for a, b2 in s.call_body(st, name, [f] + list(args), env)]
        if f[0] == 'fn':
            name, targs = f[1], f[2]
            if name[0] == '#':      # a function the check supplies
                return [(a, b, f) for a, b in s.hooks[name](s, st, None, None, list(args))]
            if name in s.p.bodies:
                h = s.hooks.get(name)
                if h:
                    r = h(s, st, None, {'f': name, 'sp': None}, list(args))
                    if r is not None:
                        return [(a, b, f) for a, b in r]
                return [(a, b, f) for a, b in s.call_local(st, name, list(args), targs)]
            # constructor of an enum variant or tuple struct
            base, _, last = name.rpartition('::')
            if base in s.p.adts:
                for i, v in enumerate(s.p.variants(base)):
                    if v['n'] == last:
                        return [(st, ('adt', base, i, tuple(args)), f)]
            if name in s.p.adts:
                return [(st, ('adt', name, 0, tuple(args)), f)]
            t = {'f': name, 'ga': [], 'sp': None}
            # trait method used as a value
            tr, _, m = name.rpartition('::')
            t['trait'], t['m'] = tr, m
            fr = Frame(0, s.stack[-1] if s.stack else '', None, {})
            if s.p.implidx.get((tr, m)):
                r = s.dispatch(st, fr, t, list(args), targs)
                if r:
                    return [(a, b, f) for a, b in s.call_local(st, r[0], list(args), r[1])]
            return [(a, b, f) for a, b in s.call_ext(fr, st, t, name, list(args), targs)]
        if f[0] == 'sym':
            s.ext['call of a value'] = s.ext.get('call of a value', 0) + 1
            return [(st, s.app('?call ' + f[1], args, ('o', '?')), f)]
        raise Undecided('call of %s' % render(f))

    def call_ext(s, fr, st, t, name, args, ga):
        m = s.m.lookup(name, t)
        if m is not None:
            r = m(s, st, fr, t, args, ga)
            if r is not None:
                return r
        s.ext[name] = s.ext.get(name, 0) + 1
        # unknown external: opaque result; mutable arguments become unknown
        T = None
        if fr and fr.body and 'dst' in t:
            pl = t['dst']
            T = s.celltype.get((fr.id, pl[0])) if not pl[1] else None
        vals = [s.deref(st, a) for a in args]
        if any(v[0] == 'iter' for v in vals):
            raise Undecided('unmodelled iterator call %s' % name)
        v = s.app('?' + short(name), vals, T or ('o', '?'))
        st = st.copy()
        for i, a in enumerate(args):
            if a[0] == 'mref':
                cur = s.deref(st, a)
                T2 = cur[2] if cur[0] == 'sym' else ('o', '?')
                s.wref(st, a, ('sym', '?%s!%d' % (render(v), i), T2))
        return [(st, v)]

    # ------------------------------------------------------------- loops
    LIMIT = 64

    def do_loop(s, key, st, it, islive, until):
        done, exits = [], []
        work = [(st, 0, None)]
        while work:
            st, n, first = work.pop()
            if until is not None and st.streams.get(until[0], ())[:1] == (until[1],):
                done.append(st)
                continue
            s.tick()
            if n > s.LIMIT:
                raise (Deep if s.unroll else Undecided)('loop limit in %s' % (key,))
            if n >= 1 and first is not None and not s.unroll and st.streams == first.streams and s.noprogress(first, st, islive):
                ex = s.widen(key, first, st, it, islive, until)
                exits.extend(ex[1])
                done.extend(ex[0])
                continue
            s.loopdepth += 1
            try:
                outs = it(st)
            except NeedEach as e:
                s.loopdepth -= 1
                fr = st.streams.get(e.uid, ())
                if not fr or fr[0][0] != 'each':
                    raise
                st = s.m.normiters(s, st)
                try:
                    heads, ex, dn = s.generic(key, st, it, islive, e.uid, until)
                except NeedLast as nl:
                    if nl.uid != e.uid:
                        raise
                    heads, ex, dn = s.splitlast(st, nl.uid), [], []
                exits.extend(ex)
                done.extend(dn)
                for h in heads:
                    work.append((h, 0, None))
                continue
            except BaseException:
                s.loopdepth -= 1
                raise
            s.loopdepth -= 1
            for o in outs:
                if o[0] == 'head':
                    work.append((o[1], n + 1, st))
                else:
                    exits.append((o[1], o[2]))
        return done, exits

    def noprogress(s, a, b, islive):
        """true unless some iterator state held by value advanced over concrete items"""
        return not any(v[0] == 'sym' and v[1].startswith('jmap#') and b.cells.get(c, v) != v for c, v in a.cells.items())

    def leaves(s, a, b, islive):
        """cells (and paths inside) that differ between two states"""
        out = []
        s.difff = a.facts
        for c, v in a.cells.items():
            if not islive(c):
                continue
            w = b.cells.get(c)
            if w is None or w is v or w == v:
                if w is None:
                    continue
                continue
            s.difft(v, w, (c,), out)
        return out

    def difft(s, v, w, path, out):
        if v == w:
            return
        if not isinstance(v, tuple) or not isinstance(w, tuple):
            raise Undecided('iterator changes phase inside an element')
        if v[0] == w[0]:
            k = v[0]
            if k == 'tup' and len(v[1]) == len(w[1]):
                for i, (x, y) in enumerate(zip(v[1], w[1])):
                    s.difft(x, y, path + ((1, i),), out)
                return
            if k == 'adt' and v[1] == w[1] and v[2] == w[2] and len(v[3]) == len(w[3]):
                for i, (x, y) in enumerate(zip(v[3], w[3])):
                    s.difft(x, y, path + ((3, i),), out)
                return
            if k == 'clo' and v[1] == w[1] and len(v[2]) == len(w[2]):
                for i, (x, y) in enumerate(zip(v[2], w[2])):
                    s.difft(x, y, path + ((2, i),), out)
                return
            if k == 'iter' and v[1] == w[1] and len(v) == len(w):
                for i in range(2, len(v)):
                    if v[i] != w[i]:
                        s.difft(v[i], w[i], path + (i,), out)
                return
        if v[0] == 'sym' and w[0] in ('tup', 'adt') and (v[2][0] == 't' or s.is_struct(v[2])):
            v2 = s.expand(v)
            if v2[0] == w[0]:
                s.difft(v2, w, path, out)
                return
        if v[0] == 'sym' and w[0] == 'adt' and s.is_enum(v[2]) and v[2][1] == w[1] and s.difff.get(('v', v[1])) == w[2]:
            v2 = s.expand(v, w[2])
            for i, (x, y) in enumerate(zip(v2[3], w[3])):
                s.difft(x, y, path + ((3, i, w[2]),), out)
            return
        out.append((path, v, w))

    def getleaf(s, v, path):
        for p in path:
            if v[0] == 'sym':
                v = s.expand(v, p[2] if isinstance(p, tuple) and len(p) > 2 else None)
            if isinstance(p, tuple):
                v = v[p[0]][p[1]]
            else:
                v = v[p]
        return v

    def setleaf(s, v, path, x):
        if not path:
            return x
        p = path[0]
        if v[0] == 'sym':
            v = s.expand(v, p[2] if isinstance(p, tuple) and len(p) > 2 else None)
        if isinstance(p, tuple):
            f = list(v[p[0]])
            f[p[1]] = s.setleaf(f[p[1]], path[1:], x)
            return v[:p[0]] + (tuple(f),) + v[p[0] + 1:]
        return v[:p] + (s.setleaf(v[p], path[1:], x),) + v[p + 1:]

    COLL = ('vec', 'str', 'map')

    def collkind(s, v):
        if v[0] in s.COLL:
            return v[0]
        if v[0] == 'sym':
            if s.elemT(v[2]) is not None:
                return 'vec'
            if s.mapT(v[2]):
                return 'map'
        return None

    def nonempty_val(s, v):
        if v[0] == 'str':
            return any(x[0] == 'L' or (x[0] == 'A' and x[2] in ('id', 'json', 'num')) or (x[0] == 'acc' and x[2]) for x in v[1])
        if v[0] in ('vec', 'map'):
            return any(x[0] == 'one' or (x[0] == 'acc' and x[2]) for x in v[1])
        return False

    def accbase(s, v):
        if v[0] == 'sym' and s.mapT(v[2]):
            return (('base', v[1], v[2]),)
        return s.seqitems(v)

    def generalise(s, st, lv):
        """state with the given leaves replaced by loop variables. returns (st, {path: (kind, k, start)})"""
        st = st.copy()
        info = {}
        for path, v in lv.items():
            c = path[0]
            ck = s.collkind(v)
            k = s.fresh()
            if v[0] == 'vec' and v[1] and v[1][0][0] == 'rest':
                r = v[1][0]
                x = ('vec', (('rest', r[1], '?r%d' % k, 0),))
                info[path] = ('rest', k, v)
            elif ck:
                x = (ck, (('acc', k, s.nonempty_val(v)),))
                info[path] = ('acc', k, v)
                if ck == 'map':
                    s.accstart[k] = v[1] if v[0] == 'map' else (('base', v[1], v[2]),)
            elif v[0] == 'int' or (v[0] == 'sym' and v[2][0] == 'p' and v[2][1] in INTS) or v[0] == 'lin':
                t = v[2] if v[0] == 'int' else (v[2][1] if v[0] == 'sym' else v[3])
                x = ('sym', '?n%d' % k, ('p', t))
                info[path] = ('int', k, v)
            elif v[0] == 'bool':
                x = ('sym', '?b%d' % k, BOOL_T)
                info[path] = ('opq', k, v)
            elif len(path) == 1 and c in s.celltype:
                x = s.mk('?v%d' % k, s.celltype[c])
                info[path] = ('opq', k, v)
            elif v[0] == 'adt' and s.is_enum(('a', v[1], ())) and v[1] not in (OPT, RES):
                x = ('sym', '?v%d' % k, ('a', v[1], ()))
                info[path] = ('opq', k, v)
            elif v[0] == 'sym':
                x = s.mk('?v%d' % k, v[2])
                info[path] = ('opq', k, v)
            else:
                raise Undecided('cannot generalise %s' % render(v))
            st.cells[c] = s.setleaf(st.cells[c], path[1:], x)
        return st, info

    def widen(s, key, s0, s1, it, islive, until):
        """a loop that is not driven by a sequence: generalise what changes, run one generic iteration"""
        s.nloops += 1
        lv = {p: v for p, v, w in s.leaves(s0, s1, islive)}
        if not lv:
            return [], []   # no change: the loop does not advance
        for _ in range(4):
            g, info = s.generalise(s0, lv)
            outs = it(g)
            more = False
            for o in outs:
                if o[0] == 'head':
                    for p, v, w in s.leaves(g, o[1], islive):
                        if p not in lv:
                            if any(p[:len(q)] == q for q in lv):
                                continue
                            lv[p] = s.getleaf(s0.cells[p[0]], p[1:])
                            more = True
            if not more:
                break
        else:
            raise Undecided('widening does not stabilise')
        alts = {p: [] for p in info}
        rel = []
        for o in outs:
            if o[0] == 'head':
                r = {}
                for p, (kd, k, start) in info.items():
                    end = s.getleaf(o[1].cells[p[0]], p[1:])
                    r[p] = (kd, k, start, end)
                    if kd == 'acc':
                        items = end[1] if end[0] in s.COLL else None
                        if items and items[0][0] == 'acc' and items[0][1] == k:
                            alts[p].append(((), items[1:]))
                        else:
                            alts[p] = None
                    if alts[p] is None:
                        raise Undecided('loop accumulator in %s' % (key,))
                nf = {x: y for x, y in o[1].facts.items() if g.facts.get(x) != y}
                rel.append((nf, r, o[1].log[len(g.log):]))
        m = {}
        for p, (kd, k, start) in info.items():
            if kd == 'acc':
                base = start[1] if start[0] in s.COLL else s.accbase(start)
                ne = [a for a in alts[p] if a[1]]
                m[k] = base + ((('each', '?loop%d' % k, '', tuple(dict.fromkeys(alts[p]))),) if ne else ())
        exits = []
        for o in outs:
            if o[0] != 'head':
                exits.append((o[1], s.sub_state(o[2], m)))
        s.relations.append((key, info, rel, [(o[2], o[1]) for o in outs if o[0] != 'head']))
        return [], exits

    def sub_state(s, st, m):
        if not m:
            return st
        n = st.copy()
        for c, v in n.cells.items():
            n.cells[c] = sub_acc(v, m)
        n.log = sub_acc(n.log, m)
        n.streams = {u: sub_acc(c, m) for u, c in n.streams.items()}
        return n

    def guards_state(s, st, guards):
        """add guard facts; None if contradictory"""
        n = st.copy()
        for k, v in guards:
            c = n.facts.get(k)
            if c is not None and c != v:
                if isinstance(v, frozenset) or isinstance(c, frozenset):
                    if isinstance(v, frozenset) and isinstance(c, frozenset):
                        n.facts[k] = c | v
                        continue
                    const, ne = (c, v) if isinstance(v, frozenset) else (v, c)
                    if const in ne:
                        return None
                    n.facts[k] = const
                    continue
                return None
            n.facts[k] = v
        return n

    def generic(s, key, s0, it, islive, uid, until):
        """summarise the loop over an `each` at the front of stream uid. returns (heads, exits, done)"""
        s.neach += 1
        ch = s0.streams[uid]
        _, P, mod, alts = ch[0]
        rest = ch[1:]
        e = ek(P, mod)
        if s0.facts.get(e) is True or (mod and s0.facts.get(('e', P)) is True):
            n = s0.copy()
            n.streams[uid] = rest
            return [n], [], []
        star = P + '[*]'
        lv = {}
        forced = set()
        for rnd in range(6):
            g, info = s.generalise(s0, lv)
            mark = ('mark', s.fresh(), P, mod, alts)
            dn, ex = [], []
            peel = None
            try:
                for guards, body in alts:
                    st = s.guards_state(g, guards)
                    if st is None:
                        continue
                    st.streams[uid] = tuple(body) + (mark,)
                    try:
                        d, x = s.do_loop(key, st, it, islive, (uid, mark))
                    except Overshoot as o:
                        if o.uid != uid:
                            raise
                        # a reader of this element runs into the text that follows it
                        d, x = s.overshoot(key, st, it, islive, uid, mark, (P, mod, alts), body, rest, until)
                    dn += d
                    ex += x
            except NeedPeel as pe:
                if any(i[0] == 'acc' and i[1] == pe.k for i in info.values()):
                    peel = True
                else:
                    raise
            if peel:
                return s.peel(s0, uid, P, mod, alts, rest)
            new = False
            for d in dn:
                for p, v, w in s.leaves(g, d, islive):
                    if any(p[:len(q)] == q for q in lv):
                        continue
                    if v[0] == 'sym' and s.is_enum(v[2]) and w[0] == 'adt' and w[1] == v[2][1] and ('v', v[1]) not in s0.facts \
                            and not v[1].startswith('?'):
                        return [n for n, _ in s.variant(s0, v)], [], []
                    if s.collkind(v) is None and not (v[0] in ('int', 'lin') or (v[0] == 'sym' and v[2][0] == 'p')) \
                            and not mentions(w, star) and not mentions(w, '?') and mod in ('', 'tail', 'init'):
                        return s.peel(s0, uid, P, mod, alts, rest)
                    if v[0] == 'vec' and v[1] and v[1][0][0] == 'rest':
                        pass
                    elif w[0] == 'vec' and w[1] and w[1][0][0] == 'rest' and v[0] == 'sym':
                        # a list consumed from the front, one loop variable for its position
                        v = ('vec', (('rest', v[1], '', 0),))
                    if not any(q[:len(p)] == p and q != p for q in lv):
                        pass
                    else:
                        for q in [q for q in lv if q[:len(p)] == p]:
                            del lv[q]
                    lv[p] = v
                    new = True
                for u, c in g.streams.items():
                    if u != uid and d.streams.get(u) != c and u in s0.streams and c:
                        raise Undecided('second sequence consumed in lockstep in %s' % (key,))
            if not new:
                break
        else:
            raise Undecided('loop does not stabilise in %s' % (key,))
        # outer facts partition the result
        outs = []
        outer_keys = {}
        rows = []
        for d in dn:
            nf = {k: v for k, v in d.facts.items() if g.facts.get(k) != v}
            el, outf = {}, {}
            for k, v in nf.items():
                if any(isinstance(x, str) and star in x for x in k[1:]) or k[1].startswith('?') or '?n' in k[1] or '?v' in k[1] or '?r' in k[1]:
                    el[k] = v
                else:
                    outf[k] = v
            rows.append((el, outf, d))
            for k, v in outf.items():
                outer_keys.setdefault(k, [])
                if v not in outer_keys[k]:
                    outer_keys[k].append(v)
        combos = [{}]
        for k, vs in outer_keys.items():
            combos = [dict(c, **{}) | {k: v} for c in combos for v in vs]
            if len(combos) > 512:
                raise Undecided('too many outer cases')
        rels = []
        heads = []
        submaps = []
        for combo in combos:
            rr = [(el, d) for el, outf, d in rows if all(combo.get(k) == v for k, v in outf.items())]
            n = s0.copy()
            n.facts.update(combo)
            n.streams[uid] = rest
            m = {}
            for p, (kd, k, start) in info.items():
                base = start[1] if start[0] in s.COLL else (s.accbase(start) if kd == 'acc' else None)
                if kd == 'acc':
                    al = []
                    bad = False
                    for el, d in rr:
                        end = s.getleaf(d.cells[p[0]], p[1:])
                        items = end[1] if end[0] in s.COLL else None
                        if items and items[0][0] == 'acc' and items[0][1] == k and not any(
                                has_acc_k(x, k) for x in items[1:]):
                            al.append((self_guards(el), items[1:]))
                            if k in s.acclook and any(x[0] != 'rm' for x in items[1:]):
                                raise Undecided('a map is both searched and filled in %s' % (key,))
                        else:
                            bad = True
                    if bad:
                        nv = s.opaque_like(p, start)
                        m[k] = nv[1] if nv[0] in s.COLL else s.seqitems(nv)
                    else:
                        al = merge_alts(al)
                        if any(b for _, b in al):
                            items = base + (('each', P, mod, al),)
                        else:
                            items = base
                        m[k] = base + ((('each', P, mod + '<', al),) if any(b for _, b in al) else ())
                        ck = s.collkind(start)
                        nv = (ck, cat(items) if ck == 'str' else items)
                elif kd == 'rest':
                    r = start[1][0]
                    nv = ('vec', (('rest', r[1], '?r%d' % s.fresh(), 0),))
                elif kd == 'int':
                    T = start[2] if start[0] == 'int' else (start[2][1] if start[0] == 'sym' else start[3])
                    nv = ('sym', '?n%d' % s.fresh(), ('p', T))
                else:
                    nv = s.opaque_like(p, start)
                n.cells[p[0]] = s.setleaf(n.cells[p[0]], p[1:], nv)
            # effects of one iteration, for every element
            al = merge_alts([(self_guards(el), d.log[len(g.log):]) for el, d in rr])
            if any(b for _, b in al):
                n.log = s0.log + (('each', P, mod, al),)
            submaps.append((combo, m))
            heads.append(n)
            if any(i[0] in ('rest', 'int', 'opq') for i in info.values()):
                s.relations.append(((key, P + ('/' + mod if mod else '')), info,
                                    [({k: v for k, v in d.facts.items() if g.facts.get(k) != v},
                                      {p: (kd, k, start, s.getleaf(d.cells[p[0]], p[1:])) for p, (kd, k, start) in info.items()},
                                      d.log[len(g.log):]) for el, d in rr], []))
        exits = []
        for pay, st in ex:
            ms = [m for c, m in submaps if all(st.facts.get(k, v) == v for k, v in c.items())] or [{}]
            if st.streams.get(uid, ())[:1] == (('END',),):
                # the text ended with this element: nothing follows it
                st = s.atend(st, ((('each', P, mod + '>', alts),) + rest))
                if st is None:
                    continue
                st.streams[uid] = (('END',),) + tuple(c for c in rest if c[0] == 'mark')
            elif st.streams.get(uid, ())[-1:] == (mark,):
                st = st.copy()
                st.streams[uid] = st.streams[uid][:-1] + (('each', P, mod + '>', alts),) + rest
            elif mark in st.streams.get(uid, ()):
                st = st.copy()
                i = st.streams[uid].index(mark)
                st.streams[uid] = st.streams[uid][:i] + (('each', P, mod + '>', alts),) + rest
            exits.append((pay, s.sub_state(st, ms[0])))
        if not rows:
            # no path completes an iteration: only the empty sequence passes through
            n = s0.with_fact(e, True)
            n.streams[uid] = rest
            heads = [n]
        return heads, exits, []

    def atend(s, st, rest):
        """the state in which none of the remaining items is there, if there is one"""
        st = st.copy()
        for c in rest:
            if c[0] == 'each':
                k = ek(c[1], c[2])
                if st.facts.get(k) is False:
                    return None
                st.facts[k] = True
            elif c[0] != 'mark':
                return None
        return st

    def overshoot(s, key, st, it, islive, uid, mark, each, body, rest, until):
        """the reader of one element reads past it; look at what it does with the next element's text"""
        P, mod, alts = each
        s.over_depth += 1
        try:
            if s.over_depth > 2:
                raise Undecided('reader runs past its element')
            exits = []
            for guards, b2 in alts:
                nb = tuple(rename(tuple(b2), P + '[*]', P + '[+]'))
                n = s.guards_state(st, tuple(rename(tuple(guards), P + '[*]', P + '[+]')))
                if n is None:
                    continue
                n.streams[uid] = tuple(body) + nb + (mark,)
                d, x = s.do_loop(key, n, it, islive, (uid, mark))
                if d:
                    # it may resynchronise; cannot say
                    raise Undecided('reader runs past its element')
                exits += x
            s.overshoots.append((key, P))
            return [], exits
        finally:
            s.over_depth -= 1

    def opaque_like(s, path, start):
        if len(path) == 1 and path[0] in s.celltype:
            return s.mk('?v%d' % s.fresh(), s.celltype[path[0]])
        if start[0] == 'str':
            return ('str', (('A', '?v%d' % s.fresh(), 'raw'),))
        if start[0] == 'sym':
            return s.mk('?v%d' % s.fresh(), start[2])
        if start[0] == 'adt':
            return ('sym', '?v%d' % s.fresh(), ('a', start[1], ()))
        if start[0] == 'bool':
            return ('sym', '?b%d' % s.fresh(), BOOL_T)
        if start[0] in ('vec', 'map'):
            return (start[0], (('each', '?v%d' % s.fresh(), '', ()),))
        raise Undecided('opaque value')

    def splitlast(s, s0, uid):
        """split the last element off"""
        _, P, mod, alts = s0.streams[uid][0]
        rest = s0.streams[uid][1:]
        nm = {'': 'init', 'tail': 'mid'}.get(mod)
        if not nm:
            raise Undecided('loop looks ahead')
        heads = []
        if s0.facts.get(ek(P, mod)) is not False:
            n = s0.with_fact(ek(P, mod), True)
            n.streams[uid] = rest
            heads.append(n)
        for guards, body in alts:
            a, b = P + '[*]', P + '[$]'
            n = s.guards_state(s0, tuple(rename(tuple(guards), a, b)))
            if n is None:
                continue
            n.facts[ek(P, mod)] = False
            n.facts[('e', P)] = False
            n.streams[uid] = (('each', P, nm, alts),) + tuple(rename(tuple(body), a, b)) + rest
            heads.append(n)
        return heads

    def peel(s, s0, uid, P, mod, alts, rest):
        """split the first element off"""
        nm = {'': ('[0]', 'tail'), 'tail': ('[1]', 'tail2'), 'init': ('[0]', 'mid')}.get(mod)
        if not nm:
            raise Undecided('loop carries state between elements')
        heads = []
        if s0.facts.get(ek(P, mod)) is not False:
            n = s0.with_fact(ek(P, mod), True)
            n.streams[uid] = rest
            heads.append(n)
        for guards, body in alts:
            a, b = P + '[*]', P + nm[0]
            n = s.guards_state(s0, tuple(rename(tuple(guards), a, b)))
            if n is None:
                continue
            n.facts[ek(P, mod)] = False
            if mod == 'tail':
                n.facts[('e', P)] = False
            n.streams[uid] = tuple(rename(tuple(body), a, b)) + (('each', P, nm[1], alts),) + rest
            heads.append(n)
        return heads, [], []


def self_guards(el):
    return tuple(sorted(((k, v) for k, v in el.items() if not k[1].startswith('?')), key=repr))


def has_acc_k(v, k):
    if isinstance(v, tuple):
        if v[:1] == ('acc',) and v[1] == k:
            return True
        return any(has_acc_k(x, k) for x in v)
    return False


def merge_alts(al):
    """alternatives with one and the same body need no guard"""
    if not al:
        return ()
    bodies = {b for _, b in al}
    if len(bodies) == 1:
        return (((), al[0][1]),)
    return tuple(dict.fromkeys(al))
