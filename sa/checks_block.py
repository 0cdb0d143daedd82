"""Block lists and block specs (C14, C15, C22)."""
import itertools
from core import *
import models as m

AB = 'api::block::'
PBK, PBC = 'parser::logic::Block', 'parser::logic::BlockContainer'
BC = AB + 'BlockContent'
KINDS = {'S': 'String', 'N': 'Number', 'B': 'Boolean', 'M': 'Menu'}
MARK = {'S': '%s', 'N': '%d', 'B': '%b', 'M': '%m'}
TYPES = [('Regular', None), ('Control', 'EndingBlock'), ('Control', 'OneNest'), ('Control', 'TwoNest'), ('Argument', 'String'), ('Argument', 'Boolean'), ('Argument', 'Number'),
         ('Argument', 'View'), ('Argument', 'List', 'String'), ('Argument', 'Component'), ('Argument', 'List', 'Number')]
CODES = {('Regular', None): ' ', ('Control', 'EndingBlock'): 'f', ('Control', 'OneNest'): 'c', ('Control', 'TwoNest'): 'e',
         ('Argument', 'String'): 's', ('Argument', 'Boolean'): 'b', ('Argument', 'Number'): 'd', ('Argument', 'View'): 'v', ('Argument', 'Component'): 'p',
         ('Argument', 'List', 'String'): 'l', ('Argument', 'List', 'Number'): 'l'}


def lit(s):
    return ('str', (('L', s),) if s else ())


def vec(l):
    return ('vec', tuple(('one', x) for x in l))


class Mk:
    """builds values of the block model"""

    def __init__(s, ck, e):
        s.ck, s.p, s.e = ck, ck.p, e
        s.n = 0

    def adt(s, n, path, **kw):
        v = s.e.mk(path, A(n))
        v = s.e.expand(v) if v[0] == 'sym' else v
        f = dict(zip([f['n'] for f in s.p.adts[n]['variants'][0]['f']], v[3]))
        if set(kw) - set(f):
            raise Missing('%s.%s' % (n, sorted(set(kw) - set(f))[0]))
        f.update(kw)
        return ('adt', n, v[2], tuple(f[x['n']] for x in s.p.adts[n]['variants'][0]['f']))

    def var(s, n, v, **kw):
        a = s.p.adts[n]
        for i, x in enumerate(a['variants']):
            if x['n'] == v:
                return ('adt', n, i, tuple(kw[f['n'] if not f['n'].isdigit() else '_' + f['n']] for f in x['f']))
        raise Missing('%s::%s' % (n, v))

    def typename(s, path, t):
        """the name that goes with a type code"""
        if t[1] == 'List':
            return lit('List ' + t[2])
        return ('str', (('A', path + '.type_name', 'raw'),)) if t[1] in ('View', 'Component') else lit('')

    def type(s, t, path=''):
        if t[1] == 'List':
            return s.var(AB + 'BlockType', 'Argument', _0=s.var(AB + 'ArgumentBlockReturnType', 'List', inner_type=s.var(AB + 'ListItem', t[2])))
        if t[1] in ('View', 'Component'):
            return s.var(AB + 'BlockType', 'Argument', _0=s.var(AB + 'ArgumentBlockReturnType', t[1], type_name=s.typename(path, t)))
        if t[0] == 'Regular':
            return s.var(AB + 'BlockType', 'Regular')
        if t[0] == 'Control':
            return s.var(AB + 'BlockType', 'Control', _0=s.var(AB + 'BlockControl', t[1]))
        return s.var(AB + 'BlockType', 'Argument', _0=s.var(AB + 'ArgumentBlockReturnType', t[1]))

    def content(s, items):
        return s.adt(BC, 'content', items=vec(items))

    def text(s, t):
        return s.var(AB + 'SpecItem', 'Text', _0=t)

    def arg(s, k, value, name=None):
        if k == 'M':
            name = name if name is not None else lit('menu')
        else:
            name = m.Some(name) if name is not None else m.NONE
        return s.var(AB + 'Argument', KINDS[k], name=name, value=value)

    def param(s, k, value, name=None):
        return s.var(AB + 'SpecItem', 'Parameter', _0=s.arg(k, value, name))

    def av(s, v, *a):
        if v == 'BlockPlaceholder':
            return s.var(AB + 'ArgValue', v, block_id=a[0])
        return s.var(AB + 'ArgValue', v, **({'_0': a[0]} if a else {}))

    def blocks(s, l):
        return ('adt', AB + 'Blocks', 0, (vec(l),))


# ------------------------------------------------------------------ shapes
class B:
    """one block of a shape: arguments (kind, value) and the two substacks.
    value: 'v' a plain value, 'e' no value, True/False a literal, or a block"""

    def __init__(s, args=(), ss1=None, ss2=None, n=None):
        s.args, s.ss1, s.ss2 = tuple(args), ss1, ss2

    def name(s):
        t = ''.join('%s%s' % (k, v.name() if isinstance(v, B) else {True: 'T', False: 'F'}.get(v, v)) for k, v in s.args)
        t = 'o' + ('(%s)' % t if t else '')
        if s.ss1 is not None:
            t += '1[%s]' % seqname(s.ss1)
        if s.ss2 is not None:
            t += '2[%s]' % seqname(s.ss2)
        return t


def seqname(l):
    return ','.join(b.name() for b in l)


class Shape:
    """names the blocks of a tree in reading order and builds the API value"""

    def __init__(s, seq, mk):
        s.mk, s.seq = mk, seq
        s.info = {}       # id(block) -> (name, type)
        s.order = []
        s.facts = {}
        s.walk(seq)

    def walk(s, seq):
        for b in seq:
            s.add(b)

    def add(s, b):
        i = len(s.order)
        p = 'b%d' % i
        s.order.append(b)
        t = TYPES[i % len(TYPES)]
        s.info[id(b)] = (p, t)
        s.facts[('q', p + '.op_code')] = frozenset({'true', 'false'})
        for k, v in b.args:
            if isinstance(v, B):
                s.add(v)
        for ss in (b.ss1, b.ss2):
            if ss:
                s.walk(ss)

    def spec(s, b):
        return ' '.join(['w'] + [MARK[k] + ('.menu' if k == 'M' else '') for k, v in b.args])

    def plain(s, b, j, k):
        """a plain argument: its value in the model and its text"""
        p = '%s.a%d' % (s.info[id(b)][0], j)
        if k == 'N':
            v = ('sym', p, ('p', 'f64'))
            return v, None
        s.facts[('sw', p, '@')] = False
        t = ('str', (('A', p, 'raw'),))
        return t, t

    def api(s, b):
        mk = s.mk
        p, t = s.info[id(b)]
        items = [mk.text(lit('w'))]
        for j, (k, v) in enumerate(b.args):
            if isinstance(v, B):
                x = mk.av('Block', s.api(v))
            elif v == 'e':
                x = mk.av('Empty')
            elif v in (True, False):
                x = mk.av('Value', ('bool', v))
            else:
                x = mk.av('Value', s.plain(b, j, k)[0])
            items.append(mk.param(k, x))
        return mk.adt(AB + 'Block', p, content=mk.content(items), block_type=mk.type(t, p),
                      sub_stack1=m.Some(s.apis(b.ss1)) if b.ss1 is not None else m.NONE,
                      sub_stack2=m.Some(s.apis(b.ss2)) if b.ss2 is not None else m.NONE)

    def apis(s, seq):
        return s.mk.blocks([s.api(b) for b in seq])


def field(p, v, n, name):
    for x, f in zip(v[3], p.adts[n]['variants'][0]['f']):
        if f['n'] == name:
            return x
    raise Missing('%s.%s' % (n, name))


def conv(ck):
    rd = ck.p.find_impl('std::convert::TryFrom', 'try_from', A(AB + 'Blocks'), (A(PBC),))
    wr = ck.p.find_impl('std::convert::Into', 'into', A(AB + 'Blocks'), (A(PBC),)) \
        or ck.p.find_impl('std::convert::From', 'from', A(PBC), (A(AB + 'Blocks'),))
    if not rd or not wr:
        raise Missing('conversion between Blocks and BlockContainer')
    return rd, wr


def numtext(v):
    return ('str', (('A', v[1], 'num', v),))


def strlit(v):
    if v[0] == 'str':
        if not v[1]:
            return ''
        if all(x[0] == 'L' for x in v[1]):
            return ''.join(x[1] for x in v[1])
    return None


def intof(v):
    return v[1] if v[0] == 'int' else None


# ------------------------------------------------------------------ writing
def judge_written(ck, key, e, st, sh, r, where):
    """the written list is well linked; returns True if everything could be told"""
    p = ck.p
    if r[0] != 'adt' or r[3][0][0] != 'vec' or any(x[0] != 'one' for x in r[3][0][1]):
        ck.und(key, 'written list %s' % render(r)[:200], where)
        return
    lst = [x[1] for x in r[3][0][1]]
    ids, byid, bysym = [], {}, {}
    for b in lst:
        F = lambda n: field(p, b, PBK, n)
        i = strlit(F('id'))
        if i is None or not i.lstrip('-').isdigit() or has_unknown(F('id')):
            ck.und(key + ' ids', 'id %s' % render(F('id')), where)
            return
        i = int(i)
        ids.append(i)
        byid.setdefault(i, []).append(b)
        bysym.setdefault(render(F('op_code')), []).append((i, b))
    lits = sum(1 for b in sh.order for k, v in b.args if v is True or v is False)
    if len(lst) != len(sh.order) + lits:
        ck.bad(key + ' all written', '%d blocks are written for %d' % (len(lst), len(sh.order) + lits), where)
    else:
        ck.ok(key + ' all written', '', where)
    if ids == sorted(set(ids)) and all(i >= 0 for i in ids):
        ck.ok(key + ' ids', '', where)
    else:
        ck.bad(key + ' ids', 'ids in the order of writing: %s' % ids, where)

    def idof(b):
        l = bysym.get('%s.op_code' % sh.info[id(b)][0], [])
        return l[0][0] if len(l) == 1 else None

    def link(what, got, want):
        g = intof(got)
        if g is None:
            ck.und(key + ' ' + what, render(got), where)
        elif want is None:
            ck.bad(key + ' ' + what, 'the block it stands for is not written exactly once', where)
        elif g != want:
            ck.bad(key + ' ' + what, 'the link is %d, the block has id %d (ids written: %s)' % (g, want, ids), where)
        else:
            ck.ok(key + ' ' + what, '', where)

    if sh.seq and lst:
        ck.judge(key + ' first', ('y', '') if idof(sh.seq[0]) == ids[0] else ('n', 'the first block of the sequence has id %s, the first written one %s' % (idof(sh.seq[0]), ids[0])), where)

    def seq(l):
        for b, nx in zip(l, list(l[1:]) + [None]):
            block(b, idof(nx) if nx is not None else -1, nx is None)

    def block(b, nxt, last):
        pth, t = sh.info[id(b)]
        w = bysym.get(pth + '.op_code', [])
        if len(w) != 1:
            ck.bad(key + ' all written', 'block %s is written %d times' % (pth, len(w)), where)
            return
        v = w[0][1]
        F = lambda n: field(p, v, PBK, n)
        link('next link', F('next_block'), nxt)
        link('substack 1', F('sub_stack1'), idof(b.ss1[0]) if b.ss1 else -1)
        link('substack 2', F('sub_stack2'), idof(b.ss2[0]) if b.ss2 else -1)
        ck.judge(key + ' color', cmp(e, st, F('color'), e.mk(pth + '.color', A('color::Color')), 'color'), where)
        ck.judge(key + ' spec', cmp(e, st, F('spec'), lit(sh.spec(b)), 'spec'), where)
        ck.judge(key + ' type', cmp(e, st, F('type'), lit(CODES[t]), 'type'), where)
        ck.judge(key + ' type name', cmp(e, st, F('type_name'), sh.mk.typename(pth, t), 'type name'), where)
        prm = F('parameters')
        if prm[0] != 'vec' or any(x[0] != 'one' for x in prm[1]):
            ck.und(key + ' parameters', render(prm), where)
            return
        prm = [x[1] for x in prm[1]]
        if len(prm) != len(b.args):
            ck.bad(key + ' parameters', '%d parameters for %d arguments' % (len(prm), len(b.args)), where)
            return
        for j, ((k, a), g) in enumerate(zip(b.args, prm)):
            if isinstance(a, B):
                block(a, -1, True)
                want = idof(a)
                ck.judge(key + ' reference', cmp(e, st, g, lit('@%s' % want), 'argument %d' % j), where)
            elif a is True or a is False:
                s = strlit(g)
                ok = s is not None and s.startswith('@') and s[1:].isdigit() and len(byid.get(int(s[1:]), [])) == 1
                if not ok:
                    (ck.und if has_unknown(g) else ck.bad)(key + ' literal', 'a literal is stored as %s' % render(g), where)
                    continue
                lb = byid[int(s[1:])][0]
                G = lambda n: field(p, lb, PBK, n)
                ck.judge(key + ' literal', cmp(e, st, G('op_code'), lit('true' if a else 'false'), 'literal block'), where)
                link('literal next', G('next_block'), -1)
                link('literal substack', G('sub_stack1'), -1)
                link('literal substack', G('sub_stack2'), -1)
            elif a == 'e':
                ck.judge(key + ' empty argument', cmp(e, st, g, lit(''), 'argument %d' % j), where)
            else:
                want = sh.plain(b, j, k)[1]
                if want is None:
                    want = numtext(sh.plain(b, j, k)[0])
                ck.judge(key + ' plain argument', cmp(e, st, g, want, 'argument %d' % j), where)
    seq(sh.seq)


def leaf():
    return B()


def arg_lists():
    yield ()
    for k in 'SNBM':
        yield ((k, 'v' if k != 'B' else 'e'),)
        yield ((k, leaf()),)
    yield (('B', True),)
    yield (('B', False), ('B', True))
    yield (('S', leaf()), ('N', leaf()))
    yield (('S', 'v'), ('B', leaf()), ('M', 'v'))
    yield (('B', B([('N', leaf()), ('N', leaf())])), ('S', leaf()))
    yield (('N', B([('N', B([('N', leaf())]))])),)
    yield (('B', B([('B', True)])), ('N', 'e'))


def stacks():
    yield None
    yield []
    yield [leaf()]
    yield [leaf(), leaf()]
    yield [B([('S', leaf())]), leaf()]
    yield [leaf(), B([('S', leaf()), ('B', True)])]
    yield [B([], [leaf()]), leaf()]
    yield [leaf(), B([('N', leaf())], [leaf(), B([], [leaf()])], [B([('S', leaf())])])]


def shapes(thorough):
    args, st = list(arg_lists()), list(stacks())
    yield []
    n = 0
    for a in range(len(args)):
        for i in range(len(st)):
            for j in range(len(st)):
                # every pair of features; thorough: every triple
                if not thorough and sum(x > 0 for x in (a, i, j)) > 2 and (a + i + j) % 5:
                    continue
                n += 1
                mk = lambda: B(fresh(args[a]), freshs(st[i]), freshs(st[j]))
                for pos in ((0, 1, 2, 3) if thorough else (n % 4,)):
                    if pos == 0:
                        yield [mk()]
                    elif pos == 1:
                        yield [mk(), leaf()]
                    elif pos == 2:
                        yield [leaf(), mk()]
                    else:
                        yield [leaf(), mk(), mk(), leaf()]


def longs():
    """long and deep ones"""
    def deep(n, f):
        b = leaf()
        for _ in range(n):
            b = f(b)
        return b
    yield 'forty blocks', [leaf() for _ in range(40)]
    yield 'forty blocks in the first substack', [B((), [leaf() for _ in range(40)]), leaf()]
    yield 'forty blocks in the second substack', [B((), [leaf()], [leaf() for _ in range(40)]), leaf()]
    yield 'twelve argument blocks', [B([('S' if i % 2 else 'B', leaf()) for i in range(12)]), leaf()]
    yield 'ten levels of first substacks', [deep(10, lambda b: B((), [b])), leaf()]
    yield 'ten levels of second substacks', [deep(10, lambda b: B((), [leaf()], [b])), leaf()]
    yield 'ten levels of arguments', [deep(10, lambda b: B([('N', b)])), leaf()]


def named(it):
    for s in it:
        yield (seqname(s) or 'nothing', s, 12)
    for n, s in longs():
        yield (n, s, 48)


def freshb(b):
    return B(fresh(b.args), freshs(b.ss1), freshs(b.ss2))


def fresh(args):
    return tuple((k, freshb(v) if isinstance(v, B) else v) for k, v in args)


def freshs(l):
    return None if l is None else [freshb(b) for b in l]


def empty_stack(seq):
    return any(b.ss1 == [] or b.ss2 == [] or empty_stack(b.ss1 or []) or empty_stack(b.ss2 or []) or
               any(isinstance(v, B) and empty_stack([v]) for _, v in b.args) for b in seq)


def c14_write(ck):
    rd, wr = conv(ck)
    where = ck.span(wr)
    for snm, seq, most in named(shapes(ck.tier == 'thorough')):
        key = 'write %s' % snm
        with ck.case(key, where):
            e = ck.eng()
            e.unroll = most
            sh = Shape(seq, Mk(ck, e))
            x = sh.apis(seq)
            n = 0
            for st, r in call(e, St({}, dict(sh.facts), {}, ()), wr, [x]):
                n += 1
                judge_written(ck, key, e, st, sh, r, where)
                if empty_stack(seq):
                    continue        # an empty substack has no head: it reads back as no substack
                for s2, r2 in call(e, st, rd, [r]):
                    for s3, ok, v in e.res(s2, r2):
                        if ok:
                            ck.judge(key + ' read back', cmp(e, s3, v, x), ck.span(rd), factstr(s3))
                        else:
                            (ck.und if has_unknown(v) or 'parse<' in factstr(s3) else ck.bad)(key + ' read back', 'is rejected: %s' % render(v)[:200], ck.span(rd))
            for q in e.panics:
                ck.bad(key + ' no panic', 'panics: %s' % (q,), where)
            ck.count('shapes written')
            if not n:
                ck.und(key, 'no complete path')


def c14_starts(ck):
    """the numbering does not depend on how many blocks came before"""
    rd, wr = conv(ck)
    fn = AB + 'Blocks::to_block_container'
    if fn not in ck.p.bodies or ck.p.bodies[fn]['args'] != 2:
        return
    where = ck.span(fn)
    some = [s for k, s in enumerate(shapes(False)) if k % 41 == 7 and not empty_stack(s)]
    for start in (1, 11, 125, 254, 9997, 32765, 65533, 16777214, 0x7fff0000):
        for seq in some:
            key = 'write %s from %d' % (seqname(seq) or 'nothing', start)
            with ck.case(key, where):
                e = ck.eng()
                e.unroll = 12
                sh = Shape(seq, Mk(ck, e))
                x = sh.apis(seq)
                for st, r in call(e, St({}, dict(sh.facts), {}, ()), fn, [x, ('int', start, 'u32')]):
                    judge_written(ck, key, e, st, sh, r, where)
                    for s2, r2 in call(e, st, rd, [r]):
                        for s3, ok, v in e.res(s2, r2):
                            if ok:
                                ck.judge(key + ' read back', cmp(e, s3, v, x), ck.span(rd), factstr(s3))
                            else:
                                (ck.und if has_unknown(v) or 'parse<' in factstr(s3) else ck.bad)(key + ' read back', 'is rejected: %s' % render(v)[:200], ck.span(rd))


# ------------------------------------------------------------------ reading
def encode(sh, ids, order=None):
    """the block list of a shape, with the given ids"""
    mk = sh.mk
    out = {}

    def idof(b):
        return ids[next(i for i, x in enumerate(sh.order) if x is b)]

    def seq(l):
        for b, nx in zip(l, list(l[1:]) + [None]):
            block(b, idof(nx) if nx is not None else -1)

    def block(b, nxt):
        pth, t = sh.info[id(b)]
        prm = []
        for j, (k, v) in enumerate(b.args):
            if isinstance(v, B):
                prm.append(lit('@%d' % idof(v)))
                block(v, -1)
            elif v == 'e':
                prm.append(lit(''))
            else:
                w, txt = sh.plain(b, j, k)
                prm.append(txt if txt is not None else numtext(w))
        out[idof(b)] = pblock(mk, pth, idof(b), nxt, sh.spec(b), prm, idof(b.ss1[0]) if b.ss1 else -1, idof(b.ss2[0]) if b.ss2 else -1, CODES[t], mk.typename(pth, t))
        for ss in (b.ss1, b.ss2):
            if ss:
                seq(ss)
    seq(sh.seq)
    return [out[i] for i in (order(ids) if order else ids)]


def pblock(mk, path, id, nxt=-1, spec='w', prm=(), ss1=-1, ss2=-1, ty=' ', tyname=lit('')):
    i32 = lambda n: ('int', n, 'i32')
    return mk.adt(PBK, path, id=lit(str(id)) if isinstance(id, int) else id, next_block=i32(nxt), sub_stack1=i32(ss1), sub_stack2=i32(ss2),
                  spec=lit(spec), parameters=vec(prm), type=lit(ty), type_name=tyname)


def container(l):
    return ('adt', PBC, 0, (vec(l),))


STRATEGIES = [
    ('gaps', lambda n: [10 + 7 * i for i in range(n)], None),
    ('descending', lambda n: [n - 1 - i for i in range(n)], None),
    ('first, then backwards', lambda n: [50] + [i - 1 for i in range(1, n)], lambda ids: ids[:1] + ids[:0:-1]),
    ('around 2^8 and 2^16', lambda n: [[250, 65530][i % 2] + 3 * i for i in range(n)], None),
    ('up to 2^31', lambda n: [2147483647 - 715827 * i for i in range(n)], None),
]


def literals(seq):
    return any(v is True or v is False or (isinstance(v, B) and literals([v])) for b in seq for _, v in b.args) or \
        any(literals(x or []) for b in seq for x in (b.ss1, b.ss2))


def c14_read(ck):
    rd, wr = conv(ck)
    where = ck.span(rd)
    n = 0
    for snm, seq, most in named(shapes(False)):
        if literals(seq) or empty_stack(seq):
            continue
        n += 1
        for name, ids, order in STRATEGIES if ck.tier == 'thorough' else [STRATEGIES[n % len(STRATEGIES)]]:
            key = 'read %s, ids %s' % (snm, name)
            with ck.case(key, where):
                e = ck.eng()
                e.unroll = most
                sh = Shape(seq, Mk(ck, e))
                want = sh.apis(seq)
                c = container(encode(sh, ids(len(sh.order)), order))
                for st, r in call(e, St({}, dict(sh.facts), {}, ()), rd, [c]):
                    for s2, ok, v in e.res(st, r):
                        if ok:
                            ck.judge(key, cmp(e, s2, v, want), where, factstr(s2))
                        elif 'parse<f64>' not in factstr(s2):
                            (ck.und if has_unknown(v) else ck.bad)(key, 'is rejected: %s' % render(v)[:200], where)
                for q in e.panics:
                    ck.bad(key + ' no panic', 'panics: %s' % (q,), where)
                ck.count('shapes read')


def c14_errors(ck):
    rd, wr = conv(ck)
    where = ck.span(rd)
    raw = ('str', (('A', 'badid', 'raw'),))
    bad = {('v', 'parse<u32>(badid)'): 1}
    R = {('v', 'parse<u32>(badref)'): 1}
    badref = ('str', (('L', '@'), ('A', 'badref', 'raw')))
    P = pblock

    def with_inner(kind, inner, mk):
        """`inner` is a block with id 2 that cannot be read; it is reached through `kind`"""
        if kind == 'first':
            return inner
        b1 = dict(next=P(mk, 'b1', 1, 2), ss1=P(mk, 'b1', 1, ss1=2), ss2=P(mk, 'b1', 1, ss2=2),
                  arg=P(mk, 'b1', 1, spec='%s w', prm=[lit('@2')]), argb=P(mk, 'b1', 1, spec='w %b', prm=[lit('@2')]),
                  argd=P(mk, 'b1', 1, spec='w %d', prm=[lit('@2')]), argm=P(mk, 'b1', 1, spec='w %m.x', prm=[lit('@2')]))[kind]
        return [b1] + inner

    reach = ['first', 'next', 'ss1', 'ss2', 'arg', 'argb', 'argd', 'argm']
    faults = {
        'missing next': lambda mk: [P(mk, 'b2', 2, 7)],
        'missing substack 1': lambda mk: [P(mk, 'b2', 2, ss1=7)],
        'missing substack 2': lambda mk: [P(mk, 'b2', 2, ss2=7)],
        'missing substack block 0': lambda mk: [P(mk, 'b2', 2, ss1=0)],
        'missing argument block': lambda mk: [P(mk, 'b2', 2, spec='w %s', prm=[lit('@7')])],
        'malformed reference': lambda mk: [P(mk, 'b2', 2, spec='w %d', prm=[badref])],
        'too few arguments': lambda mk: [P(mk, 'b2', 2, spec='w %d', prm=[])],
        'unknown parameter': lambda mk: [P(mk, 'b2', 2, spec='w %q', prm=[])],
        'unknown block type': lambda mk: [P(mk, 'b2', 2, ty='?')],
    }
    for fk, f in faults.items():
        for kind in reach:
            if fk == 'missing next' and kind.startswith('arg'):
                continue        # the next link of an argument block is not followed
            key = '%s, reached by %s' % (fk, kind)
            run_error(ck, rd, key, lambda mk: with_inner(kind, f(mk), mk), R, where)
    for pos in range(3):
        def lst(mk):
            l = [P(mk, 'b1', 1, 2), P(mk, 'b2', 2, 3), P(mk, 'b3', 3)]
            l[pos] = P(mk, 'bx', raw, -1)
            return l
        run_error(ck, rd, 'malformed id at %d' % pos, lst, bad, where, 'MalformedBlockId')
    # reached by nothing else, the block itself is missing
    for kind in reach[1:]:
        run_error(ck, rd, 'missing block, reached by %s' % kind, lambda mk: with_inner(kind, [], mk), {}, where)


def run_error(ck, rd, key, mkl, facts, where, variant=None):
    with ck.case(key, where):
        e = ck.eng()
        e.unroll = 12
        mk = Mk(ck, e)
        n = 0
        for st, r in call(e, St({}, dict(facts), {}, ()), rd, [container(mkl(mk))]):
            for s2, ok, v in e.res(st, r):
                n += 1
                if ok:
                    (ck.und if has_unknown(v) else ck.bad)(key, 'is read as %s' % render(v)[:200], where)
                elif variant and v[0] == 'adt' and ck.p.adts[v[1]]['variants'][v[2]]['n'] != variant:
                    ck.bad(key, 'is reported as %s' % render(v)[:200], where)
                else:
                    ck.ok(key, render(v)[:120], where)
        for q in e.panics:
            ck.bad(key + ' no panic', 'panics: %s' % (q,), where)
        if not n and not e.panics:
            ck.und(key, 'no complete path')
        ck.count('faults')


def c14(ck):
    c14_write(ck)
    c14_starts(ck)
    c14_read(ck)
    c14_errors(ck)


# ------------------------------------------------------------------ cycles
def graphs(ck):
    """link graphs: two blocks with up to two links each to anything; three blocks with one link each; and named ones"""
    links = ['next', 'ss1', 'ss2', 'arg']

    def sets(ids, k):
        for r in range(k + 1):
            for ls in itertools.combinations(links, r):
                for ts in itertools.product(ids, repeat=r):
                    yield dict(zip(ls, ts))
    yield from ([a] for a in sets([0], 4))
    two = list(sets([0, 1], 2))
    yield from ([a, b] for a in two for b in two)
    one = list(sets([0, 1, 2], 1))
    if ck.tier == 'thorough':
        yield from ([a, b, c] for a in sets([0, 1, 2], 2) for b in one for c in one)
    else:
        yield from ([a, b, c] for a in one for b in one for c in one)


def reference(g):
    """reads the graph, using blocks up: None if a block is missing when asked for"""
    left = set(range(len(g)))

    def one(i):
        if i not in left:
            return None
        left.discard(i)
        b = g[i]
        r = {}
        for k in ('ss1', 'ss2'):
            if k in b:
                r[k] = seq(b[k])
                if r[k] is None:
                    return None
        if 'arg' in b:
            r['arg'] = one(b['arg'])
            if r['arg'] is None:
                return None
        return B([('S', r['arg'])] if 'arg' in b else [], r.get('ss1'), r.get('ss2'), n=i)

    def seq(i):
        out = []
        while i is not None:
            if i not in left:
                return None
            nx = g[i].get('next')
            b = one(i)
            if b is None:
                return None
            b.i = i
            out.append(b)
            i = nx
        return out
    return seq(0)


def c22(ck):
    rd, wr = conv(ck)
    where = ck.span(rd)
    for g in graphs(ck):
        key = 'links ' + ' '.join('%d:{%s}' % (i, ','.join('%s=%d' % kv for kv in b.items())) for i, b in enumerate(g))
        want = reference(g)
        with ck.case(key, where):
            e = ck.eng()
            e.unroll = 3 * len(g) + 3
            e.LIMIT = 40
            mk = Mk(ck, e)
            l = [pblock(mk, 'b%d' % i, i + 10, b.get('next', -11) + 10, '%s w' if 'arg' in b else 'w', [lit('@%d' % (b['arg'] + 10))] if 'arg' in b else [],
                        b.get('ss1', -11) + 10, b.get('ss2', -11) + 10) for i, b in enumerate(g)]
            try:
                outs = call(e, st0(), rd, [container(l)])
            except Deep as ex:
                ck.bad(key, 'reading %d block(s) goes on without end: %s' % (len(g), ex), where)
                continue
            for st, r in outs:
                for s2, ok, v in e.res(st, r):
                    if has_unknown(v):
                        ck.und(key, render(v)[:200], where)
                    elif ok and want is None:
                        ck.bad(key, 'a block is read twice, or a missing one made up: %s' % render(v)[:200], where)
                    elif not ok and want is not None:
                        ck.bad(key, 'no block is shared, yet it is rejected: %s' % render(v)[:200], where)
                    else:
                        ck.ok(key, '', where)
            ck.count('link graphs')


# ------------------------------------------------------------------ specs and arguments
def words():
    """(name, the word, kind and name of the parameter / text / error)"""
    n = ('A', 'name', 'word')
    seg = lambda *x: ('str', tuple(('L', y) if isinstance(y, str) else y for y in x))
    name = seg(n)
    for k, mark in MARK.items():
        if k == 'M':
            yield 'menu without name', lit(mark), None
        else:
            yield mark, lit(mark), (k, None)
        yield mark + '.name', seg(mark + '.', n), (k, name)
        yield mark + '.a.b', lit(mark + '.a.b'), (k, lit('a.b'))
        yield mark + '.x', lit(mark + '.x'), (k, lit('x'))
        yield mark + '.\u00e9', lit(mark + '.\u00e9'), (k, lit('\u00e9'))
    yield 'percent', lit('%'), lit('%')
    yield 'empty word', lit(''), lit('')
    yield 'word', lit('word'), lit('word')
    yield 's.name', lit('s.name'), lit('s.name')
    yield '5%', lit('5%s'), lit('5%s')
    yield 'at', lit('@12'), lit('@12')
    yield 'any word', ('str', (('A', 'text', 'word'),)), ('str', (('A', 'text', 'word'),))
    yield '%%', lit('%%'), None
    yield '%x', lit('%x'), None
    yield '%S', lit('%S'), None
    yield '%x.name', seg('%x.', n), None
    yield '%.name', seg('%.', n), None
    yield '%e', lit('%\u00e9'), None


WF = {('sw', 'text', '%'): False}


def args_for(k, mk):
    """(name, the argument text, the value / error, facts)"""
    raw = lambda p: ('str', (('A', p, 'raw'),))
    ref = ('str', (('L', '@'), ('A', 'ref', 'raw')))
    r = {('v', 'parse<u32>(ref)'): 0}
    yield 'reference', ref, mk.av('BlockPlaceholder', ('sym', 'parse<u32>(ref)@Ok.0', ('p', 'u32'))), r
    yield 'reference 12', lit('@12'), mk.av('BlockPlaceholder', ('int', 12, 'u32')), {}
    yield 'bad reference', ref, 'InvalidBlockId', {('v', 'parse<u32>(ref)'): 1}
    yield 'lone @', lit('@'), 'InvalidBlockId', {}
    plain = {('sw', 'arg', '@'): False, ('q', 'arg'): frozenset({''})}
    a = raw('arg')
    if k in 'SM':
        yield 'text', a, mk.av('Value', a), plain
        yield 'nothing', lit(''), mk.av('Value', lit('')), {}
        yield 'text with @', lit('a@b'), mk.av('Value', lit('a@b')), {}
        yield 'text with spaces', lit(' a b '), mk.av('Value', lit(' a b ')), {}
    else:
        yield 'nothing', lit(''), mk.av('Empty'), {}
        t = 'f64' if k == 'N' else 'bool'
        err = 'InvalidNumberArgument' if k == 'N' else 'InvalidBooleanArgument'
        yield 'value', a, mk.av('Value', ('sym', 'parse<%s>(arg)@Ok.0' % t, ('p', t))), {**plain, ('v', 'parse<%s>(arg)' % t): 0}
        yield 'wrong value', a, err, {**plain, ('v', 'parse<%s>(arg)' % t): 1}
        if k == 'B':
            for b in (True, False):
                yield str(b), lit(str(b).lower()), mk.av('Value', ('bool', b)), {}
            yield 'True', lit('True'), err, {}
            yield '1', lit('1'), err, {}
        else:
            yield 'word', lit('word'), err, {}


def fns15(ck):
    f = lambda n: ck.fn(BC + '::' + n)
    return dict((n, f(n)) for n in ('parse', 'parse_wo_params', 'apply_args', 'apply_blocks', 'take_args', 'get_args'))


def judge15(ck, key, e, outs, want, where):
    """want: a value, or the name of an error (None: any error)"""
    n = 0
    for st, r in outs:
        for s2, ok, v in e.res(st, r):
            n += 1
            if isinstance(want, tuple):
                if ok:
                    ck.judge(key, cmp(e, s2, v, want), where, factstr(s2))
                else:
                    (ck.und if has_unknown(v) else ck.bad)(key, 'is rejected: %s [%s]' % (render(v)[:200], factstr(s2)), where)
            elif ok:
                (ck.und if has_unknown(v) else ck.bad)(key, 'is taken as %s' % render(v)[:200], where)
            elif want and v[0] == 'adt' and ck.p.adts[v[1]]['variants'][v[2]]['n'] != want:
                ck.bad(key, 'is reported as %s, not as %s' % (render(v)[:200], want), where)
            elif want and v[0] != 'adt':
                ck.und(key, render(v)[:200], where)
            else:
                ck.ok(key, render(v)[:100], where)
    for q in e.panics:
        ck.bad(key + ' no panic', 'panics: %s' % (q,), where)
    if not n and not e.panics:
        ck.und(key, 'no complete path')
    ck.count('specs')


def two_step(F, e, st, spec, args):
    out = []
    for s1, r in call(e, st, F['parse_wo_params'], [spec]):
        for s2, ok, v in e.res(s1, r):
            if ok:
                out += call(e, s2, F['apply_args'], [v, args])
            else:
                out.append((s2, r))
    return out


def c15_words(ck, F):
    for name, w, want in words():
        for reader in ('parse_wo_params', 'parse', 'two-step'):
            where = ck.span(F['apply_args' if reader == 'two-step' else reader])
            key = '%s: %s' % (reader, name)
            with ck.case(key, where):
                e = ck.eng()
                mk = Mk(ck, e)
                ref = ('vec', (('one', lit('@5')),))
                x = want
                if isinstance(want, tuple) and want[0] in KINDS:
                    val = mk.av('Empty') if reader == 'parse_wo_params' else mk.av('BlockPlaceholder', ('int', 5, 'u32'))
                    x = mk.content([mk.param(want[0], val, want[1])])
                elif want is not None:
                    x = mk.content([mk.text(want)])
                else:
                    x = 'UnknownSpecParam'
                st = St({}, dict(WF), {}, ())
                outs = two_step(F, e, st, w, ref) if reader == 'two-step' else call(e, st, F[reader], [w] + ([ref] if reader == 'parse' else []))
                judge15(ck, key, e, outs, x, where)


def c15_args(ck, F):
    for k in KINDS:
        for reader in ('parse', 'two-step'):
            where = ck.span(F['apply_args' if reader == 'two-step' else reader])
            e0 = ck.eng()
            cases = [c[0] for c in args_for(k, Mk(ck, e0))] + ['missing']
            for i, an in enumerate(cases):
                key = '%s: %s with %s' % (reader, MARK[k], an)
                with ck.case(key, where):
                    e = ck.eng()
                    mk = Mk(ck, e)
                    name = lit('n')
                    spec = lit('%s.n' % MARK[k])
                    if an == 'missing':
                        a, want, facts, l = None, 'RanOutOfArgs', {}, vec([])
                    else:
                        _, a, want, facts = list(args_for(k, mk))[i]
                        l = vec([a])
                    if isinstance(want, tuple):
                        want = mk.content([mk.param(k, want, name)])
                    st = St({}, dict(facts), {}, ())
                    outs = two_step(F, e, st, spec, l) if reader == 'two-step' else call(e, st, F['parse'], [spec, l])
                    judge15(ck, key, e, outs, want, where)


def c15_order(ck, F):
    """arguments are handed out one to one, in order"""
    seqs = [x for r in (1, 2, 3) for x in itertools.product('SNBMt', repeat=r)]
    if ck.tier == 'thorough':
        seqs += list(itertools.product('SNBMt', repeat=4))
    for sq in seqs:
        np = sum(k != 't' for k in sq)
        for reader in ('parse', 'two-step'):
            where = ck.span(F['apply_args' if reader == 'two-step' else reader])
            for short in ((False, True) if np else (False,)):
                key = '%s: order %s%s' % (reader, ''.join(sq), ' one short' if short else '')
                with ck.case(key, where):
                    e = ck.eng()
                    mk = Mk(ck, e)
                    items, ws, av = [], [], []
                    for k in sq:
                        if k == 't':
                            t = 'w%d' % len(ws)
                            ws.append(t)
                            items.append(mk.text(lit(t)))
                            continue
                        i = len(av)
                        ws.append('%s.n%d' % (MARK[k], i))
                        if k in 'SM' and i % 2 == 0:
                            av.append(lit('a%d' % i))
                            v = mk.av('Value', lit('a%d' % i))
                        elif k == 'B' and i == 1:
                            av.append(lit(''))
                            v = mk.av('Empty')
                        else:
                            av.append(lit('@%d' % (20 + i)))
                            v = mk.av('BlockPlaceholder', ('int', 20 + i, 'u32'))
                        items.append(mk.param(k, v, lit('n%d' % i)))
                    want = mk.content(items)
                    if short:
                        av = av[:-1]
                        want = 'RanOutOfArgs'
                    spec, l = lit(' '.join(ws)), vec(av)
                    outs = two_step(F, e, st0(), spec, l) if reader == 'two-step' else call(e, st0(), F['parse'], [spec, l])
                    judge15(ck, key, e, outs, want, where)


BLANKS = ('', ' ', '  ', 'a ', ' a', 'a  ', '  a', 'a  b', ' a  b ', '%s.x ', ' %s.x', '%d.x  a', 'a  %b.x', '%m.x  %s.y ', '  %s  %d  ', 'a % b', '% %s.x %', 'a\tb c', '%s.x \t', 'a, b: c')


def c15_blanks(ck, F):
    """a spec is its words: blanks at the ends and double blanks are words without letters"""
    for spec in BLANKS:
        for reader in ('parse_wo_params', 'parse', 'two-step'):
            where = ck.span(F['apply_args' if reader == 'two-step' else reader])
            key = '%s: the words of %r' % (reader, spec)
            with ck.case(key, where):
                e = ck.eng()
                mk = Mk(ck, e)
                items, av = [], []
                for w in spec.split(' '):
                    k = next((k for k in KINDS if len(w) > 1 and w.startswith(MARK[k])), None)
                    if k is None:
                        items.append(mk.text(lit(w)))
                        continue
                    i = 20 + len(av)
                    av.append(lit('@%d' % i))
                    v = mk.av('Empty') if reader == 'parse_wo_params' else mk.av('BlockPlaceholder', ('int', i, 'u32'))
                    items.append(mk.param(k, v, lit(w[3:]) if len(w) > 3 else None))
                l = vec(av)
                outs = two_step(F, e, st0(), lit(spec), l) if reader == 'two-step' else call(e, st0(), F[reader], [lit(spec)] + ([l] if reader == 'parse' else []))
                judge15(ck, key, e, outs, mk.content(items), where)
                if reader == 'parse_wo_params':
                    ts = ck.p.find_impl('std::string::ToString', 'to_string', A(BC))
                    for st, r in call(e, st0(), ts, [mk.content(items)]) if ts else ():
                        ck.judge('to_string: the words of %r' % spec, cmp(e, st, r, lit(spec)), ck.span(ts))


def c15_filled(ck, F):
    """an argument that has a value keeps it and takes none"""
    where = ck.span(F['apply_args'])
    for k in KINDS:
        for what in ('Value', 'Block', 'BlockPlaceholder'):
            key = 'apply_args: %s that has a %s' % (MARK[k], what)
            with ck.case(key, where):
                e = ck.eng()
                mk = Mk(ck, e)
                val = {'S': ('str', (('A', 'val', 'raw'),)), 'M': ('str', (('A', 'val', 'raw'),)), 'N': ('sym', 'val', ('p', 'f64')), 'B': ('sym', 'val', ('p', 'bool'))}[k]
                v = mk.av(what, val if what == 'Value' else e.mk('val', A(AB + 'Block')) if what == 'Block' else ('sym', 'val', ('p', 'u32')))
                x = mk.content([mk.param(k, v, lit('a')), mk.param('S', mk.av('Empty'), lit('b'))])
                want = mk.content([mk.param(k, v, lit('a')), mk.param('S', mk.av('Value', lit('t')), lit('b'))])
                judge15(ck, key, e, call(e, st0(), F['apply_args'], [x, vec([lit('t')])]), want, where)


def get_block(found):
    """stands for the lookup of argument blocks: the block of an id is the term block(id)"""
    def h(e, st, fr, t, args):
        i = e.deref(st, args[0])
        st = st.ev('get', render(i), (i,))
        b = e.mk('block(%s)' % render(i), A(AB + 'Block'))
        return [(st, m.Some(b) if found(render(i)) else m.NONE)]
    return h


def c15_blocks(ck, F):
    where = ck.span(F['apply_blocks'])
    raw = ('str', (('A', 'val', 'raw'),))
    PL = {'S': raw, 'M': raw, 'N': ('sym', 'val', ('p', 'f64')), 'B': ('sym', 'val', ('p', 'bool'))}

    def run(key, mkx, found, facts, want, gets):
        with ck.case(key, where):
            e = ck.eng()
            mk = Mk(ck, e)
            e.hooks['#get'] = get_block(found)
            x = mkx(mk, e, False)
            w = mkx(mk, e, True) if want is None else want
            outs = call(e, St({}, dict(facts), {}, ()), F['apply_blocks'], [x, ('fn', '#get', ())], ) if True else None
            judge15(ck, key, e, outs, w, where)
            for st, r in outs:
                for s2, ok, v in e.res(st, r):
                    got = [l[1] for l in s2.log if l[0] == 'get']
                    if ok and got != gets:
                        ck.bad(key + ' lookups', 'looked up %s instead of %s' % (got, gets), where)
                    elif ok:
                        ck.ok(key + ' lookups', '', where)

    for k in KINDS:
        for what in ('Value', 'Block', 'Empty'):
            def mkx(mk, e, done):
                v = mk.av(what, *([PL[k]] if what == 'Value' else [e.mk('own', A(AB + 'Block'))] if what == 'Block' else []))
                return mk.content([mk.param(k, v, lit('n')), mk.text(lit('t'))])
            run('apply_blocks: %s that has %s' % (MARK[k], what), mkx, lambda i: True, {}, None, [])

        def ref(val):
            def mkx(mk, e, done):
                i = ('sym', 'id', ('p', 'u32'))
                v = mk.av('BlockPlaceholder', i) if not done else val(mk, e)
                return mk.content([mk.param(k, v, lit('n')), mk.text(lit('t'))])
            return mkx
        op = ('q', 'block(id).op_code')
        blk = lambda mk, e: mk.av('Block', e.mk('block(id)', A(AB + 'Block')))
        run('apply_blocks: %s reference' % MARK[k], ref(blk), lambda i: True, {op: frozenset({'true', 'false'})}, None, ['id'])
        for b in ('true', 'false'):
            run('apply_blocks: %s reference to the block %s' % (MARK[k], b), ref((lambda mk, e: mk.av('Value', ('bool', b == 'true'))) if k == 'B' else blk),
                lambda i: True, {op: b}, None, ['id'])
        run('apply_blocks: %s reference to a missing block' % MARK[k], ref(blk), lambda i: False, {}, 'BlockNotFound', ['id'])
    for sq in itertools.product('SNBM', repeat=2):
        def mkx(mk, e, done):
            it = []
            for j, k in enumerate(sq):
                v = mk.av('Block', e.mk('block(%d)' % (j + 5), A(AB + 'Block'))) if done else mk.av('BlockPlaceholder', ('int', j + 5, 'u32'))
                it += [mk.param(k, v, lit('n%d' % j)), mk.text(lit('t%d' % j))]
            return mk.content(it)
        facts = {('q', 'block(%d).op_code' % j): frozenset({'true', 'false'}) for j in (5, 6)}
        run('apply_blocks: order %s%s' % sq, mkx, lambda i: True, facts, None, ['5', '6'])
        run('apply_blocks: order %s%s second missing' % sq, mkx, lambda i: i == '5', facts, 'BlockNotFound', None)


def some_items(mk, e, sq, empty=False, named=True):
    """items of the kinds in sq; arguments have symbolic values"""
    it, args, spec = [], [], []
    for j, k in enumerate(sq):
        if k == 't':
            t = ('str', (('A', 't%d' % j, 'word'),))
            it.append(mk.text(t))
            spec.append(t[1])
            continue
        name = ('str', (('A', 'n%d' % j, 'word'),)) if named or k == 'M' else None
        T = ck_valty(mk, k)
        v = mk.av('Empty') if empty else e.mk('v%d' % j, T)
        a = mk.arg(k, v, name)
        args.append(a)
        it.append(mk.var(AB + 'SpecItem', 'Parameter', _0=a))
        spec.append((('L', MARK[k]),) + ((('L', '.'),) + name[1] if name else ()))
    segs = ()
    for i, w in enumerate(spec):
        segs += ((('L', ' '),) if i else ()) + tuple(w)
    return it, args, ('str', join(segs))


def join(segs):
    out = []
    for s in segs:
        if out and s[0] == 'L' and out[-1][0] == 'L':
            out[-1] = ('L', out[-1][1] + s[1])
        else:
            out.append(s)
    return tuple(out)


def ck_valty(mk, k):
    v = [x for x in mk.p.adts[AB + 'Argument']['variants'] if x['n'] == KINDS[k]][0]
    t = [f for f in v['f'] if f['n'] == 'value'][0]['t']
    return mk.p.T(t)


def long_args(ck, key, fn, mut):
    """the parameters of a content of a hundred items come out in order"""
    e = ck.eng()
    e.unroll = e.LIMIT = 128
    mk = Mk(ck, e)
    items, args = [], []
    for j in range(100):
        if j % 3 == 1:
            items.append(mk.text(lit('t%d' % j)))
        else:
            args.append(mk.arg('SNBM'[j % 4], mk.av('Empty'), lit('n%d' % j)))
            items.append(mk.var(AB + 'SpecItem', 'Parameter', _0=args[-1]))
    x = mk.content(items)
    st = st0()
    if mut:
        st, x = cell(e, st, x, A(BC))
    for s2, r in call(e, st, fn, [x]):
        if r[0] != 'vec' or any(i[0] != 'one' for i in r[1]):
            ck.und(key, 'is %s' % render(r)[:100], ck.span(fn))
            continue
        got = vec([e.deref(s2, i[1]) if i[1][0] == 'mref' else i[1] for i in r[1]])
        ck.judge(key, cmp(e, s2, got, vec(args)), ck.span(fn))


def c15_rest(ck, F):
    ts = ck.p.find_impl('std::string::ToString', 'to_string', A(BC)) or ck.p.find_impl('std::fmt::Display', 'fmt', A(BC))
    if not ts:
        raise Missing('ToString for BlockContent')
    seqs = [x for r in (1, 2, 3) for x in itertools.product('SNBMt', repeat=r)]
    for sq in seqs:
        for named in (True, False):
            tag = '%s%s' % (''.join(sq), '' if named else ' unnamed')
            with ck.case('take_args: ' + tag, ck.span(F['take_args'])):
                e = ck.eng()
                mk = Mk(ck, e)
                it, args, spec = some_items(mk, e, sq, False, named)
                ite, _, _ = some_items(mk, e, sq, True, named)
                for st, r in call(e, st0(), F['take_args'], [mk.content(it)]):
                    w = ('tup', (mk.content(ite), vec(args)))
                    ck.judge('take_args: ' + tag, cmp(e, st, r, w), ck.span(F['take_args']), factstr(st))
            with ck.case('get_args: ' + tag, ck.span(F['get_args'])):
                e = ck.eng()
                mk = Mk(ck, e)
                it, args, spec = some_items(mk, e, sq, False, named)
                for st, r in call(e, st0(), F['get_args'], [mk.content(it)]):
                    ck.judge('get_args: ' + tag, cmp(e, st, r, vec(args)), ck.span(F['get_args']), factstr(st))
            if sq == ('S',):
                # a list of any length
                for what, extra in (('get_args', False), ('get_args_mut', True)):
                    fn = BC + '::' + what
                    key = '%s of any content' % what
                    if fn in ck.p.bodies:
                        with ck.case(key, ck.span(fn)):
                            long_args(ck, key, fn, extra)
            gm = BC + '::get_args_mut'
            if gm in ck.p.bodies:
                with ck.case('get_args_mut: ' + tag, ck.span(gm)):
                    e = ck.eng()
                    mk = Mk(ck, e)
                    it, args, spec = some_items(mk, e, sq, False, named)
                    st, c = cell(e, st0(), mk.content(it), A(BC))
                    for s2, r in call(e, st, gm, [c]):
                        if r[0] != 'vec' or any(i[0] != 'one' for i in r[1]):
                            ck.und('get_args_mut: ' + tag, 'is %s' % render(r)[:100], ck.span(gm))
                            continue
                        got = vec([e.deref(s2, i[1]) if i[1][0] == 'mref' else i[1] for i in r[1]])
                        ck.judge('get_args_mut: ' + tag, cmp(e, s2, got, vec(args)), ck.span(gm), factstr(s2))
            where = ck.span(ts)
            with ck.case('to_string: ' + tag, where):
                e = ck.eng()
                mk = Mk(ck, e)
                it, args, spec = some_items(mk, e, sq, False, named)
                ite, _, _ = some_items(mk, e, sq, True, named)
                facts = {('sw', 't%d' % j, '%'): False for j in range(4)}
                for st, r in call(e, St({}, facts, {}, ()), ts, [mk.content(it)]):
                    ck.judge('to_string: ' + tag, cmp(e, st, r, spec), where, factstr(st))
                    for s2, r2 in call(e, st, F['parse_wo_params'], [r]):
                        for s3, ok, v in e.res(s2, r2):
                            if ok:
                                ck.judge('to_string read back: ' + tag, cmp(e, s3, v, mk.content(ite)), where, factstr(s3))
                            else:
                                (ck.und if has_unknown(v) else ck.bad)('to_string read back: ' + tag, 'is rejected: %s' % render(v)[:200], where)


def c15(ck):
    c15_blocks(ck, fns15(ck))
    c15_rest(ck, fns15(ck))
    F = fns15(ck)
    c15_words(ck, F)
    c15_args(ck, F)
    c15_order(ck, F)
    c15_blanks(ck, F)
    c15_filled(ck, F)
