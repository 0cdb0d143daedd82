"""Section-structured texts: write, then read back (C04)."""
import itertools
import models as m
from core import *

PZ = 'parser::Parsable'
SIMPLE = ['file::File', 'library::Library', 'resource::Resource', 'view::Layout', 'view::View',
          'logic::variable::VariablePool', 'logic::list_variable::ListVariablePool', 'logic::component::ComponentPool',
          'logic::event::EventPool', 'logic::more_block::MoreBlockPool', 'logic::BlockContainer', 'logic::BlockContainerHeader',
          'logic::more_block::MoreBlock', 'logic::variable::Variable', 'logic::list_variable::ListVariable',
          'logic::component::Component', 'logic::event::Event', 'logic::Block', 'file::FileItem',
          'library::LibraryItem', 'resource::ResourceItem', 'view::models::AndroidView', 'project::Project']
POOLS = ['variables', 'list_variables', 'components', 'events', 'more_blocks', 'blocks']   # in the order they are written
WORDS = frozenset({'var', 'list', 'components', 'events', 'func'})
SCR = 'x.screens[*].val.'


def world(on):
    """facts: exactly the pools in `on` may be present, the first of them is, in every screen; block containers
    have ids of their own (the words that mark pools are not ids of blocks)"""
    f = {('q', SCR + 'block_containers[*].key'): WORDS}
    for o in POOLS[:-1]:
        if o not in on:
            f[('v', SCR + o)] = 0
        elif o == on[0]:
            f[('v', SCR + o)] = 1
    if 'blocks' not in on:
        f[('e', SCR + 'block_containers')] = True
    elif on[0] == 'blocks':
        f[('e', SCR + 'block_containers')] = False
    f[('e', 'x.screens')] = False
    return f


def impls(ck, T):
    TT = A('parser::' + T)
    parse, rec = [ck.p.find_impl(PZ, m, TT) for m in ('parse', 'reconstruct')]
    if not parse or not rec:
        raise Missing('Parsable for ' + T)
    return TT, parse, rec


def roundtrip(ck, name, T, facts, budget=None):
    TT, parse, rec = impls(ck, T)
    where = ck.span(rec)
    with ck.case(name, where):
        e = ck.eng(cls='id')
        if budget:
            e.budget = budget
        x = e.mk('x', TT)
        n = 0
        for st, r in call(e, St({}, dict(facts), {}, ()), rec, [x]):
            for s2, ok, t in e.res(st, r):
                w = factstr(s2) or 'any value'
                if not ok:
                    # the only failure is the one of the JSON writer
                    (ck.und if 'to_string(' in render(t) or has_unknown(t) else ck.bad)(name + ' is written', 'fails with %s [%s]' % (render(t)[:200], w), where)
                    continue
                for s3, r2 in call(e, s2, parse, [t]):
                    for s4, ok2, v in e.res(s3, r2):
                        w = factstr(s4) or 'any value'
                        n += 1
                        if ok2:
                            ck.judge('%s read back' % name, cmp(e, s4, v, x), ck.span(parse), w)
                        elif has_unknown(v):
                            ck.und('%s read back' % name, 'may fail: %s' % render(v)[:200], ck.span(parse))
                        else:
                            ck.bad('%s read back' % name, 'its own text is rejected: %s [%s]' % (render(v)[:200], w), ck.span(parse))
        for p in e.panics:
            ck.bad('%s no panic' % name, 'panics: %s' % (p,), where)
        if not n:
            ck.und(name, 'no complete path')
        ck.count('round trips', n)


# ------------------------------------------------------------------ small shapes, given in full
PP = 'parser::'
L_ = lambda t: ("str", (("L", t),) if t else ())
NAMES = ['main', 'main_b-\u00e9', 'c']      # one is the beginning of another


class Build:
    def __init__(s, e):
        s.e = e

    def item(s, T, path, **kw):
        v = s.e.mk(path, A(PP + T))
        v = s.e.expand(v) if v[0] == 'sym' else v
        fs = [f['n'] for f in s.e.p.adts[PP + T]['variants'][0]['f']]
        if set(kw) - set(fs):
            raise Missing('%s of %s' % (sorted(set(kw) - set(fs))[0], T))
        return ('adt', PP + T, 0, tuple(kw.get(f, x) for f, x in zip(fs, v[3])))

    def sym(s, T, path):
        return s.e.mk(path, A(PP + T))

    def list(s, T, n, path):
        return ('vec', tuple(('one', s.sym(T, '%s%d' % (path, i))) for i in range(n)))

    def map(s, kvs):
        return ('map', tuple(('one', ('tup', (L_(k), v))) for k, v in kvs))

    def pool(s, P, T, n, path, key=None):
        """a pool of n items; keyed pools hold each item under its name"""
        if key is None:
            return s.item(P, path, **{'0': s.list(T, n, path)})
        return s.item(P, path, **{'0': s.map([('n%d' % i, s.item(T, '%s%d' % (path, i), **{key: L_('n%d' % i)})) for i in range(n)])})


LOGIC = {'variables': ('logic::variable::VariablePool', 'logic::variable::Variable', 'name'),
         'list_variables': ('logic::list_variable::ListVariablePool', 'logic::list_variable::ListVariable', 'name'),
         'components': ('logic::component::ComponentPool', 'logic::component::Component', None),
         'events': ('logic::event::EventPool', 'logic::event::Event', None),
         'more_blocks': ('logic::more_block::MoreBlockPool', 'logic::more_block::MoreBlock', 'id')}


def small(thorough):
    """(type, name, builder) of small values of every kind of shape"""
    k = 3
    for a, b in itertools.product(range(k), repeat=2):
        yield 'file::File', '%d activities, %d custom views' % (a, b), lambda B, a=a, b=b: B.item('file::File', 'x', activities=B.list('file::FileItem', a, 'a'), custom_views=B.list('file::FileItem', b, 'c'))
    for n in itertools.product(range(k), repeat=3):
        yield 'resource::Resource', '%d images, %d sounds, %d fonts' % n, lambda B, n=n: B.item('resource::Resource', 'x', **{f: B.list('resource::ResourceItem', m, f) for f, m in zip(('images', 'sounds', 'fonts'), n)})
    for n in range(k + 1):
        yield 'view::Layout', '%d views' % n, lambda B, n=n: B.pool('view::Layout', 'view::models::AndroidView', n, 'v')
        yield 'logic::BlockContainer', '%d blocks' % n, lambda B, n=n: B.pool('logic::BlockContainer', 'logic::Block', n, 'b')
        for f, (P, T, key) in LOGIC.items():
            yield P, '%d items' % n, lambda B, n=n, P=P, T=T, key=key: B.pool(P, T, n, 'i', key)
    for n in range(k):
        for sizes in itertools.product(range(k), repeat=n):
            for r in range(3):
                for fabs in itertools.combinations(NAMES[:n] + ['\u00d6-ther 2'], r):
                    yield 'view::View', 'layouts of %s views, fabs of %s' % (list(sizes), ' '.join(fabs) or 'none'), lambda B, sizes=sizes, fabs=fabs: B.item(
                        'view::View', 'x', layouts=B.map([(NAMES[i], B.pool('view::Layout', 'view::models::AndroidView', m, 'v%d_' % i)) for i, m in enumerate(sizes)]),
                        fabs=B.map([(f, B.sym('view::models::AndroidView', 'fab' + f)) for f in fabs]))

    def screen(B, i, sh):
        """sh: per pool None / number of items; and the sizes of the block containers"""
        kw = {f: (m.Some(B.pool(P, T, n, '%s%d_' % (f, i), key)) if n is not None else m.NONE) for (f, (P, T, key)), n in zip(LOGIC.items(), sh[0])}
        kw['block_containers'] = B.map([(c, B.pool('logic::BlockContainer', 'logic::Block', n, 'b%d%s' % (i, c))) for c, n in zip(('onCreate_initializeLogic', 'b1_onClick'), sh[1])])
        return (NAMES[i], B.item('logic::ScreenLogic', 's%d' % i, name=L_(NAMES[i]), **kw))

    def logic(*shs):
        return lambda B: B.item('logic::Logic', 'x', screens=B.map([screen(B, i, sh) for i, sh in enumerate(shs)]))
    # a spec is free text: it may begin or end with a blank, hold colons or be empty
    MB = 'logic::more_block::MoreBlock'
    free = {'a blank at the end': (('A', 'sp', 'id'), ('L', ' ')), 'a blank at both ends': (('L', ' '), ('A', 'sp', 'id'), ('L', '  ')), 'a colon': (('A', 'sp', 'id'), ('L', ':'), ('A', 'sq', 'id')),
            'no text': (), 'only a blank': (('L', ' '),), 'words': (('A', 'sp', 'id'), ('L', ' %s.a %m.b '), ('A', 'sq', 'id')), 'a tab at the end': (('A', 'sp', 'id'), ('L', '\t')),
            'an at sign': (('L', '@'), ('A', 'sp', 'id'))}
    for (w, segs), n, k in itertools.product(free.items(), (1, 2), (0, 1)):
        if k >= n:
            continue

        def pool(B, n=n, k=k, segs=segs):
            return B.item('logic::more_block::MoreBlockPool', 'p', **{'0': B.map([('n%d' % i, B.item(MB, 'mb%d' % i, id=L_('n%d' % i), **({'spec': ('str', segs)} if i == k else {}))) for i in range(n)])})
        what = 'the spec of moreblock %d of %d having %s' % (k + 1, n, w)
        yield 'logic::more_block::MoreBlockPool', what, pool
        for bs in ((), (1,)):
            yield 'logic::Logic', what + (' and a container' if bs else ''), lambda B, pool=pool, bs=bs: B.item('logic::Logic', 'x', screens=B.map([(NAMES[0], B.item(
                'logic::ScreenLogic', 's', name=L_(NAMES[0]), variables=m.NONE, list_variables=m.NONE, components=m.NONE, events=m.NONE, more_blocks=m.Some(pool(B)),
                block_containers=B.map([('onCreate_initializeLogic', B.pool('logic::BlockContainer', 'logic::Block', x, 'b')) for x in bs])))]))
    o = [None] * 5
    ones = [([n if i == j else None for j in range(5)], bs) for i in range(5) for n in (0, 1, 2) for bs in ((), (1,))]
    ones += [(o, bs) for bs in ((0,), (1,), (2,), (0, 0), (1, 0), (0, 1), (2, 1))]
    pairs = [([n if i in ij else None for i in range(5)], ()) for ij in itertools.combinations(range(5), 2) for n in (0, 1)]
    full = [([n] * 5, bs) for n in (0, 1) for bs in ((), (1,), (0, 1))]
    for sh in ones + pairs + full:
        yield 'logic::Logic', 'a screen of %s and containers of %s' % (sh[0], list(sh[1])), logic(sh)
    two = [([1, None, None, None, None], (1,)), ([0, None, 1, None, None], ()), ([1] * 5, (1, 0))]
    for a, b in itertools.product(two, repeat=2):
        yield 'logic::Logic', 'screens of %s, %s and %s, %s' % (a[0], list(a[1]), b[0], list(b[1])), logic(a, b)
    # names that look like the words of the format, or like each other
    odd = ['list_onClick', 'list1_onItemClicked', 'var_onClick', 'variable1_onX', 'components1_onX', 'events_onX', 'func_moreBlock', 'java_var',
           'java_list', '_moreBlock', 'onCreate', 'a', 'aa', 'varlist', 'xml', 'var1', 'my_list', 'my_events', 'my_func', 'x_components']

    def named(scr, cons, n, pools=(), k=1):
        return lambda B: B.item('logic::Logic', 'x', screens=B.map([(s, B.item(
            'logic::ScreenLogic', 's%d' % i, name=L_(s), block_containers=B.map([(c, B.pool('logic::BlockContainer', 'logic::Block', n, 'b%d%s' % (i, c))) for c in cons]),
            **{f: (m.Some(B.pool(P, T, k, '%s%d_' % (f, i), key)) if f in pools else m.NONE) for f, (P, T, key) in LOGIC.items()})) for i, s in enumerate(scr)]))
    for c in odd:
        for n in (0, 1):
            yield 'logic::Logic', 'a container %s of %d blocks' % (c, n), named([NAMES[0]], [c], n)
        yield 'logic::Logic', 'a container %s behind all pools' % c, named([NAMES[0]], [c], 1, tuple(LOGIC), 0)
    yield 'logic::Logic', 'containers of all these names', named([NAMES[0]], odd, 1)
    ss = ['Main', 'MainActivity', 'MainActivity2', 'var', 'java_var', 'java', 'list', 'func', 'java_events', 'a', 'b', 'onCreate']
    for s in ss:
        for f in LOGIC:
            yield 'logic::Logic', 'a screen %s with %s' % (s, f), named([s], [], 1, (f,))
        yield 'logic::Logic', 'a screen %s with code' % s, named([s], ['list_onClick'], 1)
    yield 'logic::Logic', 'screens of all these names', named(ss, ['onCreate'], 1, ('variables', 'events'), 0)
    vs = ['xml', 'xml_fab', 'fab', 'main', 'main_fab', 'a', 'aa', '_drawer_main', 'view', 'zz', 'b']
    one = lambda B, x: B.pool('view::Layout', 'view::models::AndroidView', 1, 'v' + x)
    for v in vs:
        yield 'view::View', 'a layout %s' % v, lambda B, v=v: B.item('view::View', 'x', layouts=B.map([(v, one(B, v))]), fabs=B.map([]))
        yield 'view::View', 'a layout and a fab %s' % v, lambda B, v=v: B.item('view::View', 'x', layouts=B.map([(v, one(B, v))]), fabs=B.map([(v, B.sym('view::models::AndroidView', 'fab'))]))
    yield 'view::View', 'layouts of all these names', lambda B: B.item('view::View', 'x', layouts=B.map([(v, one(B, v)) for v in vs]), fabs=B.map([(v, B.sym('view::models::AndroidView', 'fab' + v)) for v in vs[1:4]]))
    for f, names in (('variables', ['b', 'a', 'aa', 'list', 'var']), ('list_variables', ['z', 'y', 'list']), ('more_blocks', ['m2', 'm1', 'm', 'func'])):
        P, T, key = LOGIC[f]
        yield P, 'names %s' % ' '.join(names), lambda B, P=P, T=T, key=key, names=names: B.item(P, 'p', **{'0': B.map([(n, B.item(T, 'i' + n, **{key: L_(n)})) for n in names])})
    # the same item more than once
    for pat in ('00', '010', '0110'):
        rep = lambda B, T, pat=pat: ('vec', tuple(('one', B.sym(T, 'i' + c)) for c in pat))
        w = 'items ' + ' '.join('AB'[int(c)] for c in pat)
        for P, T in (LOGIC['components'][:2], LOGIC['events'][:2], ('logic::BlockContainer', 'logic::Block'), ('view::Layout', 'view::models::AndroidView')):
            yield P, w, lambda B, P=P, T=T, rep=rep: B.item(P, 'p', **{'0': rep(B, T)})
        for f in ('activities', 'custom_views'):
            yield 'file::File', '%s: %s' % (f, w), lambda B, f=f, rep=rep: B.item('file::File', 'x', **{g: rep(B, 'file::FileItem') if g == f else B.list('file::FileItem', 1, 'o') for g in ('activities', 'custom_views')})
        for f in ('images', 'sounds', 'fonts'):
            yield 'resource::Resource', '%s: %s' % (f, w), lambda B, f=f, rep=rep: B.item('resource::Resource', 'x', **{g: rep(B, 'resource::ResourceItem') if g == f else B.list('resource::ResourceItem', 0, 'o') for g in ('images', 'sounds', 'fonts')})
    yield 'file::File', 'the same item in both sections', lambda B: B.item('file::File', 'x', activities=B.list('file::FileItem', 1, 'a'), custom_views=B.list('file::FileItem', 1, 'a'))
    yield 'resource::Resource', 'the same item in every section', lambda B: B.item('resource::Resource', 'x', **{g: B.list('resource::ResourceItem', 1, 'a') for g in ('images', 'sounds', 'fonts')})


def given(ck, T, what, mk):
    TT, parse, rec = impls(ck, T)
    where = ck.span(rec)
    name = '%s with %s' % (T.split('::')[-1], what)
    with ck.case(name, where):
        e = ck.eng(cls='id')
        e.budget = 200000
        x = mk(Build(e))
        n = 0
        for st, r in call(e, st0(), rec, [x]):
            for s2, ok, t in e.res(st, r):
                if not ok:
                    (ck.und if 'to_string(' in render(t) or has_unknown(t) else ck.bad)(name + ' is written', 'fails with %s' % render(t)[:200], where)
                    continue
                for s3, r2 in call(e, s2, parse, [t]):
                    for s4, ok2, v in e.res(s3, r2):
                        n += 1
                        if ok2:
                            ck.judge(name, cmp(e, s4, v, x), ck.span(parse), factstr(s4))
                        else:
                            (ck.und if has_unknown(v) else ck.bad)(name, 'its own text %s is rejected: %s' % (render(t)[:200], render(v)[:200]), ck.span(parse))
        for p in e.panics:
            ck.bad(name + ' no panic', 'panics: %s' % (p,), where)
        if not n:
            ck.und(name, 'no complete path', where)
        ck.count('shapes given in full')


def worlds():
    return [c for k in range(1, 7) for c in itertools.combinations(POOLS, k)]


def c04(ck):
    for T in SIMPLE:
        roundtrip(ck, T.split('::')[-1], T, {})
    for on in worlds():
        roundtrip(ck, 'Logic with ' + '+'.join(on), 'logic::Logic', world(on), 200000)
    # nothing at all
    roundtrip(ck, 'Logic without screens', 'logic::Logic', {('e', 'x.screens'): True})
    for T, what, mk in small(ck.tier == 'thorough'):
        given(ck, T, what, mk)
