"""Whole small projects (C07, C11, C17): the shape is given, the contents are symbols, and everything is followed through
both whole-project conversions, with nothing left open."""
import itertools
from core import *
from checks_api import fld
from checks_proj import AP, PP, TRY, FROM, enumv, LIBS
from checks_block import Mk, AB, lit, vec, B, Shape
import checks_view as W
import models as m

SC, EV, ET, MB = 'api::screen::Screen', 'api::screen::Event', 'api::screen::EventType', 'api::screen::MoreBlock'
NAMES = ['main', 'second_one']
JAVA = {'main': 'MainActivity', 'second_one': 'SecondOneActivity'}
COLL = [('images', 'Image'), ('sounds', 'Sound'), ('fonts', 'Font')]


def mp(kvs):
    return ('map', tuple(('one', ('tup', kv)) for kv in kvs))


# names as a user may pick them: blanks, capitals, dashes, letters that are not ASCII
ODD = {'n%d': 'N__%d \u00e9', 'comp%d': 'Comp__%d-\u00dc _', 'mb%d': ' Mb.%d-\u00e9__x', 'cv%d': 'Cv-%d__\u00e9', 'id_': 'Id__\u00e9-', 'view%d': ' View__%d.\u00e9_', 'images%d': 'Img__%d-\u00e9', 'sounds%d': ' S.%d_', 'fonts%d': 'F\u00d6nt-%d "x" '}


class Proj:
    def __init__(s, ck, e, odd=False):
        s.ck, s.e, s.p, s.mk = ck, e, ck.p, Mk(ck, e)
        s.odd = odd
        s.nb = 0
        s.facts = {}
        s.k = 0

    def nm(s, n):
        return ODD[n] if s.odd else n

    def code(s, n):
        """a list of n blocks"""
        sh = Shape([B([('S', 'v')]) if i % 2 else B() for i in range(n)], s.mk)
        # distinct contents per list
        s.nb += 1
        ren = {k: ('c%d_%s' % (s.nb, v[0]), v[1]) for k, v in sh.info.items()}
        sh.info = ren
        for p, _ in ren.values():
            s.facts[('q', p + '.op_code')] = frozenset({'true', 'false'})
        v = sh.apis(sh.seq)
        s.facts.update({k: x for k, x in sh.facts.items() if k[0] == 'sw'})
        return v

    LEAF = ['WebView', 'TextView', 'EditText', 'MapView']
    ROOT = ['LinearLayout', 'ScrollView', 'WebView']

    def view(s, n, kind, children=()):
        """a view with a name of its own"""
        v = W.view(s.ck, s.mk, n, kind, children)
        return ('adt', v[1], v[2], tuple(lit(s.nm('id_') + n) if f == 'id' else x for f, x in zip(fields(s.p, v), v[3])))

    def views(s, ts):
        def build(l):
            out = []
            for n, ch in l:
                s.k += 1
                ks = s.ROOT if ch else s.LEAF
                out.append(s.view(n, ks[s.k % len(ks)], build(ch)))
            return out
        return vec(build(W.tree(ts)))

    def fab(s):
        VT = 'api::view::ViewType'
        v = s.view('Z', 'WebView')
        k = [f for f in s.p.adts[VT]['variants'] if f['n'] == 'Fab']
        if not k:
            raise Missing('Fab')
        fab = s.mk.var(VT, 'Fab', **{f['n']: s.e.mk('Z.' + f['n'], s.p.T(f['t'])) for f in k[0]['f']})
        return ('adt', v[1], v[2], tuple(m.Ok(fab) if f == 'view' else x for f, x in zip(fields(s.p, v), v[3])))

    def event(s, kind, i, n):
        if kind == 'V':
            t = s.mk.var(ET, 'ViewEvent', id=lit(s.nm('view%d') % i))
            nm = 'onClick'
        elif kind == 'C':
            t = s.mk.var(ET, 'ComponentEvent', id=lit(s.nm('comp%d') % i), component_type=('sym', 'ct%d' % i, ('p', 'u8')))
            nm = 'onResponse'
        elif kind == 'A':
            t, nm = s.mk.var(ET, 'ActivityEvent'), 'onPause%d' % i
        else:
            t, nm = s.mk.var(ET, 'ActivityEvent'), 'onCreate'
        return s.mk.adt(EV, 'ev%d' % i, name=lit(nm), event_type=t, code=s.code(n))

    def screen(s, name, sh):
        kw = dict(layout_name=lit(name), java_name=lit(JAVA[name]))
        kw['layout'] = s.views(sh.get('layout', ''))
        kw['fab'] = m.Some(s.fab()) if sh.get('fab') else m.NONE
        for f, T in (('variables', 'parser::logic::variable::Variable'), ('list_variables', 'parser::logic::list_variable::ListVariable')):
            kw[f] = mp([(lit(s.nm('n%d') % i), s.mk.adt(T, '%s_%s%d' % (name, f, i), name=lit(s.nm('n%d') % i))) for i in range(sh.get(f, 0))])
        kw['components'] = mp([(lit(s.nm('comp%d') % i), s.comp(k, '%s_c%d' % (name, i))) for i, k in enumerate(sh.get('components', ()))])
        kw['more_blocks'] = mp([(lit(s.nm('mb%d') % i), s.mk.adt(MB, 'm%d' % i, name=lit(s.nm('mb%d') % i), spec=s.mk.content([s.mk.text(lit('do'))]), code=s.code(k)))
                                for i, k in enumerate(sh.get('more_blocks', ()))])
        kw['events'] = vec([s.event(k, i, n) for i, (k, n) in enumerate(sh.get('events', ()))])
        return s.mk.adt(SC, 'sc_' + name, **kw)

    def comp(s, kind, path):
        CK = 'api::component::ComponentKind'
        for i, v in enumerate(s.p.adts[CK]['variants']):
            if v['n'] == kind:
                return ('adt', CK, i, tuple(s.e.mk('%s.%s' % (path, f['n']), s.p.T(f['t'])) for f in v['f']))
        raise Missing('%s::%s' % (CK, kind))

    def project(s, sh):
        e = s.e
        kw = {'screens': vec([s.screen(n, x) for n, x in zip(NAMES, sh.get('screens', ()))])}
        kw['custom_views'] = vec([s.mk.adt('api::CustomView', 'cv%d' % i, res_name=lit(sh.get('cvname', s.nm('cv%d')) % i), layout=s.views(t)) for i, t in enumerate(sh.get('custom_views', ()))])
        on = sh.get('libs', ())
        LN = 'api::Libraries'
        kw['libraries'] = s.mk.adt(LN, 'lib', **{k: (m.Some(s.mk.adt(s.optof(LN, k), 'lib.' + k)) if k in on else m.NONE) for k in LIBS})
        auto = 'res' not in sh
        cols = {}
        for (c, k), n in zip(COLL, sh.get('res', (0, 0, 0))):
            cols[c] = mp([(s.mk.adt('api::ResourceId', 'rid', **{'0': lit(s.nm(c + '%d') % i)}),
                           s.mk.var('parser::ResourceFileWrapper', 'StringId', id=s.e.mk('%s%d.file' % (c, i), A(STRING)), res_full_name=lit(s.nm(c + '%d') % i + '.x'),
                                    res_type=enumv(e, 'parser::ResourceType', k))) for i in range(n)])
        kw['resources'] = s.mk.adt('api::Resources', 'res', **cols)
        kw['automatic_res_file_ids'] = ('bool', auto)
        kw['custom_icon'] = m.Some(s.e.mk('icon', A('parser::ResourceFileWrapper'))) if sh.get('icon') else m.NONE
        return s.mk.adt(AP, 'a', **kw)

    def optof(s, n, f):
        t = [s.p.T(x['t']) for x in s.p.adts[n]['variants'][0]['f'] if x['n'] == f][0]
        return t[2][0][1]


def fields(p, v):
    return [f['n'] for f in p.adts[v[1]]['variants'][v[2]]['f']]


def judge_views(ck, e, st, got, want, key, where):
    """the same tree of views; what a view remembers of its raw form is not compared"""
    if got[0] != 'vec' or any(i[0] != 'one' for i in got[1]):
        ck.judge(key, cmp(e, st, got, want, key), where)
        return
    if len(got[1]) != len(want[1]):
        ck.bad(key, '%d views are read for %d' % (len(got[1]), len(want[1])), where)
        return
    for (_, g), (_, w) in zip(got[1], want[1]):
        g = e.expand(g) if g[0] == 'sym' else g
        for f, x, y in zip(fields(ck.p, w), g[3], w[3]):
            if f == 'children':
                judge_views(ck, e, st, x, y, key, where)
            elif f != 'raw':
                ck.judge('%s: %s' % (key, f), cmp(e, st, x, y, f), where)


def judge_project(ck, e, st, got, want, key, where, auto):
    for f, x, y in zip(fields(ck.p, want), got[3], want[3]):
        if f == 'resources' and auto:
            continue
        if f in ('screens', 'custom_views') and x[0] == 'vec' and all(i[0] == 'one' for i in x[1]):
            if len(x[1]) != len(y[1]):
                ck.bad('%s: %s' % (key, f), '%d are read for %d' % (len(x[1]), len(y[1])), where)
                continue
            for (_, g), (_, w) in zip(x[1], y[1]):
                for f2, x2, y2 in zip(fields(ck.p, w), g[3], w[3]):
                    if f2 == 'layout':
                        judge_views(ck, e, st, x2, y2, '%s: layout' % key, where)
                    elif f2 == 'fab' and x2[0] == 'adt' and x2[2] == y2[2]:
                        if y2[3]:
                            judge_views(ck, e, st, vec([x2[3][0]]), vec([y2[3][0]]), '%s: fab' % key, where)
                    else:
                        ck.judge('%s: %s' % (key, f2), cmp(e, st, x2, y2, f2), where)
        else:
            ck.judge('%s: %s' % (key, f), cmp(e, st, x, y, f), where)


def whole(ck, what, sh, odd=False):
    ft, ff = ck.fn(TRY), ck.fn(FROM)
    where = ck.span(ff)
    key = 'project of ' + what + (', with odd names' if odd else '')
    with ck.case(key, where):
        e = ck.eng()
        e.budget = 400000
        e.unroll = 12
        P = Proj(ck, e, odd)
        x = P.project(sh)
        s0 = st0()
        s0.facts.update(P.facts)
        n = 0
        for st, p in call(e, s0, ff, [x]):
            for s2, r in call(e, st, ft, [p]):
                for s3, ok, y in e.res(s2, r):
                    if not ok:
                        (ck.und if has_unknown(y) else ck.bad)(key, 'is rejected when read again: %s' % render(y)[:200], where)
                        continue
                    n += 1
                    judge_project(ck, e, s3, y, x, key + ' read back', where, 'res' not in sh)
                    for s4, p2 in call(e, s3, ff, [y]):
                        ck.judge(key + ' written again', cmp(e, s4, p2, p, 'project'), where, factstr(s4))
        for q in e.panics:
            ck.bad(key + ' no panic', 'panics: %s' % (q,), where)
        if not n:
            ck.und(key, 'no complete path', where)
        ck.count('projects given in full')


COMPS = ['Intent', 'SharedPreferences', 'Timer', 'FilePicker', 'FirebaseDatabase', 'Camera']
EVENTS = [(), (('V', 1),), (('C', 1),), (('A', 1),), (('O', 1),), (('O', 0),), (('O', 1), ('V', 1)), (('V', 0), ('C', 2)), (('A', 1), ('A', 0)), (('C', 1), ('V', 1), ('A', 1)), (('O', 2), ('A', 1), ('C', 1), ('V', 0))]
LAYOUTS = ['', 'a', 'ab', 'a(b)', 'a(bc)', 'a(b(c))', 'a(b)c(d)', 'a(b(cd)e)f']
FULL = {'layout': 'a(b)c', 'fab': 1, 'variables': 2, 'list_variables': 1, 'components': ('Intent', 'SharedPreferences'), 'more_blocks': (1, 2), 'events': (('O', 1), ('V', 1), ('C', 1), ('A', 2))}


def shapes(thorough):
    yield 'nothing', {}
    yield 'an icon', {'icon': 1, 'res': (0, 0, 0)}
    for r in range(4):
        for on in itertools.combinations(LIBS, r):
            yield 'libraries ' + ' '.join(on), {'libs': on}
    for n in itertools.product(range(4 if thorough else 3), repeat=3):
        yield '%d images, %d sounds, %d fonts' % n, {'res': n, 'icon': sum(n) % 2}
    one = [('nothing', {})]
    one += [('layout %s' % t, {'layout': t}) for t in LAYOUTS[1:]] + [('a fab', {'fab': 1}), ('a fab and a layout', {'fab': 1, 'layout': 'a(b)'})]
    one += [('%d variables, %d lists' % n, {'variables': n[0], 'list_variables': n[1]}) for n in itertools.product(range(3), repeat=2) if any(n)]
    one += [('components %s' % ' '.join(c), {'components': c}) for r in (1, 2) for c in itertools.permutations(COMPS, r)]
    one += [('moreblocks of %s blocks' % (n,), {'more_blocks': n}) for r in (1, 2, 3) for n in itertools.product(range(3 if r < 3 else 2), repeat=r)]
    one += [('events %s' % ' '.join('%s%d' % x for x in t), {'events': t}) for t in EVENTS[1:]]
    one += [('everything', FULL)]
    for nm, sh in one:
        yield 'a screen with ' + nm, {'screens': [sh]}
    for a, b in itertools.product([x for x in one if len(x[1]) != 1 or thorough][:12 if thorough else 4] + [one[1], one[-1]], repeat=2):
        yield 'screens with %s, and %s' % (a[0], b[0]), {'screens': [a[1], b[1]]}
    for a in LAYOUTS[1:]:
        yield 'a custom view %s' % a, {'custom_views': (a,)}
    for a, b in itertools.product(LAYOUTS[:5], repeat=2):
        yield 'custom views [%s] [%s]' % (a, b), {'custom_views': (a, b)}
    yield 'everything', {'screens': [FULL, FULL], 'custom_views': ('a(b)', 'c'), 'libs': tuple(LIBS), 'res': (2, 1, 1), 'icon': 1}


def c07w(ck):
    for what, sh in shapes(ck.tier == 'thorough'):
        whole(ck, what, sh)
        if any(sh.values()) and not (len(sh.get('screens', ())) > 1 and what != 'everything'):
            whole(ck, what, sh, True)


def only(*fs):
    def run(ck):
        for what, sh in shapes(ck.tier == 'thorough'):
            if any(f in sh for f in fs) or any(f in x for x in sh.get('screens', ()) for f in fs):
                whole(ck, what, sh)
                if len(sh.get('screens', ())) < 2:
                    whole(ck, what, sh, True)
    return run


c11w = only('events', 'more_blocks')
c17w = only('res')
