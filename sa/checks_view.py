"""Flattening and building view trees (C09)."""
import itertools
from core import *
import models as m
from checks_block import Mk, lit, vec, field

AV = 'api::view::View'
RV = 'parser::view::models::AndroidView'
LAY = 'parser::view::Layout'


def tree(ns):
    """'a(b c(d)) e' -> [(name, children)]"""
    pos = 0

    def seq():
        nonlocal pos
        out = []
        while pos < len(ns):
            c = ns[pos]
            if c == ')':
                break
            if c == ' ':
                pos += 1
                continue
            n = c
            pos += 1
            if n == '<':
                n = ns[pos:ns.index('>', pos)]
                pos += len(n) + 1
            ch = []
            if pos < len(ns) and ns[pos] == '(':
                pos += 1
                ch = seq()
                pos += 1
            out.append((n, ch))
        return out
    return seq()


def walk(t, parent=None):
    for n, ch in t:
        yield n, parent, [c[0] for c in ch]
        yield from walk(ch, n)


TREES = ['', 'a', 'a b', 'a b c', 'a(b)', 'a(b c)', 'a(b(c))', 'a b(c)', 'a(b) c', 'a(b) c(d)', 'a(b c) d(e f)', 'a(b(c d) e) f',
         'a(b c(d(e)))', 'a(b(c(d e) f) g) h(i)', 'a(b) c(d(e) f) g', 'a(b c d) e', 'a(b(c(d(e))))', 'a b c(d) e(f(g h) i)',
         # ids that look like the root, like each other, or like a kind of view
         '<root1>(<root2>) <Root>', '<ROOT>(x <xx>(<xxx>))', '<lin>(<linear1>(<linear>) <linear11>) <Linear1>', '1(0(<-1>))',
         # ids that differ only in white space or case, or have none of letters
         '< a>(<a>(<a >(A)) < a >)', '< root>(<root >) <ro ot>', '<a\n>(<a.b>(<a/b>) <a_b>)', '<a>(<> b)', '<\u00e9>(<e\u0301>(<e>))']
TREES += ['<"q">(<q> <\'q\'>)']
# wide and deep ones
BIG = {'forty views': ' '.join('<n%d>' % i for i in range(40)), 'forty children': 'r(%s) s' % ' '.join('<n%d>' % i for i in range(40)),
       'twenty levels': '('.join('<n%d>' % i for i in range(20)) + ')' * 19}
SIDES = ('top', 'right', 'bottom', 'left')
COMMON = ['height', 'width', 'background_color', 'layout_gravity', 'weight', 'weight_sum']
PLAIN = {'WebView': 7, 'MapView': 18, 'Err': 40}       # kinds without attributes of their own
OWN = {'LinearLayout': 0, 'ScrollView': None, 'TextView': 4, 'EditText': 5}


def get(p, v, n, *path):
    """field of a value, following nested structs"""
    for f in path:
        v = field(p, v, n, f)
        i = [x['n'] for x in p.adts[n]['variants'][0]['f']].index(f)
        T = p.T(p.adts[n]['variants'][0]['f'][i]['t'])
        n = T[1] if T[0] == 'a' else None
    return v


def kindof(i, own):
    ks = list(OWN) if own else list(PLAIN)
    return ks[i % len(ks)]


def view(ck, mk, n, kind, children=()):
    e = mk.e
    if kind == 'Err':
        kv = ('adt', RES, 1, (('sym', n + '.view@Err.0', ('a', 'api::view::ViewTypeConversionError', ())),))
    elif kind in PLAIN:
        kv = m.Ok(mk.var('api::view::ViewType', kind))
    else:
        VT = 'api::view::ViewType'
        vi = [x['n'] for x in ck.p.adts[VT]['variants']].index(kind)
        fs = []
        for f in ck.p.adts[VT]['variants'][vi]['f']:
            fs.append(e.mk('%s.%s' % (n, f['n']), ck.p.T(f['t'])))
        if kind == 'ScrollView':
            o = [j for j, f in enumerate(ck.p.adts[VT]['variants'][vi]['f']) if f['n'] == 'orientation'][0]
            fs[o] = mk.var('parser::view::models::layout::Orientation', 'Vertical' if ord(n[0]) % 2 else 'Horizontal')
        kv = m.Ok(('adt', VT, vi, tuple(fs)))
    raw = mk.adt(RV, n + '.raw')
    return mk.adt(AV, n, view=kv, children=vec(children), raw=raw)


def typeno(n, kind):
    if kind == 'Err':
        return ('sym', n + '.raw.type', ('p', 'u8'))     # whatever number the raw view holds
    if kind == 'ScrollView':
        return ('int', 12 if ord(n[0]) % 2 else 2, 'u8')
    return ('int', PLAIN.get(kind, OWN.get(kind)), 'u8')


def c09_flatten(ck):
    fl = ck.fn('api::view::flatten_views')
    where = ck.span(fl)
    p = ck.p
    for ts in TREES + list(BIG):
        for own in (False, True):
            for root in ('default', 'given'):
                key = 'flatten %s%s, %s root' % (ts or 'nothing', ', kinds with attributes' if own else '', root)
                with ck.case(key, where):
                    e = ck.eng()
                    e.unroll = 48 if ts in BIG else 8
                    mk = Mk(ck, e)
                    T = tree(BIG.get(ts, ts))
                    order = [n for n, _, _ in walk(T)]
                    kinds = {n: kindof(i + len(ts), own) for i, n in enumerate(order)}

                    def build(t):
                        return [view(ck, mk, n, kinds[n], build(ch)) for n, ch in t]
                    rid, rty = ('str', (('A', 'rootid', 'raw'),)), ('sym', 'roottype', ('p', 'u8'))
                    args = [m.NONE, m.NONE] if root == 'default' else [m.Some(rid), m.Some(rty)]
                    for st, r in call(e, st0(), fl, [vec(build(T))] + args):
                        judge_flat(ck, key, e, st, r, T, order, kinds, where, (lit('root'), ('int', 0, 'u8')) if root == 'default' else (rid, rty), own)
                    for q in e.panics:
                        ck.bad(key + ' no panic', 'panics: %s' % (q,), where)
                    ck.count('trees flattened')


def judge_flat(ck, key, e, st, r, T, order, kinds, where, root, own):
    p = ck.p
    if r[0] != 'vec' or any(x[0] != 'one' for x in r[1]):
        ck.und(key, render(r)[:200], where)
        return
    out = [x[1] for x in r[1]]
    pos = {}
    for i, v in enumerate(out):
        # a view is known by an attribute that no rule ever touches
        a = render(get(p, v, RV, 'alpha'))
        pos.setdefault(a, []).append(i)
    if len(out) != len(order):
        ck.bad(key + ' each view once', '%d views are written for %d' % (len(out), len(order)), where)
    at = {}
    for n in order:
        l = pos.get(n + '.raw.alpha', [])
        if len(l) != 1:
            (ck.und if any(has_unknown(x) for x in out) else ck.bad)(key + ' each view once', 'view %s is written %d times' % (n, len(l)), where)
        else:
            ck.ok(key + ' each view once', '', where)
            at[n] = l[0]
    for n, par, ch in walk(T):
        if n not in at:
            continue
        v = out[at[n]]
        sib = [c for c in ch if c in at]
        if any(at[c] < at[n] for c in sib):
            ck.bad(key + ' parents first', 'a child of %s is written before it' % n, where)
        if [at[c] for c in sib] != sorted(at[c] for c in sib):
            ck.bad(key + ' siblings in order', 'the children of %s are written in the order %s' % (n, sorted(sib, key=at.get)), where)
        else:
            ck.ok(key + ' order', '', where)
        wid, wty = root if par is None else (('str', (('A', par + '.id', 'raw'),)), typeno(par, kinds[par]))
        k = '%s %s ' % (key, n)
        ck.judge(k + 'parent', cmp(e, st, get(p, v, RV, 'parent'), m.Some(wid), 'parent'), where)
        ck.judge(k + 'parent type', cmp(e, st, get(p, v, RV, 'parent_type'), m.intcast(e, wty, 'i8'), 'parent_type'), where)
        ck.judge(k + 'type', cmp(e, st, get(p, v, RV, 'type'), typeno(n, kinds[n]), 'type'), where)
        ck.judge(k + 'id', cmp(e, st, get(p, v, RV, 'id'), ('str', (('A', n + '.id', 'raw'),)), 'id'), where)
        LC = layoutname(p)
        lay = get(p, v, RV, 'layout')
        if lay[0] == 'sym':
            lay = e.expand(lay)
        src = view(ck, Mk(ck, e), n, kinds[n])
        for f in COMMON:
            ck.judge(k + f, cmp(e, st, field(p, lay, LC, f), field(p, src, AV, f), f), where)
        SV = 'api::view::SidesValue'
        for f in ('padding', 'margin'):
            for s in SIDES:
                x = field(p, src, AV, f)
                x = e.expand(x) if x[0] == 'sym' else x
                ck.judge(k + f, cmp(e, st, field(p, lay, LC, '%s_%s' % (f, s)), field(p, x, SV, s), '%s %s' % (f, s)), where)
        if not own:
            raw = field(p, src, AV, 'raw')
            for f in [x['n'] for x in p.adts[RV]['variants'][0]['f']]:
                if f in ('id', 'parent', 'parent_type', 'type', 'layout'):
                    continue
                ck.judge(k + 'the rest of the raw view', cmp(e, st, field(p, v, RV, f), field(p, raw, RV, f), f), where)
            rl = e.expand(field(p, raw, RV, 'layout')) if field(p, raw, RV, 'layout')[0] == 'sym' else field(p, raw, RV, 'layout')
            for f in ('gravity', 'orientation'):
                ck.judge(k + 'the rest of the raw view', cmp(e, st, field(p, lay, LC, f), field(p, rl, LC, f), f), where)
    tops = [t[0] for t in T if t[0] in at]
    if [at[c] for c in tops] != sorted(at[c] for c in tops):
        ck.bad(key + ' siblings in order', 'top-level views are written in the order %s' % sorted(tops, key=at.get), where)


def layoutname(p):
    f = [f for f in p.adts[RV]['variants'][0]['f'] if f['n'] == 'layout'][0]
    return p.T(f['t'])[1]


# ------------------------------------------------------------------ building
def rawview(mk, n, parent, ty=7):
    return mk.adt(RV, n, id=lit(n), parent=m.Some(lit(parent)) if parent is not None else m.NONE, type=('int', ty, 'u8'))


def expected(ck, mk, n, parent, children, ty):
    e, p = mk.e, ck.p
    raw = rawview(mk, n, parent, ty)
    LC = layoutname(p)
    lay = field(p, raw, RV, 'layout')
    lay = e.expand(lay) if lay[0] == 'sym' else lay
    kw = {f: field(p, lay, LC, f) for f in COMMON}
    for f in ('padding', 'margin'):
        kw[f] = mk.adt('api::view::SidesValue', 's', **{s: field(p, lay, LC, '%s_%s' % (f, s)) for s in SIDES})
    return mk.adt(AV, n, id=lit(n), view=m.Ok(mk.var('api::view::ViewType', {7: 'WebView', 18: 'MapView'}[ty])), children=vec(children), raw=raw, **kw)


def bfs(T):
    cur, out = [(n, None, ch) for n, ch in T], []
    while cur:
        nx = []
        for n, par, ch in cur:
            out.append((n, par))
            nx += [(c, n, cc) for c, cc in ch]
        cur = nx
    return out


def c09_build(ck):
    bl = ck.fn('api::view::parse_raw_layout')
    where = ck.span(bl)
    for ts in TREES + list(BIG):
        T = tree(BIG.get(ts, ts))
        pre = [(n, par) for n, par, _ in walk(T)]
        orders = {'depth first': pre, 'by levels': bfs(T)}
        for on, order in orders.items():
            key = 'build %s, %s' % (ts or 'nothing', on)
            with ck.case(key, where):
                e = ck.eng()
                e.unroll = 48 if ts in BIG else 8
                mk = Mk(ck, e)
                ty = {n: 7 if i % 2 else 18 for i, (n, _) in enumerate(pre)}

                def exp(t, par):
                    return [expected(ck, mk, n, par, exp(ch, n), ty[n]) for n, ch in t]
                lay = ('adt', LAY, 0, (vec([rawview(mk, n, par or 'root', ty[n]) for n, par in order]),))
                for st, r in call(e, st0(), bl, [lay]):
                    for s2, ok, v in e.res(st, r):
                        if ok:
                            ck.judge(key, cmp(e, s2, v, vec(exp(T, 'root'))), where, factstr(s2))
                        else:
                            (ck.und if has_unknown(v) else ck.bad)(key, 'is rejected: %s' % render(v)[:200], where)
                for q in e.panics:
                    ck.bad(key + ' no panic', 'panics: %s' % (q,), where)
                ck.count('layouts built')
        for i in range(len(pre) if ts not in BIG else 0):
            n = pre[i][0]
            odd = [x for x in (('Root', 'root1', '', 'roo', ' root', 'root ', n, n.swapcase(), n + n) if len(pre) < 4 else ('root_1', n + '1'))
                   if x not in [q for q, _ in pre[:i]]]
            for what, par, want in [('has no parent', None, 'NoParentField'), ('has an unknown parent', 'nobody', 'NonexistentParent')] + [
                    ("has the parent '%s'" % x, x, 'NonexistentParent') for x in odd]:
                if len(pre) > 4 and i % 3:
                    continue
                key = 'build %s, where %s %s' % (ts, pre[i][0], what)
                with ck.case(key, where):
                    e = ck.eng()
                    e.unroll = 8
                    mk = Mk(ck, e)
                    lay = ('adt', LAY, 0, (vec([rawview(mk, n, (p or 'root') if j != i else par) for j, (n, p) in enumerate(pre)]),))
                    for st, r in call(e, st0(), bl, [lay]):
                        for s2, ok, v in e.res(st, r):
                            if ok:
                                (ck.und if has_unknown(v) else ck.bad)(key, 'is built as %s' % render(v)[:150], where)
                            elif v[0] == 'adt' and ck.p.adts[v[1]]['variants'][v[2]]['n'] != want:
                                ck.bad(key, 'is reported as %s' % render(v)[:150], where)
                            else:
                                ck.ok(key, render(v)[:100], where)
                    for q in e.panics:
                        ck.bad(key + ' no panic', 'panics: %s' % (q,), where)


def c09_find(ck):
    for fn in ('api::view::View::find_id', 'api::view::View::find_id_mut'):
        if fn not in ck.p.bodies:
            raise Missing(fn)
        where = ck.span(fn)
        mut = fn.endswith('_mut')
        for ts in TREES + list(BIG):
            T = tree(ts)
            if len(T) != 1:
                continue
            for n in ([x[0] for x in walk(T)] if ts not in BIG else ['n19']) + ['z']:
                key = '%s %s in %s' % (fn.split('::')[-1], n, ts)
                with ck.case(key, where):
                    e = ck.eng()
                    e.unroll = 48 if ts in BIG else 8
                    mk = Mk(ck, e)

                    def b(t):
                        return [mk.adt(AV, x, id=lit(x), children=vec(b(ch))) for x, ch in t]
                    top = b(T)[0]
                    want = None

                    def look(t):
                        nonlocal want
                        for x, ch in t:
                            if x == n:
                                want = mk.adt(AV, x, id=lit(x), children=vec(b(ch)))
                            look(ch)
                    look(T)
                    st = st0()
                    a = top
                    if mut:
                        st, a = cell(e, st, top, A(AV))
                    for s1, r in call(e, st, fn, [a, lit(n)]):
                        for s2, v in e.opt(s1, r):
                            if v is None or want is None:
                                ck.judge(key, ('y', '') if v is None and want is None else ('n', 'gives %s' % ('nothing' if v is None else render(e.deref(s2, v))[:100])), where)
                            else:
                                ck.judge(key, cmp(e, s2, e.deref(s2, v), want), where)


def c09(ck):
    c09_flatten(ck)
    c09_build(ck)
    c09_find(ck)
