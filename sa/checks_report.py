"""C27: an error names the item that failed.

Readers are followed on texts given in full, with the reader of the items left open except that one item, known by its text,
fails; the error that comes out must name that item: its text, its place, the screen, container or section it is in."""
import itertools
import re
from core import *
import models as m
from checks_err import impl, POOLS, ITEMS
from checks_text import Build, LOGIC, L_
from checks_api import vname

lit = L_
BAD = 'Item__x  BAD_ '


def text(v):
    if v[0] == 'str' and all(s[0] == 'L' for s in v[1]):
        return ''.join(s[1] for s in v[1])
    return None


def found(p, v, out, path=()):
    """(field, value) of an error and of the errors inside it"""
    if v[0] == 'adt' and v[1] in p.adts and 'Error' in v[1] + p.adts[v[1]]['variants'][v[2]]['n'] or v[0] == 'adt' and v[1].startswith('api::') and v[1].split('::')[-1].startswith(('Unknown', 'Invalid')):
        for f, x in zip(p.adts[v[1]]['variants'][v[2]]['f'], v[3]):
            out.append((v[1].split('::')[-1], f['n'], x))
            found(p, x, out)
    return out


def show(x):
    return text(x) if text(x) is not None else render(x)


def expect(ck, key, e, st, err, exp, where):
    got = found(ck.p, err, [])
    if not got:
        ck.und(key, 'the error is %s' % render(err)[:200], where)
        return
    for f, want in exp.items():
        xs = [(a, x) for a, n, x in got if n == f or '%s.%s' % (a, n) == f]
        if not xs:
            ck.und('%s: %s' % (key, f), 'the error has no field of that name: %s' % render(err)[:200], where)
        for a, x in xs:
            if e is not None and x[0] == 'mref':
                x = e.deref(st, x)
            ck.judge('%s: %s of %s' % (key, f, a), cmp(e, st, x, want, f), where)


def u32(n):
    return ('int', n, 'u32')


def reads(ck, name, T_, txt, exp, items, variant=None, bad=BAD, long=0):
    parse = impl(ck, T_, 'parse')
    where = ck.span(parse)
    with ck.case(name, where):
        e = ck.eng(cls='id')
        e.unroll = 30
        if long:
            e.unroll = e.LIMIT = long

        def item(fn):
            R = ck.p.T(ck.p.bodies[fn]['locals'][0])

            def h(e, st, fr, t, args):
                x = args[0]
                while x[0] == 'mref':
                    x = e.deref(st, x)
                s = text(x)
                if s is None:
                    raise Undecided('an item is read from %s' % render(x)[:80])
                if s.strip() == bad.strip():
                    return [(st, ('adt', m.RES, 1, (e.mk('E', R[2][1]),)))]
                return [(st, m.Ok(e.mk('I<%s>' % s, R[2][0])))]
            return h
        for i in items:
            f = impl(ck, i, 'parse')
            e.hooks[f] = item(f)
        n = 0
        for st, r in call(e, st0(), parse, [lit(txt)]):
            for s2, ok, v in e.res(st, r):
                n += 1
                if ok:
                    (ck.und if has_unknown(v) else ck.bad)(name, 'the fault is not reported', where)
                    continue
                if variant and vname(e, v) != variant:
                    (ck.und if has_unknown(v) else ck.bad)(name, 'is reported as %s' % vname(e, v), where)
                if not exp:
                    ck.ok(name, 'reported')
                expect(ck, name, e, s2, v, exp, where)
        if not n:
            ck.und(name, 'no complete path', where)
        ck.count('texts')


def c27_read(ck):
    its = ['item %d' % i for i in range(4)]
    for pool, item in POOLS:
        nm = pool.split('::')[-1]
        for k in range(4):
            ls = its[:k] + [BAD] + its[k + 1:]
            exp = {'block_count': u32(k)} if nm == 'BlockContainer' else {'count': u32(k), 'content': lit(BAD)}
            reads(ck, '%s, item %d' % (nm, k), pool, '\n'.join(ls), exp, [item])
        # far down a long list
        ls = [its[i % 4] for i in range(300)] + [BAD, its[0]]
        exp = {'block_count': u32(300)} if nm == 'BlockContainer' else {'count': u32(300), 'content': lit(BAD)}
        reads(ck, '%s, item 300' % nm, pool, '\n'.join(ls), exp, [item], long=320)
    reads(ck, 'Layout, view 300', 'view::Layout', '\n'.join(['item %d' % (i % 4) for i in range(300)] + [BAD]), {'line': u32(300), 'content': lit(BAD)}, ['view::models::AndroidView'], long=320)
    for k in range(4):
        ls = its[:k] + [BAD] + its[k + 1:]
        before = m.NONE if not k else None
        reads(ck, 'Layout, view %d' % k, 'view::Layout', '\n'.join(ls), {'line': u32(k), 'content': lit(BAD)}, ['view::models::AndroidView'])
    # logic: the bad item in each section of each of two screens
    secs = [('var', 0), ('list', 1), ('components', 2), ('events', 3), ('func', 4), ('onCreate_initializeLogic', 5), ('B 1-\u00e9_onClick', 5)]
    for sc, bad in itertools.product(('MainActivity', 'B\u00dc-x yActivity'), range(len(secs))):
        out = []
        for i, (s, _) in enumerate(secs):
            for c in ('MainActivity', 'B\u00dc-x yActivity'):
                out.append('@%s.java_%s\nitem 0\n%s\nitem 2' % (c, s, BAD if (c, i) == (sc, bad) else 'item 1'))
        exp = {'screen_name': lit(sc)}
        exp.update({'block_count': u32(1), 'container_name': lit(secs[bad][0])} if bad > 4 else {'count': u32(1), 'content': lit(BAD)})
        reads(ck, 'Logic, %s of %s' % (secs[bad][0], sc), 'logic::Logic', '\n\n'.join(out), exp, ITEMS)
    # view: layouts and fabs
    parts = [('main', 'xml'), ('Two-\u00e9 x', 'xml'), ('main', 'xml_fab'), ('Two-\u00e9 x', 'xml_fab')]
    for bad in range(4):
        out = ''
        for i, (n, k) in enumerate(parts):
            if k == 'xml':
                out += '@%s.xml\nitem 0\n%s\n\n' % (n, BAD if i == bad else 'item 1')
            else:
                out += '@%s.xml_fab\n%s\n' % (n, BAD if i == bad else 'item 1')
        exp = {'screen_name': lit(parts[bad][0]), 'content': lit(BAD)}
        if parts[bad][1] == 'xml':
            exp.update({'container_name': lit('xml'), 'LayoutParseError.line': u32(1)})
        else:
            exp['line'] = u32(out.split('\n').index(BAD) + 1)
        reads(ck, 'View, %s.%s' % parts[bad], 'view::View', out, exp, ['view::models::AndroidView'])
    for pre in ('', '@main.xml\nitem 0\n\n'):
        reads(ck, 'View, header%s' % (' later' if pre else ''), 'view::View', pre + '@Nothing  \u00dc\n', {'content': lit('@Nothing  \u00dc'), 'line': u32(pre.count('\n') + 1)}, ['view::models::AndroidView'], 'InvalidHeader')
        reads(ck, 'View, fab at the end%s' % (' later' if pre else ''), 'view::View', pre + '@Two-\u00e9 x.xml_fab', {'screen_name': lit('Two-\u00e9 x')}, ['view::models::AndroidView'], 'EOFAfterFabHeader')
    # file, resource: the line is that of the text
    for T_, heads, item in (('file::File', ['@activity', '@customview'], 'file::FileItem'), ('resource::Resource', ['@images', '@sounds', '@fonts'], 'resource::ResourceItem')):
        secn = {'@images': 'Images', '@sounds': 'Sounds', '@fonts': 'Fonts'}
        for bad, k in itertools.product(range(len(heads)), range(2)):
            ls = []
            for i, h in enumerate(heads):
                ls += [h] + [BAD if (i, j) == (bad, k) else ' It  em__%d-\u00e9 ' % j for j in range(2)]
            exp = {'line': u32(ls.index(BAD))}
            if T_ == 'file::File':
                exp['content'] = lit(BAD)
            else:
                from checks_proj import enumv
                exp['section'] = None
            nm = '%s, item %d of %s' % (T_.split('::')[-1], k, heads[bad])
            if 'section' in exp:
                secT = [n for n in ck.p.adts if n.endswith('resource::ResourceSection')]
                if not secT:
                    raise Missing('ResourceSection')
                i = [v['n'] for v in ck.p.adts[secT[0]]['variants']].index(secn[heads[bad]])
                exp['section'] = ('adt', secT[0], i, ())
            reads(ck, nm, T_, '\n'.join(ls), exp, [item])
    # library
    H = ['@firebaseDB', '@compat', '@admob', '@googleMap']
    for bad in H:
        reads(ck, 'Library, item of %s' % bad, 'library::Library', '\n'.join('%s\n%s' % (h, BAD if h == bad else 'item') for h in H), {'header': lit(bad)}, ['library::LibraryItem'], 'LibraryItemParseError')
        reads(ck, 'Library, no item of %s' % bad, 'library::Library', '\n'.join('%s\nitem' % h for h in H if h != bad), {'header': lit(bad)}, ['library::LibraryItem'], 'MissingItem')
        reads(ck, 'Library, end after %s' % bad, 'library::Library', '\n'.join(['%s\nitem' % h for h in H if h != bad] + [bad]), {'header': lit(bad)}, ['library::LibraryItem'], 'EOFAfterHeader')
    # single items
    for x in ('', 'abc', '1', ' A b__ %S.x \u00e9_ '):
        reads(ck, 'Variable %r' % x, 'logic::variable::Variable', x, {'content': lit(x)}, [], 'MalformedVariable')
        reads(ck, 'MoreBlock %r' % x, 'logic::more_block::MoreBlock', x, {'content': lit(x)}, [], 'MalformedMoreBlock')
    for x in ('a:b', '-1:b', '256:c', ':', 'A \u00e9:b', '0x1:b', '-1 x:b'):
        reads(ck, 'Variable %r' % x, 'logic::variable::Variable', x, {'content': lit(x.split(':')[0])}, [], 'MalformedVariableType')
    for x in (4, 9, 255):
        reads(ck, 'Variable of type %d' % x, 'logic::variable::Variable', '%d:b' % x, {'value': ('int', x, 'u8')}, [])
        reads(ck, 'ListVariable of type %d' % x, 'logic::list_variable::ListVariable', '%d:b' % x, {'value': ('int', x, 'u8')}, [])


def writes(ck, name, T_, mk, bad, exp, items):
    """mk(Build) -> value; bad: path of the item that cannot be written; exp(value of that item) -> fields"""
    rec = impl(ck, T_, 'reconstruct')
    where = ck.span(rec)
    with ck.case(name, where):
        e = ck.eng(cls='id')
        e.unroll = 30
        hit = []

        def item(fn, ty):
            R = ck.p.T(ck.p.bodies[fn]['locals'][0])

            def h(e, st, fr, t, args):
                x = args[0]
                while x[0] == 'mref':
                    x = e.deref(st, x)
                if x == e.mk(bad, A('parser::' + ty)):
                    hit.append(x)
                    return [(st, ('adt', m.RES, 1, (e.mk('E', R[2][1]),)))]
                if x[0] != 'sym':
                    raise Undecided('an item is written from %s' % render(x)[:80])
                return [(st, m.Ok(lit('written ' + x[1])))]
            return h
        for i in items:
            f = impl(ck, i, 'reconstruct')
            e.hooks[f] = item(f, i)
        x = mk(Build(e))
        n = 0
        for st, r in call(e, st0(), rec, [x]):
            for s2, ok, v in e.res(st, r):
                n += 1
                if ok:
                    (ck.und if not hit or has_unknown(v) else ck.bad)(name, 'the fault is not reported', where)
                    continue
                expect(ck, name, e, s2, v, exp(hit[0] if hit else None, x), where)
        if not n:
            ck.und(name, 'no complete path', where)
        ck.count('values')


def c27_write(ck):
    FI, RI, LI, AV = 'file::FileItem', 'resource::ResourceItem', 'library::LibraryItem', 'view::models::AndroidView'
    BL, CO = 'logic::Block', 'logic::component::Component'
    for f, k in itertools.product(('activities', 'custom_views'), range(3)):
        writes(ck, 'written File, item %d of %s' % (k, f), 'file::File', lambda B: B.item('file::File', 'x', activities=B.list(FI, 3, 'activities'), custom_views=B.list(FI, 3, 'custom_views')),
               '%s%d' % (f, k), lambda b, x: {'item': b}, [FI])
    secT = [n for n in ck.p.adts if n.endswith('resource::ResourceSection')]
    for (i, f), k in itertools.product(enumerate(('images', 'sounds', 'fonts')), range(2)):
        sv = [('adt', secT[0], j, ()) for j, v in enumerate(ck.p.adts[secT[0]]['variants']) if v['n'] == f.capitalize()][0] if secT else None
        writes(ck, 'written Resource, item %d of %s' % (k, f), 'resource::Resource', lambda B: B.item('resource::Resource', 'x', **{g: B.list(RI, 2, g) for g in ('images', 'sounds', 'fonts')}),
               '%s%d' % (f, k), lambda b, x, sv=sv: {'item': b, 'section': sv}, [RI])
    for f, h in (('firebase_db', '@firebaseDB'), ('compat', '@compat'), ('admob', '@admob'), ('google_map', '@googleMap')):
        writes(ck, 'written Library, %s' % f, 'library::Library', lambda B: B.item('library::Library', 'x'), 'x.' + f, lambda b, x, h=h: {'header': lit(h)}, [LI])
    for k in range(3):
        writes(ck, 'written Layout, view %d' % k, 'view::Layout', lambda B: B.pool('view::Layout', AV, 3, 'v'), 'v%d' % k, lambda b, x, k=k: {'view': b, 'line': u32(k)}, [AV])
        writes(ck, 'written blocks, block %d' % k, 'logic::BlockContainer', lambda B: B.pool('logic::BlockContainer', BL, 3, 'b'), 'b%d' % k, lambda b, x, k=k: {'block': b, 'block_count': u32(k)}, [BL])
        writes(ck, 'written components, component %d' % k, 'logic::component::ComponentPool', lambda B: B.pool('logic::component::ComponentPool', CO, 3, 'c'), 'c%d' % k,
               lambda b, x, k=k: {'component': b, 'count': u32(k)}, [CO])

    def view(B):
        return B.item('view::View', 'x', layouts=B.map([(n, B.pool('view::Layout', AV, 2, n)) for n in ('main', 'two')]), fabs=B.map([(n, B.sym(AV, 'fab' + n)) for n in ('main', 'two')]))
    for n in ('main', 'two'):
        for k in range(2):
            writes(ck, 'written View, view %d of %s' % (k, n), 'view::View', view, '%s%d' % (n, k), lambda b, x, n=n, k=k: {'screen_name': lit(n), 'LayoutReconstructionError.view': b, 'line': u32(k)}, [AV])
        writes(ck, 'written View, fab of %s' % n, 'view::View', view, 'fab' + n, lambda b, x, n=n: {'screen_name': lit(n), 'view': b}, [AV])

    def logic(B):
        def screen(n):
            return (n, B.item('logic::ScreenLogic', n, name=lit(n), variables=m.NONE, list_variables=m.NONE, events=m.NONE, more_blocks=m.NONE,
                              components=m.Some(B.pool('logic::component::ComponentPool', CO, 2, n + '_c')),
                              block_containers=B.map([(c, B.pool('logic::BlockContainer', BL, 2, n + c)) for c in ('onCreate_initializeLogic', 'b1_onClick')])))
        return B.item('logic::Logic', 'x', screens=B.map([screen(n) for n in ('MainActivity', 'BActivity')]))
    for n in ('MainActivity', 'BActivity'):
        for k in range(2):
            writes(ck, 'written Logic, component %d of %s' % (k, n), 'logic::Logic', logic, '%s_c%d' % (n, k), lambda b, x, n=n, k=k: {'screen_name': lit(n), 'count': u32(k), 'component': b}, [CO, BL])
            for c in ('onCreate_initializeLogic', 'b1_onClick'):
                writes(ck, 'written Logic, block %d of %s of %s' % (k, c, n), 'logic::Logic', logic, '%s%s%d' % (n, c, k),
                       lambda b, x, n=n, k=k, c=c: {'screen_name': lit(n), 'container_name': lit(c), 'block_count': u32(k), 'block': b}, [CO, BL])


# ------------------------------------------------------------------ conversions

def put(p, v, path, new):
    """v with the value at path (fields, list positions, map keys) replaced; new may be a function of the old value, or None to leave out"""
    if not path:
        return new(v) if callable(new) else new
    k, rest = path[0], path[1:]
    if v[0] == 'adt':
        if v[1] == 'std::option::Option' or v[1].endswith('option::Option'):
            return ('adt', v[1], v[2], (put(p, v[3][0], path, new),))
        fs = [f['n'] for f in p.adts[v[1]]['variants'][v[2]]['f']]
        if k not in fs:
            raise Missing('%s.%s' % (v[1], k))
        i = fs.index(k)
        return ('adt', v[1], v[2], v[3][:i] + (put(p, v[3][i], rest, new),) + v[3][i + 1:])
    if v[0] == 'vec':
        its = list(v[1])
        if isinstance(k, tuple):        # the item whose field has that text
            k = [i for i, it in enumerate(its) if text(dict(zip([f['n'] for f in p.adts[it[1][1]]['variants'][0]['f']], it[1][3]))[k[0]]) == k[1]][0]
        its[k] = ('one', put(p, its[k][1], rest, new))
        return ('vec', tuple(its))
    if v[0] == 'map':
        out = []
        for it in v[1]:
            kk, vv = it[1][1]
            if text(kk) == k or kk[0] == 'adt' and text(kk[3][0]) == k:
                if not rest and new is None:
                    continue
                out.append(('one', ('tup', (kk, put(p, vv, rest, new)))))
            else:
                out.append(it)
        return ('map', tuple(out))
    raise Undecided('cannot replace %s in %s' % (k, render(v)[:80]))


def converts(ck, name, sh, edits, exp, variant=None):
    import checks_whole as WH
    ft, ff = ck.fn(WH.TRY), ck.fn(WH.FROM)
    where = ck.span(ft)
    with ck.case(name, where):
        e = ck.eng()
        e.budget = 400000
        e.unroll = 12
        P = WH.Proj(ck, e, sh.get('odd', False))
        x = P.project(sh)
        s0 = st0()
        s0.facts.update(P.facts)
        n = 0
        for st, p in call(e, s0, ff, [x]):
            for path, new in edits:
                p = put(ck.p, p, path, new)
            for s2, r in call(e, st, ft, [p]):
                for s3, ok, y in e.res(s2, r):
                    n += 1
                    if ok:
                        (ck.und if has_unknown(y) else ck.bad)(name, 'the fault is not reported', where)
                        continue
                    if variant and vname(e, y) != variant:
                        (ck.und if has_unknown(y) else ck.bad)(name, 'is reported as %s' % vname(e, y), where)
                        continue
                    if not exp:
                        ck.ok(name, render(y)[:100], where)
                    expect(ck, name, e, s3, y, exp, where)
        if not n:
            ck.und(name, 'no complete path', where)
        ck.count('projects with a fault')


def c27_convert(ck):
    import checks_whole as WH
    from checks_proj import enumv
    SC = {'layout': 'a(b)c', 'components': ('Intent', 'Timer'), 'more_blocks': (1, 2), 'events': (('O', 1), ('V', 2), ('C', 1), ('A', 1))}
    two = {'screens': [SC, SC], 'custom_views': ('ab', 'c(d)'), 'res': (2, 2, 2), 'libs': ('firebase', 'ad_mob', 'google_map')}
    u8 = lambda n: ('int', n, 'u8')
    for sc, odd in itertools.product(WH.NAMES, (False, True)):
        j = WH.JAVA[sc]
        two['odd'] = odd
        N = lambda x, odd=odd: WH.ODD[x] if odd else x
        U = lambda x, odd=odd: x.upper() + ' \u00e9__ ' if odd else x
        of = sc + (' (odd names)' if odd else '')
        L = ('logic', 'screens', j)
        names = {'layout_screen_name': lit(sc), 'java_screen_name': lit(j)}
        for i, nm in enumerate(('onClick', 'onResponse', 'onPause3')):
            converts(ck, 'event %d of %s of an unknown kind' % (i, of), two, [(L + ('events', '0', i, 'event_type'), u8(7))],
                     dict(names, event_name=lit(nm), event_type=u8(7)), 'ScreenConstructionError')
        for i in range(2):
            converts(ck, 'component %d of %s of an unknown kind' % (i, of), two, [(L + ('components', '0', i, 'type'), u8(200))],
                     dict(names, component_id=lit(N('comp%d') % i), component_type=u8(200)), 'ScreenConstructionError')
            converts(ck, 'moreblock %d of %s with a bad spec' % (i, of), two, [(L + ('more_blocks', '0', N('mb%d') % i, 'spec'), lit('do %q.x'))],
                     dict(names, moreblock_id=lit(N('mb%d') % i), name=lit('q'), full=lit('%q.x')), 'ScreenConstructionError')
        for c in ('onCreate_initializeLogic', N('view%d') % 1 + '_onClick', N('comp%d') % 2 + '_onResponse', 'onPause3_onPause3', N('mb%d') % 0 + '_moreBlock', N('mb%d') % 1 + '_moreBlock'):
            converts(ck, 'first block of %s of %s with a bad id' % (c, of), two, [(L + ('block_containers', c, '0', 0, 'id'), lit(U('x1')))],
                     dict(names, container_name=lit(c), id=lit(U('x1'))), 'ScreenConstructionError')
            converts(ck, 'first block of %s of %s with a bad type' % (c, of), two, [(L + ('block_containers', c, '0', 0, 'type'), lit(U('?')))],
                     dict(names, container_name=lit(c), block_type=lit(U('?'))), 'ScreenConstructionError')
            converts(ck, 'first block of %s of %s without a successor' % (c, of), two, [(L + ('block_containers', c, '0', 0, 'next_block'), ('int', 77, 'i32'))],
                     dict(names, container_name=lit(c), **{'BlockConversionError.id': ('int', 77, 'u32')}), 'ScreenConstructionError')
        W = L + ('block_containers', N('view%d') % 1 + '_onClick', '0', 1)
        inner = dict(names, container_name=lit(N('view%d') % 1 + '_onClick'))
        for spec, arg, exp in (('w %s', U('@zz'), {'value': lit(U('@zz'))}), ('w %d', U('abc'), {'value': lit(U('abc'))}), ('w %b', U('maybe'), {'value': lit(U('maybe'))}), ('w %s', '@99', {'block_id': ('int', 99, 'u32')}),
                               ('w %m.x', U('@'), {'value': lit(U('@'))}), ('w %y.z', '1', {'name': lit('y'), 'full': lit('%y.z')}), ('w %m', '1', {'name': lit('m'), 'full': lit('%m')}),
                               ('w %d', U('@zz'), {'value': lit(U('@zz'))}), ('w %b', '@99', {'block_id': ('int', 99, 'u32')}), ('w %d', '@99', {'block_id': ('int', 99, 'u32')}), ('w %m.x', '@99', {'block_id': ('int', 99, 'u32')})):
            converts(ck, 'block of %s with spec %r and argument %r' % (of, spec, arg), two, [(W + ('spec',), lit(spec)), (W + ('parameters',), ('vec', (('one', lit(arg)),)))], dict(inner, **exp), 'ScreenConstructionError')
        for i in (1, 2):
            converts(ck, 'block of %s with a missing substack %d' % (of, i), two, [(W + ('sub_stack%d' % i,), ('int', 55, 'i32')), (W + ('id',), lit('11'))],
                     dict(inner, **{'sub_stack%d_pointer' % i: ('int', 55, 'u32')}), 'ScreenConstructionError')
        for i, v in enumerate('abc'):
            converts(ck, 'view %s of %s without parent' % (v, of), two, [(('view', 'layouts', sc, '0', ('id', N('id_') + v), 'parent'), m.NONE)], dict(names, view_id=lit(N('id_') + v)), 'ScreenConstructionError')
            converts(ck, 'view %s of %s with a missing parent' % (v, of), two, [(('view', 'layouts', sc, '0', ('id', N('id_') + v), 'parent'), m.Some(lit(U('nobody'))))],
                     dict(names, view_id=lit(N('id_') + v), parent_id=lit(U('nobody'))), 'ScreenConstructionError')
    two['odd'] = False
    odd = dict(two, cvname=' Cv__  %d_ ')
    for i, v in ((0, 'ab'), (1, 'cd')):
        cv = ' Cv__  %d_ ' % i
        converts(ck, '%r without layout' % cv, odd, [(('view', 'layouts', cv), None)], {'custom_view_id': lit(cv)}, 'MissingCustomViewLayout')
        converts(ck, 'view %s of %r without parent' % (v[0], cv), odd, [(('view', 'layouts', cv, '0', ('id', 'id_' + v[0]), 'parent'), m.NONE)],
                 {'custom_view_id': lit(cv), 'view_id': lit('id_' + v[0])}, 'CustomViewParseLayoutError')
    for cv, vs in (('cv0', 'ab'), ('cv1', 'cd')):
        converts(ck, '%s without layout' % cv, two, [(('view', 'layouts', cv), None)], {'custom_view_id': lit(cv)}, 'MissingCustomViewLayout')
        for i, v in enumerate(vs):
            converts(ck, 'view %s of %s without parent' % (v, cv), two, [(('view', 'layouts', cv, '0', ('id', 'id_' + v), 'parent'), m.NONE)], {'custom_view_id': lit(cv), 'view_id': lit('id_' + v)}, 'CustomViewParseLayoutError')
    for f, n in (('firebase_db', 'firebase'), ('admob', 'admob'), ('google_map', 'google map')):
        for y in ('', 'y', 'X'):
            converts(ck, 'switch of %s %r' % (f, y), two, [(('library', f, 'use_yn'), lit(y))], {'library_name': lit(n), 'value': lit(y)}, 'InvalidUseYNValue')
    for (c, k), i in itertools.product(WH.COLL, range(2)):
        converts(ck, 'file of %s %d missing' % (c, i), two, [(('resource_files', c, '%s%d.x' % (c, i)), None)],
                 {'res_name': lit('%s%d' % (c, i)), 'res_full_name': lit('%s%d.x' % (c, i)), 'res_type': None if False else enumv(ck.eng(), 'parser::ResourceType', k)}, 'MissingResourceFile')


ODD = ('// item', '# item', '/* item */', '-', '{', '{}', '[]', 'null', 'true', '""', '0', ';', 'item')


def odd_lines(ck):
    """a line which is no item is reported, whatever it looks like, and not passed over"""
    for odd in ODD:
        for pool, item in POOLS:
            if pool.endswith('BlockContainer') and odd.startswith(' '):
                continue
            for k in range(2):
                ls = ['good 0', 'good 1']
                ls.insert(k, odd)
                reads(ck, '%s with the line %r at %d is rejected' % (pool.split('::')[-1], odd, k), pool, '\n'.join(ls), {}, [item], None, odd)
        for T_, heads, item in (('file::File', ('@activity', '@customview'), 'file::FileItem'), ('resource::Resource', ('@images', '@sounds', '@fonts'), 'resource::ResourceItem')):
            for bad, k in itertools.product(heads, range(3)):
                ls = []
                for h in heads:
                    g = ['good 0', 'good 1']
                    if h == bad:
                        g.insert(k, odd)
                    ls += [h] + g
                reads(ck, '%s with the line %r at %d of %s is rejected' % (T_.split('::')[-1], odd, k, bad), T_, '\n'.join(ls), {}, [item], None, odd)
        for k in range(3):
            ls = ['good 0', 'good 1']
            ls.insert(k, odd)
            reads(ck, 'Layout with the line %r at %d is rejected' % (odd, k), 'view::Layout', '\n'.join(ls), {}, ['view::models::AndroidView'], None, odd)
            reads(ck, 'View with the line %r at %d is rejected' % (odd, k), 'view::View', '@main.xml\n%s\n\n' % '\n'.join(ls), {}, ['view::models::AndroidView'], None, odd)
        reads(ck, 'View with the fab %r is rejected' % odd, 'view::View', '@main.xml_fab\n%s\n' % odd, {}, ['view::models::AndroidView'], None, odd)
        for i, (sec, _) in enumerate((('var', 0), ('list', 1), ('components', 2), ('events', 3), ('func', 4), ('onCreate_initializeLogic', 5), ('b1_onClick', 5))):
            reads(ck, 'Logic with the line %r in %s is rejected' % (odd, sec), 'logic::Logic', '@A.java_%s\ngood 0\n%s\n\n@B.java_var\ngood 1\n' % (sec, odd), {}, ITEMS, None, odd)


def decoys(ck):
    """what is missing is reported as missing, also when something of another kind has its name"""
    import checks_whole as WH
    two = {'screens': [{'layout': 'a'}], 'custom_views': ('ab', 'c(d)'), 'res': (2, 2, 2)}
    AV = 'parser::view::models::AndroidView'

    def more(k, v):
        return lambda mp: ('map', mp[1] + (('one', ('tup', (lit(k), v))),))
    for cv in ('cv0', 'cv1'):
        gone = (('view', 'layouts', cv), None)
        for what, ed in (('', []), (' but a fab', [(('view', 'fabs'), more(cv, ('sym', 'decoy', A(AV))))]), (' but code', [(('logic', 'screens'), more(cv, ('sym', 'decoy', A('parser::logic::ScreenLogic'))))]),
                         (' but a layout of that name in capitals', [(('view', 'layouts'), more(cv.upper(), ('sym', 'decoy', A('parser::view::Layout'))))]),
                         (' but an activity', [(('file', 'activities', 0, 'filename'), lit(cv)), (('view', 'layouts'), lambda mp, cv=cv: ('map', tuple(i for i in mp[1] if text(i[1][1][0]) != cv)))])):
            converts(ck, '%s without layout%s is rejected' % (cv, what), two, [gone] + ed, {}, 'MissingCustomViewLayout')
    RF = 'parser::ResourceFileWrapper'
    for (c, k), i in itertools.product(WH.COLL, range(2)):
        full = '%s%d.x' % (c, i)
        gone = (('resource_files', c, full), None)
        for c2, _ in WH.COLL:
            if c2 != c:
                converts(ck, '%s without file but one of %s is rejected' % (full, c2), two, [gone, (('resource_files', c2), more(full, ('sym', 'decoy', A(RF))))], {}, 'MissingResourceFile')
        for nm in ('%s%d' % (c, i), full.upper(), full + '.bak'):
            converts(ck, '%s without file but one called %s is rejected' % (full, nm), two, [gone, (('resource_files', c), more(nm, ('sym', 'decoy', A(RF))))], {}, 'MissingResourceFile')


def c27_blocks(ck):
    """faults in block lists whose ids are in any order"""
    import checks_block as CB
    from checks_events import BTRY
    fn = ck.fn(BTRY)
    where = ck.span(fn)
    PB = 'parser::logic::Block'
    for perm in itertools.permutations((10, 11, 12, 13)):
        for fault in ('next', 'type', 'stack1', 'stack2', 'id'):
            for k in range(4):
                name = 'blocks %s, %s of block %d' % (' '.join(map(str, perm)), fault, k)
                with ck.case(name, where):
                    e = ck.eng()
                    e.unroll = 12
                    mk = CB.Mk(ck, e)
                    i32 = lambda n: ('int', n, 'i32')
                    ids = [str(x) for x in perm]
                    nxt = [perm[3], -1, -1, -1]
                    s1, s2 = [perm[1], -1, -1, -1], [perm[2], -1, -1, -1]
                    ty = ['e', ' ', ' ', ' ']
                    if fault == 'next':
                        nxt[k] = 99
                    elif fault == 'type':
                        ty[k] = '?'
                    elif fault == 'stack1':
                        s1[k] = 98
                    elif fault == 'stack2':
                        s2[k] = 97
                    else:
                        ids[k] = 'x%d' % k
                    bl = [mk.adt(PB, 'b%d' % j, id=lit(ids[j]), next_block=i32(nxt[j]), sub_stack1=i32(s1[j]), sub_stack2=i32(s2[j]), type=lit(ty[j]), type_name=lit(''), spec=lit('w'),
                                 parameters=('vec', ()), color=('sym', 'c%d' % j, A('color::Color')), op_code=lit('op')) for j in range(4)]
                    chain = []
                    if fault != 'id':
                        if k in (1, 2):
                            chain.append(('Substack%dParseError' % k, {'id': u32(perm[0]), 'sub_stack%d_pointer' % k: u32(perm[k])}))
                        if fault.startswith('stack'):
                            n, p = fault[-1], (98 if fault == 'stack1' else 97)
                            chain.append(('Substack%sParseError' % n, {'id': u32(perm[k]), 'sub_stack%s_pointer' % n: u32(p)}))
                            chain.append(('BlockNotFound', {'id': u32(p)}))
                        elif fault == 'next':
                            chain.append(('BlockNotFound', {'id': u32(99)}))
                        else:
                            chain.append(('InvalidType', {}))
                    else:
                        chain.append(('MalformedBlockId', {'id': lit(ids[k])}))
                    for st, r in call(e, st0(), fn, [('adt', 'parser::logic::BlockContainer', 0, (('vec', tuple(('one', b) for b in bl)),))]):
                        for s2_, ok, v in e.res(st, r):
                            if ok:
                                (ck.und if has_unknown(v) else ck.bad)(name, 'the fault is not reported', where)
                                continue
                            for want, fs in chain:
                                while v[0] == 'mref' or v[0] == 'adt' and v[1].split('::')[-1] == 'Box':
                                    v = e.deref(s2_, v) if v[0] == 'mref' else v[3][0]
                                if v[0] != 'adt':
                                    ck.und(name, 'the error is %s' % render(v)[:100], where)
                                    break
                                var = ck.p.adts[v[1]]['variants'][v[2]]
                                if var['n'] != want:
                                    # which of two faults is met first is not claimed, but there is only one
                                    ck.bad(name, 'is reported as %s instead of %s' % (var['n'], want), where)
                                    break
                                d = dict(zip([f['n'] for f in var['f']], v[3]))
                                for f, x in fs.items():
                                    if f in d:
                                        ck.judge('%s: %s of %s' % (name, f, want), cmp(e, s2_, d[f], x, f), where)
                                v = d.get('source', ('sym', '?', None))
                    for q in e.panics:
                        ck.bad(name + ' no panic', 'panics: %s' % (q,), where)


# what the message of an error shows
SHOWN = {
    'APISketchwareProjectConversionError': {'ScreenConstructionError': 'layout_screen_name', 'MissingCustomViewLayout': 'custom_view_id', 'CustomViewParseLayoutError': 'custom_view_id', 'InvalidUseYNValue': 'library_name value', 'MissingResourceFile': 'res_name'},
    'ResourceAdditionError': {'IdTaken': 'id', 'FileDoesntExist': 'path'},
    'BlockContentParseError': {'BlockNotFound': 'block_id', 'InvalidBlockId': 'value', 'UnknownSpecParam': 'name', 'InvalidNumberArgument': 'value', 'InvalidBooleanArgument': 'value'},
    'BlockConversionError': {'MalformedBlockId': 'id source', 'BlockNotFound': 'id', 'Substack1ParseError': 'id', 'Substack2ParseError': 'id', 'InvalidType': 'source', 'BlockContentParseError': 'source'},
    'InvalidBlockType': {'InvalidBlockType': 'block_type type_name'},
    'UnknownColor': {'UnknownColor': 'color'},
    'UnknownComponentType': {'UnknownComponentType': 'component_type component_id'},
    'ScreenConstructionError': {'MoreBlockSpecParseError': 'moreblock_id', 'BlocksParseError': 'container_name', 'UnknownEventType': '0', 'UnknownComponentType': '0', 'LayoutParseError': '0'},
    'UnknownEventType': {'UnknownEventType': 'event_type event_name'},
    'ParseLayoutError': {'NoParentField': 'view_id', 'NonexistentParent': 'view_id parent_id'},
    'ViewTypeConversionError': {'UnknownViewType': 'view_type view_id', 'ResNameNotPresent': 'view_id'},
    'ResourceFilesParseError': {'FileDoesntExist': 'path', 'InvalidPath': 'path'},
    'FileParseError': {'FileItemParseError': 'line content'},
    'FileReconstructionError': {'FileItemReconstructionError': 'item'},
    'LibraryParseError': {'EOFAfterHeader': 'header', 'LibraryItemParseError': 'header line', 'MissingItem': 'header'},
    'LibraryReconstructionError': {'LibraryItemReconstructionError': 'header'},
    'BlockContainerReconstructionError': {'BlockContainerReconstructionError': 'block'},
    'LogicParseError': {'VariablePoolParseError': 'screen_name line', 'ListVariablePoolParseError': 'screen_name line', 'ComponentPoolParseError': 'screen_name line', 'EventPoolParseError': 'screen_name line', 'MoreBlockPoolParseError': 'screen_name line', 'BlockContainerHeaderParseError': 'line', 'BlockContainerParseError': 'screen_name container_name line'},
    'LogicReconstructionError': {'ComponentPoolReconstructionError': 'screen_name', 'BlockContainerReconstructionError': 'container_name screen_name'},
    'ComponentPoolParseError': {'ComponentPoolParseError': 'count'},
    'ComponentPoolReconstructionError': {'ComponentPoolReconstructionError': 'count'},
    'EventPoolParseError': {'EventPoolParseError': 'count content'},
    'ListVariableParseError': {'InvalidVariableType': '0'},
    'ListVariablePoolParseError': {'ListVariablePoolParseError': 'count'},
    'MoreBlockParseError': {'MalformedMoreBlock': 'content'},
    'MoreBlockPoolParseError': {'MoreBlockPoolParseError': 'count'},
    'InvalidVariableTypeError': {'InvalidVariableTypeError': 'value'},
    'VariableParseError': {'MalformedVariableType': 'content', 'InvalidVariableType': '0'},
    'VariablePoolParseError': {'VariablePoolParseError': 'count'},
    'ResourceParseError': {'ResourceItemParseError': 'section line'},
    'ResourceReconstructionError': {'ResourceItemReconstructionError': 'item section'},
    'LayoutParseError': {'LayoutParseError': 'line'},
    'LayoutReconstructionError': {'LayoutReconstructionError': 'line'},
    'ViewParseError': {'InvalidHeader': 'line', 'LayoutParseError': 'screen_name container_name', 'FabParseError': 'screen_name', 'EOFAfterFabHeader': 'screen_name line'},
    'ViewReconstructionError': {'LayoutReconstructionError': 'screen_name', 'FabReconstructionError': 'screen_name'},
}
CAUSE0 = {'CryptoError', 'SketchwareProjectParseError', 'SketchwareProjectReconstructionError', 'ScreenConstructionError', 'ListVariableParseError', 'VariableParseError'}


def mentions(x, pre, out):
    if isinstance(x, str):
        # also inside terms such as hex10(x:0;x.color.value)
        for w in re.split(r'[^\w.@*\[\]{}$+]+', x):
            if w.startswith(pre):
                out.add(w[len(pre):].split('.')[0].split('@')[0].split('[')[0])
    elif isinstance(x, (tuple, list)):
        for y in x:
            mentions(y, pre, out)
    return out


def part_word(T, v):
    """the part that is at fault, as its message has to name it, and the names it may not use"""
    if T in ('SketchwareProjectParseError', 'SketchwareProjectReconstructionError') and not v.startswith('ResourceFiles'):
        words = ['project', 'file', 'library', 'resource', 'view', 'logic']
        for w in words:
            if v.lower().startswith(w):
                return w, [o for o in words if o != w and o != 'file']
    if T == 'BlockConversionError' and v in ('Substack1ParseError', 'Substack2ParseError'):
        return v[:9].lower(), ['substack%d' % (3 - int(v[8]))]
    return None, ()


def c27_message(ck):
    """the message of an error shows the fields that name the item, and its source is the error it was made from"""
    p = ck.p
    for T in sorted(n for n in p.adts if p.adts[n].get('local')):
        short = T.split('::')[-1]
        disp, src = '<%s as std::fmt::Display>::fmt' % T, '<%s as std::error::Error>::source' % T
        for vi, v in enumerate(p.adts[T]['variants']):
            names = [f['n'] for f in v['f']]
            want = [f for f in SHOWN.get(short, {}).get(v['n'], '').split() if f in names]
            if want and disp in p.bodies:
                ck.fn(disp)
                key = 'message of %s::%s' % (short, v['n'])
                with ck.case(key, ck.span(disp)):
                    e = ck.eng()
                    F = p.T(p.bodies[disp]['locals'][2])
                    st, r = cell(e, st0(), ('adt', T, vi, tuple(e.mk('x.' + f['n'], p.T(f['t'])) for f in v['f'])), A(T))
                    st, fm = cell(e, st, ('str', ()), F[2] if F[0] == 'r' else None)
                    for s2, o in call(e, st, disp, [r, fm]):
                        got = e.deref(s2, fm)
                        seen = mentions(got, 'x.', set())
                        for f in want:
                            if f in seen:
                                ck.ok('%s: %s' % (key, f))
                            elif has_unknown(got):
                                ck.und('%s: %s' % (key, f), 'the message is %s' % render(got)[:200], ck.span(disp))
                            else:
                                ck.bad('%s: %s' % (key, f), 'the message is %s, which does not show %s' % (render(got)[:200], f), ck.span(disp))
            word, other = part_word(short, v['n'])
            if word and disp in p.bodies:
                ck.fn(disp)
                key = 'message of %s::%s' % (short, v['n'])
                with ck.case(key, ck.span(disp)):
                    e = ck.eng()
                    F = p.T(p.bodies[disp]['locals'][2])
                    st, r = cell(e, st0(), ('adt', T, vi, tuple(e.mk('x.' + f['n'], p.T(f['t'])) for f in v['f'])), A(T))
                    st, fm = cell(e, st, ('str', ()), F[2] if F[0] == 'r' else None)
                    for s2, o in call(e, st, disp, [r, fm]):
                        got = e.deref(s2, fm)
                        txt = ' '.join(q[1] for q in got[1] if q[0] == 'L') if got[0] == 'str' else ''
                        found = set(re.findall('[a-z]+[12]?', txt.lower()))
                        if word in found and not found & set(other):
                            ck.ok(key + ' names the part')
                        elif has_unknown(got):
                            ck.und(key + ' names the part', render(got)[:200], ck.span(disp))
                        else:
                            ck.bad(key + ' names the part', 'the message is %s, it is about the %s' % (render(got)[:200], word), ck.span(disp))
            cause = 'source' if 'source' in names else '0' if names == ['0'] and short in CAUSE0 else None
            if cause and disp in p.bodies:
                key = 'source of %s::%s' % (short, v['n'])
                if src not in p.bodies:
                    ck.bad(key, 'the error has no source(): the cause cannot be reached', ck.span(disp))
                    continue
                ck.fn(src)
                with ck.case(key, ck.span(src)):
                    e = ck.eng()
                    st, r = cell(e, st0(), ('adt', T, vi, tuple(e.mk('x.' + f['n'], p.T(f['t'])) for f in v['f'])), A(T))
                    for s2, o in call(e, st, src, [r]):
                        if o[0] == 'adt' and o[2] == 0 and not o[3]:
                            ck.bad(key, 'source() is None: the cause is lost', ck.span(src))
                        elif cause in mentions(o, 'x.', set()):
                            ck.ok(key)
                        else:
                            ck.und(key, 'source() is %s' % render(o)[:200], ck.span(src))


def c27(ck):
    c27_read(ck)
    c27_write(ck)
    c27_convert(ck)
    c27_blocks(ck)
    c27_message(ck)
