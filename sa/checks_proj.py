"""Whole-project conversion checks (C07, C11, C16, C17)."""
from core import *
from checks_api import vname, fld, fidx, no_panics, flatleaves

AP, PP = 'api::SketchwareProject', 'parser::SketchwareProject'
RFW, RT = 'parser::ResourceFileWrapper', 'parser::ResourceType'
TRY = '<api::SketchwareProject as std::convert::TryFrom<parser::SketchwareProject>>::try_from'
FROM = '<parser::SketchwareProject as std::convert::From<api::SketchwareProject>>::from'
VIEWFROM = '<api::view::View as std::convert::From<parser::view::models::AndroidView>>::from'
BTRY = '<api::block::Blocks as std::convert::TryFrom<parser::logic::BlockContainer>>::try_from'
BINTO = '<api::block::Blocks as std::convert::Into<parser::logic::BlockContainer>>::into'
BFROM = '<parser::logic::BlockContainer as std::convert::From<api::block::Blocks>>::from'
OP_TRY = ('api::screen::Screen::from_parsed', 'api::view::parse_raw_layout', 'api::view_name_to_logic', VIEWFROM)
OP_FROM = ('api::view::flatten_views', 'api::block::Blocks::to_block_container', '<api::block::BlockContent as std::string::ToString>::to_string',
           '<api::block::BlockContent as std::fmt::Display>::fmt', BINTO, BFROM)


def each_over(v, P):
    """the alternatives of the one `each` over P in a list or map built from nothing else"""
    its = v[1] if v[0] in ('vec', 'map') else None
    if its is None and v[0] == 'sym' and v[1] == P:
        return None
    if its is None or len(its) != 1:
        raise Undecided('%s is not one pass over %s' % (render(v), P))
    return each_item(its[0], P)


def each_item(it, P):
    if it[0] != 'each' or it[1] != P or it[2]:
        raise Undecided('not one pass over %s' % P)
    return it[3]


def judge_list(ck, e, st, v, P, key, where, want, items=None):
    """every element of P contributes exactly one item; want(state) -> [(name, got(item), expected)]"""
    try:
        alts = items if items is not None else each_over(v, P)
    except Undecided as u:
        its = v[1] if v[0] in ('vec', 'map') else None
        if its is not None and all(i[0] == 'one' for i in its) and not has_unknown(v):
            ck.bad(key, 'the result does not depend on %s: %s' % (P, render(v)), where)
            return
        if its is not None and len(its) == 1 and its[0][0] == 'each' and its[0][1] == P and its[0][2] in ('rev', 'sort') and not has_unknown(v):
            ck.bad(key, 'not in the order of %s (%s)' % (P, its[0][2]), where)
            return
        if its is not None and len(its) == 1 and its[0][0] == 'each' and its[0][1] != P and not has_unknown(v):
            ck.bad(key, 'taken from %s instead of %s' % (its[0][1], P), where)
            return
        ck.und(key, str(u), where)
        return
    for g, body in alts:
        s2 = e.guards_state(st, g)
        if s2 is None:
            continue
        gs = ', '.join('%s=%s' % (k[1:] if len(k) > 2 else k[1], x) for k, x in g)[:200]
        if len(body) != 1 or body[0][0] != 'one':
            if any(b[0] not in ('one',) for b in body):
                ck.und(key, 'element contributes %s' % (body,), where)
            else:
                ck.bad(key, 'an element of %s contributes %d items when %s' % (P, len(body), gs), where)
            continue
        for nm, got, exp in want(s2, body[0][1]):
            ck.judge('%s: %s' % (key, nm), cmp(e, s2, got, exp, nm), where, gs)


def proj(e, st, v, path):
    for p in path.split('.'):
        v = fld(e, st, v, p)
    return v


META = {'local_id': 'id', 'name': 'app_name', 'workspace_name': 'workspace_name', 'package_name': 'package_name', 'time_created': 'date_created',
        'sketchware_version': 'sketchware_version', 'version_name': 'version_name', 'version_code': 'version_code'}
COLORS = ['color_primary', 'color_primary_dark', 'color_accent', 'color_control_normal', 'color_control_highlight']
LIBS = {'firebase': ('firebase_db', {'project_id': 'data', 'app_id': 'reserved1', 'api_key': 'reserved2', 'storage_bucket': 'reserved3'}),
        'ad_mob': ('admob', {'ad_units': 'ad_units', 'test_devices': 'test_devices'}),
        'google_map': ('google_map', {'api_key': 'data'})}
FLAGS = ['toolbar_enabled', 'fullscreen_enabled', 'drawer_enabled', 'fab_enabled']
ITEM = ['keyboard_setting', 'orientation', 'theme']


def known(st, path):
    f = st.facts.get(('q', path))
    return None if f is None or isinstance(f, frozenset) else f


def is_opq(v, fn):
    """argument terms if v is the (Ok of the) opaque result of fn"""
    return None


def c07(ck):
    ft, ff = ck.fn(TRY), ck.fn(FROM)
    fp = ck.fn('api::screen::Screen::from_parsed')
    # ---- parsed -> API
    with ck.case('read', ck.span(ft)):
        e = ck.eng(opaque=OP_TRY)
        e.distinct = True
        p = e.mk('p', A(PP))
        w = ck.span(ft)
        libs_ok, libs_err = {}, set()
        for st, r in call(e, st0(), ft, [p]):
            for s2, ok, x in e.res(st, r):
                if not ok:
                    vn = vname(e, x) if x[0] == 'adt' else None
                    if vn == 'InvalidUseYNValue':
                        nm = fld(e, s2, x, 'library_name')
                        val = fld(e, s2, x, 'value')
                        which = [k for k, (f, _) in LIBS.items() if ('q', 'p.library.%s.use_yn' % f) in s2.facts
                                 and isinstance(s2.facts[('q', 'p.library.%s.use_yn' % f)], frozenset)]
                        if not which:
                            ck.bad('switches', 'a valid library switch is rejected: %s' % factstr(s2, ['use_yn']), w)
                        for k in which:
                            libs_err.add(k)
                            ex = s2.facts[('q', 'p.library.%s.use_yn' % LIBS[k][0])]
                            if ex != frozenset('YN'):
                                ck.bad('%s switch' % k, 'rejected although only known to differ from %s' % sorted(ex), w)
                            ck.judge('%s switch report' % k, cmp(e, s2, val, proj(e, s2, p, 'library.%s.use_yn' % LIBS[k][0]), 'value'), w)
                    continue
                for a_, b_ in META.items():
                    ck.judge('metadata %s' % a_, cmp(e, s2, proj(e, s2, x, 'metadata.' + a_), proj(e, s2, p, 'project.' + b_), a_), w)
                for c in COLORS:
                    ck.judge(c, cmp(e, s2, proj(e, s2, x, 'colors.' + c), proj(e, s2, p, 'project.color_palette.' + c), c), w)
                for k, (f, fs) in LIBS.items():
                    q = s2.facts.get(('q', 'p.library.%s.use_yn' % f))
                    lv = proj(e, s2, x, 'libraries.' + k)
                    if lv[0] != 'adt':
                        ck.und('%s' % k, render(lv), w)
                        continue
                    if q not in ('Y', 'N'):
                        ck.bad('%s switch' % k, 'a %s switch %s is read as %s' % (k, 'other than Y and N' if q else 'of any value', 'on' if lv[2] else 'off'), w)
                        continue
                    libs_ok.setdefault(k, set()).add(q)
                    if (q == 'Y') != (lv[2] == 1):
                        ck.bad('%s switch' % k, '%s is %s when its switch is %s' % (k, 'on' if lv[2] else 'off', q), w)
                        continue
                    ck.ok('%s switch %s' % (k, q))
                    if q == 'Y':
                        for a_, b_ in fs.items():
                            ck.judge('%s %s' % (k, a_), cmp(e, s2, fld(e, s2, lv[3][0], a_), proj(e, s2, p, 'library.%s.%s' % (f, b_)), a_), w)
                q = s2.facts.get(('q', 'p.library.compat.use_yn'))
                ce = proj(e, s2, x, 'libraries.app_compat_enabled')
                for s3, b in e.truth(s2, ce):
                    q = s3.facts.get(('q', 'p.library.compat.use_yn'))
                    good = (q == 'Y') if b else (isinstance(q, frozenset) and 'Y' in q) or (q is not None and not isinstance(q, frozenset) and q != 'Y')
                    if good:
                        ck.ok('appcompat switch')
                    else:
                        ck.bad('appcompat switch', 'app compat is %s when its switch is %s' % (b, q), w)
                # screens and custom views
                acts = each_over(fld(e, s2, x, 'screens'), 'p.file.activities')
                item = e.mk('p.file.activities[*]', A('parser::file::FileItem'))
                fn_ = 'p.file.activities[*].filename'
                for g, body in acts:
                    s3 = e.guards_state(s2, g)
                    if s3 is None:
                        continue
                    if len(body) != 1 or body[0][0] != 'one':
                        ck.bad('screens', 'an activity gives %d screens' % len(body), w)
                        continue
                    v = body[0][1]
                    pth = v[1] if v[0] == 'sym' else ''
                    app = e.apps.get(pth[:-len('@Ok.0')]) if pth.endswith('@Ok.0') else None
                    if not app or app[0] != fp:
                        ck.und('screens', render(v), w)
                        continue
                    ln, jn, fi, ve, le, fab = app[1]
                    ck.judge('screen layout name', cmp(e, s3, ln, fld(e, s3, item, 'filename')), w)
                    ck.judge('screen file entry', cmp(e, s3, fi, item), w)
                    vn_ = render(e.mk('x', A('std::string::String')))
                    for nm, mp, val in (('layout', 'p.view.layouts', ve), ('fab', 'p.view.fabs', fab)):
                        has = s3.facts.get(('has', mp, fn_))
                        if has is None:
                            if not has_unknown(val):
                                ck.bad('screen %s' % nm, '%s: not looked up under the layout name: %s' % (nm, render(val)), w)
                            continue
                        if nm == 'layout':
                            want = e.mk('%s{%s}' % (mp, fn_), A('parser::view::Layout')) if has else ('adt', 'parser::view::Layout', 0, (('vec', ()),))
                        else:
                            (s4, fv), = call(e, s3, VIEWFROM, [e.mk('%s{%s}' % (mp, fn_), A('parser::view::models::AndroidView'))]) if VIEWFROM in e.p.bodies else ((s3, None),)
                            want = Some(fv) if has else NONE
                        ck.judge('screen %s' % nm, cmp(e, s3, val, want, nm), w)
                    hk = [(k, v_) for k, v_ in s3.facts.items() if k[0] == 'has' and k[1] == 'p.logic.screens']
                    if len(hk) == 1:
                        (k, has), = hk
                        if has:
                            ck.judge('screen code', cmp(e, s3, le, e.mk('p.logic.screens{%s}' % k[2], A('parser::logic::ScreenLogic')), 'logic'), w)
                            ck.judge('screen java name', cmp(e, s3, jn, fld(e, s3, le, 'name'), 'java name'), w)
                        else:
                            r_ = render(jn)
                            ck.judge('screen without code', ('y', '') if r_ == k[2] else ('?' if has_unknown(jn) else 'n', 'a screen without code is named %s, its code is looked up under %s' % (r_, k[2])), w)
                judge_list(ck, e, s2, fld(e, s2, x, 'custom_views'), 'p.file.custom_views', 'custom views', w, lambda s3, it: [
                    ('res_name', fld(e, s3, it, 'res_name'), e.mk('p.file.custom_views[*].filename', A(STRING))),
                    ('layout', fld(e, s3, it, 'layout'), call(e, s3, 'api::view::parse_raw_layout', [e.mk('p.view.layouts{p.file.custom_views[*].filename}', A('parser::view::Layout'))])
                     and okof(e, call(e, s3, 'api::view::parse_raw_layout', [e.mk('p.view.layouts{p.file.custom_views[*].filename}', A('parser::view::Layout'))])[0][1]))])
        for k in LIBS:
            if libs_ok.get(k) != {'Y', 'N'}:
                ck.bad('%s switch' % k, 'switch values accepted: %s' % sorted(libs_ok.get(k, ())), w)
            if k not in libs_err:
                ck.bad('%s switch' % k, 'a switch that is neither Y nor N is not rejected', w)
    # ---- screen settings
    with ck.case('screen settings', ck.span(fp)):
        e = ck.eng(opaque=('api::view::parse_raw_layout', BTRY, 'api::block::BlockContent::parse_wo_params'))
        e.distinct = True
        b = e.p.bodies[fp]
        names = ['ln', 'jn', 'f', 'v', 'l', 'fab']
        args = [e.mk(n, e.p.T(b['locals'][i + 1])) for i, n in enumerate(names)]
        w = ck.span(fp)
        n = 0
        for st, r in call(e, st0(), fp, args):
            for s2, ok, x in e.res(st, r):
                if not ok:
                    continue
                n += 1
                for i, nm in ((0, 'layout_name'), (1, 'java_name'), (5, 'fab')):
                    ck.judge('screen ' + nm, cmp(e, s2, fld(e, s2, x, nm), args[i], nm), w)
                for nm in ITEM:
                    ck.judge('screen ' + nm, cmp(e, s2, fld(e, s2, x, nm), fld(e, s2, args[2], nm), nm), w)
                for nm in FLAGS:
                    ck.judge('screen ' + nm, cmp(e, s2, fld(e, s2, x, nm), fld(e, s2, args[2], 'options', nm), nm), w)
                for s3, lo in call(e, s2, 'api::view::parse_raw_layout', [args[3]]):
                    ck.judge('screen layout', cmp(e, s3, fld(e, s3, x, 'layout'), okof(e, lo), 'layout'), w)
                for nm in ('variables', 'list_variables'):
                    for s3, o in e.opt(s2, fld(e, s2, args[4], nm)):
                        want = fld(e, s3, o, '0') if o is not None else ('map', ())
                        ck.judge('screen ' + nm, cmp(e, s3, fld(e, s3, x, nm), want, nm), w)
                for s3, o in e.opt(s2, fld(e, s2, args[4], 'components')):
                    got = fld(e, s3, x, 'components')
                    if o is None:
                        ck.judge('screen components', cmp(e, s3, got, ('map', ()), 'components'), w)
                        continue
                    P = 'l.components@Some.0.0'
                    c = e.mk(P + '[*]', A('parser::logic::component::Component'))

                    def want(s4, it, c=c):
                        out = [('id', it[1][0], fld(e, s4, c, 'id'))]
                        for s5, r5 in call(e, s4, 'api::component::ComponentKind::from_parser_component', [c]):
                            for s6, ok6, k6 in e.res(s5, r5):
                                if ok6:
                                    out.append(('kind', it[1][1], k6))
                        return out
                    judge_list(ck, e, s3, got, P, 'screen components', w, want)
        ck.count('screen paths', n)
    # ---- API -> parsed
    with ck.case('write', ck.span(ff)):
        e = ck.eng(opaque=OP_FROM)
        e.distinct = True
        a = e.mk('a', A(AP))
        w = ck.span(ff)
        for st, x in call(e, st0(), ff, [a]):
            for a_, b_ in META.items():
                ck.judge('project %s' % b_, cmp(e, st, proj(e, st, x, 'project.' + b_), proj(e, st, a, 'metadata.' + a_), b_), w)
            for c in COLORS:
                ck.judge('written ' + c, cmp(e, st, proj(e, st, x, 'project.color_palette.' + c), proj(e, st, a, 'colors.' + c), c), w)
            for s2, ic in e.opt(st, fld(e, st, a, 'custom_icon')):
                for s3, b in e.truth(s2, proj(e, s2, x, 'project.custom_icon')):
                    ck.judge('custom icon switch', ('y', '') if b == (ic is not None) else ('n', 'custom icon switch is %s although the icon is %s' % (b, 'set' if ic is not None else 'not set')), w)
            for k, (f, fs) in LIBS.items():
                for s2, lv in e.opt(st, proj(e, st, a, 'libraries.' + k)):
                    it = proj(e, s2, x, 'library.' + f)
                    ck.judge('%s switch written' % k, cmp(e, s2, fld(e, s2, it, 'use_yn'), lit('N' if lv is None else 'Y'), 'use_yn'), w)
                    if lv is not None:
                        for a_, b_ in fs.items():
                            ck.judge('%s %s written' % (k, a_), cmp(e, s2, fld(e, s2, it, b_), fld(e, s2, lv, a_), b_), w)
            for s2, b in e.truth(st, proj(e, st, a, 'libraries.app_compat_enabled')):
                ck.judge('appcompat switch written', cmp(e, s2, proj(e, s2, x, 'library.compat.use_yn'), lit('Y' if b else 'N'), 'use_yn'), w)

            def act(s2, it):
                sc = e.mk('a.screens[*]', A('api::screen::Screen'))
                yield 'filename', fld(e, s2, it, 'filename'), fld(e, s2, sc, 'layout_name')
                yield 'file_type', fld(e, s2, it, 'file_type'), enumv(e, 'parser::file::FileType', 'Activity')
                for n in ITEM:
                    yield n, fld(e, s2, it, n), fld(e, s2, sc, n)
                for n in FLAGS:
                    yield n, fld(e, s2, it, 'options', n), fld(e, s2, sc, n)
            judge_list(ck, e, st, proj(e, st, x, 'file.activities'), 'a.screens', 'activities', w, act)
            judge_list(ck, e, st, proj(e, st, x, 'file.custom_views'), 'a.custom_views', 'custom view files', w, lambda s2, it: [
                ('filename', fld(e, s2, it, 'filename'), e.mk('a.custom_views[*].res_name', A(STRING))),
                ('file_type', fld(e, s2, it, 'file_type'), enumv(e, 'parser::file::FileType', 'CustomView')),
                ('keyboard_setting', fld(e, s2, it, 'keyboard_setting'), enumv(e, 'parser::file::KeyboardSetting', 'Unspecified')),
                ('orientation', fld(e, s2, it, 'orientation'), enumv(e, 'parser::file::Orientation', 'Both')),
                ('theme', fld(e, s2, it, 'theme'), enumv(e, 'parser::file::Theme', 'None'))]
                + [(n, fld(e, s2, it, 'options', n), ('bool', False)) for n in FLAGS])
            # layouts of screens and custom views
            lay = proj(e, st, x, 'view.layouts')
            its = lay[1] if lay[0] == 'map' else ()
            for P, nf, af in (('a.screens', 'layout_name', A('api::screen::Screen')), ('a.custom_views', 'res_name', A('api::CustomView'))):
                mine = [i for i in its if i[0] == 'each' and i[1] == P and not i[2]]
                if len(mine) != 1:
                    ck.judge('layouts of ' + P, ('?' if has_unknown(lay) else 'n', 'layouts of %s are written %d times' % (P, len(mine))), w)
                    continue

                def lw(s2, it, P=P, nf=nf, af=af):
                    sc = e.mk(P + '[*]', af)
                    yield 'name', it[1][0], fld(e, s2, sc, nf)
                    for s3, fl in call(e, s2, 'api::view::flatten_views', [fld(e, s2, sc, 'layout'), NONE, NONE]):
                        yield 'views', fld(e, s2, it[1][1], '0'), fl
                judge_list(ck, e, st, lay, P, 'layouts of ' + P, w, lw, items=mine[0][3])
            # code and variables
            lg = proj(e, st, x, 'logic.screens')

            def lw(s2, it):
                sc = e.mk('a.screens[*]', A('api::screen::Screen'))
                yield 'key', it[1][0], fld(e, s2, sc, 'java_name')
                sl = it[1][1]
                yield 'name', fld(e, s2, sl, 'name'), fld(e, s2, sc, 'java_name')
                for n in ('variables', 'list_variables'):
                    v = fld(e, s2, sl, n)
                    yield n, fld(e, s2, v[3][0], '0') if v[0] == 'adt' and v[3] else v, fld(e, s2, sc, n)
            judge_list(ck, e, st, lg, 'a.screens', 'logic', w, lw)
            for g, body in each_over(lg, 'a.screens') or ():
                s2 = e.guards_state(st, g)
                if s2 is None or len(body) != 1:
                    continue
                c = fld(e, s2, body[0][1][1][1], 'components')
                cv = fld(e, s2, c[3][0], '0') if c[0] == 'adt' and c[3] else c
                P = 'a.screens[*].components'

                def cw(s3, it):
                    for s4, r4 in call(e, s3, 'api::component::ComponentKind::into_parser_component',
                                       [e.mk(P + '[*].val', A('api::component::ComponentKind')), e.mk(P + '[*].key', A(STRING))]):
                        yield 'component', it, r4
                judge_list(ck, e, s2, cv, P, 'components', w, cw)
            # fab
            fabs = proj(e, st, x, 'view.fabs')
            for g, body in each_over(fabs, 'a.screens') or ():
                s2 = e.guards_state(st, g)
                if s2 is None:
                    continue
                sc = e.mk('a.screens[*]', A('api::screen::Screen'))
                for s3, fab in e.opt(s2, fld(e, s2, sc, 'fab')):
                    if fab is None:
                        ck.judge('no fab', ('y', '') if not body else ('n', 'a fab is written for a screen without fab'), w)
                        continue
                    if len(body) != 1:
                        ck.bad('fab', 'the fab of a screen is not written (%s)' % factstr(s3, ['fab']), w)
                        continue
                    k, v = body[0][1][1]
                    ck.judge('fab name', cmp(e, s3, k, fld(e, s3, sc, 'layout_name')), w)
                    (s4, fl), = call(e, s3, 'api::view::flatten_views', [('vec', (('one', fab),)), NONE, NONE])
                    base = fl[1]
                    for path, y in flatleaves(e, s4, v):
                        if path == '.parent':
                            ck.judge('fab parent', cmp(e, s4, y, NONE, 'parent'), w)
                        elif path == '.parent_type':
                            ck.judge('fab parent type', cmp(e, s4, y, ('int', -1, 'i8'), 'parent_type'), w)
                        else:
                            py = y[1] if y[0] == 'sym' else (y[1][0][1] if y[0] == 'str' and len(y[1]) == 1 and y[1][0][0] == 'A' else None)
                            good = py in (base + '[+0]' + path, base + '[0]' + path)
                            ck.judge('fab' + path, ('y', '') if good else ('?' if py is None or has_unknown(y) else 'n', 'fab attribute %s is %s' % (path, render(y))), w)


def okof(e, v):
    """payload of an opaque Result"""
    return e.field(None, ('dc', v, 0), 0) if v[0] != 'adt' else v[3][0]


def enumv(e, adt, name):
    for i, v in enumerate(e.p.variants(adt)):
        if v['n'] == name:
            return ('adt', adt, i, ())
    raise Missing('%s::%s' % (adt, name))
