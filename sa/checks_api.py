"""Codec checks between the parsed model and the API model (C08, C10, C12, C13)."""
from core import *

AV = 'parser::view::models::AndroidView'
VT = 'api::view::ViewType'
PC = 'parser::logic::component::Component'
CK = 'api::component::ComponentKind'

# Sketchware's own numbering (github.com/Iyxan23/sketchware-data, data/view-types.md and component types)
VIEW_TYPES = {0: 'LinearLayout', 2: 'ScrollView', 3: 'Button', 4: 'TextView', 5: 'EditText', 6: 'ImageView', 7: 'WebView',
              8: 'ProgressBar', 9: 'ListView', 10: 'Spinner', 11: 'CheckBox', 12: 'ScrollView', 13: 'Switch', 14: 'SeekBar',
              15: 'CalendarView', 16: 'Fab', 17: 'AdView', 18: 'MapView'}
COMPONENT_TYPES = {1: 'Intent', 2: 'SharedPreferences', 3: 'Calendar', 4: 'Vibrator', 5: 'Timer', 6: 'FirebaseDatabase',
                   7: 'Dialog', 8: 'MediaPlayer', 9: 'SoundPool', 10: 'ObjectAnimator', 11: 'Gyroscope', 12: 'FirebaseAuth',
                   13: 'InterstitialAd', 14: 'FirebaseStorage', 15: 'Camera', 16: 'FilePicker', 17: 'RequestNetwork',
                   18: 'TextToSpeech', 19: 'SpeechToText', 20: 'BluetoothConnect', 21: 'LocationManager'}


def vname(e, v):
    return e.p.variants(v[1])[v[2]]['n']


def fld(e, st, v, *names):
    for n in names:
        v = e.deref(st, v)
        if v[0] == 'sym':
            v = e.expand(v)
        vs = e.p.variants(v[1])
        fs = [f['n'] for f in vs[v[2]]['f']]
        if n not in fs:
            raise Missing('field %s of %s' % (n, v[1]))
        v = v[3][fs.index(n)]
    return v


def flatleaves(e, st, v, pre=''):
    """leaf values of a struct tree"""
    v = e.deref(st, v)
    if v[0] == 'sym' and e.is_struct(v[2]) and e.p.fields(v[2], 0):
        v = e.expand(v)
    if v[0] == 'adt' and e.p.adts.get(v[1], {}).get('kind') == 'struct' and v[3]:
        for f, x in zip(e.p.variants(v[1])[0]['f'], v[3]):
            yield from flatleaves(e, st, x, pre + '.' + f['n'])
        return
    yield pre, v


def no_panics(ck, e, key):
    for fn, sp, what, facts, log in e.panics:
        ck.bad(key + '/panic', '%s in %s (%s)' % (what, fn, sp), sp)


# ---------------------------------------------------------------------------------------------------- C08
def c08(ck):
    fv = ck.fn(VT + '::from_view')
    gt = ck.fn(VT + '::get_type_id')
    ap = ck.fn(VT + '::apply_values_to_view')
    avT = A(AV)
    # raw -> kind -> raw
    with ck.case('raw->kind->raw', ck.span(fv)):
        e = ck.eng()
        v, w = e.mk('v', avT), e.mk('w', avT)
        seen = {}
        for st, r in call(e, st0(), fv, [v]):
            ty = st.facts.get(('q', 'v.type'))
            rr = e.res(st, r)
            for st2, ok, k in rr:
                if not ok:
                    if k[0] == 'adt' and vname(e, k) == 'UnknownViewType':
                        if not isinstance(ty, frozenset):
                            ck.bad('type %s is known' % ty, 'view type %s is reported as unknown' % ty, ck.span(fv))
                        else:
                            ck.ok('other types are reported')
                        ck.judge('unknown type report carries the type', cmp(e, st2, fld(e, st2, k, 'view_type'), e.field(st2, v, fidx(e, AV, 'type'))), ck.span(fv))
                        ck.judge('unknown type report carries the id', cmp(e, st2, fld(e, st2, k, 'view_id'), fld(e, st2, v, 'id')), ck.span(fv))
                    elif k[0] == 'adt' and vname(e, k) == 'ResNameNotPresent':
                        f = st2.facts.get(('v', 'v.image.res_name'))
                        if f != 0 or ty not in (6, 16):
                            ck.bad('missing image of type %s' % ty, 'ResNameNotPresent although %s' % factstr(st2), ck.span(fv))
                        else:
                            ck.ok('missing image of type %s is reported' % ty)
                        ck.judge('missing image report carries the id', cmp(e, st2, fld(e, st2, k, 'view_id'), fld(e, st2, v, 'id')), ck.span(fv))
                        seen.setdefault(ty, set()).add('noimg')
                    else:
                        ck.und('error', render(k))
                    continue
                if isinstance(ty, frozenset) or ty is None:
                    ck.bad('unknown types', 'a view whose type is %s is read as %s' % (ty, render(k)), ck.span(fv))
                    continue
                kn = vname(e, k)
                seen.setdefault(ty, set()).add(kn)
                if VIEW_TYPES.get(ty) != kn:
                    ck.bad('type %s' % ty, 'view type %s is read as %s, not %s' % (ty, kn, VIEW_TYPES.get(ty)), ck.span(fv))
                else:
                    ck.ok('type %s is %s' % (ty, kn))
                if ty in (6, 16) and st2.facts.get(('v', 'v.image.res_name')) != 1:
                    ck.bad('type %s without image' % ty, 'a %s without image name is given %s' % (kn, render(k)), ck.span(fv))
                # write back
                for st3, n in call(e, st2, gt, [k]):
                    ck.judge('type %s written back' % ty, cmp(e, st3, n, fld(e, st3, v, 'type'), 'type'), ck.span(gt))
                s4, ref = cell(e, st2, w)
                exposed = paths_of(k)
                for st3, _ in call(e, s4, ap, [k, ref]):
                    nw = e.deref(st3, ref)
                    got = set()
                    for path, x in flatleaves(e, st3, nw):
                        if x[0] == 'adt' and x[1] == OPT and x[2] == 1:
                            x = x[3][0]
                        p = pathof(x)
                        if p and p.split('@')[0] == 'w' + path:
                            continue
                        if p and p.split('@')[0] == 'v' + path:
                            got.add(p)
                            continue
                        if kn == 'ScrollView' and path == '.layout.orientation':
                            want = {2: 'Horizontal', 12: 'Vertical'}[ty]
                            if x[0] == 'adt' and vname(e, x) == want:
                                continue
                        ck.judge('type %s attribute %s' % (ty, path), ('?' if has_unknown(x) else 'n', '%s is written to %s' % (render(x), path)), ck.span(ap))
                    lost = {p for p in exposed if p.startswith('v.') and not any(g == p or g.startswith(p + '.') for g in got)}
                    if lost:
                        ck.bad('type %s attributes kept' % ty, 'read but not written back: %s' % ', '.join(sorted(lost)), ck.span(ap))
                    else:
                        ck.ok('type %s attributes kept' % ty, '%d attributes' % len(got))
                    ck.count('attributes', len(got))
        for t, n in VIEW_TYPES.items():
            if n not in seen.get(t, ()):
                ck.bad('type %s handled' % t, 'view type %s (%s) is not read' % (t, n), ck.span(fv))
        for t in (6, 16):
            if 'noimg' not in seen.get(t, ()):
                ck.bad('type %s without image' % t, 'a missing image name is not reported for type %s' % t, ck.span(fv))
        no_panics(ck, e, 'raw->kind->raw')
    # kind -> raw -> kind
    with ck.case('kind->raw->kind', ck.span(ap)):
        e = ck.eng()
        k, w = e.mk('k', A(VT)), e.mk('w', avT)
        n = 0
        for st, i in e.variant(st0(), k):
            kn = e.p.variants(VT)[i]['n']
            for st2, num in call(e, st, gt, [k]):
                s4, ref = cell(e, st2, w)
                for st3, _ in call(e, s4, ap, [k, ref]):
                    nw = e.upd(st3, e.deref(st3, ref), (('f', fidx(e, AV, 'type')),), num)
                    if num[0] == 'int' and VIEW_TYPES.get(num[1]) != kn:
                        ck.bad('%s number' % kn, '%s is written as type %s' % (kn, num[1]), ck.span(gt))
                    for st5, r in call(e, st3, fv, [nw]):
                        n += 1
                        if kn == 'ScrollView' and st5.facts.get(('v', 'k@ScrollView.orientation')) is not None:
                            o = st5.facts[('v', 'k@ScrollView.orientation')]
                            on = e.p.variants('parser::view::models::layout::Orientation')[o]['n']
                            if on == 'Unspecified':
                                continue        # a scroll view has no unspecified orientation
                        ck.judge('%s written and read' % kn, cmp(e, st5, r, Ok(k), kn), ck.span(fv))
        ck.count('kind paths', n)
        no_panics(ck, e, 'kind->raw->kind')
    # View::from keeps the interpretation and the raw view
    with ck.case('view from raw'):
        e = ck.eng(opaque=(fv,))
        v = e.mk('v', avT)
        for st, r in models.convert(e, st0(), v, avT, A('api::view::View')):
            e.opaque = lambda n: n == fv
            ck.judge('View.raw', cmp(e, st, fld(e, st, r, 'raw'), v, 'raw'))
            (s2, want), = call(e, st, fv, [v])
            ck.judge('View.view', cmp(e, s2, fld(e, s2, r, 'view'), want, 'view'))


def fidx(e, adt, name):
    fs = [f['n'] for f in e.p.variants(adt)[0]['f']]
    if name not in fs:
        raise Missing('field %s of %s' % (name, adt))
    return fs.index(name)


def pathof(v):
    if v[0] == 'sym':
        return v[1]
    if v[0] == 'str' and len(v[1]) == 1 and v[1][0][0] == 'A':
        return v[1][0][1]
    return None


def paths_of(v, out=None):
    if out is None:
        out = set()
    p = pathof(v) if v and v[0] in ('sym', 'str') else None
    if p:
        out.add(p)
        return out
    if v[0] == 'adt':
        for x in v[3]:
            paths_of(x, out)
    if v[0] == 'tup':
        for x in v[1]:
            paths_of(x, out)
    return out


# ---------------------------------------------------------------------------------------------------- C10
def c10(ck):
    fp = ck.fn(CK + '::from_parser_component')
    ip = ck.fn(CK + '::into_parser_component')
    with ck.case('component->kind->component', ck.span(fp)):
        e = ck.eng()
        c = e.mk('c', A(PC))
        seen = set()
        for st, r in call(e, st0(), fp, [c]):
            ty = st.facts.get(('q', 'c.type'))
            for st2, ok, k in e.res(st, r):
                if not ok:
                    if not isinstance(ty, frozenset):
                        ck.bad('type %s' % ty, 'component type %s is reported as unknown' % ty, ck.span(fp))
                    ck.judge('unknown type is reported', cmp(e, st2, fld(e, st2, k, 'component_type'), fld(e, st2, c, 'type')), ck.span(fp))
                    ck.judge('id of an unknown type is reported', cmp(e, st2, fld(e, st2, k, 'component_id'), fld(e, st2, c, 'id')), ck.span(fp))
                    continue
                if ty is None or isinstance(ty, frozenset):
                    ck.bad('unknown types', 'unknown component type is read as %s' % render(k), ck.span(fp))
                    continue
                seen.add(ty)
                kn = vname(e, k)
                if COMPONENT_TYPES.get(ty) != kn:
                    ck.bad('type %s' % ty, 'component type %s is read as %s, not %s' % (ty, kn, COMPONENT_TYPES.get(ty)), ck.span(fp))
                for st3, b in call(e, st2, ip, [k, fld(e, st2, c, 'id')]):
                    ck.judge('type %s id' % ty, cmp(e, st3, fld(e, st3, b, 'id'), fld(e, st3, c, 'id'), 'id'), ck.span(ip))
                    ck.judge('type %s number' % ty, cmp(e, st3, fld(e, st3, b, 'type'), fld(e, st3, c, 'type'), 'type'), ck.span(ip))
                    if k[3]:
                        ck.judge('type %s parameter' % ty, cmp(e, st3, fld(e, st3, b, 'param1'), fld(e, st3, c, 'param1'), 'param1'), ck.span(ip))
        for t in COMPONENT_TYPES:
            if t not in seen:
                ck.bad('type %s handled' % t, 'component type %s is not read' % t, ck.span(fp))
        no_panics(ck, e, 'component')
    with ck.case('kind->component->kind', ck.span(ip)):
        e = ck.eng()
        k, i = e.mk('k', A(CK)), e.mk('id', A(STRING))
        nums = {}
        for st, vi in e.variant(st0(), k):
            kn = e.p.variants(CK)[vi]['n']
            for st2, c in call(e, st, ip, [k, i]):
                n = fld(e, st2, c, 'type')
                ck.judge('%s id' % kn, cmp(e, st2, fld(e, st2, c, 'id'), i, 'id'), ck.span(ip))
                if n[0] == 'int':
                    if n[1] in nums and nums[n[1]] != kn:
                        ck.bad('%s number' % kn, '%s and %s are both written as %s' % (kn, nums[n[1]], n[1]), ck.span(ip))
                    nums[n[1]] = kn
                for st3, r in call(e, st2, fp, [c]):
                    ck.judge('%s written and read' % kn, cmp(e, st3, r, Ok(k), kn), ck.span(fp))
        no_panics(ck, e, 'kind')
    # constructors of stored components
    with ck.case('constructors'):
        for name, n in (('new_empty', 0), ('new_1param', 1), ('new_2params', 2), ('new', 3)):
            f = ck.fn(PC + '::' + name)
            e = ck.eng()
            b = e.p.bodies[f]
            args = [e.mk(x, A(STRING)) for x in ['id', 'p1', 'p2', 'p3'][:n + 1]] + [e.mk('ty', ('p', 'u8'))]
            if b['args'] != len(args):
                continue
            for st, c in call(e, st0(), f, args):
                want = {'id': args[0], 'type': args[-1]}
                for j in range(3):
                    want['param%d' % (j + 1)] = args[j + 1] if j < n else lit('')
                for fn_, x in want.items():
                    ck.judge('%s.%s' % (name, fn_), cmp(e, st, fld(e, st, c, fn_), x, fn_), ck.span(f))


# ---------------------------------------------------------------------------------------------------- C12
BT = 'api::block::BlockType'


def tostring(e, st, v, T):
    p = e.p.find_impl('std::string::ToString', 'to_string', T)
    if p:
        return call(e, st, p, [v])
    p = e.p.find_impl('std::fmt::Display', 'fmt', T)
    if p:
        return models.m_to_string(e, st, None, {'f': 'to_string', 'sp': None}, [v], (T,))
    raise Missing('ToString for %s' % tn(T))


def c12(ck):
    fr = ck.fn(BT + '::from')
    gtn = ck.fn(BT + '::get_typename')
    T = A(BT)
    CODES = {' ', 'b', 's', 'd', 'v', 'p', 'l', 'c', 'e', 'f'}

    def written(e, st, v):
        for st2, code in tostring(e, st, v, T):
            for st3, tnm in call(e, st2, gtn, [v]):
                for st4, p in e.opt(st3, tnm):
                    yield st4, code, lit('') if p is None else p
    with ck.case('type->code->type', ck.span(fr)):
        e = ck.eng()
        k = e.mk('k', T)
        n = 0
        for st, code, tname in written(e, st0(), k):
            for st2, r in call(e, st, fr, [code, tname]):
                n += 1
                ck.judge('written and read back (%s)' % factstr(st2, ['k']), cmp(e, st2, r, Ok(k), 'type'), ck.span(fr))
        ck.count('type paths', n)
        no_panics(ck, e, 'type->code->type')
    with ck.case('code->type->code', ck.span(fr)):
        e = ck.eng()
        s_, t_ = e.mk('s', STR_T, 'raw'), e.mk('t', A(STRING), 'raw')
        seen = set()
        for st, r in call(e, st0(), fr, [s_, t_]):
            c = st.facts.get(('q', 's'))
            for st2, ok, v in e.res(st, r):
                if not ok:
                    if not isinstance(c, frozenset) and c is not None and c != 'l':
                        ck.bad('code %r' % c, 'type code %r is rejected' % c, ck.span(fr))
                    ck.judge('rejected code is reported', cmp(e, st2, fld(e, st2, v, 'block_type'), s_), ck.span(fr))
                    ck.judge('rejected name is reported', cmp(e, st2, fld(e, st2, v, 'type_name'), t_), ck.span(fr))
                    continue
                if c is None or isinstance(c, frozenset):
                    ck.bad('unknown code', 'any other code is read as %s' % render(v), ck.span(fr))
                    continue
                seen.add(c)
                for st3, code, tname in written(e, st2, v):
                    ck.judge('code %r written back' % c, cmp(e, st3, code, s_, 'code'), ck.span(fr))
                    if c in ('v', 'p', 'l'):
                        ck.judge('type name of code %r written back' % c, cmp(e, st3, tname, t_, 'type name'), ck.span(gtn))
        for c in CODES - seen:
            ck.bad('code %r' % c, 'type code %r is not read' % c, ck.span(fr))
        for c in seen - CODES:
            ck.bad('code %r' % c, 'type code %r is not a block type code' % c, ck.span(fr))
        no_panics(ck, e, 'code->type->code')
    with ck.case('list item'):
        e = ck.eng()
        for st, r in models.convert(e, st0(), e.mk('i', A('api::block::ListItem')), A('api::block::ListItem'), A('api::block::ArgumentBlockReturnType')):
            i = st.facts.get(('v', 'i'))
            if i is None or r[0] != 'adt':
                ck.und('list item type', render(r))
                continue
            a, b = e.p.variants('api::block::ListItem')[i]['n'], vname(e, r)
            ck.judge('list item %s' % a, ('y', '') if a == b else ('n', 'a list of %s yields %s' % (a, b)))


# ---------------------------------------------------------------------------------------------------- C13
def c13(ck):
    BC, CO = A('api::block::BlockCategory'), A('color::Color')
    with ck.case('category->color->category'):
        e = ck.eng()
        k = e.mk('k', BC)
        al = ck.fn('color::Color::alpha')
        n = 0
        for st, vi in e.variant(st0(), k):
            kn = e.p.variants(BC[1])[vi]['n']
            for st2, c in models.convert(e, st, k, BC, CO):
                for st3, r in models.tryconv(e, st2, c, CO, BC):
                    n += 1
                    ck.judge('%s recognised by its color' % kn, cmp(e, st3, r, Ok(k), kn))
                for st3, a in call(e, st2, al, [c]):
                    ck.judge('%s is opaque' % kn, cmp(e, st3, a, ('int', 255, 'u8'), 'alpha'))
        ck.count('categories', n)
    with ck.case('color->category->color'):
        e = ck.eng()
        e.bits = True
        r_, g_, b_ = (e.mk(x, ('p', 'u8')) for x in 'rgb')
        fa = ck.fn('color::Color::from_rgb')
        for st, c in call(e, st0(), fa, [r_, g_, b_]):
            for st2, res in models.tryconv(e, st, c, CO, BC):
                for st3, ok, v in e.res(st2, res):
                    if ok:
                        for st4, c2 in models.convert(e, st3, v, BC, CO):
                            got = chans(ck, e, st4, c2)
                            for nm, want in (('red', r_), ('green', g_), ('blue', b_)):
                                ck.judge('color of %s: %s' % (render(v), nm), cmp(e, st4, got[nm], want, nm))
                    else:
                        ks = [st3.facts.get(('q', x)) for x in 'rgb']
                        if all(x is not None and not isinstance(x, frozenset) for x in ks):
                            ck.bad('color %s' % (ks,), 'a fixed color is rejected')
                        else:
                            ck.ok('other colors are reported')
                        ck.judge('reported color', cmp(e, st3, fld(e, st3, v, 'color'), c, 'color'))
    with ck.case('block category'):
        f = ck.fn('api::block::Block::category')
        e = ck.eng()
        b = e.mk('b', A('api::block::Block'))
        p = e.p.find_impl('std::convert::TryFrom', 'try_from', BC, [CO])
        e.opaque = lambda n: n == p
        for st, r in call(e, st0(), f, [b]):
            for st2, want in models.tryconv(e, st, fld(e, st, b, 'color'), CO, BC):
                ck.judge('Block::category', cmp(e, st2, r, want, 'category'), ck.span(f))


def chans(ck, e, st, c):
    out = {}
    for n in ('red', 'green', 'blue', 'alpha'):
        (s2, v), = call(e, st, ck.fn('color::Color::' + n), [c])
        out[n] = v
    return out
