"""Stored forms: the JSON records and enumerations (C05) and the scalars kept in another form than in memory (C06)."""
from core import *
from checks_api import fld, no_panics
from jcodec import Codec, strip, isstr
import models
from models import INTS

U8 = ('p', 'u8')
P = 'parser::'
V = 'parser::view::models::'


def kind(T):
    T = strip(T)
    if isstr(T):
        return 'str'
    if T[0] == 'p':
        return 'int' if T[1] in INTS else 'float' if T[1] in ('f32', 'f64') else T[1]
    if T[0] == 'a' and T[1] == OPT:
        return kind(T[2][0]) + '?'
    if T[0] == 'a' and T[1] == 'std::vec::Vec':
        return 'list of ' + kind(T[2][0])
    if T[0] == 'a':
        return 'rec'
    return '?' + T[0]


def wire(c, st, n, depth=0):
    """how a node looks in the text"""
    if n is None:
        return {'error'}
    if n[0] == 'val':
        return {kind(n[1])}
    if n[0] == 'obj':
        return {'rec'}
    if depth > 3:
        raise Undecided('wire form')
    out = set()
    if n[0] == 'via':
        ser = c.codec_of(n[1])[0]
    else:
        ser = n[1]
    old, c.inside = c.inside, ser
    try:
        for s2, m in c.serialize(st, ser, n[2]):
            out |= wire(c, s2, m, depth + 1) if m is not None else set()
    finally:
        c.inside = old
    return out


# key -> (field, kind of JSON value, 0 if it is left out when there is no value)
RECORDS = {
    'parser::project::Project': {
        'sc_id': ('id', 'str'),
        'my_app_name': ('app_name', 'str'),
        'my_ws_name': ('workspace_name', 'str'),
        'my_sc_pkg_name': ('package_name', 'str'),
        'sc_ver_code': ('version_code', 'str'),
        'sc_ver_name': ('version_name', 'str'),
        'my_sc_reg_dt': ('date_created', 'str'),
        'custom_icon': ('custom_icon', 'bool'),
        'color_primary': ('color_palette.color_primary', 'int'),
        'color_primary_dark': ('color_palette.color_primary_dark', 'int'),
        'color_accent': ('color_palette.color_accent', 'int'),
        'color_control_normal': ('color_palette.color_control_normal', 'int'),
        'color_control_highlight': ('color_palette.color_control_highlight', 'int'),
        'sketchware_ver': ('sketchware_version', 'int'),
    },
    'parser::file::FileItem': {
        'fileName': ('filename', 'str'),
        'fileType': ('file_type', 'int'),
        'keyboardSetting': ('keyboard_setting', 'int'),
        'options': ('options', 'int'),
        'orientation': ('orientation', 'int'),
        'theme': ('theme', 'int'),
    },
    'parser::library::LibraryItem': {
        'adUnits': ('ad_units', 'list of rec'),
        'data': ('data', 'str'),
        'libType': ('lib_type', 'int'),
        'reserved1': ('reserved1', 'str'),
        'reserved2': ('reserved2', 'str'),
        'reserved3': ('reserved3', 'str'),
        'testDevices': ('test_devices', 'list of str'),
        'useYn': ('use_yn', 'str'),
    },
    'parser::library::AdUnit': {
        'id': ('id', 'str'),
        'name': ('name', 'str'),
    },
    'parser::resource::ResourceItem': {
        'resFullName': ('full_name', 'str'),
        'resName': ('name', 'str'),
        'resType': ('type', 'int'),
    },
    'parser::view::models::AndroidView': {
        'adSize': ('ad_size', 'str'),
        'adUnitId': ('ad_unit_id', 'str'),
        'alpha': ('alpha', 'float'),
        'checked': ('checked', 'int'),
        'choiceMode': ('choice_mode', 'int'),
        'clickable': ('clickable', 'int'),
        'customView': ('custom_view', 'str'),
        'dividerHeight': ('divider_height', 'int'),
        'enabled': ('enabled', 'int'),
        'firstDayOfWeek': ('first_day_of_week', 'int'),
        'id': ('id', 'str'),
        'image': ('image', 'rec'),
        'indeterminate': ('indeterminate', 'str'),
        'index': ('index', 'int'),
        'layout': ('layout', 'rec'),
        'max': ('max', 'int'),
        'parent': ('parent', 'str?', 0),
        'parentType': ('parent_type', 'int'),
        'preId': ('pre_id', 'str?', 0),
        'preIndex': ('pre_index', 'int'),
        'preParent': ('pre_parent', 'str?', 0),
        'preParentType': ('pre_parent_type', 'int'),
        'progress': ('progress', 'int'),
        'progressStyle': ('progress_style', 'str'),
        'scaleX': ('scale_x', 'float'),
        'scaleY': ('scale_y', 'float'),
        'spinnerMode': ('spinner_mode', 'int'),
        'text': ('text', 'rec'),
        'translationX': ('translation_x', 'float'),
        'translationY': ('translation_y', 'float'),
        'type': ('type', 'int'),
    },
    'parser::view::models::ImageConfig': {
        'resName': ('res_name', 'str?', 0),
        'rotate': ('rotate', 'int'),
        'scaleType': ('scale_type', 'str'),
    },
    'parser::view::models::LayoutConfig': {
        'backgroundColor': ('background_color', 'int'),
        'gravity': ('gravity', 'int'),
        'height': ('height', 'int'),
        'layoutGravity': ('layout_gravity', 'int'),
        'marginBottom': ('margin_bottom', 'int'),
        'marginLeft': ('margin_left', 'int'),
        'marginRight': ('margin_right', 'int'),
        'marginTop': ('margin_top', 'int'),
        'orientation': ('orientation', 'int'),
        'paddingBottom': ('padding_bottom', 'int'),
        'paddingLeft': ('padding_left', 'int'),
        'paddingRight': ('padding_right', 'int'),
        'paddingTop': ('padding_top', 'int'),
        'weight': ('weight', 'int'),
        'weightSum': ('weight_sum', 'int'),
        'width': ('width', 'int'),
    },
    'parser::view::models::TextConfig': {
        'hint': ('hint', 'str'),
        'hintColor': ('hint_color', 'int'),
        'imeOption': ('ime_option', 'int'),
        'inputType': ('input_type', 'int'),
        'line': ('line', 'int'),
        'singleLine': ('single_line', 'int'),
        'text': ('text', 'str'),
        'textColor': ('text_color', 'int'),
        'textFont': ('text_font', 'str'),
        'textSize': ('text_size', 'int'),
        'textType': ('text_type', 'int'),
    },
    'parser::logic::component::Component': {
        'componentId': ('id', 'str'),
        'param1': ('param1', 'str'),
        'param2': ('param2', 'str'),
        'param3': ('param3', 'str'),
        'type': ('type', 'int'),
    },
    'parser::logic::event::Event': {
        'eventName': ('event_name', 'str'),
        'eventType': ('event_type', 'int'),
        'targetId': ('target_id', 'str'),
        'targetType': ('target_type', 'int'),
    },
    'parser::logic::Block': {
        'color': ('color', 'int'),
        'id': ('id', 'str'),
        'nextBlock': ('next_block', 'int'),
        'opCode': ('op_code', 'str'),
        'parameters': ('parameters', 'list of str'),
        'spec': ('spec', 'str'),
        'subStack1': ('sub_stack1', 'int'),
        'subStack2': ('sub_stack2', 'int'),
        'type': ('type', 'str'),
        'typeName': ('type_name', 'str'),
    },
}
ENUMS = {
    'parser::file::FileType': {'Drawer': 2, 'CustomView': 1, 'Activity': 0},
    'parser::file::KeyboardSetting': {'Hidden': 2, 'Visible': 1, 'Unspecified': 0},
    'parser::file::Orientation': {'Both': 2, 'Landscape': 1, 'Portrait': 0},
    'parser::file::Theme': {'Fullscreen': 2, 'Actionbar': 1, 'Default': 0, 'None': -1},
    'parser::view::models::ChoiceMode': {'Multi': 2, 'Single': 1, 'None': 0},
    'parser::view::models::SpinnerMode': {'Dropdown': 1, 'Dialog': 0},
    'parser::view::models::image::ImageScaleType': {'CenterInside': 'CENTER_INSIDE', 'CenterCrop': 'CENTER_CROP', 'FitEnd': 'FIT_END', 'FitCenter': 'FIT_CENTER', 'FitStart': 'FIT_START', 'FitXy': 'FIT_XY', 'Center': 'CENTER'},
    'parser::view::models::layout::Orientation': {'Horizontal': -1, 'Unspecified': 0, 'Vertical': 1},
    'parser::view::models::text::ImeOption': {'Done': 6, 'Next': 5, 'Send': 4, 'Search': 3, 'Go': 2, 'None': 1, 'Normal': 0},
    'parser::view::models::text::InputType': {'Text': 1, 'Phone': 3, 'Password': 129, 'NumberSignedDecimal': 12290, 'NumberSigned': 4098, 'NumberDecimal': 8194},
    'parser::view::models::text::TextType': {'BoldItalic': 3, 'Italic': 2, 'Bold': 1, 'Normal': 0},
}


def run(c, st, fn, v):
    """enter fn (a codec of a `with` module is otherwise kept closed)"""
    old, c.inside = c.inside, fn
    try:
        return c.serialize(st, fn, v)
    finally:
        c.inside = old


def read(c, st, fn, n):
    old, c.inside = c.inside, fn
    try:
        return c.deserialize(st, fn, n)
    finally:
        c.inside = old


def short(T):
    return T.split('::')[-1]


def codec(ck, T):
    c = Codec(ck)
    c.e.bits = True
    ser, de = c.codec_of(A(T))
    if T not in ck.p.adts or not ser or not de:
        raise Missing('codec of ' + T)
    return c, ser, de


def c05(ck):
    for T, keys in RECORDS.items():
        with ck.case(short(T)):
            record(ck, T, keys)
    for T, codes in ENUMS.items():
        with ck.case(short(T)):
            enum(ck, T, codes)
    for T in RECORDS:
        parse, rec = ck.p.find_impl(P + 'Parsable', 'parse', A(T)), ck.p.find_impl(P + 'Parsable', 'reconstruct', A(T))
        if parse and rec:
            with ck.case('%s as an item' % short(T)):
                item(ck, T, parse, rec)


def item(ck, T, parse, rec):
    """the text of an item is the JSON of the record itself"""
    e = ck.eng()
    x = e.mk('x', A(T), 'raw')
    ck.count('item types')
    for st, r in call(e, st0(), rec, [x]):
        for s2, ok, t in e.res(st, r):
            if not ok:
                ck.bad('%s as an item' % short(T), 'is not written: %s' % render(t), rec)
                continue
            for s3, r2 in call(e, s2, parse, [t]):
                for s4, ok2, v in e.res(s3, r2):
                    ck.judge('%s as an item' % short(T), cmp(e, s4, v, x) if ok2 else ('n', 'what was written is rejected: %s' % render(v)), parse)
    no_panics(ck, e, '%s as an item' % short(T))


def record(ck, T, keys):
    c, ser, de = codec(ck, T)
    e = c.e
    ck.count('record types')
    x = e.mk('x', A(T), 'raw')
    full = None
    for st, n in c.serialize(st0(), ser, x):
        if n is None:
            ck.bad('%s written' % short(T), 'cannot be written when ' + (factstr(st) or 'anything'), ser)
            continue
        if n[0] != 'obj':
            ck.bad('%s written' % short(T), 'is written as %s, not as a record' % n[0], ser) if n[0] == 'val' else ck.und('%s written' % short(T), n[0], ser)
            continue
        names = [k for k, _ in n[1]]
        got = dict(n[1])
        if len(got) != len(names):
            ck.bad('%s keys' % short(T), 'writes %s twice' % ', '.join(sorted({k for k in names if names.count(k) > 1})), ser)
        for k in names:
            if k not in keys:
                ck.bad('%s keys' % short(T), 'writes the key %r, which Sketchware does not know' % k, ser)
        for k, spec in keys.items():
            key = '%s.%s' % (short(T), k)
            f = fld(e, st, x, *spec[0].split('.'))
            if k not in got:
                if len(spec) == 3 and st.facts.get(('v', f[1])) == 0:
                    ck.ok(key + ' left out', '', ser)
                else:
                    ck.bad(key, 'is left out of the text although %s holds a value' % spec[0], ser)
                continue
            m = got[k]
            if m[0] == 'obj':
                ck.und(key, 'nested record', ser)
                continue
            ck.judge(key, cmp(e, st, m[2], f, spec[0]), ser, 'written from %s' % spec[0])
            w = wire(c, st, m) - {'error'}
            want = {spec[1], spec[1].rstrip('?')}
            if w and w <= want:
                ck.ok(key + ' form', spec[1], ser)
            elif any('?' in y.rstrip('?') for y in w):
                ck.und(key + ' form', '/'.join(w), ser)
            else:
                ck.bad(key + ' form', 'is written as %s instead of %s' % ('/'.join(sorted(w)), spec[1]), ser)
        for s2, ok, v in c.deserialize(st, de, n):
            if ok:
                ck.judge('%s read back' % short(T), cmp(e, s2, v, x), de, factstr(st))
            else:
                ck.bad('%s read back' % short(T), 'what was written is rejected (%s)' % render(v), de)
        if full is None or len(n[1]) > len(full[1][1]):
            full = (st, n)
    no_panics(ck, e, '%s codec' % short(T))
    if full is None or not {k for k in keys} <= {k for k, _ in full[1][1]}:
        return
    st, n = full
    for k, spec in keys.items():
        rest = ('obj', tuple(x for x in n[1] if x[0] != k))
        key = '%s without %s' % (short(T), k)
        with ck.case(key, de):
            for s2, ok, v in c.deserialize(st, de, rest):
                if ok and len(spec) == 2:
                    ck.bad(key, 'a record without this key is read as if %s were %s' % (spec[0], render(fld(e, s2, v, *spec[0].split('.')))), de)
                elif not ok and len(spec) == 3:
                    ck.bad(key, 'a record that rightly lacks this key is rejected', de)
                elif ok:
                    f = fld(e, s2, v, *spec[0].split('.'))
                    ck.judge(key, ('y', '') if f == NONE else ('n', '%s is %s' % (spec[0], render(f))) if f[0] == 'adt' else ('?', render(f)), de)
                else:
                    ck.ok(key, 'rejected', de)
    for pos in (0, len(n[1])):
        more = ('obj', n[1][:pos] + (('zzOther', ('val', ('p', 'str'), lit('a'))),) + n[1][pos:])
        with ck.case('%s other keys' % short(T), de):
            for s2, ok, v in c.deserialize(st, de, more):
                if ok:
                    ck.judge('%s other keys' % short(T), cmp(e, s2, v, x), de, 'an unknown key is passed over')
                else:
                    ck.bad('%s other keys' % short(T), 'a record with a key that is not known is rejected', de)
    rev = ('obj', n[1][::-1])
    with ck.case('%s key order' % short(T), de):
        for s2, ok, v in c.deserialize(st, de, rev):
            ck.judge('%s key order' % short(T), cmp(e, s2, v, x) if ok else ('n', 'rejected in another order'), de)


def enum(ck, T, codes):
    c, ser, de = codec(ck, T)
    e = c.e
    ck.count('enumerations')
    vs = ck.p.variants(T)
    names = [v['n'] for v in vs]
    for nm, code in codes.items():
        if nm not in names:
            raise Missing('%s::%s' % (T, nm))
    forms = set(codes.values())
    for i, v in enumerate(vs):
        if v['n'] not in codes:
            ck.count('other variants')
        key = '%s::%s' % (short(T), v['n'])
        x = ('adt', T, i, ())
        for st, n in c.serialize(st0(), ser, x):
            if n is None or n[0] != 'val':
                ck.und(key, 'written as %s' % (n,), ser)
                continue
            w = e.deref(st, n[2])
            got = w[1] if w[0] == 'int' else ''.join(s[1] for s in w[1]) if w[0] == 'str' and all(s[0] == 'L' for s in w[1]) else None
            if got is None:
                ck.und(key, render(w), ser)
            elif v['n'] not in codes:
                ck.bad(key, 'is written as %r, the code of another value' % (got,), ser) if got in forms else ck.ok(key, 'an additional value', ser)
            elif got != codes[v['n']]:
                ck.bad(key, 'is written as %r instead of %r' % (got, codes[v['n']]), ser)
            else:
                ck.ok(key, 'written as %r' % (got,), ser)
    for nm, code in codes.items():
        key = '%s from %r' % (short(T), code)
        node = scalar(code)
        for s2, ok, v in c.deserialize(st0(), de, node):
            want = ('adt', T, names.index(nm), ())
            ck.judge(key, cmp(e, s2, v, want) if ok else ('n', 'is rejected'), de)
    wrong = [k for k in list(range(-3, 9)) + [127, 130, 255, 4099, 12291, -128] if k not in forms] if isinstance(code, int) else ['', 'OTHER', codes['Center'].lower(), 'CENTER ', 'Center', 'MATRIX']
    extra = len(vs) - len(codes)
    for k in wrong:
        key = '%s from %r' % (short(T), k)
        with ck.case(key, de):
            for s2, ok, v in c.deserialize(st0(), de, scalar(k)):
                if not ok:
                    ck.ok(key, 'rejected', de)
                elif v[0] == 'adt' and v[2] < len(vs) and names[v[2]] in codes:
                    ck.bad(key, 'a code that stands for nothing is read as %s' % names[v[2]], de)
                elif extra:
                    ck.ok(key, 'an additional value', de)
                else:
                    ck.und(key, render(v), de)
    no_panics(ck, e, '%s codec' % short(T))


def scalar(k):
    return ('val', ('p', 'i64'), ('int', k, 'i64')) if isinstance(k, int) else ('val', ('p', 'str'), lit(k))


def lit(s):
    return ('str', (('L', s),) if s else ())


def literal(v):
    """python text of a fully known string"""
    return ''.join(s[1] for s in v[1]) if v[0] == 'str' and all(s[0] == 'L' for s in v[1]) else None


# ---------------------------------------------------------------- C06
DT = 'chrono::NaiveDateTime'
PARTS = (('year', 4), ('month', 2), ('day', 2), ('hour', 2), ('minute', 2), ('second', 2))


SHIFTED = {'month0': 'month', 'day0': 'day'}


def concrete_date(n):
    import datetime
    try:
        return datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=n)
    except OverflowError:
        return None


def named_date(v):
    import datetime
    if v[0] != 'sym' or v[2] != ('a', DT, ()):
        return None
    try:
        return datetime.datetime.strptime(v[1][4:] if v[1].startswith('day ') else v[1], '%Y-%m-%d %H:%M:%S')
    except ValueError:
        return None


class Dates:
    """what chrono promises: a timestamp in range has a date, whose parts name exactly that second"""
    def __init__(s, e):
        s.e = e
        s.stamps = {}
        H = e.hooks
        for n in (DT + '::from_timestamp_opt',):
            H[n] = s.from_ts
        for p in [q for q, _ in PARTS] + list(SHIFTED) + ['hour12']:
            H['chrono::%s::%s' % ('Datelike' if p in ('year', 'month', 'day', 'month0', 'day0') else 'Timelike', p)] = s.part(p)
        H['chrono::NaiveDate::from_ymd_opt'] = s.ymd
        H['chrono::NaiveDate::and_hms_opt'] = s.hms
        H[DT + '::timestamp'] = s.ts
        H['str::get'] = s.get
        H['std::ops::Index::index'] = s.index
        H['str::split_at'] = s.split_at
        H['str::len'] = s.len
        H['str::is_char_boundary'] = s.boundary
        H['str::is_ascii'] = s.ascii
        H['str::parse'] = s.parse
        s.mixed = []

    def from_ts(s, e, st, fr, t, a):
        if a[1] != ('int', 0, 'u32'):
            return None
        if a[0][0] == 'int':
            d = concrete_date(a[0][1])
            return [(st, Some(('sym', d.strftime('%Y-%m-%d %H:%M:%S'), ('a', DT, ()))) if d else NONE)]
        p = 'date(%s)' % render(a[0])
        s.stamps[p] = a[0]
        return [(s2, Some(('sym', p, ('a', DT, ()))) if b else NONE) for s2, b in e.pred(st, ('b', 'is a date: ' + render(a[0])))]

    def part(s, p):
        def f(e, st, fr, t, a):
            d = e.deref(st, a[0])
            w = named_date(d)
            if w:
                n = dict(SHIFTED, hour12=None).get(p, p)
                if p == 'hour12':
                    return [(st, ('tup', (('bool', w.hour >= 12), ('int', w.hour % 12 or 12, 'u32'))))]
                return [(st, ('int', getattr(w, n) - (n != p), 'i32' if p == 'year' else 'u32'))]
            if d[0] != 'sym' or d[1] not in s.stamps:
                return None
            if p == 'hour12':
                return [(st, ('tup', (('sym', d[1] + '.is pm', ('p', 'bool')), ('sym', d[1] + '.hour12', ('p', 'u32')))))]
            return [(st, ('sym', '%s.%s' % (d[1], p), ('p', 'i32' if p == 'year' else 'u32')))]
        return f

    def parts(s, vs, names):
        """the date all the parts belong to, or None"""
        ds = set()
        for v, n in zip(vs, names):
            if v[0] != 'sym' or not v[1].startswith('date('):
                return None, False
            d, p = v[1].rsplit('.', 1)
            if d not in s.stamps:
                return None, False
            ds.add(d if p == n else '%s is taken for the %s' % (v[1], n))
        return (ds.pop(), True) if len(ds) == 1 and set(ds) <= set(s.stamps) else (None, True)

    def ymd(s, e, st, fr, t, a):
        a = [e.deref(st, x) for x in a]
        if all(x[0] == 'int' for x in a):
            import datetime
            try:
                return [(st, Some(('sym', 'day %s' % datetime.date(*[x[1] for x in a]), ('a', 'chrono::NaiveDate', ()))))]
            except ValueError:
                return [(st, NONE)]
        d, known = s.parts(a, ('year', 'month', 'day'))
        if known and (d is None or d not in s.stamps):
            s.mixed.append(d or ', '.join(render(x) for x in a))
        if d is None or d not in s.stamps:
            return [(s2, Some(('sym', 'day(%s)' % ', '.join(render(x) for x in a), ('a', 'chrono::NaiveDate', ()))) if b else NONE) for s2, b in e.pred(st, ('b', 'is a day: ' + ', '.join(render(x) for x in a)))]
        return [(st, Some(('sym', 'day of ' + d, ('a', 'chrono::NaiveDate', ()))))]

    def hms(s, e, st, fr, t, a):
        a = [e.deref(st, x) for x in a]
        if all(x[0] == 'int' for x in a[1:]):
            ok = a[1][1] < 24 and a[2][1] < 60 and a[3][1] < 60
            return [(st, Some(('sym', '%s %s' % (a[0][1], '%02d:%02d:%02d' % tuple(x[1] for x in a[1:])), ('a', DT, ()))) if ok else NONE)]
        d, known = s.parts(a[1:], ('hour', 'minute', 'second'))
        if a[0][1] == 'day of %s' % d and d in s.stamps:
            return [(st, Some(('sym', d, ('a', DT, ()))))]
        if known and a[0][1].startswith('day of'):
            s.mixed.append(d or ', '.join(render(x) for x in a[1:]))
        k = '%s %s' % (a[0][1], ':'.join(render(x) for x in a[1:]))
        return [(s2, Some(('sym', k, ('a', DT, ()))) if b else NONE) for s2, b in e.pred(st, ('b', 'is a time: ' + k))]

    def ts(s, e, st, fr, t, a):
        d = e.deref(st, a[0])
        if d[0] == 'sym' and d[1] in s.stamps:
            return [(st, s.stamps[d[1]])]
        w = named_date(d)
        if w:
            import calendar
            return [(st, ('int', calendar.timegm(w.timetuple()), 'i64'))]
        return None

    def width(s, seg):
        if seg[0] == 'L':
            return len(seg[1])
        if seg[0] == 'A' and len(seg) > 3 and seg[3][0] == 'pad':
            v = seg[3][4]
            for p, w in PARTS:
                if v[0] == 'sym' and v[1].startswith('date(') and v[1].endswith('.' + p):
                    return w if seg[3][2] == w and seg[3][3] is None and seg[3][1] and seg[3][1] & (1 << 24) else None
        return None

    def total(s, v):
        """the length of a text with the parts of a date in it, or None if it is not one"""
        if v[0] != 'str' or literal(v) is not None:
            return None
        ws = [s.width(g) for g in v[1]]
        return None if None in ws else sum(ws)

    def cut(s, e, st, v, lo, hi):
        """the characters lo to hi, None if there are not as many"""
        at, out = 0, []
        if lo > hi or hi > s.total(v):
            return None
        for g in v[1]:
            w = s.width(g)
            if lo <= at and at + w <= hi:
                out.append(g)
            elif g[0] == 'L' and at < hi and at + w > lo:
                out.append(('L', g[1][max(lo - at, 0):hi - at]))
            elif at < hi and at + w > lo:
                return ('str', (('A', 'characters %d to %d of %s' % (lo, hi, render(v)), 'num'),))
            at += w
        return ('str', tuple(out))

    def range(s, e, st, v, r):
        n = s.total(v)
        r = e.deref(st, r)
        if n is None or r[0] != 'adt' or not r[1].split('::')[-1].startswith('Range'):
            return None
        k = r[1].split('::')[-1]
        x = [e.deref(st, q) for q in r[3][:2]]
        if any(q[0] != 'int' for q in x):
            return None
        x = [q[1] for q in x]
        lo = 0 if k in ('RangeTo', 'RangeFull', 'RangeToInclusive') else x[0]
        hi = n if k in ('RangeFrom', 'RangeFull') else x[-1] + ('Inclusive' in k)
        return lo, hi

    def get(s, e, st, fr, t, a):
        v = e.deref(st, a[0])
        r = s.range(e, st, v, a[1])
        if r is None:
            return None
        w = s.cut(e, st, v, *r)
        return [(st, NONE if w is None else Some(w))]

    def index(s, e, st, fr, t, a):
        v = e.deref(st, a[0])
        r = s.range(e, st, v, a[1])
        w = r and s.cut(e, st, v, *r)
        return [(st, w)] if w else None

    def split_at(s, e, st, fr, t, a):
        v, n = e.deref(st, a[0]), e.deref(st, a[1])
        if s.total(v) is None or n[0] != 'int' or n[1] > s.total(v):
            return None
        return [(st, ('tup', (s.cut(e, st, v, 0, n[1]), s.cut(e, st, v, n[1], s.total(v)))))]

    def len(s, e, st, fr, t, a):
        n = s.total(e.deref(st, a[0]))
        return None if n is None else [(st, ('int', n, 'usize'))]

    def boundary(s, e, st, fr, t, a):
        n, i = s.total(e.deref(st, a[0])), e.deref(st, a[1])
        return None if n is None or i[0] != 'int' else [(st, ('bool', i[1] <= n))]

    def ascii(s, e, st, fr, t, a):
        return None if s.total(e.deref(st, a[0])) is None else [(st, ('bool', True))]

    def parse(s, e, st, fr, t, a):
        v = e.deref(st, a[0])
        if v[0] == 'str' and len(v[1]) == 1 and s.width(v[1][0]) and v[1][0][0] == 'A':
            T = e.tyargs(fr, t.get('ga'))[0]
            x = v[1][0][3][4]
            return [(st, Ok(x if x[2] == T else models.intcast(e, x, T[1])))]
        return None


def canon(st, d):
    return ('str', tuple(('A', 'pad0%s(%s.%s)' % (w, d, p), 'num', ('pad', 1 << 24, w, None, ('sym', '%s.%s' % (d, p), ('p', 'i32' if p == 'year' else 'u32')))) for p, w in PARTS))


def expand(c, st, n, depth=0):
    """[(state, what really stands in the text or None)]"""
    if n is None or n[0] in ('val', 'obj'):
        return [(st, n)]
    if depth > 3:
        raise Undecided('stored form')
    out = []
    for s2, m in run(c, st, c.codec_of(n[1])[0] if n[0] == 'via' else n[1], n[2]):
        out += expand(c, s2, m, depth + 1)
    return out


def plain(st, e, n):
    """python value of a stored scalar"""
    v = e.deref(st, n[2])
    if v[0] == 'int':
        return v[1]
    if v[0] == 'bool':
        return v[1]
    if v[0] == 'sym' and ('v', v[1]) in st.facts:
        return st.facts[('v', v[1])]
    return literal(v)


def variants(T, **codes):
    return codes


# record, key -> how the value is stored
ALV = V + 'AndroidView'
STORED = [(P + 'project::Project', 'sc_id', 'number as text'), (P + 'project::Project', 'sc_ver_code', 'number as text'),
          (P + 'project::Project', 'my_sc_reg_dt', 'date'), (P + 'file::FileItem', 'options', 'option bits'),
          (ALV, 'checked', '0 or 1'), (ALV, 'clickable', '0 or 1'), (ALV, 'enabled', '0 or 1'), (ALV, 'indeterminate', 'true or false'),
          (V + 'TextConfig', 'singleLine', '0 or 1'), (V + 'LayoutConfig', 'height', 'size'), (V + 'LayoutConfig', 'width', 'size'),
          (V + 'LayoutConfig', 'gravity', 'gravity'), (V + 'LayoutConfig', 'layoutGravity', 'gravity')]
TEXT = ('p', 'str')
I64 = ('p', 'i64')
WRONG = {
    'number as text': [(TEXT, x) for x in ('', 'x', '1.5', '-1', '65536', '1 ')] + [(I64, 7)],
    'date': [(TEXT, x) for x in ('', 'abc', '2022010112000', '20221301000000', '20220100000000', '20220230000000', '20220101240000', '20220101126000', '20220101120060', '2022-01-01 12:', '2022\u00e9101120000')] + [(I64, 20220101120000)],
    'option bits': [(TEXT, '1'), (I64, 256), (I64, -1)],
    '0 or 1': [(TEXT, '1'), (TEXT, 'true')],
    'true or false': [(TEXT, x) for x in ('', 'True', '1', 'yes', 'true ', 'FALSE')] + [(I64, 1)],
    'size': [(TEXT, '-1'), (I64, 1 << 31)],
    'gravity': [(TEXT, '1'), (I64, 256)],
}
STAMPS = (0, 1, 951782400, 1640995199, 1640995200, 1642648200, 1642694096, 4102444799)
RIGHT = {'0 or 1': [(n, True) for n in (2, 3, 4, 16, 127, 128, 254, 255)]}
BITS = (('toolbar_enabled', 1), ('fullscreen_enabled', 2), ('drawer_enabled', 4), ('fab_enabled', 8))


def c06(ck):
    for T, k, how in STORED:
        with ck.case('%s.%s' % (short(T), k)):
            scalar_field(ck, T, k, how)
    for T in ('variable::Variable', 'list_variable::ListVariable'):
        with ck.case(short(T)):
            variable(ck, P + 'logic::' + T)


def guessed(before, after):
    """the path rests on something about the characters of the date that is not known"""
    return any(q not in before.facts and 'date(' in repr(q) for q in after.facts)


def scalar_field(ck, T, k, how):
    c, ser, de = codec(ck, T)
    e = c.e
    dates = Dates(e)
    ck.count('stored scalars')
    x = e.mk('x', A(T), 'raw')
    fpath = RECORDS[T][k][0].split('.')
    key = '%s.%s' % (short(T), k)
    st, n = next((s, m) for s, m in c.serialize(st0(), ser, x) if m is not None)
    if n[0] != 'obj' or k not in dict(n[1]):
        raise Undecided('record form')
    f = fld(e, st, x, *fpath)
    put = lambda m: ('obj', tuple((kk, m if kk == k else mm) for kk, mm in n[1]))

    def back(s, m):
        for s2, ok, v in c.deserialize(s, de, put(m)):
            yield s2, ok, fld(e, s2, v, *fpath) if ok else v
    starts = [(st, f)]
    if how == 'option bits':
        # every combination of the four options
        starts = []
        T2 = f[2][1] if f[0] == 'sym' else f[1]
        fs = [q['n'] for q in ck.p.variants(T2)[0]['f']]
        for nm, _ in BITS:
            if nm not in fs:
                raise Missing('%s of %s' % (nm, T2))
        for i in range(16):
            vals = dict((nm, ('bool', bool(i & b))) for nm, b in BITS)
            if len(fs) != 4:
                raise Undecided('options')
            starts.append((st, ('adt', T2, 0, tuple(vals[q] for q in fs)), i))
    if how == '0 or 1' or how == 'true or false':
        starts = [(st, ('bool', False)), (st, ('bool', True))]
    if how == 'size':
        T2 = f[2][1]
        names = [v['n'] for v in ck.p.variants(T2)]
        starts = [(st, ('adt', T2, names.index(w), ())) for w in ('MatchParent', 'WrapContent')]
        starts += [(st, ('adt', T2, names.index('Fixed'), (v,))) for v in [('int', i, 'i32') for i in (0, 1, 120, -3, 2147483647, -2147483648)]]
        num = ('sym', 'dp', ('p', 'i32'))
        starts.append((st, ('adt', T2, names.index('Fixed'), (num,))))
    if how == 'date':
        starts += [(st, ('int', t, 'u64')) for t in STAMPS]
    for start in starts:
        s1, val = start[0], start[1]
        m = dict(n[1])[k]
        m = ('val', m[1], val) if m[0] == 'val' else (m[0], m[1], val)
        lab = '%s %s' % (key, 'of any value' if val == f else render(val))
        for s2, leaf in expand(c, s1, m):
            if leaf is None:
                if how == 'date' and any(b is False for q, b in s2.facts.items() if q[0] == 'b' and q[1].startswith('is a date')):
                    ck.ok(key + ' out of range', 'a timestamp without a date is reported', ser)
                else:
                    ck.bad(lab, 'cannot be written', ser)
                continue
            if leaf[0] != 'val':
                ck.und(lab, leaf[0], ser)
                continue
            want = None
            w = plain(s2, e, leaf)
            if how == '0 or 1':
                want = int(val[1])
            elif how == 'true or false':
                want = 'true' if val[1] else 'false'
            elif how == 'option bits':
                want = start[2]
            elif how == 'size' and val[2] != names.index('Fixed'):
                want = -2 if names[val[2]] == 'MatchParent' else -1
            elif how == 'size' and val[3][0][0] == 'int':
                want = val[3][0][1]
            elif how == 'date' and val[0] == 'int':
                want = concrete_date(val[1]).strftime('%Y%m%d%H%M%S')
            if want is not None:
                if w is None:
                    ck.und(lab + ' text', render(leaf[2]), ser)
                elif w != want or type(w) is not type(want):
                    ck.bad(lab + ' text', 'is stored as %r instead of %r' % (w, want), ser)
                else:
                    ck.ok(lab + ' text', 'stored as %r' % (w,), ser)
            if how == 'number as text':
                want = ('str', models.display(e, s2, val)[0][1])
                ck.judge(lab + ' text', cmp(e, s2, leaf[2], want) if leaf[2][0] == 'str' else ('n', 'is stored as %s, not as text' % kind(leaf[1])), ser, 'the decimal text')
            if how == 'date' and val[0] != 'int':
                datetext(ck, e, s2, dates, leaf, lab, ser)
            for s3, ok, v in back(s2, leaf):
                if how == 'size' and val[3] and val[3][0][0] == 'sym':
                    w3 = s3.facts.get(('q', 'dp'))
                    if w3 in (-1, -2):
                        continue    # a size of -1 or -2 dp cannot be told from the two names
                if ok:
                    r = cmp(e, s3, v, val)
                    if r[0] == '?' and dates.mixed:
                        r = ('n', 'is read from the wrong characters: ' + '; '.join(dates.mixed))
                    ck.judge(lab, r, de, factstr(s3))
                elif how == 'date' and val[0] != 'int' and guessed(s2, s3):
                    ck.und(lab, 'rejected where ' + factstr(s3), de)
                else:
                    ck.bad(lab, 'what was written is rejected: %s' % render(v), de)
    # the other direction: what Sketchware stores
    if how == 'date':
        d = 'date(%s)' % render(f)
        dates.stamps[d] = ('cast', 'i64', f) if not e.bits else f
        s1 = st.copy()
        s1.facts[('b', 'is a date: ' + render(f))] = True
        for s3, ok, v in back(s1, ('val', TEXT, canon(s1, d))):
            r = cmp(e, s3, v, f) if ok else ('?' if guessed(s1, s3) else 'n', 'yyyyMMddHHmmss is rejected: %s' % render(v))
            if r[0] == '?' and dates.mixed:
                r = ('n', 'is read from the wrong characters: ' + '; '.join(dates.mixed))
            ck.judge(key + ' from yyyyMMddHHmmss', r, de)
    if how == 'option bits':
        for i in list(range(16)) + [16, 17, 32, 47, 64, 128, 136, 240, 255]:
            for s3, ok, v in back(st, scalar(i)):
                ck.judge('%s from %d' % (key, i), cmp(e, s3, v, starts[i & 15][1]) if ok else ('n', 'rejected'), de)
    for w, want in RIGHT.get(how, []):
        for s3, ok, v in back(st, scalar(w)):
            ck.judge('%s from %d' % (key, w), cmp(e, s3, v, ('bool', want)) if ok else ('n', 'rejected'), de)
    for T1, w in WRONG[how]:
        lab = '%s from %s' % (key, json_text(w))
        with ck.case(lab, de):
            for s3, ok, v in back(st, ('val', T1, lit(w) if isinstance(w, str) else ('int', w, 'i64'))):
                if not ok:
                    ck.ok(lab, 'rejected', de)
                elif has_unknown(v) or v[0] == 'sym' and '(' in v[1]:
                    ck.und(lab, render(v), de)
                else:
                    ck.bad(lab, 'is read as %s instead of being rejected' % render(v), de)
    no_panics(ck, e, key)


def json_text(w):
    import json
    return json.dumps(w)


def datetext(ck, e, st, dates, leaf, lab, where):
    v = e.deref(st, leaf[2])
    if v[0] != 'str':
        ck.bad(lab + ' text', 'is stored as %s, not as text' % kind(leaf[1]), where)
        return
    got, known = [], True
    for g in v[1]:
        if g[0] == 'L':
            got.append(repr(g[1]))
        elif g[0] == 'A' and len(g) > 3 and g[3][0] == 'pad' and g[3][4][0] == 'sym' and g[3][4][1].rsplit('.', 1)[0] in dates.stamps:
            w = dates.width(g)
            got.append('%s in %s' % (g[3][4][1].rsplit('.', 1)[1], w if w else '%s characters%s' % (g[3][2], '' if g[3][1] and g[3][1] & 1 << 24 else ' (blank padded)')))
        elif g[0] == 'A' and g[1].startswith('num(date(') or g[0] == 'A' and g[1].startswith('date('):
            got.append(g[1] + ' unpadded')
        else:
            known = False
    want = ['%s in %s' % q for q in PARTS]
    if got == want:
        ck.ok(lab + ' text', 'yyyyMMddHHmmss', where)
    elif known:
        ck.bad(lab + ' text', 'is stored as %s instead of yyyyMMddHHmmss' % ', '.join(got), where)
    else:
        ck.und(lab + ' text', render(v), where)


def variable(ck, T):
    TV = P + 'logic::variable::VariableType'
    parse = ck.p.find_impl(P + 'Parsable', 'parse', A(T))
    rec = ck.p.find_impl(P + 'Parsable', 'reconstruct', A(T))
    if T not in ck.p.adts or not parse or not rec:
        raise Missing(T)
    fs = [f['n'] for f in ck.p.variants(T)[0]['f']]
    names = [v['n'] for v in ck.p.variants(TV)]
    codes = {'Boolean': 0, 'Integer': 1, 'String': 2, 'HashMap': 3}
    e = ck.eng(cls='id')
    ck.count('variable forms')
    for nm in codes:
        if nm not in names:
            raise Missing(nm)
        ty = ('adt', TV, names.index(nm), ())
        x = ('adt', T, 0, tuple(ty if f == 'type' or f == 'r#type' else e.mk('x.' + f, STRING_T, 'id') for f in fs))
        for s2, r in call(e, st0(), rec, [x]):
            for s3, ok, t in e.res(s2, r):
                if not ok:
                    ck.bad('%s %s' % (short(T), nm), 'cannot be written', rec)
                    continue
                want = ('str', (('L', '%d:' % codes[nm]),) + x[3][fs.index('name')][1])
                ck.judge('%s %s text' % (short(T), nm), cmp(e, s3, t, want), rec)
                for s4, r2 in call(e, s3, parse, [t]):
                    for s5, ok2, v in e.res(s4, r2):
                        ck.judge('%s %s' % (short(T), nm), cmp(e, s5, v, x) if ok2 else ('n', 'what was written is rejected: %s' % render(v)), parse)
    name = e.mk('name', STRING_T, 'id')
    for pre in ['%d:' % i for i in (4, 5, 255, 256)] + ['-1:', 'x:', ':', '1']:
        lab = '%s from %sname' % (short(T), pre)
        with ck.case(lab, parse):
            for s2, r in call(e, st0(), parse, [('str', (('L', pre),) + name[1])]):
                for s3, ok, v in e.res(s2, r):
                    if ok:
                        ck.judge(lab, ('?', render(v)) if has_unknown(v) else ('n', 'is read as %s' % render(v)), parse)
                    else:
                        ck.ok(lab, 'rejected', parse)
    no_panics(ck, e, short(T))


STRING_T = ('a', STRING, ())
