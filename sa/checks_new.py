"""C28: new values hold what they are given and nothing else, defaults are Sketchware's, and gravity flags answer from their bits."""
from core import *
import models as m
from checks_text import L_
from checks_block import Mk, AB, BC, vec

V = 'parser::view::models::'
TEXT = dict(hint='', hint_color={'value': 0xff607d8b}, ime_option='Normal', input_type='Text', line=0, single_line=False, text='',
            text_color={'value': 0xff000000}, text_font='default_font', text_size=12, text_type='Normal')
IMAGE = dict(res_name=None, rotate=0, scale_type='Center')
GRAV = (0,)
LAYOUT = dict(background_color={'value': 0x00ffffff}, gravity=GRAV, height='MatchParent', width='WrapContent', layout_gravity=GRAV,
              margin_bottom=0, margin_left=0, margin_right=0, margin_top=0, orientation='Vertical',
              padding_bottom=8, padding_left=8, padding_right=8, padding_top=8, weight=0, weight_sum=0)
PALETTE = dict(color_primary={'value': 0xff008dcd}, color_primary_dark={'value': 0xff0084c2}, color_accent={'value': 0xff008dcd},
               color_control_normal={'value': 0xff57beee}, color_control_highlight={'value': 0x20008dcd})


class Arg:
    def __init__(s, i, some=False):
        s.i, s.some = i, some


class Some:
    def __init__(s, x):
        s.x = x


a = Arg
VIEW = dict(ad_size='', ad_unit_id='', alpha=1.0, checked=False, choice_mode='None', clickable=True, custom_view='', divider_height=0, enabled=True,
            first_day_of_week=1, id=a(0), image=IMAGE, indeterminate=False, index=0, layout=LAYOUT, max=100, parent=a(2, True), parent_type=a(3),
            pre_id=Some(''), pre_index=0, pre_parent=None, pre_parent_type=0, progress=0, progress_style='', scale_x=1.0, scale_y=1.0, spinner_mode='Dropdown', text=TEXT,
            translation_x=0.0, translation_y=0.0, type=a(1))
C = 'parser::logic::component::Component'
LG = 'parser::logic::'
EMPTY = []
# function -> field -> what it holds; fields that are left out are not claimed
NEW = [
    (V + 'AndroidView::new_empty', VIEW),
    ('<%sLayoutConfig as std::default::Default>::default' % V, LAYOUT),
    ('<%sTextConfig as std::default::Default>::default' % V, TEXT),
    ('<%sImageConfig as std::default::Default>::default' % V, IMAGE),
    ('<%slayout::gravity::Gravity as std::default::Default>::default' % V, GRAV),
    (V + 'layout::gravity::Gravity::new', (a(0),)),
    ('<parser::project::ProjectColorPalette as std::default::Default>::default', PALETTE),
    (C + '::new', dict(id=a(0), param1=a(1), param2=a(2), param3=a(3), type=a(4))),
    (C + '::new_empty', dict(id=a(0), param1='', param2='', param3='', type=a(1))),
    (C + '::new_1param', dict(id=a(0), param1=a(1), param2='', param3='', type=a(2))),
    (C + '::new_2params', dict(id=a(0), param1=a(1), param2=a(2), param3='', type=a(3))),
    (LG + 'ScreenLogic::new_empty', dict(name=a(0), block_containers=EMPTY, variables=None, list_variables=None, components=None, events=None, more_blocks=None)),
    ('<%svariable::VariablePool as std::default::Default>::default' % LG, (EMPTY,)),
    ('<%slist_variable::ListVariablePool as std::default::Default>::default' % LG, (EMPTY,)),
    ('<%scomponent::ComponentPool as std::default::Default>::default' % LG, (EMPTY,)),
    ('<%smore_block::MoreBlockPool as std::default::Default>::default' % LG, (EMPTY,)),
    ('<%sevent::EventPool as std::default::Default>::default' % LG, (EMPTY,)),
    ('<%sBlockContainer as std::default::Default>::default' % LG, (EMPTY,)),
    ('<parser::ResourceFiles as std::default::Default>::default', dict(custom_icon=None, images=EMPTY, sounds=EMPTY, fonts=EMPTY)),
    ('<color::Color as std::default::Default>::default', dict(value=0xff000000)),
    (AB + 'Blocks::new', (EMPTY,)),
    ('<%sBlocks as std::default::Default>::default' % AB, (EMPTY,)),
    ('api::Resources::new_empty', dict(images=EMPTY, sounds=EMPTY, fonts=EMPTY)),
    ('api::SketchwareProject::new', dict(custom_icon=None, metadata=a(0), colors=a(1), screens=a(2), custom_views=a(3), libraries=a(4), resources=a(5), automatic_res_file_ids=False)),
    (AB + 'Block::new', dict(sub_stack1=None, sub_stack2=None, op_code=a(1), content=a(2), block_type=a(3))),
    (AB + 'Block::new_1substack', dict(sub_stack1=a(3, True), sub_stack2=None, op_code=a(1), content=a(2), block_type=('Control', 'OneNest'))),
    (AB + 'Block::new_2substack', dict(sub_stack1=a(3, True), sub_stack2=a(4, True), op_code=a(1), content=a(2), block_type=('Control', 'TwoNest'))),
]
FLAGS = {'center_horizontal': 1, 'left': 3, 'right': 5, 'center_vertical': 16, 'center': 17, 'top': 48, 'bottom': 80}


def same(ck, e, st, key, v, spec, T, args, where):
    """v, of type T, is what the table says"""
    if isinstance(v, tuple) and v[0] == 'mref':
        v = e.deref(st, v)
    if isinstance(spec, Arg):
        w = args[spec.i]
        w = e.deref(st, w) if w[0] == 'mref' else w
        ck.judge(key, cmp(e, st, v, m.Some(w) if spec.some else w, key), where)
    elif isinstance(spec, Some):
        ck.judge(key, cmp(e, st, v, m.Some(L_(spec.x)), key), where)
    elif spec is None:
        ck.judge(key, cmp(e, st, v, m.NONE, key), where)
    elif isinstance(spec, bool):
        ck.judge(key, cmp(e, st, v, ('bool', spec), key), where)
    elif isinstance(spec, int):
        ck.judge(key, cmp(e, st, v, ('int', spec, T[1] if T[0] == 'p' else 'u32'), key), where)
    elif isinstance(spec, float):
        if v[0] == 'flt':
            if float(re_num(v[1])) == spec:
                ck.ok(key)
            else:
                ck.bad(key, 'is %s, not %s' % (v[1], spec), where)
        else:
            ck.und(key, 'is %s' % render(v)[:80], where)
    elif isinstance(spec, str) and T[0] == 'a' and T[1] in ck.p.adts and T[1] not in ('std::string::String',):
        mk = Mk(ck, e)
        ck.judge(key, cmp(e, st, v, mk.var(T[1], spec), key), where)
    elif isinstance(spec, str):
        ck.judge(key, cmp(e, st, v, L_(spec), key), where)
    elif spec == EMPTY and isinstance(spec, list):
        if v[0] in ('vec', 'map') and not v[1]:
            ck.ok(key)
        elif v[0] in ('vec', 'map') and any(i[0] == 'one' for i in v[1]):
            ck.bad(key, 'starts with %s' % render(v)[:100], where)
        else:
            ck.und(key, 'is %s' % render(v)[:100], where)
    else:
        if v[0] == 'sym':
            v = e.expand(v)
        if v[0] != 'adt':
            ck.und(key, 'is %s' % render(v)[:100], where)
            return
        fs = ck.p.adts[v[1]]['variants'][v[2]]['f']
        if isinstance(spec, tuple) and spec and isinstance(spec[0], str):
            mk = Mk(ck, e)
            ck.judge(key, cmp(e, st, v, mk.type(spec), key), where)
            return
        if isinstance(spec, tuple):
            spec = {str(i): x for i, x in enumerate(spec)}
        names = [f['n'] for f in fs]
        for n, x in spec.items():
            if n not in names:
                continue            # the field was renamed or removed: nothing is claimed about it
            i = names.index(n)
            same(ck, e, st, '%s: %s' % (key, n), v[3][i], x, ck.p.T(fs[i]['t']), args, where)


def re_num(s):
    import re
    return re.sub(r'_?f(32|64)$', '', str(s))


def c28_new(ck):
    for fn, spec in NEW:
        if fn not in ck.p.bodies:
            if fn.startswith('<'):
                continue        # derived or gone: the derive gives the same only if the fields do; nothing to read here
            raise Missing(fn)
        ck.fn(fn)
        b = ck.p.bodies[fn]
        where = ck.span(fn)
        short = fn.replace(' as std::default::Default>', '').split('::')
        key = '::'.join(short[-2:])
        with ck.case(key, where):
            e = ck.eng(cls='raw')
            args = []
            st = st0()
            for i in range(b['args']):
                T = ck.p.T(b['locals'][i + 1])
                while T[0] == 'r':
                    T = T[2]
                args.append(e.mk('arg%d' % i, T))
            for s2, v in call(e, st, fn, args):
                same(ck, e, s2, key, v, spec, ck.p.T(b['locals'][0]), args, where)
            for q in e.panics:
                ck.bad(key + ' no panic', 'panics: %s' % (q,), where)


def c28_category(ck):
    """the color of a new block is the one its category has"""
    conv = [n for n in ck.p.bodies if n in ('<color::Color as std::convert::From<api::block::BlockCategory>>::from',
                                            '<api::block::BlockCategory as std::convert::Into<color::Color>>::into')]
    cat = AB + 'BlockCategory'
    if cat not in ck.p.adts or not conv:
        return
    for fn in ('Block::new', 'Block::new_1substack', 'Block::new_2substack'):
        fn = AB + fn
        if fn not in ck.p.bodies:
            raise Missing(fn)
        b = ck.p.bodies[fn]
        for vi, v in enumerate(ck.p.adts[cat]['variants']):
            key = '%s color of %s' % (fn.split('::')[-1], v['n'])
            with ck.case(key, ck.span(fn)):
                e = ck.eng()
                c = ('adt', cat, vi, ())
                args = [c] + [e.mk('arg%d' % i, ck.p.T(b['locals'][i + 1])) for i in range(1, b['args'])]
                want = [r for _, r in call(e, st0(), conv[0], [c])]
                for s2, r in call(e, st0(), fn, args):
                    names = [f['n'] for f in ck.p.adts[r[1]]['variants'][0]['f']]
                    if 'color' in names and len(want) == 1:
                        ck.judge(key, cmp(e, s2, r[3][names.index('color')], want[0], key), ck.span(fn))


def c28_builder(ck):
    """the items of a content that is built are the given ones, in their order; reading its arguments mutably gives these arguments"""
    B = AB + 'BlockContentBuilder::'
    F = {n: B + n for n in ('text', 'arg', 'build')}
    F['builder'] = AB + 'BlockContent::builder'
    for f in F.values():
        if f not in ck.p.bodies:
            raise Missing(f)
        ck.fn(f)
    import itertools
    for w in [x for n in range(4) for x in itertools.product('ta', repeat=n)]:
        key = 'builder ' + ''.join(w)
        with ck.case(key, ck.span(F['arg'])):
            e = ck.eng()
            mk = Mk(ck, e)
            ss = [(s, r) for s, r in call(e, st0(), F['builder'], [])]
            items = []
            for i, k in enumerate(w):
                if k == 't':
                    x = e.mk('t%d' % i, ('a', 'std::string::String', ()))
                    items.append(mk.text(x))
                    ss = [o for s, r in ss for o in call(e, s, F['text'], [r, x])]
                else:
                    x = e.mk('a%d' % i, A(AB + 'Argument'))
                    items.append(mk.var(AB + 'SpecItem', 'Parameter', _0=x))
                    ss = [o for s, r in ss for o in call(e, s, F['arg'], [r, x])]
            for s, r in ss:
                for s2, v in call(e, s, F['build'], [r]):
                    ck.judge(key, cmp(e, s2, v, mk.content(items), key), ck.span(F['build']))
    fn = AB + 'BlockContent::get_args_mut'
    if fn not in ck.p.bodies:
        raise Missing(fn)
    ck.fn(fn)
    for w in [x for n in range(4) for x in itertools.product('ta', repeat=n)]:
        key = 'get_args_mut ' + ''.join(w)
        with ck.case(key, ck.span(fn)):
            e = ck.eng()
            mk = Mk(ck, e)
            items, want = [], []
            for i, k in enumerate(w):
                if k == 't':
                    items.append(mk.text(e.mk('t%d' % i, ('a', 'std::string::String', ()))))
                else:
                    want.append(mk.arg('S', mk.var(AB + 'ArgValue', 'Value', _0=e.mk('a%d' % i, ('a', 'std::string::String', ())))))
                    items.append(mk.var(AB + 'SpecItem', 'Parameter', _0=want[-1]))
            st, c = cell(e, st0(), mk.content(items), A(BC))
            for s2, r in call(e, st, fn, [c]):
                if r[0] != 'vec' or any(i[0] != 'one' for i in r[1]):
                    ck.und(key, 'is %s' % render(r)[:100], ck.span(fn))
                    continue
                got = vec([e.deref(s2, i[1]) if i[1][0] == 'mref' else i[1] for i in r[1]])
                ck.judge(key, cmp(e, s2, got, vec(want), key), ck.span(fn))


def c28_gravity(ck):
    """a flag is set exactly when all of its bits are: decided bit by bit for every one of the 256 values"""
    G = V + 'layout::gravity::Gravity'
    for f, bits in FLAGS.items():
        fn = G + '::' + f
        if fn not in ck.p.bodies:
            raise Missing(fn)
        ck.fn(fn)
        key = 'gravity ' + f
        need = [k for k in range(8) if bits >> k & 1]
        for g in range(256):
            with ck.case(key, ck.span(fn)):
                e = ck.eng()
                st, r = cell(e, st0(), ('adt', G, 0, (('int', g, 'u8'),)), A(G))
                for s1, v in call(e, st, fn, [r]):
                    for s2, b in e.truth(s1, v):
                        if b != all(g >> k & 1 for k in need):
                            ck.bad(key, 'is %s of the gravity %d' % (b, g), ck.span(fn))
                        else:
                            ck.ok('%s of %d' % (key, g))


def c28_iter(ck):
    fn = '<%sBlocks as std::iter::IntoIterator>::into_iter' % AB
    if fn not in ck.p.bodies:
        return
    ck.fn(fn)
    for n in range(4):
        key = 'into_iter of %d blocks' % n
        with ck.case(key, ck.span(fn)):
            e = ck.eng()
            bl = [e.mk('b%d' % i, A(AB + 'Block')) for i in range(n)]
            for s, r in call(e, st0(), fn, [('adt', AB + 'Blocks', 0, (vec(bl),))]):
                for s2, got in m.collect_into(e, s, 'it', r, ('a', 'std::vec::Vec', (A(AB + 'Block'),))):
                    ck.judge(key, cmp(e, s2, got, vec(bl), key), ck.span(fn))


def c28(ck):
    c28_new(ck)
    c28_category(ck)
    c28_builder(ck)
    c28_gravity(ck)
    c28_iter(ck)
