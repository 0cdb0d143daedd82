"""C18: a failing step makes the whole operation fail, and the error carries the failure.

Every operation is interpreted with the steps it is made of left open: a step is an unknown function that may succeed with an
unknown value or fail with an unknown error.  On every path on which a step has failed the result must be an error that
contains the error of that step; a guard `step = Err` below a successful result is a failure that was swallowed."""
import re
from core import *
import checks_text as T
import checks_proj as P
from checks_api import no_panics

EXT = re.compile(r'^(parse<|from_json<|to_json\b|radix\d+<|from_utf8|utf8|decrypt\(|read\(|write\(|fs_)')
PZ = 'parser::Parsable'


def short(n):
    return n.split('::')[-1] if not n.startswith('<') else n.split(' as ')[0].split('::')[-1] + '::' + n.split('::')[-1]


def steps(e, opq):
    """path of the result of a step -> its name"""
    out = {}
    for path, (fn, args) in list(e.apps.items()):
        if fn in opq:
            out[path] = short(fn)
    return out


def failed_guards(v, S, out):
    """guards below v that say a step failed"""
    if isinstance(v, tuple):
        if len(v) == 2 and isinstance(v[0], tuple) and len(v[0]) == 2 and v[0][0] == 'v' and v[1] == 1 and isinstance(v[0][1], str):
            if v[0][1] in S or EXT.match(v[0][1]):
                out.add(v[0][1])
        for x in v:
            if isinstance(x, tuple):
                failed_guards(x, S, out)
    return out


def failed_facts(st, S, known=()):
    return [k[1] for k, v in st.facts.items() if k[0] == 'v' and v == 1 and (k[1] in S or EXT.match(k[1])) and k[1] not in known]


def mentions(v, p):
    if isinstance(v, str):
        return p in v
    if isinstance(v, tuple):
        return any(mentions(x, p) for x in v)
    return False


DOC = {}


def judge(ck, name, e, st, ok, v, opq, seen, where, carries=True):
    S = steps(e, opq)
    ff = failed_facts(st, S)
    if ok:
        g = failed_guards(v, S, set())
        for x in st.log:
            failed_guards(x, S, g)
        for p in set(ff) | g:
            ck.bad('%s: %s fails' % (name, S.get(p, p.split('(')[0])), 'the operation succeeds although %s failed' % p[:200], where)
        seen['ok'] = seen.get('ok', 0) + 1
        if not ff and not g:
            ck.ok('%s: succeeds only if every step did' % name, factstr(st), where)
        return
    for p in ff:
        nm = S.get(p, p.split('(')[0])
        seen[nm] = seen.get(nm, 0) + 1
        if not carries or mentions(v, p + '@Err') or v == ('tup', ()):      # an error type without content has nothing to carry
            ck.ok('%s: %s fails' % (name, nm), 'reported', where)
        elif has_unknown(v):
            ck.und('%s: %s fails' % (name, nm), 'the error is %s' % render(v)[:200], where)
        else:
            ck.bad('%s: %s fails' % (name, nm), 'the error does not carry the failure of %s: %s' % (p[:120], render(v)[:200]), where)


def finish(ck, name, opq, seen, where, need=None):
    if not seen.get('ok'):
        ck.und('%s: succeeds' % name, 'no successful path', where)
    for f in (need if need is not None else opq):
        if not seen.get(short(f)):
            ck.und('%s: %s fails' % (name, short(f)), 'no path on which it fails (it may not be called any more)', where)


def impl(ck, T_, m):
    f = ck.p.find_impl(PZ, m, A('parser::' + T_))
    if not f:
        raise Missing('%s of %s' % (m, T_))
    return f


LV, LO = 'logic::variable::', 'logic::'
POOLS = [('logic::variable::VariablePool', 'logic::variable::Variable'), ('logic::list_variable::ListVariablePool', 'logic::list_variable::ListVariable'),
         ('logic::component::ComponentPool', 'logic::component::Component'), ('logic::event::EventPool', 'logic::event::Event'),
         ('logic::more_block::MoreBlockPool', 'logic::more_block::MoreBlock'), ('logic::BlockContainer', 'logic::Block')]
SECT = [('file::File', ['file::FileItem']), ('library::Library', ['library::LibraryItem']), ('resource::Resource', ['resource::ResourceItem']),
        ('view::Layout', ['view::models::AndroidView']), ('view::View', ['view::models::AndroidView'])]
ITEMS = [i for _, i in POOLS]


def reading(ck, name, T_, items, facts=None, need=None):
    rec, parse = impl(ck, T_, 'reconstruct'), impl(ck, T_, 'parse')
    opq = [impl(ck, i, 'parse') for i in items]
    where = ck.span(parse)
    seen = {}
    with ck.case('%s is read' % name, where):
        e = ck.eng(cls='id', opaque=tuple(opq))
        e.budget = 200000
        x = e.mk('x', A('parser::' + T_))
        for st, r in call(e, St({}, dict(facts or {}), {}, ()), rec, [x]):
            for s2, ok, t in e.res(st, r):
                if not ok:
                    continue
                for s3, r2 in call(e, s2, parse, [t]):
                    for s4, ok2, v in e.res(s3, r2):
                        judge(ck, 'reading %s' % name, e, s4, ok2, v, opq, seen, where)
        finish(ck, 'reading %s' % name, opq, seen, where, need)


def writing(ck, name, T_, items, facts=None, need=None):
    if any(p in NEVER and i == items[0] for p, i in POOLS):
        need = []           # writing such an item cannot fail
    rec = impl(ck, T_, 'reconstruct')
    opq = [impl(ck, i, 'reconstruct') for i in items]
    where = ck.span(rec)
    seen = {}
    with ck.case('%s is written' % name, where):
        e = ck.eng(cls='id', opaque=tuple(opq))
        e.budget = 200000
        x = e.mk('x', A('parser::' + T_))
        for st, r in call(e, St({}, dict(facts or {}), {}, ()), rec, [x]):
            for s2, ok, t in e.res(st, r):
                judge(ck, 'writing %s' % name, e, s2, ok, t, opq, seen, where)
        finish(ck, 'writing %s' % name, opq, seen, where, need)


def whole(ck, name, fn, mk, opq, need=None, **kw):
    """a conversion whose steps are other functions"""
    if fn not in ck.p.bodies:
        ck.und(name, '%s no longer exists' % fn)
        return
    f = fn
    opq = [o for o in opq if o in ck.p.bodies]      # a step that is gone is gone through
    where = ck.span(f)
    seen = {}
    with ck.case(name, where):
        e = ck.eng(opaque=tuple(opq), cls=kw.get('cls', 'raw'))
        e.distinct = kw.get('distinct', False)
        e.budget = 200000
        args = mk(e)
        for st, r in call(e, St({}, dict(kw.get('facts', {})), {}, ()), f, args):
            for s2, ok, v in e.res(st, r):
                judge(ck, name, e, s2, ok, v, opq, seen, where, kw.get('carries', True))
        finish(ck, name, opq, seen, where, need)


def c18(ck):
    for pool, item in POOLS:
        reading(ck, pool.split('::')[-1], pool, [item])
        writing(ck, pool.split('::')[-1], pool, [item])
    for T_, items in SECT:
        reading(ck, T_.split('::')[-1], T_, items)
        writing(ck, T_.split('::')[-1], T_, items)
    # logic: one screen with each one of the pools, and with all of them
    for on in [(p,) for p in T.POOLS]:
        it = {'variables': 0, 'list_variables': 1, 'components': 2, 'events': 3, 'more_blocks': 4, 'blocks': 5}
        items = [POOLS[it[o]][1] for o in on]
        reading(ck, 'Logic with ' + '+'.join(on), 'logic::Logic', items, T.world(on))
        writing(ck, 'Logic with ' + '+'.join(on), 'logic::Logic', items, T.world(on))
    conversions(ck)
    malformed(ck)
    import checks_report
    checks_report.decoys(ck)
    checks_report.odd_lines(ck)


NEVER = {'logic::variable::VariablePool', 'logic::list_variable::ListVariablePool', 'logic::event::EventPool', 'logic::more_block::MoreBlockPool'}


def conversions(ck):
    import checks_io as IO
    import checks_block as B
    import checks_events as EV
    PSP, RAW, RFW = IO.PSP, IO.RAW, IO.RFW
    S, RL = A(IO.STR_), A(IO.VEC, A(RFW))
    parses = [ck.fn(IO.pfn(t, 'parse')) for t in IO.PMOD.values()]
    recons = [ck.fn(IO.pfn(t, 'reconstruct')) for t in IO.PMOD.values()]
    rft = ck.fn(IO.RF_TRY)
    parts = lambda e: [e.mk(n, S) for n in IO.PARTS]
    whole(ck, 'parsing a project', PSP + '::parse_from', lambda e: [e.mk('r', A(RAW))], parses + [rft])
    whole(ck, 'parsing a project with files', PSP + '::parse', lambda e: parts(e) + [e.mk('files', RL)], parses + [rft])
    whole(ck, 'parsing a project without files', PSP + '::parse_wo_res', parts, parses)
    raw_into = ck.fn('<%s as std::convert::TryInto<%s>>::try_into' % (PSP, RAW), '<%s as std::convert::TryFrom<%s>>::try_from' % (RAW, PSP))
    whole(ck, 'writing a project', raw_into, lambda e: [e.mk('p', A(PSP))], recons)
    bytes_ = A(IO.VEC, ('p', 'u8'))
    encs = lambda e: [e.mk(n, bytes_) for n in IO.PARTS]
    whole(ck, 'decrypting a project', RAW + '::from_encrypted', lambda e: encs(e) + [e.mk('files', RL)], ['decrypt_sw_encrypted'])
    whole(ck, 'decrypting a project without files', RAW + '::from_encrypted_wo_res', encs, ['decrypt_sw_encrypted'])
    whole(ck, 'decrypting a file', 'decrypt_sw_file', lambda e: [e.mk('file', ('r', False, A('std::path::Path')))], ['decrypt_sw_encrypted'])
    # a screen
    opq = ['api::view::parse_raw_layout', EV.BTRY, 'api::block::BlockContent::parse_wo_params', 'api::component::ComponentKind::from_parser_component', EV.ETRY]
    b = ck.p.bodies[ck.fn('api::screen::Screen::from_parsed')]
    whole(ck, 'building a screen', 'api::screen::Screen::from_parsed',
          lambda e: [e.mk(n, ck.p.T(b['locals'][i + 1])) for i, n in enumerate(('layout_name', 'logic_name', 'f', 'v', 'l', 'fab'))], opq, distinct=True)
    opq = ['api::screen::Screen::from_parsed', 'api::view::parse_raw_layout']
    whole(ck, 'building the API model', P.TRY, lambda e: [e.mk('p', A(P.PP))], opq, distinct=True)
    whole(ck, 'reading an event', EV.ETRY, lambda e: [e.mk('p', A(EV.PE))], ['api::screen::EventType::from_parser_event'])
    B.c14_errors(ck)
    # scalars
    STR = ('r', False, ('p', 'str'))
    for t in ('logic::variable::Variable', 'logic::list_variable::ListVariable', 'logic::more_block::MoreBlock', 'logic::BlockContainerHeader', 'logic::Block', 'logic::component::Component',
              'logic::event::Event', 'view::models::AndroidView', 'file::FileItem', 'library::LibraryItem', 'resource::ResourceItem', 'project::Project'):
        f = impl(ck, t, 'parse')
        whole(ck, 'reading one %s' % t.split('::')[-1], f, lambda e: [e.mk('t', STR)],
              [n for n in ck.p.bodies if n.startswith('<parser::logic::variable::VariableType as std::convert::TryFrom<') and n.endswith('::try_from')] if 'ariable' in t else [])
    whole(ck, 'reading a block type', 'api::block::BlockType::from', lambda e: [e.mk('t', STR), e.mk('n', S)], [])
    whole(ck, 'reading a color', 'color::Color::parse_hex', lambda e: [e.mk('t', STR)], [])
    whole(ck, 'finding a category', 'api::block::Block::category', lambda e: [e.mk('b', ('r', False, A('api::block::Block')))], [n for n in ck.p.bodies if n.startswith('<api::block::BlockCategory as std::convert::TryFrom<') and n.endswith('::try_from')])


# ---------------------------------------------------------------- structure

def must_fail(ck, name, T_, text, items):
    """a text whose structure is broken is rejected even if every item in it can be read"""
    parse = impl(ck, T_, 'parse')
    opq = [impl(ck, i, 'parse') for i in items]
    where = ck.span(parse)
    with ck.case(name, where):
        e = ck.eng(cls='id', opaque=tuple(opq))
        n = 0
        for st, r in call(e, st0(), parse, [('str', (('L', text),) if text else ())]):
            for s2, ok, v in e.res(st, r):
                n += 1
                if ok:
                    (ck.und if has_unknown(v) else ck.bad)('%s is rejected' % name, '%r is read as %s' % (text, render(v)[:200]), where)
                else:
                    ck.ok('%s is rejected' % name, render(v)[:150], where)
        if not n and not e.panics:
            ck.und('%s is rejected' % name, 'no complete path', where)
        for q in e.panics:
            ck.bad('%s is rejected' % name, 'panics: %s' % (q,), where)


def malformed(ck):
    H = ['@firebaseDB', '@compat', '@admob', '@googleMap']
    LI, AV = ['library::LibraryItem'], ['view::models::AndroidView']
    for k in range(4):
        for sub in __import__('itertools').combinations(H, k):
            must_fail(ck, 'library with %s' % (' '.join(sub) or 'nothing'), 'library::Library', '\n'.join(h + '\nitem' for h in sub), LI)
    for h in H:
        must_fail(ck, 'library ending in %s' % h, 'library::Library', '\n'.join(x + '\nitem' for x in H if x != h) + '\n' + h, LI)
    for pre in ('', '@main.xml\nitem\n\n', '@main.xml_fab\nitem\n'):
        must_fail(ck, 'view header without a kind%s' % (' after %s' % pre.split('\n')[0] if pre else ''), 'view::View', pre + '@main\nitem', AV)
        must_fail(ck, 'fab header at the end%s' % (' after %s' % pre.split('\n')[0] if pre else ''), 'view::View', pre + '@main.xml_fab', AV)
    for pre in ('', '@A.java_var\nitem\n\n', '@A.java_onCreate_initializeLogic\nitem\n\n'):
        for h in ('@', '@A', '@A.java', '@A_var', '@.jav_var'):
            must_fail(ck, 'logic header %s%s' % (h, ' after %s' % pre.split('\n')[0] if pre else ''), 'logic::Logic', pre + h + '\nitem', ITEMS)
    for t in ('logic::variable::Variable', 'logic::list_variable::ListVariable'):
        for x in ('', 'a', '1', 'a:b', ':', ':b', '-1:b', '256:b', '9:b', '1a:b', ' 1:b', '1 :b'):
            must_fail(ck, '%s %r' % (t.split('::')[-1], x), t, x, [])
    for x in ('', 'a'):
        must_fail(ck, 'MoreBlock %r' % x, 'logic::more_block::MoreBlock', x, [])
    for x in ('', 'A.java_x', '@A', '@'):
        must_fail(ck, 'block container header %r' % x, 'logic::BlockContainerHeader', x, [])
