"""C01: no text makes the reader panic.

Every reader is interpreted on arbitrary text; every construct of the interpreted code that can panic (slicing, indexing,
unwrapping, removing from a list, failed assertions, explicit panics) is an obligation.  A construct whose failing branch is
reachable under the facts of a path, with a concrete text that satisfies them, is a violation."""
import itertools
import re
import checks_block as B
import checks_text as T
import checks_err as R
import checks_proj as P
import checks_fx as FX
import witness
from core import *

STRP = ('r', False, ('p', 'str'))
ATOM = re.compile(r'^(t|l\d+|s\d+|a\d+|spec)$')


def report(ck, e, name, where, atoms):
    """one obligation per run; panics are judged"""
    seen = set()
    bad = False
    for p in e.panics:
        fn, sp, what, facts = p[0], p[1], p[2], p[3]
        env, unk = witness.find(facts, atoms)
        key = '%s: %s in %s' % (name, what, fn)
        strs = 'slic' in what or 'character' in what
        if env is None or (strs and unk):
            ck.und(key, 'no text found that takes this path: %s' % (list(facts.items())[:6],), sp)
        elif any(has_unknown(k[1]) for k in facts if isinstance(k[1], str)):
            ck.und(key, 'the path depends on something that is not modelled', sp)
        else:
            bad = True
            ck.bad(key, 'panics at %s%s' % (sp, ' for the text %r' % '\n'.join(env[a] for a in atoms) if atoms else '; ' + ', '.join('%s=%s' % (k[1], v) for k, v in list(facts.items())[:6])), sp)
    if not e.panics:
        ck.ok('%s does not panic' % name, '%d paths' % e.paths, where)


def run(ck, name, fn, mkargs, atoms, facts=None, opaque=(), unroll=None, distinct=False, cls='raw', classify=None):
    if fn not in ck.p.bodies:
        ck.und(name, '%s no longer exists' % fn)
        return
    where = ck.span(fn)
    ck.roots = getattr(ck, 'roots', set()) | {fn}
    with ck.case(name, where):
        e = ck.eng(cls=cls, opaque=tuple(o for o in opaque if o in ck.p.bodies))
        e.overflow = True
        e.budget = 300000
        e.distinct = distinct
        if unroll:
            e.unroll = unroll
        n = 0
        st = St({}, dict(facts or {}), {}, ())
        a = mkargs(e)
        if isinstance(a, tuple):
            st, a = a
        for s, r in call(e, st, fn, a):
            n += 1
        report(ck, e, name, where, atoms)
        ck.count('runs')
        ck.count('paths', n)


def lines(n):
    segs = []
    for i in range(n):
        if i:
            segs.append(('L', '\n'))
        segs.append(('A', 'l%d' % i, 'line'))
    return ('str', tuple(segs))


def c01(ck):
    thorough = ck.tier == 'thorough'
    # ---- every text parser, on any text
    for t in T.SIMPLE + ['logic::Logic']:
        nm = t.split('::')[-1]
        f = R.impl(ck, t, 'parse')
        if t not in ('library::Library', 'view::View', 'logic::Logic'):
            run(ck, 'reading any text as %s' % nm, f, lambda e: [e.mk('t', STRP)], ['t'])
        if t in T.SIMPLE[:5] or 'Pool' in nm or nm in ('Logic', 'BlockContainer'):
            for n in range(0, 6 if thorough else 5):
                run(ck, 'reading %d lines as %s' % (n, nm), f, lambda e: [lines(n)], ['l%d' % i for i in range(n)])
    raw_items(ck, thorough)
    stored(ck)
    models(ck, thorough)
    sites(ck, sorted(ck.roots))


def raw_items(ck, thorough):
    """readers of one item, and of scalars"""
    S, V = A('std::string::String'), A('std::vec::Vec', A('std::string::String'))
    BC = 'api::block::BlockContent::'
    run(ck, 'splitting any spec with any arguments', BC + 'parse', lambda e: [e.mk('spec', S), e.mk('args', V)], ['spec'])
    run(ck, 'splitting any spec', BC + 'parse_wo_params', lambda e: [e.mk('spec', STRP)], ['spec'])
    run(ck, 'filling any content', BC + 'apply_args', lambda e: [e.mk('c', A('api::block::BlockContent')), e.mk('args', V)], [])

    def spec(n):
        segs = []
        for i in range(n):
            if i:
                segs.append(('L', ' '))
            segs.append(('A', 'w%d' % i, 'word'))
        return ('str', tuple(segs))
    for n in (1, 2):
        for m in range(3):
            run(ck, 'splitting a spec of %d words with %d arguments' % (n, m), BC + 'parse',
                lambda e: [spec(n), ('vec', tuple(('one', ('str', (('A', 'a%d' % i, 'raw'),))) for i in range(m)))],
                ['w%d' % i for i in range(n)] + ['a%d' % i for i in range(m)])
    run(ck, 'reading any color', 'color::Color::parse_hex', lambda e: [e.mk('t', STRP)], ['t'])
    for f in ('color::Color::from_rgb', 'color::Color::from_argb'):
        if f in ck.p.bodies:
            run(ck, 'making a color with ' + f.split('::')[-1], f, lambda e: [e.mk('c%d' % i, T) for i, T in enumerate(argtypes(ck, f))], [])
    run(ck, 'reading any block type', 'api::block::BlockType::from', lambda e: [e.mk('t', STRP), e.mk('n', S)], ['t', 'n'])
    run(ck, 'finding the category of any block', 'api::block::Block::category', lambda e: [e.mk('b', ('r', False, A('api::block::Block')))], [])
    for t in ('logic::variable::Variable', 'logic::list_variable::ListVariable', 'logic::more_block::MoreBlock', 'logic::BlockContainerHeader', 'logic::Block', 'logic::component::Component',
              'logic::event::Event', 'view::models::AndroidView', 'file::FileItem', 'library::LibraryItem', 'resource::ResourceItem', 'project::Project'):
        f = R.impl(ck, t, 'parse')
        run(ck, 'reading any text as one %s' % t.split('::')[-1], f, lambda e: [e.mk('t', STRP)], ['t'])


def models(ck, thorough):
    """conversions of whatever the parsers accepted"""
    import checks_io as IO
    import checks_events as EV
    PSP, RAW, RFW = IO.PSP, IO.RAW, IO.RFW
    S, RL = A(IO.STR_), A(IO.VEC, A(RFW))
    bytes_ = A(IO.VEC, ('p', 'u8'))
    parses = [IO.pfn(t, 'parse') for t in IO.PMOD.values()] + [IO.RF_TRY]
    parts = lambda e: [e.mk(n, S) for n in IO.PARTS]
    encs = lambda e: [e.mk(n, bytes_) for n in IO.PARTS]
    run(ck, 'decrypting any bytes', 'decrypt_sw_encrypted', lambda e: [e.mk('d', b_arg(ck, 'decrypt_sw_encrypted'))], [])
    run(ck, 'decrypting a project', RAW + '::from_encrypted', lambda e: encs(e) + [e.mk('files', RL)], [], opaque=['decrypt_sw_encrypted'])
    run(ck, 'decrypting a project without files', RAW + '::from_encrypted_wo_res', encs, [], opaque=['decrypt_sw_encrypted'])
    run(ck, 'parsing a project', PSP + '::parse_from', lambda e: [e.mk('r', A(RAW))], [], opaque=parses)
    run(ck, 'parsing a project with files', PSP + '::parse', lambda e: parts(e) + [e.mk('files', RL)], [], opaque=parses)
    run(ck, 'parsing a project without files', PSP + '::parse_wo_res', parts, [], opaque=parses)
    fp = 'api::screen::Screen::from_parsed'
    opq = ['api::view::parse_raw_layout', EV.BTRY, BCW, 'api::component::ComponentKind::from_parser_component', EV.ETRY]
    run(ck, 'building any screen', fp, lambda e: [e.mk(n, T) for n, T in zip(('layout_name', 'logic_name', 'f', 'v', 'l', 'fab'), argtypes(ck, fp))], [], opaque=opq, distinct=True)
    run(ck, 'building any API model', P.TRY, lambda e: [e.mk('p', A(P.PP))], [], opaque=[fp, 'api::view::parse_raw_layout'], distinct=True)
    run(ck, 'reading any event', EV.ETRY, lambda e: [e.mk('p', A(EV.PE))], [])
    for fn, nm in (('api::component::ComponentKind::from_parser_component', 'component'), ('api::view::View::from', 'view'), ('api::view::ViewType::from_view', 'view type')):
        if fn in ck.p.bodies:
            run(ck, 'converting any %s' % nm, fn, lambda e: [e.mk('x%d' % i, T) for i, T in enumerate(argtypes(ck, fn))], [])
    layouts(ck)
    blocks(ck, thorough)


BCW = 'api::block::BlockContent::parse_wo_params'


def argtypes(ck, fn):
    b = ck.p.bodies[fn]
    return [ck.p.T(b['locals'][i + 1]) for i in range(b['args'])]


def b_arg(ck, fn):
    return argtypes(ck, fn)[0]


def layouts(ck):
    """lists of views with every parent relation, including missing, repeated and circular parents"""
    import checks_view as W
    fn = 'api::view::parse_raw_layout'
    k = 3
    for n in range(k + 1):
        for rel in itertools.product(['root', None, 'nobody'] + ['v%d' % i for i in range(n)], repeat=n):
            def mk(e):
                mk = B.Mk(ck, e)
                return [('adt', W.LAY, 0, (W.vec([W.rawview(mk, 'v%d' % i, p) for i, p in enumerate(rel)]),))]
            run(ck, 'building views with parents %s' % (list(rel),), fn, mk, [], unroll=8)
    for rel in itertools.product(['root', None, 'nobody', 'v'], repeat=2):
        def mk(e):
            mk = B.Mk(ck, e)
            return [('adt', W.LAY, 0, (W.vec([W.rawview(mk, 'v', p) for p in rel]),))]
        run(ck, 'building two views of the same name with parents %s' % (list(rel),), fn, mk, [], unroll=8)
    run(ck, 'building one view of any kind', fn, lambda e: [('adt', W.LAY, 0, (W.vec([B.Mk(ck, e).adt(W.RV, 'v')]),))], [], unroll=4)


def blocks(ck, thorough):
    """lists of blocks with every link relation: none, itself, each other, a block that is not there; ids that repeat"""
    rd, _ = B.conv(ck)

    def lists():
        yield 'no blocks', lambda mk: [], []
        yield 'one block of any kind', lambda mk: [mk.adt(B.PBK, 'b0')], []
        yield 'two blocks of any kind and the same id', lambda mk: [mk.adt(B.PBK, 'b0', id=mk.e.mk('id', A('std::string::String'))), mk.adt(B.PBK, 'b1', id=mk.e.mk('id', A('std::string::String')))], []
        links = ['next', 'ss1', 'ss2', 'arg']
        for ids in ([10], [10, 11], [10, 10]):
            to = sorted(set(ids)) + [99, -7]

            def sets():
                for r in range(3 if len(ids) == 1 or thorough else 2):
                    for ls in itertools.combinations(links, r):
                        for ts in itertools.product(to, repeat=r):
                            if not ('arg' in ls and ts[ls.index('arg')] < 0):
                                yield dict(zip(ls, ts))
            for g in itertools.product(list(sets()), repeat=len(ids)):
                def mkl(mk, g=g, ids=ids):
                    return [B.pblock(mk, 'b%d' % i, ids[i], b.get('next', -1), '%s w' if 'arg' in b else 'w', [B.lit('@%d' % b['arg'])] if 'arg' in b else [],
                                     b.get('ss1', -1), b.get('ss2', -1)) for i, b in enumerate(g)]
                yield 'blocks %s with links %s' % (ids, ' '.join('{%s}' % ','.join('%s=%d' % kv for kv in b.items()) for b in g)), mkl, []
        for spec in ('w', '%s w', '%b w', '%d.x w', '%m.y w', '%s %s w', '%', '%%', '%m', '%m.', '%b.', '', ' '):
            for n in range(3):
                yield 'a block with the spec %r and %d arguments' % (spec, n), lambda mk, spec=spec, n=n: [
                    B.pblock(mk, 'b0', 10, -1, spec, [('str', (('A', 'a%d' % i, 'raw'),)) for i in range(n)])], ['a%d' % i for i in range(n)]
    for name, mkl, atoms in lists():
        run(ck, 'reading ' + name, rd, lambda e: [B.container(mkl(B.Mk(ck, e)))], atoms, unroll=12)


def stored(ck):
    """the readers of single JSON values, on any text and any number"""
    import checks_json as J
    for T, k, how in J.STORED:
        for what, val in (('text', lambda e: ('val', J.TEXT, e.mk('t', S_))), ('number', lambda e: ('val', J.I64, e.mk('n', J.I64))), ('small number', lambda e: ('val', ('p', 'u8'), e.mk('n', ('p', 'u8'))))):
            name = 'reading any %s as %s.%s' % (what, J.short(T), k)
            with ck.case(name):
                c, ser, de = J.codec(ck, T)
                e = c.e
                e.overflow = True
                x = e.mk('x', A(T), 'raw')
                st, n = next((s, m) for s, m in c.serialize(st0(), ser, x) if m is not None)
                e.panics.clear()
                if n[0] != 'obj' or k not in dict(n[1]):
                    raise Undecided('record form')
                v = val(e)
                m = sum(1 for _ in c.deserialize(st, de, ('obj', tuple((kk, v if kk == k else mm) for kk, mm in n[1]))))
                report(ck, e, name, ck.span(de), ['t'] if what == 'text' else [])
                ck.count('runs')
                ck.count('paths', m)


S_ = A('std::string::String')
PANICS = re.compile(r'::(unwrap|expect|unwrap_err|expect_err|index|index_mut|remove|swap_remove|insert|split_at|drain|split_off|copy_from_slice|clone_from_slice|from_digit|to_digit|step_by|chunks|windows)$|panic|unreachable|unimplemented|todo')


def psites(b):
    for bb in b['b']:
        t = bb[1] if bb else None
        if not isinstance(t, dict):
            continue
        if t['k'] == 'assert':
            yield t['sp'], t['msg']
        elif t['k'] == 'call' and 'f' in t and not t.get('rl'):
            f = t.get('r') or t['f']
            if PANICS.search(f) and not any(x in f for x in ('HashMap', 'BTreeMap', 'HashSet', 'HashTable', 'BTreeSet', 'unwrap_failed')):
                yield t['sp'], f.split('::')[-1]


WRITERS = re.compile(r'as std::convert::From<api::|reconstruct|serde::Serialize>|to_block_container|get_full_name|as_num|^<.* as std::fmt::')


def sites(ck, roots):
    """every construct that can panic in a function reachable from the readers is in a function that was interpreted"""
    g = FX.Graph(ck.p)
    seen = set()
    for e in ck._engs:
        seen |= e.fns
    # the call graph sees every conversion between the types of a function: those that write are left out
    g.edges = {k: [x for x in v if not WRITERS.search(x)] for k, v in g.edges.items()}
    reach = set()
    for r in roots:
        reach |= set(g.reach(r))
    for f in sorted(reach):
        b = ck.p.bodies[f]
        if b['kind'] not in ('Fn', 'AssocFn', 'Closure') or 'serde::Serialize>' in f:
            continue
        for sp, what in psites(b):
            if f in seen:
                ck.ok('%s at %s' % (what, sp), 'in an interpreted function: %s' % f, sp)
            else:
                ck.und('%s at %s' % (what, sp), '%s was not interpreted' % f, sp)
            ck.count('constructs that can panic')
