"""Events and moreblocks (C11)."""
from core import *
from checks_api import vname, fld, fidx, no_panics, flatleaves
from checks_proj import *

PE, AE, ET = 'parser::logic::event::Event', 'api::screen::Event', 'api::screen::EventType'
ETRY = '<api::screen::Event as std::convert::TryFrom<parser::logic::event::Event>>::try_from'
FPARSED = 'api::screen::Screen::from_parsed'
OP_SCREEN = ('api::view::parse_raw_layout', BTRY, 'api::block::BlockContent::parse_wo_params')
CODES = {'ViewEvent': 1, 'ComponentEvent': 2, 'ActivityEvent': 3}


def cat(*parts):
    """the concatenation of terms as a string value"""
    out = []
    for p in parts:
        out += [('L', p)] if isinstance(p, str) else list(p[1])
    return ('str', tuple(out))


def container_name(e, st, kind, name, target):
    """(state, name) pairs: the container an event's code is stored in, on disk"""
    if kind in ('ViewEvent', 'ComponentEvent'):
        yield st, cat(target, '_', name)
        return
    for s2, b in models.str_eq(e, st, name, lit('onCreate')) if hasattr(models, 'str_eq') else eq_oncreate(e, st, name):
        yield s2, cat('onCreate_initializeLogic') if b else cat(name, '_', name)


def eq_oncreate(e, st, name):
    if all(s[0] == 'L' for s in name[1]):
        yield st, ''.join(s[1] for s in name[1]) == 'onCreate'
        return
    if len(name[1]) == 1 and name[1][0][0] == 'A':
        p = name[1][0][1]
        q = st.facts.get(('q', p))
        if q == 'onCreate':
            yield st, True
        elif isinstance(q, frozenset):
            if 'onCreate' in q:
                yield st, False
            else:
                s2 = st.copy()
                s2.facts[('q', p)] = 'onCreate'
                yield s2, True
                s2 = st.copy()
                s2.facts[('q', p)] = q | {'onCreate'}
                yield s2, False
        elif q is not None:
            yield st, False
        else:
            s2 = st.copy()
            s2.facts[('q', p)] = 'onCreate'
            yield s2, True
            s2 = st.copy()
            s2.facts[('q', p)] = frozenset({'onCreate'})
            yield s2, False
        return
    raise Undecided('event name %s' % render(name))


def code_of(e, v):
    """the container term that code v was converted from"""
    if v[0] == 'sym' and v[1].endswith('@Ok.0'):
        app = e.apps.get(v[1][:-len('@Ok.0')])
        if app and app[0] == BTRY:
            return app[1][0]
    if v[0] == 'adt' and v[1] == 'api::block::Blocks' and v[3] and v[3][0] == ('vec', ()):
        return ('adt', 'parser::logic::BlockContainer', 0, (('vec', ()),))
    return None


def judge_code(ck, e, st, code, name, key, w, M='l.block_containers'):
    """code must come from the container `name` (or be empty when there is none)"""
    src = code_of(e, code)
    if src is None:
        ck.judge(key, ('?' if has_unknown(code) or code[0] == 'sym' else 'n', 'code is %s' % render(code)), w)
        return
    want = render(name)
    if src[0] == 'sym':
        got = src[1]
        ck.judge(key, ('y', '') if got == '%s{%s}' % (M, want) else ('n' if got.startswith(M + '{') else '?', 'code is looked up as %s, it is stored under %s' % (got, want)), w)
        return
    if render(src) == 'BlockContainer{[]}':
        has = st.facts.get(('has', M, want))
        if has is False:
            ck.ok(key + ' (no code)')
            return
        # the container may be known to have been taken already: the name equals an earlier one
        dup = [k for k, v in st.facts.items() if k[0] == 'b' and k[1].startswith('eq(') and want in k[1] and v is True]
        other = [k for k, v in st.facts.items() if k[0] == 'has' and k[1] == M and v is False]
        lits = all(s[0] == 'L' for s in name[1])
        if dup:
            ck.ok(key + ' (taken)')
        elif other:
            ck.bad(key, 'code is looked up under %s, it is stored under %s' % (other[-1][2], want), w)
        elif has is True:
            ck.bad(key, 'the code stored under %s is dropped' % want, w)
        else:
            ck.judge(key, ('?', 'no code, lookup not recognised'), w)
        return
    ck.und(key, 'code from %s' % render(src), w)


def c11(ck):
    # ---- the kinds
    ft, fi, fk = ck.fn(ETRY), ck.fn('api::screen::Event::into_parser_event'), ck.fn('api::screen::Event::get_block_container_id')
    w = ck.span(ft)
    with ck.case('event kinds read', w):
        e = ck.eng()
        p = e.mk('p', A(PE))
        seen = set()
        for st, r in call(e, st0(), ft, [p]):
            for s2, ok, x in e.res(st, r):
                q = s2.facts.get(('q', 'p.event_type'))
                if not ok:
                    if isinstance(q, frozenset) and q == frozenset(CODES.values()):
                        ck.ok('unknown kind rejected')
                    elif isinstance(q, frozenset) and not set(CODES.values()) <= q or isinstance(q, int) and q in CODES.values():
                        ck.bad('event kind', 'a known kind is rejected: %s' % factstr(s2), w)
                        continue
                    elif q is None:
                        ck.und('event kind', 'rejected when %s' % factstr(s2), w)
                        continue
                    ck.judge('unknown kind: name', cmp(e, s2, fld(e, s2, x, 'event_name'), fld(e, s2, p, 'event_name')), w)
                    ck.judge('unknown kind: number', cmp(e, s2, fld(e, s2, x, 'event_type'), fld(e, s2, p, 'event_type')), w)
                    continue
                if not isinstance(q, int):
                    ck.judge('event kind', ('n' if isinstance(q, frozenset) else '?', 'an unknown kind of event is accepted as %s (%s)' % (render(x), factstr(s2))), w)
                    continue
                t = fld(e, s2, x, 'event_type')
                k = vname(e, t)
                seen.add(q)
                ck.judge('kind %d' % q, ('y', '') if CODES.get(k) == q else ('n', 'kind %d is read as %s' % (q, k)), w)
                ck.judge('kind %d: name' % q, cmp(e, s2, fld(e, s2, x, 'name'), fld(e, s2, p, 'event_name')), w)
                if k in ('ViewEvent', 'ComponentEvent'):
                    ck.judge('kind %d: target' % q, cmp(e, s2, fld(e, s2, t, 'id'), fld(e, s2, p, 'target_id')), w)
                if k == 'ComponentEvent':
                    ck.judge('kind %d: component' % q, cmp(e, s2, fld(e, s2, t, 'component_type'), fld(e, s2, p, 'target_type')), w)
                ck.judge('kind %d: no code' % q, cmp(e, s2, fld(e, s2, x, 'code'), ('adt', 'api::block::Blocks', 0, (('vec', ()),))), w)
        for k, n in CODES.items():
            if n not in seen:
                ck.bad('kind %d' % n, 'is never read (%s)' % k, w)
    with ck.case('event kinds written', ck.span(fi)):
        e = ck.eng()
        a = e.mk('a', A(AE))
        wi = ck.span(fi)
        for st, v in call(e, st0(), fi, [a]):
            ev, code = v[1]
            ck.judge('written code', cmp(e, st, code, fld(e, st, a, 'code')), wi)
            for s2, r in call(e, st, ft, [ev]):
                for s3, ok, x in e.res(s2, r):
                    k = s3.facts.get(('v', 'a.event_type'))
                    kn = e.p.variants(ET)[k]['n'] if isinstance(k, int) else '?'
                    if not ok:
                        ck.bad('%s written and read' % kn, 'is rejected: %s' % render(ev), wi)
                        continue
                    ck.judge('%s written and read: kind' % kn, cmp(e, s3, fld(e, s3, x, 'event_type'), fld(e, s3, a, 'event_type')), wi)
                    ck.judge('%s written and read: name' % kn, cmp(e, s3, fld(e, s3, x, 'name'), fld(e, s3, a, 'name')), wi)
    with ck.case('container names', ck.span(fk)):
        e = ck.eng()
        a = e.mk('a', A(AE))
        s1, ar = cell(e, st0(), a, A(AE))
        for st, v in call(e, s1, fk, [ar]):
            k = st.facts.get(('v', 'a.event_type'))
            if not isinstance(k, int):
                ck.und('container names', 'kind not determined', ck.span(fk))
                continue
            kn = e.p.variants(ET)[k]['n']
            tgt = None if kn == 'ActivityEvent' else e.mk('a.event_type@%s.id' % kn, A(STRING))
            for s2, want in container_name(e, st, kn, fld(e, st, a, 'name'), tgt):
                ck.judge('container of %s' % kn, cmp(e, s2, v, want), ck.span(fk), factstr(s2))
    # ---- a screen's events and moreblocks, reading
    fp = ck.fn(FPARSED)
    w = ck.span(fp)

    def setup(e):
        b = e.p.bodies[fp]
        names = ['ln', 'jn', 'f', 'v', 'l', 'fab']
        return [e.mk(n, e.p.T(b['locals'][i + 1])) for i, n in enumerate(names)]

    def judge_event(ck, e, s3, it, P, key):
        q = s3.facts.get(('q', P + '.event_type'))
        t = fld(e, s3, it, 'event_type')
        k = vname(e, t)
        if isinstance(q, int):
            ck.judge(key + ' kind', ('y', '') if CODES.get(k) == q else ('n', 'kind %d is read as %s' % (q, k)), w)
        nm, tg = e.mk(P + '.event_name', A(STRING)), e.mk(P + '.target_id', A(STRING))
        ck.judge(key + ' name', cmp(e, s3, fld(e, s3, it, 'name'), nm), w)
        if k != 'ActivityEvent':
            ck.judge(key + ' target', cmp(e, s3, fld(e, s3, t, 'id'), tg), w)
        for s4, want in container_name(e, s3, k, nm, tg):
            judge_code(ck, e, s4, fld(e, s4, it, 'code'), want, '%s code of %s' % (key, k), w)

    with ck.case('screen read', w):
        e = ck.eng(opaque=OP_SCREEN)
        e.distinct = True
        args = setup(e)
        seen = set()
        for st, r in call(e, st0(), fp, args):
            for s2, ok, x in e.res(st, r):
                if not ok:
                    vn = vname(e, x)
                    if vn == 'UnknownEventType':
                        inner = x[3][0]
                        P = 'l.events@Some.0.0[*]'
                        ck.judge('unknown event reported: name', cmp(e, s2, fld(e, s2, inner, 'event_name'), e.mk(P + '.event_name', A(STRING))), w)
                        ck.judge('unknown event reported: number', cmp(e, s2, fld(e, s2, inner, 'event_type'), e.mk(P + '.event_type', ('p', 'u8'))), w)
                    continue
                ev, mb = fld(e, s2, x, 'events'), fld(e, s2, x, 'more_blocks')
                sig = (str(ev), str(mb))
                if sig in seen:
                    continue
                seen.add(sig)
                oc = s2.facts.get(('has', 'l.block_containers', "'onCreate_initializeLogic'"))
                its = list(ev[1]) if ev[0] == 'vec' else None
                if its is None:
                    ck.und('events', render(ev), w)
                    continue
                implicit = [i for i in its if i[0] == 'one']
                rest = [i for i in its if i[0] != 'one']
                for i in implicit:
                    ck.judge('implicit event: name', cmp(e, s2, fld(e, s2, i[1], 'name'), lit('onCreate')), w)
                    ck.judge('implicit event: kind', ('y', '') if vname(e, fld(e, s2, i[1], 'event_type')) == 'ActivityEvent' else ('n', 'onCreate is not an activity event'), w)
                    if oc is False:
                        ck.bad('implicit event', 'an onCreate event appears without onCreate code', w)
                    judge_code(ck, e, s2, fld(e, s2, i[1], 'code'), lit('onCreate_initializeLogic'), 'onCreate code', w)
                if len(implicit) > 1:
                    ck.bad('implicit event', 'onCreate appears %d times' % len(implicit), w)
                if s2.facts.get(('v', 'l.events')) == 1:
                    P = 'l.events@Some.0.0'
                    if len(rest) != 1:
                        ck.judge('events kept', ('?' if has_unknown(ev) else 'n', 'events are %s' % render(ev)), w)
                    else:
                        for g, body in each_item(rest[0], P):
                            s3 = e.guards_state(s2, g)
                            if s3 is None:
                                continue
                            if len(body) != 1:
                                ck.bad('events kept', 'an event becomes %d events when %s' % (len(body), factstr(s3, ['events'])), w)
                                continue
                            if implicit and s3.facts.get(('q', P + '[*].event_type')) == 3 and s3.facts.get(('q', P + '[*].event_name')) == 'onCreate':
                                continue        # excluded by the test for a stored onCreate; decided below on one event
                            judge_event(ck, e, s3, body[0][1], P + '[*]', 'event')
                elif rest:
                    ck.bad('events', 'events appear from nowhere: %s' % render(ev), w)
                if s2.facts.get(('v', 'l.more_blocks')) == 1:
                    P = 'l.more_blocks@Some.0.0'

                    def want(s3, it):
                        K = e.mk(P + '[*].val.id', A(STRING))     # the key of a pool entry is its id
                        v = it[1][1]
                        yield 'id', it[1][0], K
                        yield 'name', fld(e, s3, v, 'name'), K
                        sp = fld(e, s3, v, 'spec')
                        app = e.apps.get(sp[1][:-len('@Ok.0')]) if sp[0] == 'sym' else None
                        if app:
                            yield 'spec', app[1][0], e.mk(P + '[*].val.spec', A(STRING))
                        else:
                            yield 'spec', sp, NONE
                        judge_code(ck, e, s3, fld(e, s3, v, 'code'), cat(K, '_moreBlock'), 'moreblock code', w)
                    judge_list(ck, e, s2, mb, P, 'moreblocks', w, want)
    # one event, with and without onCreate code: how often onCreate appears
    for npre in (0, 1):
        with ck.case('onCreate once (%d stored events)' % npre, w):
            e = ck.eng(opaque=OP_SCREEN)
            e.distinct = True
            args = setup(e)
            lf = e.p.variants('parser::logic::ScreenLogic')[0]['f']
            st = st0()
            fs = []
            for f_ in lf:
                if f_['n'] == 'events':
                    pool = ('adt', 'parser::logic::event::EventPool', 0, (('vec', (('one', e.mk('E', A(PE))),)),))
                    fs.append(Some(pool) if npre else NONE)
                elif f_['n'] in ('more_blocks', 'components', 'variables', 'list_variables'):
                    fs.append(NONE)
                else:
                    fs.append(e.mk('l.' + f_['n'], e.p.T(f_['t'])))
            args[4] = ('adt', 'parser::logic::ScreenLogic', 0, tuple(fs))
            for st, r in call(e, st, fp, args):
                for s2, ok, x in e.res(st, r):
                    if not ok:
                        continue
                    ev = fld(e, s2, x, 'events')
                    if ev[0] != 'vec' or any(i[0] != 'one' for i in ev[1]):
                        ck.und('onCreate once', render(ev), w)
                        continue
                    oc = s2.facts.get(('has', 'l.block_containers', "'onCreate_initializeLogic'"))
                    q, nm = s2.facts.get(('q', 'E.event_type')), s2.facts.get(('q', 'E.event_name'))
                    have = npre and q == 3 and nm == 'onCreate'
                    want = npre + (1 if oc and not have else 0)
                    for i in ev[1]:
                        nmv = fld(e, s2, i[1], 'name')
                        if render(nmv) == 'E.event_name':
                            judge_event(ck, e, s2, i[1], 'E', 'one event')
                    key = 'onCreate once: %s, %s' % ('onCreate code' if oc else 'no onCreate code', 'no events' if not npre else 'onCreate stored' if have else 'other event')
                    if oc is None and not have:
                        ck.und(key, 'lookup of the onCreate code not recognised', w)
                        continue
                    if npre and q == 3 and nm is None:
                        ck.und(key, 'name not determined', w)
                        continue
                    ck.judge(key, ('y', '') if len(ev[1]) == want else ('n', '%d events instead of %d: %s' % (len(ev[1]), want, render(ev))), w)
    # ---- writing
    ff = ck.fn(FROM)
    wf = ck.span(ff)
    with ck.case('screen written', wf):
        e = ck.eng(opaque=OP_FROM)
        e.distinct = True
        seen = set()
        for st, x in call(e, st0(), ff, [e.mk('a', A(AP))]):
            lg = proj(e, st, x, 'logic.screens')
            if str(lg) in seen:
                continue
            seen.add(str(lg))
            for g, body in each_over(lg, 'a.screens') or ():
                s2 = e.guards_state(st, g)
                if s2 is None or len(body) != 1:
                    continue
                sl = body[0][1][1][1]
                bc = fld(e, s2, sl, 'block_containers')
                if bc[0] != 'map':
                    ck.und('containers', render(bc), wf)
                    continue
                PE_, PM = 'a.screens[*].events', 'a.screens[*].more_blocks'
                src = {}
                for it in bc[1]:
                    src.setdefault((it[1], it[2]) if it[0] == 'each' else ('?', it[0]), []).append(it)
                for P, what in ((PE_, 'event'), (PM, 'moreblock')):
                    n = len(src.get((P, ''), ()))
                    if n != 1:
                        ck.judge('%s containers' % what, ('?' if n or has_unknown(bc) or any(k[0] == '?' for k in src) else 'n', 'the code of %ss is stored %d times' % (what, n)), wf)
                        continue
                    (it,) = src[(P, '')]
                    for g3, b3 in it[3]:
                        s3 = e.guards_state(s2, g3)
                        if s3 is None:
                            continue
                        if len(b3) != 1 or b3[0][0] != 'one':
                            ck.judge('%s containers' % what, ('n' if all(i[0] == 'one' for i in b3) else '?', 'an %s stores %d containers when %s' % (what, len(b3), factstr(s3, [what]))), wf)
                            continue
                        k, v = b3[0][1][1]
                        base = P + ('[*]' if what == 'event' else '[*].val')
                        app = e.apps.get(v[1]) if v[0] == 'sym' else None
                        if app and app[0] in (BINTO, BFROM, 'api::block::Blocks::to_block_container'):
                            ck.judge('%s code written' % what, cmp(e, s3, app[1][0], e.mk(base + '.code', A('api::block::Blocks'))), wf)
                        else:
                            ck.und('%s code written' % what, render(v), wf)
                        if what == 'moreblock':
                            ck.judge('moreblock container name', cmp(e, s3, k, cat(e.mk(P + '[*].key', A(STRING)), '_moreBlock')), wf)
                        else:
                            kk = s3.facts.get(('v', base + '.event_type'))
                            if not isinstance(kk, int):
                                ck.und('event container name', 'kind not determined', wf)
                                continue
                            kn = e.p.variants(ET)[kk]['n']
                            tgt = None if kn == 'ActivityEvent' else e.mk('%s.event_type@%s.id' % (base, kn), A(STRING))
                            for s4, wn in container_name(e, s3, kn, e.mk(base + '.name', A(STRING)), tgt):
                                ck.judge('container name of %s' % kn, cmp(e, s4, k, wn), wf, factstr(s4, ['events']))
                # the stored lists
                for s3, o in e.opt(s2, fld(e, s2, sl, 'events')):
                    evs = fld(e, s3, o, '0') if o is not None else ('vec', ())
                    for g4, b4 in each_over(evs, PE_):
                        s4 = e.guards_state(s3, g4)
                        if s4 is None:
                            continue
                        kk = s4.facts.get(('v', PE_ + '[*].event_type'))
                        kn = e.p.variants(ET)[kk]['n'] if isinstance(kk, int) else '?'
                        for s5, oc in (eq_oncreate(e, s4, e.mk(PE_ + '[*].name', A(STRING))) if kn == 'ActivityEvent' else ((s4, False),)):
                            if kn == '?':
                                ck.und('stored events', 'kind not determined', wf)
                                continue
                            if oc:
                                ck.judge('onCreate not stored', ('y', '') if not b4 else ('n', 'the implicit onCreate event is stored in the event list'), wf)
                                continue
                            if len(b4) != 1:
                                ck.judge('stored events', ('n', 'a %s is stored %d times when %s' % (kn, len(b4), factstr(s5, ['events']))), wf)
                                continue
                            for s6, r6 in call(e, s5, 'api::screen::Event::into_parser_event', [e.mk(PE_ + '[*]', A(AE))]):
                                ck.judge('stored %s' % kn, cmp(e, s6, b4[0][1], r6[1][0]), wf)
                for s3, o in e.opt(s2, fld(e, s2, sl, 'more_blocks')):
                    mbs = fld(e, s3, o, '0') if o is not None else ('map', ())

                    def want(s4, it):
                        yield 'id', it[1][0], e.mk(PM + '[*].key', A(STRING))
                        yield 'stored id', fld(e, s4, it[1][1], 'id'), e.mk(PM + '[*].val.name', A(STRING))
                        sp = fld(e, s4, it[1][1], 'spec')
                        pth = sp[1] if sp[0] == 'sym' else (sp[1][0][1] if sp[0] == 'str' and len(sp[1]) == 1 and sp[1][0][0] == 'A' else None)
                        app = e.apps.get(pth)
                        if app:
                            yield 'spec', app[1][0], e.mk(PM + '[*].val.spec', A('api::block::BlockContent'))
                        else:
                            yield 'spec', sp, e.mk('?spec', A(STRING))
                    judge_list(ck, e, s3, mbs, PM, 'stored moreblocks', wf, want)
