"""Resource registry and resource files (C16, C17)."""
from core import *
from checks_api import vname, fld, fidx, no_panics, flatleaves
from checks_proj import *

REG = 'api::Resources'
COLL = ['images', 'sounds', 'fonts']
KIND = ['Image', 'Sound', 'Font']


def reg_worlds(e):
    """an id is in at most one collection (the invariant put_resource keeps)"""
    for i in (None, 0, 1, 2):
        st = st0()
        for j, c in enumerate(COLL):
            st.facts[('has', 'r.' + c, 'id')] = (i == j)
        yield i, st


def mapval(e, v):
    """('sym',P) | (P, ops) of a map derived from a symbolic one"""
    if v[0] == 'sym':
        return v[1], ()
    if v[0] == 'map':
        its = v[1]
        if its and its[0][0] == 'base':
            return its[0][1], its[1:]
        return None, its
    return None, None


def c16(ck):
    g, r, p = (ck.fn(REG + '::' + n) for n in ('get_resource', 'remove_resource', 'put_resource'))
    RID = A('api::ResourceId')
    for name, f in (('get', g), ('remove', r)):
        w = ck.span(f)
        with ck.case(name, w):
            e = ck.eng()
            reg, idv = e.mk('r', A(REG)), e.mk('id', RID)
            for i, s0 in reg_worlds(e):
                s1, rr = cell(e, s0, reg, A(REG))
                s1, ir = cell(e, s1, idv, RID)
                key = '%s: id in %s' % (name, COLL[i] if i is not None else 'no collection')
                n = 0
                for st, v in call(e, s1, f, [rr, ir]):
                    n += 1
                    for s2, o in e.opt(st, v):
                        if i is None:
                            ck.judge(key, ('y', '') if o is None else ('n', 'an id that is not there gives %s' % render(o)), w)
                        elif o is None:
                            ck.bad(key, 'a %s is not found' % KIND[i], w)
                        else:
                            ck.judge(key + ': kind', cmp(e, s2, o[1][1], enumv(e, RT, KIND[i]), 'kind'), w)
                            ck.judge(key + ': file', cmp(e, s2, e.deref(s2, o[1][0]) if o[1][0][0] == 'mref' else o[1][0], e.mk('r.%s{id}' % COLL[i], A(RFW)), 'file'), w)
                        after = e.deref(s2, rr)
                        for j, c in enumerate(COLL):
                            P, ops = mapval(e, fld(e, s2, after, c))
                            if P is None:
                                ck.und(key + ': ' + c, 'collection is now %s' % render(fld(e, s2, after, c)), w)
                            elif P != 'r.' + c:
                                ck.bad(key + ': ' + c, '%s now holds %s' % (c, P), w)
                            elif name == 'remove' and i == j:
                                ck.judge(key + ': taken out', ('y', '') if len(ops) == 1 and ops[0][0] == 'rm' and render(ops[0][1]) == render(idv) else
                                         ('n' if not ops else '?', 'the removed %s is still in %s' % (KIND[i], c)), w)
                            else:
                                ck.judge(key + ': %s kept' % c, ('y', '') if not ops or (len(ops) == 1 and ops[0][0] == 'rm' and i != j and render(ops[0][1]) == render(idv)) else
                                         ('n', '%s is changed by %s' % (c, name)), w)
                if not n:
                    ck.bad(key, 'never returns', w)
    # an id that a parsed project uses twice: one of its resources is taken, the other stays
    for name, f in (('get', g), ('remove', r)):
        w = ck.span(f)
        for sub in ((0, 1), (0, 2), (1, 2), (0, 1, 2)):
            key = '%s: id in %s' % (name, ' and '.join(COLL[j] for j in sub))
            with ck.case(key, w):
                e = ck.eng()
                reg, idv = e.mk('r', A(REG)), e.mk('id', RID)
                s0 = st0()
                for j, c in enumerate(COLL):
                    s0.facts[('has', 'r.' + c, 'id')] = j in sub
                s1, rr = cell(e, s0, reg, A(REG))
                s1, ir = cell(e, s1, idv, RID)
                for st, v in call(e, s1, f, [rr, ir]):
                    for s2, o in e.opt(st, v):
                        if o is None:
                            ck.bad(key, 'is not found', w)
                            continue
                        rs = [cmp(e, s2, o[1][1], enumv(e, RT, KIND[j]), 'kind')[0] for j in sub]
                        if rs.count('y') != 1:
                            (ck.und if '?' in rs else ck.bad)(key, 'is found as %s' % render(o[1][1]), w)
                            continue
                        i = sub[rs.index('y')]
                        ck.judge(key + ': file', cmp(e, s2, e.deref(s2, o[1][0]) if o[1][0][0] == 'mref' else o[1][0], e.mk('r.%s{id}' % COLL[i], A(RFW)), 'file'), w)
                        after = e.deref(s2, rr)
                        for j, c in enumerate(COLL):
                            P, ops = mapval(e, fld(e, s2, after, c))
                            if P != 'r.' + c:
                                ck.und(key + ': ' + c, 'collection is now %s' % render(fld(e, s2, after, c)), w)
                            elif name == 'remove' and i == j:
                                ck.judge(key + ': taken out', ('y', '') if len(ops) == 1 and ops[0][0] == 'rm' and render(ops[0][1]) == render(idv) else
                                         ('n' if not ops else '?', 'the removed %s is still in %s' % (KIND[i], c)), w)
                            elif j in sub:
                                ck.judge(key + ': %s kept' % c, ('y', '') if not ops else ('n', '%s is changed by %s of the %s' % (c, name, KIND[i])), w)
                no_panics(ck, e, key)
    w = ck.span(p)
    for ty in range(3):
        for fk, fname in enumerate(v['n'] for v in ck.p.variants(RFW)):
            for ex in ((True, False) if fname == 'Path' else (None,)):
                with ck.case('put %s %s' % (KIND[ty], fname), w):
                    e = ck.eng()
                    reg, idv = e.mk('r', A(REG)), e.mk('id', RID)
                    fv = e.mk('file', A(RFW))
                    for i, s0 in reg_worlds(e):
                        s0 = s0.copy()
                        s0.facts[('v', 'file')] = fk
                        if ex is not None:
                            s0.facts[('b', 'exists(file@Path.0)')] = ex
                        s1, rr = cell(e, s0, reg, A(REG))
                        tyv = enumv(e, RT, KIND[ty])
                        key = 'put %s file as %s, id in %s%s' % (fname, KIND[ty], COLL[i] if i is not None else 'no collection', {True: ', file exists', False: ', file missing', None: ''}[ex])
                        for st, v in call(e, s1, p, [rr, idv, fv, tyv]):
                            for s2, ok, x in e.res(st, v):
                                after = e.deref(s2, rr)
                                want_err = {'FileDoesntExist': ex is False, 'IdTaken': i is not None}
                                if not ok:
                                    vn = vname(e, x)
                                    if not want_err.get(vn):
                                        ck.bad(key, 'refused with %s' % vn, w)
                                    else:
                                        ck.ok(key + ': refused')
                                    if vn == 'IdTaken':
                                        ck.judge(key + ': reported id', cmp(e, s2, fld(e, s2, x, 'id'), idv, 'id'), w)
                                    if vn == 'FileDoesntExist':
                                        ck.judge(key + ': reported path', cmp(e, s2, fld(e, s2, x, 'path'), e.mk('file@Path.0', A('std::path::PathBuf')), 'path'), w)
                                elif any(want_err.values()):
                                    ck.bad(key, 'accepted although %s' % ', '.join('%s applies' % k for k, b in want_err.items() if b), w)
                                    continue
                                for j, c in enumerate(COLL):
                                    cv = fld(e, s2, after, c)
                                    P, ops = mapval(e, cv)
                                    if P != 'r.' + c:
                                        ck.judge(key + ': ' + c, ('?' if P is None else 'n', '%s is now %s' % (c, render(cv))), w)
                                    elif not ok or j != ty:
                                        ck.judge(key + ': %s unchanged' % c, ('y', '') if not ops else ('n', '%s changes: %s' % (c, render(cv))), w)
                                    elif len(ops) != 1 or ops[0][0] != 'one':
                                        ck.judge(key + ': stored', ('n' if not ops else '?', '%s is not stored in %s' % (KIND[ty], c)), w)
                                    else:
                                        k, val = ops[0][1][1]
                                        ck.judge(key + ': stored id', cmp(e, s2, k, idv, 'id'), w)
                                        if fname == 'Path':
                                            ck.judge(key + ': stored file', cmp(e, s2, val, fv, 'file'), w)
                                        else:
                                            vd = ck.p.variants(RFW)[fk]
                                            for q, f_ in enumerate(vd['f']):
                                                exp = tyv if f_['n'] == 'res_type' else e.mk('file@%s.%s' % (fname, f_['n']), e.p.T(f_['t']))
                                                got = fld(e, s2, val, f_['n']) if val[0] == 'adt' and val[2] == fk else None
                                                if got is None:
                                                    got = e.field(s2, ('dc', val, fk), q)
                                                ck.judge(key + ': stored file ' + f_['n'], cmp(e, s2, got, exp, f_['n']), w)
    for n, c in (('get_images', 'images'), ('get_sounds', 'sounds'), ('get_fonts', 'fonts')):
        f = REG + '::' + n
        if f in ck.p.bodies:
            with ck.case(n, ck.span(f)):
                e = ck.eng()
                reg = e.mk('r', A(REG))
                s1, rr = cell(e, st0(), reg, A(REG))
                for st, v in call(e, s1, f, [rr]):
                    ck.judge(n, cmp(e, st, e.deref(st, v) if v[0] == 'mref' else v, fld(e, st, reg, c), n), ck.span(f))


FILES_TRY = '<parser::ResourceFiles as std::convert::TryFrom<std::vec::Vec<parser::ResourceFileWrapper>>>::try_from'
FILES_INTO = ('<parser::ResourceFiles as std::convert::Into<std::vec::Vec<parser::ResourceFileWrapper>>>::into',
              '<std::vec::Vec<parser::ResourceFileWrapper> as std::convert::From<parser::ResourceFiles>>::from')
PLACES = COLL + ['icons']


def destination(e, st, P):
    """where the path's facts say the file at P belongs: an index into PLACES, 'missing', 'invalid', None (not determined)"""
    v = st.facts.get(('v', P))
    if not isinstance(v, int):
        return None
    vn = e.p.variants(RFW)[v]['n']
    if vn != 'Path':
        k = st.facts.get(('v', '%s@%s.res_type' % (P, vn)))
        return k if isinstance(k, int) else None
    if st.facts.get(('b', 'exists(%s@Path.0)' % P)) is False:
        return 'missing'
    folder = 'file_name(parent(parent(%s@Path.0)@Some.0)@Some.0)' % P
    for k in ('parent(%s@Path.0)' % P, 'parent(parent(%s@Path.0)@Some.0)' % P, folder, 'to_str(%s@Some.0)' % folder,
              'file_name(%s@Path.0)' % P, 'to_str(file_name(%s@Path.0)@Some.0)' % P):
        if st.facts.get(('v', k)) == 0:
            return 'invalid'
    q = st.facts.get(('q', 'to_str(%s@Some.0)@Some.0' % folder))
    if q is None:
        return None
    if isinstance(q, frozenset):
        return 'invalid' if set(PLACES) <= q else None
    return PLACES.index(q) if q in PLACES else 'invalid'


def fullname(e, st, P):
    """the file name of the file at P, as a term"""
    v = e.p.variants(RFW)[st.facts[('v', P)]]['n']
    return e.mk('to_str(file_name(%s@Path.0)@Some.0)@Some.0' % P if v == 'Path' else '%s@%s.res_full_name' % (P, v), A(STRING))


def c17(ck):
    f = ck.fn(FILES_TRY)
    w = ck.span(f)

    def report(e, s2, x, P, key):
        d, vn = destination(e, s2, P), vname(e, x)
        want = {'missing': 'FileDoesntExist', 'invalid': 'InvalidPath'}.get(d)
        if d is None:
            ck.und(key, 'reason of the rejection is not determined', w)
        elif want is None:
            ck.bad(key, 'a file of %s is rejected with %s' % (PLACES[d], vn), w)
        else:
            ck.judge(key + ': %s reported' % d, ('y', '') if vn == want else ('n', '%s path is reported as %s' % (d, vn)), w)
            ck.judge(key + ': path', cmp(e, s2, x[3][0], e.mk(P + '@Path.0', A('std::path::PathBuf')), 'path'), w)

    with ck.case('sorting one file', w):
        e = ck.eng()
        seen = set()
        for st, r in call(e, st0(), f, [('vec', (('one', e.mk('w', A(RFW))),))]):
            for s2, ok, x in e.res(st, r):
                kind = e.p.variants(RFW)[s2.facts.get(('v', 'w'), 0)]['n'] if isinstance(s2.facts.get(('v', 'w')), int) else '?'
                if not ok:
                    report(e, s2, x, 'w', '%s file' % kind)
                    seen.add((kind, destination(e, s2, 'w')))
                    continue
                d = destination(e, s2, 'w')
                key = '%s file of %s' % (kind, d if not isinstance(d, int) else PLACES[d])
                if d in ('missing', 'invalid'):
                    ck.bad(key, 'a %s file is accepted' % d, w)
                    continue
                if d is None:
                    ck.und(key, 'kind of the file is not determined: %s' % factstr(s2), w)
                    continue
                seen.add((kind, d))
                for j, c in enumerate(COLL):
                    m = fld(e, s2, x, c)
                    if m[0] != 'map' or any(i[0] != 'one' for i in m[1]):
                        ck.und(key, render(m), w)
                    elif (len(m[1]) == 1) != (j == d):
                        ck.bad(key, 'it is %s %s' % ('not put into' if j == d else 'put into', c), w)
                    elif j == d:
                        ck.judge(key + ': name', cmp(e, s2, m[1][0][1][1][0], fullname(e, s2, 'w'), 'name'), w)
                        ck.judge(key + ': file', cmp(e, s2, m[1][0][1][1][1], e.mk('w', A(RFW)), 'file'), w)
                    else:
                        ck.ok(key + ': not in ' + c)
                ck.judge(key + ': icon', cmp(e, s2, fld(e, s2, x, 'custom_icon'), Some(e.mk('w', A(RFW))) if d == 3 else NONE, 'custom icon'), w)
        for kind in (v['n'] for v in ck.p.variants(RFW)):
            for d in range(4):
                if (kind, d) not in seen and not any(k == kind and x is None for k, x in seen):
                    ck.bad('%s file of %s' % (kind, PLACES[d]), 'is never accepted', w)
    with ck.case('sorting many files', w):
        e = ck.eng()
        L = e.mk('L', ('a', 'std::vec::Vec', (A(RFW), A('std::alloc::Global'))))
        for st, r in call(e, st0(), f, [L]):
            for s2, ok, x in e.res(st, r):
                if not ok:
                    report(e, s2, x, 'L[*]', 'some file')
                    continue
                for j, c in enumerate(COLL):
                    for g, body in each_over(fld(e, s2, x, c), 'L'):
                        s3 = e.guards_state(s2, g)
                        if s3 is None:
                            continue
                        d = destination(e, s3, 'L[*]')
                        if d is None:
                            ck.und('files of ' + c, 'kind not determined: %s' % factstr(s3), w)
                        elif len(body) != (d == j):
                            ck.bad('files of ' + c, 'a file of %s adds %d files to %s' % (d if not isinstance(d, int) else PLACES[d], len(body), c), w)
                        elif body:
                            ck.judge('files of %s: name' % c, cmp(e, s3, body[0][1][1][0], fullname(e, s3, 'L[*]')), w)
                            ck.judge('files of %s: file' % c, cmp(e, s3, body[0][1][1][1], e.mk('L[*]', A(RFW))), w)
                        else:
                            ck.ok('files not of ' + c)
    # listing
    fi = ck.fn(*FILES_INTO)
    w2 = ck.span(fi)
    with ck.case('listing files', w2):
        e = ck.eng()
        for st, v in call(e, st0(), fi, [e.mk('F', A('parser::ResourceFiles'))]):
            for s2, icon in e.opt(st, fld(e, st, e.mk('F', A('parser::ResourceFiles')), 'custom_icon')):
                v2 = e.deref(s2, v)
                if v2[0] != 'vec':
                    ck.und('listing files', render(v2), w2)
                    continue
                got = []
                for it in v2[1]:
                    if it[0] == 'one':
                        got.append(render(it[1]))
                    elif it[0] == 'each' and len(it[3]) == 1 and len(it[3][0][1]) == 1 and it[3][0][1][0][0] == 'one' and not it[3][0][0]:
                        got.append('each ' + render(it[3][0][1][0][1]))
                    else:
                        got.append('?')
                want = (['F.custom_icon@Some.0'] if icon is not None else []) + ['each F.%s[*].val' % c for c in COLL]
                ck.judge('listing files (%s icon)' % ('with' if icon is not None else 'no'), ('y', '') if sorted(got) == sorted(want) else
                         ('?' if '?' in got or has_unknown(v2) else 'n', 'lists %s, not %s' % (got, want)), w2)
    # ---- whole project
    ft, ff = ck.fn(TRY), ck.fn(FROM)
    flag = {}
    with ck.case('reading', ck.span(ft)):
        e = ck.eng(opaque=OP_TRY)
        e.distinct = True
        wt = ck.span(ft)
        p = e.mk('p', A(PP))
        done = set()
        for st, r in call(e, st0(), ft, [p]):
            for s2, ok, x in e.res(st, r):
                if not ok:
                    if vname(e, x) == 'MissingResourceFile':
                        miss = [k for k, v in s2.facts.items() if k[0] == 'has' and k[1].startswith('p.resource_files@Some.0.') and v is False]
                        c = None
                        for j, n in enumerate(COLL):
                            if any(k[1].endswith('.' + n) for k in miss):
                                c = j
                        if c is None:
                            if ('v', 'p.resource_files') in s2.facts and not s2.facts[('v', 'p.resource_files')]:
                                ck.bad('missing file', 'a missing file is reported although no files were given', wt)
                            elif [k for k, v in s2.facts.items() if k[0] == 'has' and k[1].startswith('p.resource_files@Some.0.')]:
                                ck.bad('missing file', 'a file that is there is reported missing when %s' % factstr(s2, ['resource']), wt)
                            else:
                                ck.und('missing file', 'reported when %s' % factstr(s2, ['resource']), wt)
                            continue
                        n = COLL[c]
                        done.add(('missing', n))
                        for a_, b_ in (('res_name', 'name'), ('res_full_name', 'full_name')):
                            ck.judge('missing %s: %s' % (n, a_), cmp(e, s2, fld(e, s2, x, a_), e.mk('p.resource.%s[*].%s' % (n, b_), A(STRING))), wt)
                        ck.judge('missing %s: kind' % n, cmp(e, s2, fld(e, s2, x, 'res_type'), enumv(e, RT, KIND[c])), wt)
                    continue
                sig = (str(fld(e, s2, x, 'resources')), str(fld(e, s2, x, 'custom_icon')), str(fld(e, s2, x, 'automatic_res_file_ids')), s2.facts.get(('v', 'p.resource_files')))
                if sig in done:
                    continue
                done.add(sig)
                for s3, rf in e.opt(s2, fld(e, s2, p, 'resource_files')):
                    given = rf is not None
                    for s4, b in e.truth(s3, fld(e, s3, x, 'automatic_res_file_ids')):
                        flag.setdefault(given, set()).add(b)
                    ck.judge('custom icon (%s)' % ('files' if given else 'no files'), cmp(e, s3, fld(e, s3, x, 'custom_icon'), fld(e, s3, rf, 'custom_icon') if given else NONE), wt)
                    for j, n in enumerate(COLL):
                        P = 'p.resource.' + n

                        def want(s4, it, j=j, n=n, P=P, given=given):
                            nm, fn_ = e.mk(P + '[*].name', A(STRING)), e.mk(P + '[*].full_name', A(STRING))
                            yield 'id', it[1][0], ('adt', 'api::ResourceId', 0, (nm,))
                            if given:
                                yield 'file', it[1][1], e.mk('p.resource_files@Some.0.%s{%s[*].full_name}' % (n, P), A(RFW))
                            else:
                                g = it[1][1]
                                if g[0] != 'adt':
                                    yield 'generated file', g, NONE
                                    return
                                vd = e.p.variants(RFW)[g[2]]
                                for q, f_ in enumerate(vd['f']):
                                    if f_['n'] == 'res_type':
                                        yield 'generated file kind', g[3][q], enumv(e, RT, KIND[j])
                                    if f_['n'] == 'res_full_name':
                                        yield 'generated file name', g[3][q], fn_
                        judge_list(ck, e, s3, proj(e, s3, x, 'resources.' + n), P, '%s (%s)' % (n, 'files given' if given else 'no files'), wt, want)
        for n in COLL:
            if ('missing', n) not in done:
                ck.bad('missing %s' % n, 'an item of %s without file is not reported' % n, wt)
        if flag.get(True) and flag.get(False) and not flag[True] & flag[False]:
            ck.ok('files-given flag')
        else:
            ck.bad('files-given flag', 'whether files were given is not remembered: %s' % flag, wt)
    with ck.case('writing', ck.span(ff)):
        e = ck.eng(opaque=OP_FROM)
        e.distinct = True
        wf = ck.span(ff)
        a = e.mk('a', A(AP))
        done = set()
        for st, x in call(e, st0(), ff, [a]):
            sig = (str(fld(e, st, x, 'resource')), str(fld(e, st, x, 'resource_files')), st.facts.get(('b', 'a.automatic_res_file_ids')))
            if sig in done:
                continue
            done.add(sig)
            for s2, fl in e.truth(st, fld(e, st, a, 'automatic_res_file_ids')):
                for s3, rf in e.opt(s2, fld(e, s2, x, 'resource_files')):
                    want_some = fl in flag.get(True, ())
                    if (rf is not None) != want_some:
                        ck.bad('files written', 'resource files are %s for a project %s files' % ('written' if rf is not None else 'dropped', 'with' if want_some else 'without'), wf)
                    else:
                        ck.ok('files written')
                    if rf is not None:
                        ck.judge('custom icon written', cmp(e, s3, fld(e, s3, rf, 'custom_icon'), fld(e, s3, a, 'custom_icon')), wf)
                    for j, n in enumerate(COLL):
                        P = 'a.resources.' + n
                        V = P + '[*].val'
                        judge_list(ck, e, s3, proj(e, s3, x, 'resource.' + n), P, n + ' written', wf, lambda s4, it, V=V, P=P: [
                            ('name', fld(e, s4, it, 'name'), e.mk(P + '[*].key.0', A(STRING))),
                            ('full name', fld(e, s4, it, 'full_name'), fullname(e, s4, V)),
                            ('type', fld(e, s4, it, 'type'), ('int', 1, 'u8'))])
                        if rf is not None:
                            judge_list(ck, e, s3, fld(e, s3, rf, n), P, n + ' files', wf, lambda s4, it, V=V, P=P: [
                                ('name', it[1][0], fullname(e, s4, V)), ('file', it[1][1], e.mk(V, A(RFW)))])
