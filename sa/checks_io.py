"""Encryption, the six parts and the effects of the library (C02, C03)."""
from core import *
from checks_api import vname, fld, no_panics

RAW, PSP, ASP = 'parser::RawSketchwareProject', 'parser::SketchwareProject', 'api::SketchwareProject'
RFW = 'parser::ResourceFileWrapper'
STR_, VEC = 'std::string::String', 'std::vec::Vec'
BYTES = A(VEC, ('p', 'u8'))
PARTS = ['project', 'file', 'library', 'resource', 'view', 'logic']
KEY = "sketchwaresecure"
CIPHER = "cipher<Cbc<Aes128,Pkcs7>>('%s', '%s')" % (KEY, KEY)
PATH = ('r', 0, A('std::path::Path'))
RF_TRY = '<parser::ResourceFiles as std::convert::TryFrom<std::vec::Vec<parser::ResourceFileWrapper>>>::try_from'
RF_INTO = '<parser::ResourceFiles as std::convert::Into<std::vec::Vec<parser::ResourceFileWrapper>>>::into'


def appof(e, v, suffix=''):
    """(fn, args) of an application term, or of its payload"""
    if v[0] == 'str' and len(v[1]) == 1 and v[1][0][0] == 'A':
        p = v[1][0][1]
    elif v[0] == 'sym':
        p = v[1]
    else:
        return None
    if suffix:
        if not p.endswith(suffix):
            return None
        p = p[:-len(suffix)]
    return e.apps.get(p)


def judge_cipher(ck, key, c, where):
    r = render(c)
    if r == CIPHER:
        ck.ok(key, r, where)
    elif r.startswith('cipher<') and not has_unknown(c):
        ck.bad(key, 'uses %s instead of %s' % (r, CIPHER), where)
    else:
        ck.und(key, 'cipher %s' % r, where)


def judge_term(ck, e, st, key, v, kind, data, where, suffix=''):
    """v is kind(cipher, data)"""
    a = appof(e, v, suffix)
    if not a or a[0] != kind:
        r = neg(v, e.mk('%s(...)' % kind, BYTES), '%s is not the %sed data' % (render(v), kind))
        other = a and a[0] in ('encrypt', 'decrypt', 'scratch')
        plain = not a and not has_unknown(v) and v[0] in ('sym', 'bytes')
        if other or plain or v[0] in ('vec', 'str'):
            ck.judge(key, ('?' if has_unknown(v) else 'n', r[1]), where)
        else:
            ck.und(key, render(v), where)
        return
    judge_cipher(ck, key + ' cipher', a[1][0], where)
    ck.judge(key + ' data', cmp(e, st, a[1][1], data, key), where)


from compare import neg  # noqa: E402


def errkind(e, ck, st, x, key, where, want, payload):
    if x[0] != 'adt':
        ck.und(key, render(x), where)
        return
    if vname(e, x) != want:
        ck.bad(key, 'reported as %s, not %s' % (vname(e, x), want), where)
        return
    p = x[3][0]
    while p[0] == 'adt' and p[3] and p[1] in ('std::boxed::Box',):
        p = p[3][0]
    if p[0] == 'sym':
        ck.judge(key, ('y', '') if p[1] == payload[1] else ('?' if has_unknown(p) else 'n', 'carries %s instead of %s' % (render(p), payload[1])), where)
    else:
        ck.und(key, render(p), where)


def reads(st):
    return [l for l in st.log if l[0] == 'ext' and l[1] == 'fs::read']


def writes(st):
    return [l for l in st.log if l[0] == 'ext' and l[1] == 'fs::write']


def c02(ck):
    enc, dec = ck.fn('encrypt_sw'), ck.fn('decrypt_sw_encrypted')
    U8S = ('r', 0, ('s', ('p', 'u8')))
    with ck.case('encrypt_sw', ck.span(enc)):
        e = ck.eng()
        a = e.mk('data', U8S)
        for st, r in call(e, st0(), enc, [a]):
            judge_term(ck, e, st, 'encrypt', r, 'encrypt', e.deref(st, a), ck.span(enc))
        no_panics(ck, e, 'encrypt')
    with ck.case('decrypt_sw_encrypted', ck.span(dec)):
        e = ck.eng()
        a = e.mk('data', U8S)
        seen = set()
        for st, r in call(e, st0(), dec, [a]):
            for s2, ok, x in e.res(st, r):
                seen.add(ok)
                if ok:
                    judge_term(ck, e, s2, 'decrypt', x, 'decrypt', e.deref(s2, a), ck.span(dec), '@Ok.0')
                else:
                    dk = [k[1] for k, f in s2.facts.items() if k[0] == 'v' and f == 1 and k[1].startswith('decrypt(')]
                    if not dk:
                        ck.und('decryption failure', factstr(s2), ck.span(dec))
                    for p in dk:
                        errkind(e, ck, s2, x, 'decryption failure', ck.span(dec), 'DecryptionError', e.mk(p + '@Err.0', ('o', 'BlockModeError')))
        if seen != {True, False}:
            ck.bad('decryption failure', 'the result is always %s' % ('Ok' if True in seen else 'Err'), ck.span(dec))
        no_panics(ck, e, 'decrypt')
    # ---- file helpers
    for n, kind, two in (('decrypt_sw_file', 'decrypt', 0), ('encrypt_sw_file', 'encrypt', 0), ('encrypt_sw_file_to_file', 'encrypt', 1)):
        fn = ck.fn(n)
        w = ck.span(fn)
        with ck.case(n, w):
            e = ck.eng()
            f = e.mk('file', PATH)
            args = [f] + ([e.mk('out', A(OPT, PATH))] if two else [])
            seen = set()
            for st, r in call(e, st0(), fn, args):
                for s2, ok, x in e.res(st, r):
                    rd, wr = reads(s2), writes(s2)
                    if e.ext:
                        ck.und(n + ' effects', 'calls without a model: %s' % sorted(e.ext), w)
                    elif len(rd) != 1:
                        ck.bad(n + ' reads once', 'reads %d files' % len(rd), w)
                    else:
                        ck.judge(n + ' reads the file', cmp(e, s2, rd[0][2][0], e.deref(s2, f), 'file'), w)
                    rp = [k[1] for k, v in s2.facts.items() if k[0] == 'v' and k[1].startswith('fs::read(') and k[1].endswith(')') and not k[1].startswith('fs::read(fs')]
                    readok = [s2.facts[('v', p)] == 0 for p in rp]
                    if len(rp) != 1:
                        ck.und(n + ' outcome of reading', factstr(s2), w)
                        continue
                    data = e.mk(rp[0] + '@Ok.0', BYTES)
                    wp = [k[1] for k, v in s2.facts.items() if k[0] == 'v' and k[1].startswith('fs::write(')]
                    if not readok[0]:
                        seen.add('read failure')
                        if wr:
                            ck.bad(n + ' failed read', 'writes although the file could not be read', w)
                        if ok:
                            ck.bad(n + ' failed read', 'a failure to read the file is not reported', w)
                        else:
                            errkind(e, ck, s2, x, n + ' failed read', w, 'IOError', e.mk(rp[0] + '@Err.0', ('o', 'std::io::Error')))
                        continue
                    if two:
                        if len(wr) != 1:
                            if not e.ext:
                                ck.bad(n + ' writes once', '%d files are written' % len(wr), w)
                            continue
                        o = s2.facts.get(('v', 'out'))
                        tgt = e.deref(s2, f) if o == 0 else e.mk('out@Some.0', A('std::path::Path')) if o == 1 else None
                        if tgt is None:
                            ck.bad(n + ' target', 'written to %s whether or not an output path is given' % render(wr[0][2][0]), w)
                        else:
                            ck.judge(n + ' target', cmp(e, s2, wr[0][2][0], tgt, 'target'), w)
                        judge_term(ck, e, s2, n, wr[0][2][1], kind, data, w)
                        if not wp:
                            ck.bad(n + ' failed write', 'the outcome of writing is ignored', w)
                            continue
                        if s2.facts[('v', wp[0])] == 1:
                            seen.add('write failure')
                            if ok:
                                ck.bad(n + ' failed write', 'a failure to write is not reported', w)
                            else:
                                errkind(e, ck, s2, x, n + ' failed write', w, 'IOError', e.mk(wp[0] + '@Err.0', ('o', 'std::io::Error')))
                        elif not ok:
                            ck.bad(n + ' success', 'reports %s although everything succeeded' % render(x), w)
                        else:
                            ck.ok(n + ' success')
                        continue
                    if wr:
                        ck.bad(n + ' writes nothing', 'writes %s' % render(wr[0][2][0]), w)
                    dk = [k[1] for k, v in s2.facts.items() if k[0] == 'v' and v == 1 and k[1].startswith('decrypt(')]
                    if ok:
                        seen.add('ok')
                        judge_term(ck, e, s2, n, x, kind, data, w, '@Ok.0' if kind == 'decrypt' else '')
                    elif kind == 'encrypt':
                        ck.bad(n + ' success', 'reports %s although the file could be read' % render(x), w)
                    else:
                        for p in dk:
                            errkind(e, ck, s2, x, n + ' decryption failure', w, 'DecryptionError', e.mk(p + '@Err.0', ('o', 'BlockModeError')))
            if 'read failure' not in seen:
                ck.bad(n + ' failed read', 'no path returns a failed read', w)
            if two and 'write failure' not in seen:
                ck.bad(n + ' failed write', 'no path returns a failed write', w)
            no_panics(ck, e, n)
    # ---- whole project
    for n, res in ((RAW + '::from_encrypted', 1), (RAW + '::from_encrypted_wo_res', 0)):
        fn = ck.fn(n)
        w = ck.span(fn)
        nm = n.split('::')[-1]
        with ck.case(nm, w):
            e = ck.eng()
            args = [e.mk(p, BYTES) for p in PARTS] + ([e.mk('files', A(VEC, A(RFW)))] if res else [])
            errs = {'DecryptionError': set(), 'FromUtf8Error': set()}
            nok = 0
            for st, r in call(e, st0(), fn, args):
                for s2, ok, x in e.res(st, r):
                    if not ok:
                        k = vname(e, x) if x[0] == 'adt' else None
                        if k not in errs:
                            ck.und(nm + ' errors', render(x), w)
                            continue
                        pl = x[3][0]
                        pre = 'decrypt(' if k == 'DecryptionError' else 'utf8('
                        which = [p for p in PARTS if pl[0] == 'sym' and ', %s)' % p in pl[1]]
                        if pl[0] == 'sym' and pl[1].startswith(pre) and pl[1].endswith('@Err.0') and len(which) == 1 and s2.facts.get(('v', pl[1][:-6])) == 1:
                            errs[k].add(which[0])
                            ck.ok('%s %s of %s' % (nm, k, which[0]))
                        else:
                            ck.und(nm + ' errors', render(x), w)
                        continue
                    nok += 1
                    for p, a in zip(PARTS, args):
                        v = fld(e, s2, x, p)
                        t = '%s %s' % (nm, p)
                        u = appof(e, v, '@Ok.0')
                        if u and u[0] == 'utf8':
                            judge_term(ck, e, s2, t, u[1][0], 'decrypt', a, w, '@Ok.0')
                        elif v[0] == 'str' and all(q[0] == 'L' for q in v[1]):
                            ck.bad(t, 'does not depend on what is decrypted: %s' % render(v), w)
                        elif appof(e, v, '') and appof(e, v, '')[0] in ('lossy', 'utf8_lossy'):
                            ck.bad(t, 'invalid text is replaced instead of being reported: %s' % render(v), w)
                        else:
                            ck.und(t, render(v), w)
                    rf = fld(e, s2, x, 'resource_files')
                    ck.judge(nm + ' resource files', cmp(e, s2, rf, Some(args[-1]) if res else NONE, 'resource_files'), w)
            if not nok:
                ck.bad(nm, 'never succeeds', w)
            for k, s in errs.items():
                for p in PARTS:
                    if p not in s and not [o for o in ck.obl if o[1] != 'ok' and o[0].startswith(nm)]:
                        ck.bad('%s %s of %s' % (nm, k, p), 'is not reported', w)
            no_panics(ck, e, nm)


# ---------------------------------------------------------------------------------------------------- C03
PMOD = {'project': 'parser::project::Project', 'file': 'parser::file::File', 'library': 'parser::library::Library',
        'resource': 'parser::resource::Resource', 'view': 'parser::view::View', 'logic': 'parser::logic::Logic'}


def pfn(t, m):
    return '<%s as parser::Parsable>::%s' % (t, m)


def c03(ck):
    parses = {p: ck.fn(pfn(t, 'parse')) for p, t in PMOD.items()}
    recons = {p: ck.fn(pfn(t, 'reconstruct')) for p, t in PMOD.items()}
    rft = ck.fn(RF_TRY)
    rfi = ck.fn(RF_INTO, '<std::vec::Vec<parser::ResourceFileWrapper> as std::convert::From<parser::ResourceFiles>>::from')
    opq = tuple(parses.values()) + tuple(recons.values()) + (rft, rfi)
    S, RL = A(STR_), A(VEC, A(RFW))
    mk = lambda e, names: [e.mk(n, S) for n in names]
    raw_into = ck.fn('<%s as std::convert::TryInto<%s>>::try_into' % (PSP, RAW), '<%s as std::convert::TryFrom<%s>>::try_from' % (RAW, PSP))

    def run(nm, fn, args, fns, sfx, files, errmod, inp):
        """fn maps every part through its own function; inp(part) is the term of the input of that part;
        files(state) is the expected resource_files, or None for a state where it is an error"""
        w = ck.span(fn)
        with ck.case(nm, w):
            e = ck.eng(opaque=opq)
            av = args(e)
            nok, errs = 0, set()
            for st, r in call(e, st0(), fn, av):
                for s2, ok, x in e.res(st, r):
                    if not ok:
                        failed = [k[1] for k, f in s2.facts.items() if k[0] == 'v' and f == 1 and k[1] in e.apps and e.apps[k[1]][0] in opq]
                        if len(failed) != 1:
                            ck.und(nm + ' errors', 'failing parts %s' % failed, w)
                            continue
                        f = e.apps[failed[0]][0]
                        part = next((p for p in PARTS if fns.get(p) == f), 'resource files')
                        want = errmod.get(part)
                        errs.add(part)
                        errkind(e, ck, s2, x, '%s failure of %s' % (nm, part), w, want, e.mk(failed[0] + '@Err.0', ('o', 'error')))
                        continue
                    nok += 1
                    bad = [k[1] for k, f in s2.facts.items() if k[0] == 'v' and f == 1 and k[1] in e.apps and e.apps[k[1]][0] in opq]
                    if bad:
                        ck.bad('%s failure' % nm, 'succeeds although %s failed' % short(e.apps[bad[0]][0]), w)
                    for p in PARTS:
                        v = fld(e, s2, x, p)
                        a = appof(e, v, '@Ok.0')
                        t = '%s %s' % (nm, p)
                        if not a:
                            ck.judge(t, ('?' if has_unknown(v) or v[0] not in ('sym', 'str') else 'n', '%s is not the result of %s' % (render(v), short(fns[p]))), w)
                            continue
                        if a[0] != fns[p]:
                            ck.bad(t, 'is the result of %s' % short(a[0]), w)
                            continue
                        ck.judge(t, cmp(e, s2, a[1][0], inp(e, s2, p), p), w)
                    rf = fld(e, s2, x, 'resource_files')
                    ck.judge(nm + ' resource files', files(e, s2, rf), w)
            if not nok:
                ck.bad(nm, 'never succeeds', w)
            else:
                for p in PARTS:
                    if p not in errs:
                        ck.bad('%s failure of %s' % (nm, p), 'is not reported', w)
            no_panics(ck, e, nm)

    PERR = dict({p: p.capitalize() + 'ParseError' for p in PARTS}, **{'resource files': 'ResourceFilesParseError'})
    RERR = {p: p.capitalize() + 'ReconstructionError' for p in PARTS}

    def rfiles(base, fn, wrap):
        def f(e, s2, rf):
            o = s2.facts.get(('v', base))
            if o is None:
                if rf[0] == 'sym' and rf[1] == base:
                    return ('y', '')
                return ('?' if has_unknown(rf) else 'n', 'resource files %s whether or not given' % render(rf))
            if o == 0:
                return cmp(e, s2, rf, NONE, 'resource_files')
            if rf[0] != 'adt' or rf[2] != 1:
                return ('n', 'given resource files become %s' % render(rf))
            a = appof(e, rf[3][0], '@Ok.0' if wrap else '')
            if not a or a[0] != fn:
                return ('?', render(rf))
            return cmp(e, s2, a[1][0], e.mk(base + '@Some.0', RL), 'resource_files')
        return f

    def some_files(e, s2, rf):
        if rf[0] != 'adt' or rf[2] != 1:
            return ('n' if not has_unknown(rf) else '?', 'given resource files become %s' % render(rf))
        a = appof(e, rf[3][0], '@Ok.0')
        if not a or a[0] != rft:
            return ('?', render(rf))
        return cmp(e, s2, a[1][0], e.mk('files', RL), 'resource_files')

    run('parse_from', ck.fn(PSP + '::parse_from'), lambda e: [e.mk('r', A(RAW))], parses, 1, rfiles('r.resource_files', rft, 1), PERR,
        lambda e, s, p: e.mk('r.' + p, S))
    run('parse', ck.fn(PSP + '::parse'), lambda e: mk(e, PARTS) + [e.mk('files', RL)], parses, 1, some_files, PERR, lambda e, s, p: e.mk(p, S))
    run('parse_wo_res', ck.fn(PSP + '::parse_wo_res'), lambda e: mk(e, PARTS), parses, 1,
        lambda e, s, rf: cmp(e, s, rf, NONE, 'resource_files'), PERR, lambda e, s, p: e.mk(p, S))
    run('reconstruct', raw_into, lambda e: [e.mk('p', A(PSP))], recons, 1, rfiles('p.resource_files', rfi, 0), RERR,
        lambda e, s, p: e.mk('p.' + p, A(PMOD[p])))
    # constructors
    for n, res in (('new', 1), ('new_wo_res', 0)):
        fn = ck.fn('%s::%s' % (RAW, n))
        w = ck.span(fn)
        with ck.case(n, w):
            e = ck.eng()
            for st, x in call(e, st0(), fn, mk(e, PARTS) + ([e.mk('files', RL)] if res else [])):
                for p in PARTS:
                    ck.judge('%s %s' % (n, p), cmp(e, st, fld(e, st, x, p), e.mk(p, S), p), w)
                ck.judge(n + ' resource files', cmp(e, st, fld(e, st, x, 'resource_files'), Some(e.mk('files', RL)) if res else NONE, 'resource_files'), w)
            no_panics(ck, e, n)
    # the API-level wrapper goes through the parsed model
    fn = ck.fn('<%s as std::convert::TryInto<%s>>::try_into' % (ASP, RAW), '<%s as std::convert::TryFrom<%s>>::try_from' % (RAW, ASP))
    w = ck.span(fn)
    conv = ck.fn('<%s as std::convert::From<%s>>::from' % (PSP, ASP), '<%s as std::convert::Into<%s>>::into' % (ASP, PSP))
    with ck.case('API to texts', w):
        e = ck.eng(opaque=(conv, raw_into))
        for st, x in call(e, st0(), fn, [e.mk('a', A(ASP))]):
            a = appof(e, x)
            b = a and appof(e, a[1][0])
            if not a or a[0] != raw_into or not b or b[0] != conv:
                ck.und('API to texts', render(x), w)
            else:
                ck.judge('API to texts', cmp(e, st, b[1][0], e.mk('a', A(ASP)), 'project'), w)
        no_panics(ck, e, 'API to texts')
