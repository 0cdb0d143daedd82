"""A concrete text for a path that the analysis says panics: the facts of the path are predicates over the input texts
(prefixes, suffixes, equality, lengths, character boundaries); a small set of candidate texts built from the literals in the
facts is tried against them.  No witness, no alarm."""
import itertools
import re


class Unk(Exception):
    pass


class Bad(Exception):
    pass


POST = re.compile(r"""\[(\d*)\.\.(-?\d*)\]|\.(?:split|rsplit)\('((?:[^'\\]|\\.)+)'\)|\.split_once\('((?:[^'\\]|\\.)+)'\)@Some\.0\.([01])|\[(\d+|\$)\]|\.(lines|chars)|\.trim\(\)""")
LIT = re.compile(r"""'((?:[^'\\]|\\.)*)'""")
FN = re.compile(r'([a-z_]+)\(')


def unq(t):
    return t.encode('latin-1', 'backslashreplace').decode('unicode_escape') if '\\' in t else t


def term(p, i, env):
    """value of the term that starts at p[i], and where it ends"""
    m = LIT.match(p, i)
    if m:
        return unq(m.group(1)), m.end()
    m = FN.match(p, i)
    if m:
        f, i, args = m.group(1), m.end(), []
        while True:
            v, i = term(p, i, env)
            args.append(v)
            if p[i:i + 2] == ', ':
                i += 2
            elif p[i:i + 1] == ')':
                i += 1
                break
            else:
                raise Unk(p)
        v = fun(f, args)
    else:
        m = re.compile(r'\w+').match(p, i)
        if not m or m.group(0) not in env:
            raise Unk(p)
        v, i = env[m.group(0)], m.end()
    while True:
        m = POST.match(p, i)
        if not m:
            return v, i
        i = m.end()
        if m.group(3) is not None:
            v = v.split(unq(m.group(3)))
        elif m.group(4) is not None:
            x = v.split(unq(m.group(4)), 1)
            if len(x) < 2:
                raise Bad(p)
            v = x[int(m.group(5))]
        elif m.group(6) is not None:
            k = -1 if m.group(6) == '$' else int(m.group(6))
            if not isinstance(v, list) or not -1 <= k < len(v) or not v:
                raise Bad(p)
            v = v[k]
        elif m.group(7):
            v = v.split('\n') if m.group(7) == 'lines' else list(v)
        elif m.group(0) == '.trim()':
            v = v.strip()
        else:
            if not isinstance(v, str):
                raise Unk(p)
            v = sl(v, m.group(1), m.group(2))
            if v is None:
                raise Bad(p)


def fun(f, a):
    if f in ('before', 'after', 'rbefore', 'rafter') and len(a) == 2:
        x = a[0].rsplit(a[1], 1) if f[0] == 'r' else a[0].split(a[1], 1)
        if len(x) < 2:
            raise Bad(f)
        return x[1 if f.endswith('after') else 0]
    if f == 'trim':
        return a[0].strip()
    if f == 'trim_end':
        return a[0].rstrip()
    if f == 'trim_start':
        return a[0].lstrip()
    if f in ('lower', 'upper'):
        return getattr(a[0], f)()
    if f == 'len':
        return len(a[0].encode()) if isinstance(a[0], str) else len(a[0])
    if f in ('contains', 'has') and len(a) == 2:
        return a[1] in a[0]
    if f == 'eq' and len(a) == 2:
        return a[0] == a[1]
    if f == 'starts_with' and len(a) == 2:
        return a[0].startswith(a[1])
    if f == 'is_empty':
        return not a[0]
    if f == 'last' and len(a) == 1:
        if not a[0]:
            raise Bad(f)
        return a[0][-1]
    raise Unk(f)


def ev(path, env):
    """what a path names, for texts env"""
    v, i = term(path, 0, env)
    if i != len(path):
        raise Unk(path)
    return v


def sl(s, a, b):
    x = s.encode()
    lo = int(a) if a else 0
    hi = len(x) if b == '' else int(b) if int(b) >= 0 else len(x) + int(b)
    if lo > hi or hi > len(x) or lo < 0 or hi < 0:
        return None
    try:
        x[:lo].decode()
        return x[lo:hi].decode()
    except UnicodeDecodeError:
        return None


def holds(k, v, env):
    """does the fact hold for the texts env?  Unk when it is not about them"""
    if k[0] == 'sw':
        return ev(k[1], env).startswith(k[2]) == v
    if k[0] == 'ew':
        return ev(k[1], env).endswith(k[2]) == v
    if k[0] == 'q' or k[0] == 'in':
        x = ev(k[1], env)
        if k[0] == 'in':
            if not isinstance(x, int):
                raise Unk(k[1])
            return (v[0] is None or v[0] <= x) and (v[1] is None or x < v[1])
        return x not in v if isinstance(v, frozenset) else x == v
    if k[0] == 'e':
        if k[1].endswith('/tail'):
            return (len(ev(k[1][:-5], env)) == 1) == v
        return (not ev(k[1], env)) == v
    if k[0] == 'b':
        m = re.match(r'^sliceable\((.*), (\d*)\.\.(-?\d*)\)$', k[1])
        if m:
            return (sl(ev(m.group(1), env), m.group(2), m.group(3)) is not None) == v
        return bool(ev(k[1], env)) == v
    raise Unk(k)


def find(facts, atoms):
    """(env or None, facts that are about the texts but could not be evaluated)"""
    per = {a: {} for a in atoms}
    unk = []
    for k, v in facts.items():
        names = [a for a in atoms if isinstance(k[1], str) and re.search(r'(?<!\w)%s(?!\w)' % re.escape(a), k[1])]
        if len(names) == 1:
            per[names[0]][k] = v
        elif len(names) > 1:
            unk.append(k)
    env = {}
    for a in atoms:
        lits = ['']
        for k, v in per[a].items():
            for x in k[2:]:
                if isinstance(x, str) and x not in lits:
                    lits.append(x)
            for x in (v if isinstance(v, frozenset) else [v]):
                if isinstance(x, str) and x not in lits:
                    lits.append(x)
            for x in re.findall(r"'((?:[^'])+)'", k[1]):
                if x not in lits:
                    lits.append(x)
        lits = lits[:9]
        mids = ['', 'a', '\u00e9', '@', '1', 'ab', '@\u00e9', 'abcdefghijklmnopqrstuvwxyz']
        good = None
        bad_unk = None
        cands = [p + m + q for p, m, q in itertools.product(lits, mids, lits)]
        cands += [p + m + r + n + q for p, r, q in itertools.product(lits, lits, lits) for m in ('', 'a', '\u00e9') for n in ('', 'a', '\u00e9\u00e9', 'a\u00e9\u00e9', 'abcdefgh')]
        for c in cands:
            if '\n' in c:
                continue
            u = []
            ok = True
            for k, v in per[a].items():
                try:
                    if not holds(k, v, {a: c}):
                        ok = False
                        break
                except Bad:
                    ok = False
                    break
                except Unk:
                    u.append(k)
            if ok:
                good = c
                bad_unk = u
                break
        if good is None:
            return None, unk
        env[a] = good
        unk += bad_unk
    return env, unk
