"""Texts as sequences of segments.

('L', text)            a literal
('A', path, cls[, v])  the text of a datum; cls says what it may look like:
                       id   a non-empty identifier without format delimiters
                       json the one-line JSON text of a record (v = ('json', value, type))
                       num  the decimal text of number v
                       char one character; word, line, raw: arbitrary text (line: no line break)
('each', P, mod, alts) one text per element of P
('grp', segs)          a trimmed text: the ('E', ws) after its parts is dropped after the last part
('part', segs)         one part of a group
('acc', k, nonempty)   what an enclosing loop has accumulated so far
"""
import re
import eng as E
from eng import Undecided, NeedPeel, cat, rename, ek, lit

IDX = set('\n\r\t :@.#%')
SOLID = ('id', 'json', 'num', 'word')


def srender(segs):
    return E._segs(segs)


def embed(segs):
    return segs


def one(st, v):
    return [(st, v)]


def resolve(e, st, segs):
    out = None
    for i, s in enumerate(segs):
        if s[0] == 'A':
            k = st.facts.get(('q', s[1]))
            if k is None and len(s) > 3 and s[3][0] == 'sym':
                k = st.facts.get(('q', s[3][1]))
            if k is not None and not isinstance(k, frozenset):
                if out is None:
                    out = list(segs)
                out[i] = ('L', str(k))
    return segs if out is None else cat(tuple(out))


def litof(segs):
    if all(s[0] == 'L' for s in segs):
        return ''.join(s[1] for s in segs)
    return None


def body_nonempty(b, facts=None):
    """True: certainly some text; False: certainly none; None: unknown"""
    if not b:
        return False
    unk = False
    for s in b:
        if s[0] == 'L' and s[1]:
            return True
        if s[0] == 'A' and s[2] in ('id', 'json', 'num', 'word', 'char'):
            return True
        if s[0] == 'acc' and s[2]:
            return True
        if s[0] in ('grp', 'part'):
            r = body_nonempty(s[1], facts)
            if r:
                return True
            if r is None:
                unk = True
            continue
        if s[0] == 'E':
            continue
        if s[0] == 'each' and facts is not None and facts.get(ek(s[1], s[2])) is False \
                and all(body_nonempty(x, facts) for _, x in s[3]):
            return True
        unk = True
    return None if unk else False


def each_key(s, facts=None):
    _, P, mod, alts = s
    if all(body_nonempty(b, facts) for _, b in alts):
        return ek(P, mod), True
    gs = [g for gs, b in alts if body_nonempty(b) is not False for g in gs]
    return ('e', '%s/%s?%s' % (P, mod, E._facts(tuple(gs)))), False


def is_empty(e, st, segs):
    segs = resolve(e, st, segs)
    if body_nonempty(segs) is True:
        return one(st, False)
    cur = [st]
    out = []
    for s in segs:
        nx = []
        for s2 in cur:
            if s[0] == 'L' or s[0] == 'E':
                nx.append(s2)
                continue
            if s[0] == 'A':
                r = e.eqconst(s2, s[1], '')
            elif s[0] == 'acc':
                raise NeedPeel(s[1])
            elif s[0] in ('grp', 'part'):
                r = is_empty(e, s2, s[1])
            elif s[0] == 'each':
                key, exact = each_key(s)
                if not exact:
                    # alternatives ruled out for every element are not considered
                    live = tuple((g, b) for g, b in s[3] if e.guards_state(s2, g) is not None)
                    if live:
                        key, exact = each_key((s[0], s[1], s[2], live), s2.facts)
                if s2.facts.get(ek(s[1], s[2])) is True:
                    r = one(s2, True)
                elif all(body_nonempty(b) is False for _, b in s[3]):
                    r = one(s2, True)
                else:
                    r = e.empty(s2, s[1], s[2]) if exact else e.pred(s2, key)
            else:
                raise Undecided('emptiness of text %s' % srender(segs))
            for s3, b in r:
                (nx.append(s3) if b else out.append((s3, False)))
        cur = nx
    return [(s2, True) for s2 in cur] + out


# ------------------------------------------------------------------ equality
def known_sw(st, path, text):
    """what is known about `path` starting with `text`: True / False / None"""
    for k, v in st.facts.items():
        if k[0] == 'sw' and k[1] == path:
            x = k[2]
            if v:
                if x.startswith(text):
                    return True
                if not text.startswith(x):
                    return False
            elif text.startswith(x):
                return False
        elif k[0] == 'q' and k[1] == path and not isinstance(v, frozenset):
            return v.startswith(text)
    return None


def atom_eq(e, st, s, text):
    cls = s[2]
    path = s[1]
    if cls == 'id' and (not text or any(c in IDX for c in text)):
        return one(st, False)
    if cls == 'word' and (not text or any(c.isspace() for c in text)):
        return one(st, False)
    if cls == 'json' and not text.startswith('{'):
        return one(st, False)
    if cls == 'char' and len(text) != 1:
        return one(st, False)
    if cls == 'line' and '\n' in text:
        return one(st, False)
    if cls == 'num':
        if len(s) > 3 and s[3][0] in ('sym', 'lin', 'cast', 'bits'):
            import models as m
            try:
                n = int(text)
            except ValueError:
                return one(st, False)
            return m.num_eq(e, st, s[3], ('int', n, m.tyof(s[3]) or 'i32'))
        if not text or not (text[0].isdigit() or text[0] in '-.f'):
            return one(st, False)
    for k, v in st.facts.items():
        if k[0] == 'sw' and k[1] == path and v != text.startswith(k[2]):
            return one(st, False)
        if k[0] == 'ew' and k[1] == path and v != text.endswith(k[2]):
            return one(st, False)
    return e.eqconst(st, path, text)


def eq(e, st, a, b):
    a, b = resolve(e, st, a), resolve(e, st, b)
    if a == b:
        if E.has_acc(a):
            raise Undecided('accumulator compared')
        return one(st, True)
    # common prefix and suffix
    a, b = list(a), list(b)
    for end in (0, -1):
        while a and b:
            x, y = a[end], b[end]
            if x == y and x[0] in ('A', 'each'):
                a.pop(end)
                b.pop(end)
                continue
            if x[0] == 'L' and y[0] == 'L':
                n = min(len(x[1]), len(y[1]))
                p, q = (x[1][:n], y[1][:n]) if end == 0 else (x[1][-n:], y[1][-n:])
                if p != q:
                    return one(st, False)
                x1, y1 = (x[1][n:], y[1][n:]) if end == 0 else (x[1][:-n], y[1][:-n])
                a.pop(end)
                b.pop(end)
                if x1:
                    a.insert(0, ('L', x1)) if end == 0 else a.append(('L', x1))
                if y1:
                    b.insert(0, ('L', y1)) if end == 0 else b.append(('L', y1))
                continue
            break
    a, b = tuple(a), tuple(b)
    if not a and not b:
        return one(st, True)
    if not a or not b:
        return is_empty(e, st, a or b)
    la, lb = litof(a), litof(b)
    if la is not None and lb is not None:
        return one(st, la == lb)
    if la is not None or lb is not None:
        t, s = (la, b) if la is not None else (lb, a)
        if len(s) == 1 and s[0][0] == 'A':
            return atom_eq(e, st, s[0], t)
        if len(s) == 1 and s[0][0] in ('grp',):
            # a trimmed text against a literal: compare the empty case only
            if t == '':
                return is_empty(e, st, s)
        # literals inside must occur
        for x in s:
            if x[0] == 'L' and x[1] not in t:
                return one(st, False)
            if x[0] == 'A' and x[2] == 'json' and '{' not in t:
                return one(st, False)
        if s[0][0] == 'L' and not t.startswith(s[0][1]):
            return one(st, False)
        if s[-1][0] == 'L' and not t.endswith(s[-1][1]):
            return one(st, False)
        if s[0][0] == 'each' and body_nonempty(s) and all(
                (bd and bd[0][0] == 'L' and not t.startswith(bd[0][1][:len(t)] if len(bd[0][1]) > len(t) else bd[0][1])) for _, bd in s[0][3]):
            return one(st, False)
        return e.pred(st, ('b', 'eq(%s, %r)' % (srender(s), t)))
    if a[0][0] == 'A' and b[0][0] == 'A' and len(a) == 1 and len(b) == 1:
        x, y = sorted((a[0][1], b[0][1]))
        return e.pred(st, ('b', 'eq(%s, %s)' % (x, y)))
    if E.has_acc(a) or E.has_acc(b):
        raise Undecided('accumulator compared')
    x, y = sorted((srender(a), srender(b)))
    return e.pred(st, ('b', 'eq(%s, %s)' % (x, y)))


# ------------------------------------------------------------------ prefixes, suffixes, slices
def strip_prefix(e, st, segs, t):
    segs = resolve(e, st, segs)
    if not t:
        return one(st, segs)
    if not segs:
        return one(st, None)
    s = segs[0]
    rest = segs[1:]
    if s[0] == 'L':
        if s[1].startswith(t):
            return one(st, cat((('L', s[1][len(t):]),), rest))
        if t.startswith(s[1]):
            return strip_prefix(e, st, rest, t[len(s[1]):])
        return one(st, None)
    if s[0] == 'A':
        cls = s[2]
        if cls == 'id' and any(c in IDX for c in t):
            if t[0] in IDX:
                return one(st, None)
        if cls == 'json' and t[0] != '{':
            return one(st, None)
        if cls == 'word' and t[0].isspace():
            return one(st, None)
        if cls == 'num' and not (t[0].isdigit() or t[0] in '-+.'):
            return one(st, None)
        if cls == 'num' and len(s) > 3 and s[3][0] == 'sym' and s[3][2][0] == 'p' and s[3][2][1][0] == 'u' and not t[0].isdigit():
            return one(st, None)
        if cls == 'char':
            out = []
            for s2, b in e.eqconst(st, s[1], t[0]):
                out.extend(strip_prefix(e, s2, rest, t[1:]) if b else one(s2, None))
            return out
        k = known_sw(st, s[1], t)
        new = cat((('A', '%s[%d..]' % (s[1], len(t.encode())), 'line' if cls == 'line' else 'word?' if cls == 'word' else 'raw'),), rest)
        if k is not None:
            return one(st, new if k else None)
        x = st.facts.get(('q', s[1]))
        if isinstance(x, frozenset) and False:
            pass
        out = []
        for s2, b in e.pred(st, ('sw', s[1], t)):
            out.append((s2, new if b else None))
        return out
    if s[0] == 'acc':
        raise NeedPeel(s[1])
    if s[0] == 'each':
        heads = [b for _, b in s[3]]
        if all(b and b[0][0] == 'L' for b in heads):
            n = len(t)
            if all(not (b[0][1].startswith(t) or t.startswith(b[0][1])) for b in heads):
                out = []
                for s2, em in e.empty(st, s[1], s[2]):
                    out.extend(strip_prefix(e, s2, rest, t) if em else one(s2, None))
                return out
            if all(b[0][1].startswith(t) for b in heads):
                nm = {'': ('[0]', 'tail'), 'tail': ('[1]', 'tail2'), 'init': ('[0]', 'mid')}.get(s[2])
                out = []
                for s2, em in e.empty(st, s[1], s[2]):
                    if em:
                        out.extend(strip_prefix(e, s2, rest, t))
                        continue
                    if not nm:
                        raise Undecided('prefix of a sequence')
                    for g, b in s[3]:
                        s3 = e.guards_state(s2, rename(tuple(g), s[1] + '[*]', s[1] + nm[0]))
                        if s3 is None:
                            continue
                        bb = rename(tuple(b), s[1] + '[*]', s[1] + nm[0])
                        out.extend(strip_prefix(e, s3, cat(bb, (('each', s[1], nm[1], s[3]),), rest), t))
                return out
    if s[0] == 'E':
        raise Undecided('prefix')
    if s[0] == 'grp':
        out = []
        for s2, em in is_empty(e, st, s[1]):
            if em:
                out.extend(strip_prefix(e, s2, rest, t))
            elif t[0].isspace():
                out.append((s2, None))
            else:
                f = s[1][0]
                bodies = [b for _, b in f[3]] if f[0] == 'each' else [f[1]] if f[0] == 'part' else []
                if len(s[1]) == 1 and bodies and all(b and b[0][0] == 'L' and not b[0][1].startswith(t) and not t.startswith(b[0][1]) for b in bodies):
                    out.append((s2, None))
                elif len(s[1]) == 1 and bodies and all(b and b[0][0] == 'A' and b[0][2] == 'json' and t[0] != '{' for b in bodies):
                    out.append((s2, None))
                else:
                    raise Undecided('prefix of a group')
        return out
    raise Undecided('prefix of %s' % srender(segs))


def strip_sym(e, st, segs, v, start):
    x = v[1] if v[0] == 'str' else None
    if x is None:
        raise Undecided('pattern')
    if segs[:len(x)] == x:
        return one(st, segs[len(x):])
    out = []
    for s2, b in e.pred(st, ('b', 'starts_with(%s, %s)' % (srender(segs), srender(x)))):
        out.append((s2, (('A', 'strip(%s, %s)' % (srender(segs), srender(x)), 'raw'),) if b else None))
    return out


def strip_suffix(e, st, segs, t):
    segs = resolve(e, st, segs)
    if not t:
        return one(st, segs)
    if not segs:
        return one(st, None)
    s = segs[-1]
    pre = segs[:-1]
    if s[0] == 'L':
        if s[1].endswith(t):
            return one(st, cat(pre, (('L', s[1][:-len(t)]),)))
        if t.endswith(s[1]):
            return strip_suffix(e, st, pre, t[:-len(s[1])])
        return one(st, None)
    if s[0] == 'A':
        cls = s[2]
        if cls == 'json' and not t.endswith('}'):
            return one(st, None)
        if cls == 'id':
            if t[-1] in IDX:
                return one(st, None)
            d = max([i for i, c in enumerate(t) if c in IDX], default=-1)
            if d >= 0:
                # the datum can only cover what follows the last delimiter
                if not pre:
                    return one(st, None)
                cur = [st]
                out = []
                for j in range(d + 1, len(t)):
                    nx = []
                    for s2 in cur:
                        probe = strip_suffix(e, s2, pre, t[:j])
                        if all(r is None for _, r in probe):
                            nx.append(s2)
                            continue
                        for s3, r in probe:
                            if r is None:
                                nx.append(s3)
                                continue
                            for s4, b in e.eqconst(s3, s[1], t[j:]):
                                if b:
                                    out.append((s4, r))
                                else:
                                    nx.append(s4)
                    cur = nx
                return out + [(s2, None) for s2 in cur]
        f = st.facts.get(('q', s[1]))
        new = cat(pre, (('A', '%s[..-%d]' % (s[1], len(t.encode())), 'line' if cls == 'line' else 'raw'),))
        out = []
        for s2, b in e.pred(st, ('ew', s[1], t)):
            out.append((s2, new if b else None))
        return out
    if s[0] == 'acc':
        raise Undecided('suffix of an accumulator')
    raise Undecided('suffix of %s' % srender(segs))


FIRST = re.compile(r"^(.*)\.split(?:_once)?\('(.+)'\)(?:\[0\]|@Some\.0\.0|\.0)$")
TAIL = re.compile(r'^(.*)\[(\d+)\.\.\]$')


def prefix_of(st, path):
    """a text that the datum is known to start with"""
    best = ''
    for k, v in st.facts.items():
        if k[0] == 'sw' and k[1] == path and v is True and len(k[2]) > len(best):
            best = k[2]
        elif k[0] == 'q' and k[1] == path and isinstance(v, str) and len(v) > len(best):
            best = v
    m = FIRST.match(path)
    if m:
        p, d = prefix_of(st, m.group(1)), m.group(2)
        n = 0
        while n < len(p) and not d.startswith(p[n:n + len(d)]):
            n += 1
        if n > len(best):
            best = p[:n]
    m = TAIL.match(path)
    if m:
        p = prefix_of(st, m.group(1))
        n = int(m.group(2))
        if p[:n].isascii() and len(p) - n > len(best):
            best = p[n:]
    return best


def substr(e, st, segs, lo, hi, openend):
    """[(state, segs or None)]; None: out of range or not on a character boundary"""
    segs = resolve(e, st, segs)
    t = litof(segs)
    if lo is None or (hi is None and not openend):
        # an unknown bound
        key = ('b', 'sliceable(%s, %s)' % (srender(segs), 'n'))
        return [(s2, (('A', 'slice(%s)' % srender(segs), 'raw'),) if b else None) for s2, b in e.pred(st, key)]
    if t is not None:
        b = t.encode()
        h = len(b) if openend else hi
        if lo > h or h > len(b):
            return one(st, None)
        try:
            return one(st, lit(b[lo:h].decode())[1])
        except UnicodeDecodeError:
            return one(st, None)
    if openend:
        if lo == 0:
            return one(st, segs)
        s = segs[0]
        if s[0] == 'L' and len(s[1].encode()) >= lo and s[1].isascii():
            return one(st, cat((('L', s[1][lo:]),), segs[1:]))
        if s[0] == 'A':
            p = prefix_of(st, s[1])
            if len(p) >= lo and p[:lo].isascii():
                return one(st, cat((('A', '%s[%d..]' % (s[1], lo), 'line' if s[2] == 'line' else 'raw'),), segs[1:]))
    else:
        s = segs[0]
        if s[0] == 'L' and len(s[1].encode()) >= hi and s[1].isascii():
            return one(st, lit(s[1][lo:hi])[1])
    rg = '%d..%s' % (lo, '' if openend else hi)
    base = segs[0][1] if len(segs) == 1 and segs[0][0] == 'A' else srender(segs)
    key = ('b', 'sliceable(%s, %s)' % (base, rg))
    return [(s2, (('A', '%s[%s]' % (base, rg), 'raw'),) if b else None) for s2, b in e.pred(st, key)]


def pop(e, st, segs):
    """[(state, rest, char or None)]"""
    segs = resolve(e, st, segs)
    if not segs:
        return [(st, segs, None)]
    s = segs[-1]
    if s[0] == 'L':
        return [(st, cat(segs[:-1], (('L', s[1][:-1]),)), ('char', s[1][-1]))]
    if s[0] == 'A' and s[2] == 'char':
        return [(st, segs[:-1], s[3] if len(s) > 3 else ('sym', s[1], ('p', 'char')))]
    out = []
    if s[0] == 'A':
        for s2, b in (is_empty(e, st, segs)):
            if b:
                out.append((s2, segs, None))
            else:
                out.append((s2, segs[:-1] + (('A', 'init(%s)' % s[1], 'raw'),), ('sym', 'last(%s)' % s[1], ('p', 'char'))))
        return out
    if s[0] == 'each':
        alts = [(g, resolve(e, st, b)) for g, b in s[3]]
        if all(b and b[-1][0] == 'L' and b[-1][1][-1] in ' \n' for g, b in alts) and len({b[-1][1][-1] for g, b in alts}) == 1:
            c = alts[0][1][-1][1][-1]
            for s2, em in e.empty(st, s[1], s[2]):
                if em:
                    out.extend(pop(e, s2, segs[:-1]))
                else:
                    body = tuple((g, cat(b[:-1], (('L', b[-1][1][:-1]), ('E', c)))) for g, b in alts)
                    out.append((s2, segs[:-1] + (('grp', (('each', s[1], s[2], body),)),), ('char', c)))
            return out
    raise Undecided('pop of %s' % srender(segs))


def chars(e, segs):
    out = []
    for s in segs:
        if s[0] == 'L':
            out.extend(('one', ('char', c)) for c in s[1])
        elif s[0] == 'A':
            if s[2] == 'char':
                out.append(('one', s[3] if len(s) > 3 else ('sym', s[1], ('p', 'char'))))
            else:
                P = s[1] + '.chars'
                out.append(('each', P, '', (((), (('one', ('sym', P + '[*]', ('p', 'char'))),)),)))
        elif s[0] == 'each':
            out.append(('each', s[1], s[2], tuple((g, chars(e, b)) for g, b in s[3])))
        else:
            raise Undecided('chars of %s' % srender(segs))
    return tuple(out)


def joined(parts, sep):
    segs = ()
    for i, p in enumerate(parts):
        segs = cat(segs, (('L', sep),) if i and sep else (), p)
    return segs


# ------------------------------------------------------------------ splitting at a separator, once
NOTIN = {}       # character symbol -> characters it is known not to be


def may_contain(s, sep):
    if s[0] == 'A':
        if s[2] == 'id':
            return not any(c in IDX for c in sep)
        if s[2] == 'num':
            return not any(c not in '0123456789-+.' for c in sep)
        if s[2] == 'json':
            return '\n' not in sep
        if s[2] == 'word':
            return not any(c.isspace() for c in sep)
        if s[2] == 'line':
            return '\n' not in sep
        if s[2] == 'char':
            return len(sep) == 1 and sep not in NOTIN.get(s[1], '')
        if s[2] == 'word?':
            return not any(c.isspace() for c in sep)
        return True
    if s[0] == 'L':
        return sep in s[1]
    if s[0] in ('grp', 'part'):
        return any(may_contain(x, sep) for x in s[1])
    if s[0] == 'E':
        return sep in s[1]
    if s[0] == 'each':
        return any(may_contain(x, sep) for _, b in s[3] for x in b)
    return True


def split_once(e, st, segs, sep, last=False):
    """[(state, (before, after) or None)]"""
    segs = resolve(e, st, segs)
    out = []
    order = range(len(segs)) if not last else range(len(segs) - 1, -1, -1)
    for i in order:
        s = segs[i]
        full = None
        if s[0] == 'L' and sep in s[1]:
            j = s[1].rindex(sep) if last else s[1].index(sep)
            full = (cat(segs[:i], (('L', s[1][:j]),)), cat((('L', s[1][j + len(sep):]),), segs[i + 1:]))
            if not last:
                return out + one(st, full)
        # the text looked for may begin in this piece and end in the next one
        if s[0] == 'L' and i + 1 < len(segs) and segs[i + 1][0] == 'A' and segs[i + 1][2] in ('id', 'word', 'line'):
            n = segs[i + 1]
            for k in (range(len(sep) - 1, 0, -1) if not last else range(1, len(sep))):
                if s[1].endswith(sep[:k]) and not any(not may_contain(n, c) for c in sep[k:]):
                    nxt = None
                    for s2, r in strip_prefix(e, st, segs[i + 1:], sep[k:]):
                        if r is not None:
                            out.append((s2, (cat(segs[:i], (('L', s[1][:len(s[1]) - k]),)), r)))
                        else:
                            nxt = s2
                    if nxt is None:
                        return out
                    st = nxt
        if full is not None:
            return out + one(st, full)
        if not may_contain(s, sep):
            continue
        if s[0] == 'L':
            continue
        base = segs[0][1] if len(segs) == 1 and s[0] == 'A' else srender(segs)
        for s2, b in e.pred(st, ('b', 'contains(%s, %r)' % (base, sep))):
            tag = 'r' if last else ''
            out.append((s2, ((('A', '%sbefore(%s, %r)' % (tag, base, sep), 'raw'),), (('A', '%safter(%s, %r)' % (tag, base, sep), 'raw'),)) if b else None))
        return out
    return out + one(st, None)


# ------------------------------------------------------------------ scoped computations on loop bodies
def scoped(e, st, alts, f):
    """apply f(state, body) -> [(state, result)] to every alternative; facts it adds become guards"""
    out = []
    for g, b in alts:
        s1 = e.guards_state(st, g)
        if s1 is None:
            continue
        for s2, r in f(s1, b):
            ng = {k: v for k, v in s2.facts.items() if st.facts.get(k) != v}
            out.append((tuple(sorted(ng.items(), key=repr)), r))
    return out


# ------------------------------------------------------------------ trimming
def wsonly(t):
    return t and not t.strip()


def rotate(segs):
    """A ++ s ++ each(x ++ s)  ->  A ++ each(s ++ x) ++ s"""
    out = list(segs)
    i = 1
    while i < len(out):
        s, p = out[i], out[i - 1]
        if s[0] == 'each' and p[0] == 'L' and p[1].endswith('\n'):
            bs = [b for _, b in s[3] if b]
            if bs and all(b[-1][0] == 'L' and b[-1][1].endswith('\n') and not (b[0][0] == 'L' and b[0][1].startswith('\n')) for b in bs):
                na = tuple((g, cat((('L', '\n'),), b[:-1], (('L', b[-1][1][:-1]),)) if b else ()) for g, b in s[3])
                new = [('L', p[1][:-1])] if p[1][:-1] else []
                new += [('each', s[1], s[2], na), ('L', '\n')]
                out[i - 1:i + 1] = new
                out = list(cat(tuple(out)))
                i = 1
                continue
        i += 1
    return tuple(out)


def starts_solid(b):
    s = b[0]
    return (s[0] == 'L' and not s[1][0].isspace()) or (s[0] == 'A' and s[2] in SOLID) or (s[0] == 'A' and s[2] == 'char')


def strip_nl(e, st, segs, start, end):
    """line ends taken off the ends; None when it cannot be told where they end"""
    segs = list(resolve(e, st, segs))

    def cut(side):
        """True when that end is settled"""
        while segs:
            i = 0 if side else -1
            s = segs[i]
            if s[0] == 'L':
                t = s[1].lstrip('\n') if side else s[1].rstrip('\n')
                if t:
                    segs[i] = ('L', t)
                    return True
                segs.pop(i)
            else:
                return s[0] == 'A' and (s[2] in SOLID or s[2] == 'char')
        return True
    done = all([cut(side) for side, on in ((True, start), (False, end)) if on])
    if done:
        return one(st, tuple(segs))

    def only_nl(x):
        if x[0] == 'L':
            return not any(c.isspace() and c != '\n' for c in x[1])
        if x[0] == 'A':
            return x[2] in SOLID or x[2] == 'char'
        if x[0] == 'E':
            return x[1].strip('\n') == ''
        if x[0] == 'each':
            return all(only_nl(y) for _, b in x[3] for y in b)
        if x[0] == 'grp':
            return all(only_nl(y) for y in x[1])
        return False
    if all(only_nl(x) for x in segs):
        return trim(e, st, tuple(segs), start, end)
    return None


def trim(e, st, segs, start, end):
    segs = resolve(e, st, segs)
    res = [(st, segs)]
    if start and end and len(segs) == 1 and segs[0][0] == 'A' and segs[0][2] in ('raw', 'line'):
        return one(st, (('A', 'trim(%s)' % segs[0][1], segs[0][2]),))
    if start:
        res = [(s3, x) for s2, y in res for s3, x in trim_start(e, s2, y)]
    if end:
        res = [(s3, x) for s2, y in res for s3, x, ws in trim_end(e, s2, y)]
    return res


def to_eform(e, st, run):
    """each(s ++ x) ... at the start of a text -> group with parts x"""
    seps = set()
    for s in run:
        if s[0] != 'each':
            return None
        for _, b in s[3]:
            if not b:
                continue
            if b[0][0] != 'L':
                return None
            t = b[0][1]
            ws = t[:len(t) - len(t.lstrip())]
            if not ws:
                return None
            rest = cat((('L', t[len(ws):]),), b[1:])
            if not rest or not (starts_solid(rest) or rest[0][0] == 'grp'):
                return None
            seps.add(ws)
    if len(seps) != 1:
        return None
    ws = seps.pop()
    out = []
    for s in run:
        na = []
        for g, b in s[3]:
            if b:
                b = cat((('L', b[0][1][len(ws):]),), b[1:])
                b = cat(b, (('E', ws),))
            na.append((g, b))
        out.append(('each', s[1], s[2], tuple(na)))
    return (('grp', tuple(out)),)


def trim_start(e, st, segs):
    while segs:
        s = segs[0]
        if s[0] == 'L':
            t = s[1].lstrip()
            if t:
                return one(st, cat((('L', t),), segs[1:]))
            segs = segs[1:]
            continue
        if s[0] == 'A':
            if s[2] in SOLID or s[2] == 'char':
                return one(st, segs)
            if len(segs) == 1:
                return one(st, (('A', 'trim_start(%s)' % s[1], s[2]),))
            raise Undecided('trim of %s' % srender(segs))
        if s[0] == 'each':
            g = to_eform(e, st, segs)
            if g:
                return one(st, g)
            bs = [b for _, b in s[3] if b]
            rest = segs[1:]
            if all(starts_solid(b) for b in bs):
                if not rest or (rest[0][0] == 'each' and all(starts_solid(b) for _, b in rest[0][3] if b) and len(rest) == 1) or starts_solid(rest):
                    return one(st, segs)
            out = []
            for s2, em in is_empty(e, st, (s,)):
                if em:
                    out.extend(trim_start(e, s2, rest))
                elif all(starts_solid(b) for b in bs):
                    out.append((s2, segs))
                else:
                    nm = {'': ('[0]', 'tail'), 'init': ('[0]', 'mid')}.get(s[2])
                    if not nm or not all(b for _, b in s[3]):
                        raise Undecided('trim of %s' % srender(segs))
                    for gd, b in s[3]:
                        s3 = e.guards_state(s2, rename(tuple(gd), s[1] + '[*]', s[1] + nm[0]))
                        if s3 is not None:
                            out.extend(trim_start(e, s3, cat(rename(tuple(b), s[1] + '[*]', s[1] + nm[0]), (('each', s[1], nm[1], s[3]),), rest)))
            return out
        if s[0] == 'grp':
            rest = segs[1:]
            if not rest:
                return one(st, segs)
            out = []
            for s2, em in is_empty(e, st, (s,)):
                out.extend(trim_start(e, s2, rest) if em else one(s2, segs))
            return out
        if s[0] == 'acc':
            raise Undecided('trim of an accumulator')
        raise Undecided('trim of %s' % srender(segs))
    return one(st, ())


def ends_solid(b):
    s = b[-1]
    if s[0] == 'L':
        return not s[1][-1].isspace()
    if s[0] == 'A':
        return s[2] in SOLID or s[2] == 'char'
    if s[0] == 'each' and len(b) > 1:
        return all(ends_solid(x) for _, x in s[3] if x) and ends_solid(b[:-1])
    return False


def trim_end(e, st, segs):
    """[(state, segs, removed white space)]"""
    segs = rotate(segs)
    ws = ''
    while segs:
        s = segs[-1]
        pre = segs[:-1]
        if ends_solid(segs):
            return [(st, segs, ws)]
        if s[0] == 'L':
            t = s[1].rstrip()
            ws = s[1][len(t):] + ws
            if t:
                return [(st, pre + (('L', t),), ws)]
            segs = pre
            continue
        if s[0] == 'A':
            if s[2] in SOLID or s[2] == 'char':
                return [(st, segs, ws)]
            if len(segs) == 1:
                return [(st, (('A', 'trim_end(%s)' % s[1], s[2]),), ws)]
            if s[2] == 'line' or s[2] == 'raw':
                # a datum that may end in white space
                return [(st, pre + (('A', 'trim_end(%s)' % s[1], s[2]),), ws)]
            raise Undecided('trim of %s' % srender(segs))
        if s[0] == 'each':
            bs = [b for _, b in s[3] if b]
            if all(ends_solid(b) for b in bs):
                out = []
                for s2, em in is_empty(e, st, (s,)):
                    if em:
                        out.extend((a, b, w + ws) for a, b, w in trim_end(e, s2, pre))
                    else:
                        out.append((s2, segs, ws))
                # when trimming what precedes changes nothing, no case distinction is needed
                r = trim_end(e, st, pre) if pre else [(st, (), '')]
                if len(r) == 1 and r[0][1] == pre and not r[0][2]:
                    return [(st, segs, ws)]
                return out
            # the run of loop bodies at the end of the text, each followed by white space
            run = []
            i = len(segs)
            while i > 0 and segs[i - 1][0] == 'each':
                i -= 1
                run.insert(0, segs[i])
            pre = segs[:i]
            new = []
            for x in run:
                alts = scoped(e, st, x[3], lambda s1, b: [(a, (c, w)) for a, c, w in trim_end(e, s1, b)] if b else [(s1, ((), ''))])
                if any(c and not w for _, (c, w) in alts):
                    raise Undecided('trim of %s' % srender(segs))
                new.append(('each', x[1], x[2], tuple((g, cat(c, (('E', w),)) if c else ()) for g, (c, w) in alts)))
            if not pre:
                return [(st, (('grp', tuple(new)),), ws)]
            out = []
            for s2, em in is_empty(e, st, tuple(run)):
                if em:
                    out.extend((a, b, w + ws) for a, b, w in trim_end(e, s2, pre))
                else:
                    out.append((s2, pre + (('grp', tuple(new)),), ws))
            return out
        if s[0] == 'grp':
            if not pre:
                return [(st, segs, ws)]
            out = []
            for s2, em in is_empty(e, st, (s,)):
                if em:
                    out.extend((a, b, w + ws) for a, b, w in trim_end(e, s2, pre))
                else:
                    out.append((s2, segs, ws))
            return out
        if s[0] == 'acc':
            raise Undecided('trim of an accumulator')
        raise Undecided('trim of %s' % srender(segs))
    return [(st, (), ws)]


# ------------------------------------------------------------------ splitting
def refold(e, st, segs):
    """the first element written out, then each further one after a separator -> one group"""
    for i, s in enumerate(segs):
        if not i or s[0] != 'each' or s[2] != 'tail':
            continue
        j = i
        while j < len(segs) and segs[j][0] == 'each':
            j += 1
        g = to_eform(e, st, segs[i:j])
        if g is None:
            continue
        star, zero = s[1] + '[*]', s[1] + '[0]'
        for _, b in g[0][1][0][3]:
            b = rename(b[:-1], star, zero)
            pre = segs[:i]
            if not b or len(pre) < len(b) or pre[-len(b) + 1:] != b[1:] and len(b) > 1:
                continue
            h, rest = pre[-len(b)], pre[:-len(b)]
            if h == b[0]:
                h = ()
            elif h[0] == 'L' and b[0][0] == 'L' and h[1].endswith(b[0][1]):
                h = (('L', h[1][:-len(b[0][1])]),)
            else:
                continue
            inner = (('each', s[1], '', g[0][1][0][3]),) + g[0][1][1:]
            return cat(rest, h, (('grp', inner),), segs[j:])
    return segs


def split(e, st, segs, sep):
    """[(state, items)]"""
    segs = refold(e, st, resolve(e, st, segs))
    if len(segs) == 1 and segs[0][0] == 'A' and may_contain(segs[0], sep):
        P = segs[0][1] + ('.lines' if sep == '\n' else '.split(%r)' % sep)
        cls = 'line' if sep == '\n' else 'word?' if sep == ' ' else 'raw'
        st = st.copy()
        st.facts[('e', P)] = False
        return one(st, (('each', P, '', (((), (('one', ('str', (('A', P + '[*]', cls),))),)),)),))
    return [(s2, its) for s2, its, mode in split_run(e, st, segs, sep, True)]


def split_body(e, st, body, sep):
    """items of a complete piece of text"""
    return [(s2, its) for s2, its, mode in split_run(e, st, body, sep, False)]


def split_run(e, st, segs, sep, top):
    segs = tuple(segs)
    states = [(st, (), (), 'cur')]      # state, items, current line, mode
    for i, s in enumerate(segs):
        nstates = []
        last = i == len(segs) - 1
        for st1, its, cur, mode in states:
            if s[0] == 'L':
                t = s[1]
                if mode == 'eol':
                    if not t.startswith(sep):
                        raise Undecided('text continues after a sequence of lines')
                    t = t[len(sep):]
                    mode, cur = 'cur', ()
                parts = t.split(sep)
                cur = cat(cur, (('L', parts[0]),))
                for p in parts[1:]:
                    its = its + (('one', ('str', cur)),)
                    cur = cat((('L', p),))
                nstates.append((st1, its, cur, mode))
            elif s[0] == 'A':
                if mode == 'eol':
                    raise Undecided('text continues after a sequence of lines')
                if may_contain(s, sep):
                    raise Undecided('unknown text %s may contain the separator' % s[1])
                nstates.append((st1, its, cat(cur, (s,)), mode))
            elif s[0] == 'each':
                nstates.extend(split_each(e, st1, its, cur, mode, s, sep))
            elif s[0] == 'grp':
                nstates.extend(split_grp(e, st1, its, cur, mode, s, sep, last and top))
            elif s[0] == 'acc':
                raise Undecided('split of an accumulator')
            else:
                raise Undecided('split of %s' % srender(segs))
        states = nstates
    out = []
    for st1, its, cur, mode in states:
        if mode == 'cur':
            its = its + (('one', ('str', cur)),)
        out.append((st1, its, mode))
    return out


def split_each(e, st, its, cur, mode, s, sep):
    _, P, mod, alts = s
    bs = [b for _, b in alts if b]
    if not bs:
        return [(st, its, cur, mode)]
    if not any(may_contain(s2, sep) for b in bs for s2 in b):
        if mode == 'eol':
            raise Undecided('text continues after a sequence of lines')
        return [(st, its, cat(cur, (s,)), mode)]
    if all(b[0][0] == 'L' and b[0][1].startswith(sep) for b in bs):
        na = scoped(e, st, alts, lambda s1, b: split_body(e, s1, cat((('L', b[0][1][len(sep):]),), b[1:]), sep) if b else [(s1, ())])
        if mode == 'cur':
            its = its + (('one', ('str', cur)),)
        return [(st, its + (('each', P, mod, tuple(na)),), (), 'eol')]
    if mode == 'cur' and not cur and all(b[-1][0] == 'L' and b[-1][1].endswith(sep) for b in bs):
        na = scoped(e, st, alts, lambda s1, b: split_body(e, s1, cat(b[:-1], (('L', b[-1][1][:-len(sep)]),)), sep) if b else [(s1, ())])
        return [(st, its + (('each', P, mod, tuple(na)),), (), 'cur')]
    raise Undecided('separator inside a repeated text %s' % srender((s,)))


def split_grp(e, st, its, cur, mode, s, sep, last):
    if mode == 'eol':
        raise Undecided('text continues after a sequence of lines')
    inner = s[1]
    if not may_contain(s, sep):
        return [(st, its, cat(cur, (s,)), mode)]
    out = []
    for s2, em in is_empty(e, st, inner):
        if em:
            out.append((s2, its, cur, mode))
            continue
        if cur:
            raise Undecided('lines in the middle of a line')
        add = ()
        for x in inner:
            if x[0] == 'each':
                add += (('each', x[1], x[2], tuple(grp_alts(e, s2, x[3], sep, last))),)
            elif x[0] == 'part':
                (g, body), = grp_alts(e, s2, (((), x[1]),), sep, last) or [((), None)]
                if body is None or g:
                    raise Undecided('group')
                add += body
            else:
                raise Undecided('group')
        out.append((s2, its + add, (), 'eol'))
    return out


def grp_alts(e, st, alts, sep, last):
    def f(s1, b):
        if not b:
            return [(s1, ())]
        if b[-1][0] != 'E':
            raise Undecided('group part')
        ws = b[-1][1]
        k = ws.count(sep)
        if sep * k != ws or k < 1:
            raise Undecided('group separator')
        z = b[:-1]
        if k > 1 and not last:
            raise Undecided('blank lines inside a text')
        if len(z) == 1 and z[0][0] == 'grp':
            ows = {bb[-1][1] for y in z[0][1] for _, bb in (y[3] if y[0] == 'each' else (((), y[1]),)) if bb}
            if ows == {ws}:
                add = ()
                for y in z[0][1]:
                    if y[0] != 'each':
                        raise Undecided('group')
                    add += (('each', y[1], y[2], tuple(grp_alts(e, s1, y[3], sep, last))),)
                return [(s1, add)]
        return [(s2, i + ((('sepend', k - 1),) if k > 1 else ())) for s2, i in split_body(e, s1, z, sep)]
    return scoped(e, st, alts, f)
