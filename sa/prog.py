"""The resolved program: loads the MIR dump of /repo's library crate produced by driver/."""
import json

INTS = {'u8': (8, 0), 'u16': (16, 0), 'u32': (32, 0), 'u64': (64, 0), 'u128': (128, 0), 'usize': (64, 0),
        'i8': (8, 1), 'i16': (16, 1), 'i32': (32, 1), 'i64': (64, 1), 'i128': (128, 1), 'isize': (64, 1)}
UNIT_T = ('t', ())
STR_T = ('p', 'str')
STRING = 'std::string::String'
BOOL_T = ('p', 'bool')
VECS = ('std::vec::Vec', 'std::collections::VecDeque')
LMAPS = ('ritelinked::LinkedHashMap', 'std::collections::BTreeMap')
HMAPS = ('std::collections::HashMap',)
OPT = 'std::option::Option'
RES = 'std::result::Result'


class Prog:
    def __init__(s, path):
        d = json.load(open(path)) if isinstance(path, str) else path
        s.d = d
        s.types = d['types']
        s.adts = {a['n']: a for a in d['adts']}
        s.impls = d['impls']
        s.traits = {t['n']: t for t in d.get('traits', [])}
        s.bodies = {b['n']: b for b in d['bodies']}
        s._t = {}
        s._tn = {}
        s.implidx = {}
        for im in s.impls:
            if not im['trait']:
                continue
            args = [s.T(a) for a in im['args']]
            for nm, path in im['items']:
                s.implidx.setdefault((im['trait'], nm), []).append((args, path, im))
        s.loops = {}
        s.live = {}

    # ---- types: structural tuples
    def T(s, i):
        if not isinstance(i, int):
            return ('o', str(i))
        r = s._t.get(i)
        if r is None:
            r = s._t[i] = s._mkT(i)
        return r

    def _mkT(s, i):
        t = s.types[i]
        k = t['k']
        if k == 'prim':
            return ('p', t['n'])
        if k == 'adt':
            return ('a', t['n'], tuple(s.T(a) for a in t.get('a', []) if not isinstance(a, int) or s.types[a]['k'] != 'lt'))
        if k == 'ref':
            return ('r', bool(t.get('mut')), s.T(t['e']))
        if k == 'ptr':
            return ('r', True, s.T(t['e']))
        if k == 'slice':
            return ('s', s.T(t['e']))
        if k == 'array':
            return ('arr', s.T(t['e']), t.get('len'))
        if k == 'tuple':
            return ('t', tuple(s.T(a) for a in (t.get('e') or [])))
        if k == 'param':
            return ('par', t['n'], t['i'])
        if k == 'closure':
            return ('clo', t['n'])
        if k == 'fndef':
            return ('fnd', t['n'], tuple(s.T(a) for a in t.get('a', [])))
        return ('o', t.get('s') or t.get('n') or k)

    def tyname(s, i):
        return tn(s.T(i))

    def subst(s, T, env):
        if not env:
            return T
        k = T[0]
        if k == 'par':
            return env.get(T[1], T)
        if k == 'a' or k == 'fnd':
            return (k, T[1], tuple(s.subst(x, env) for x in T[2]))
        if k == 'r':
            return ('r', T[1], s.subst(T[2], env))
        if k == 's':
            return ('s', s.subst(T[1], env))
        if k == 'arr':
            return ('arr', s.subst(T[1], env), T[2])
        if k == 't':
            return ('t', tuple(s.subst(x, env) for x in T[1]))
        return T

    def variants(s, name):
        a = s.adts.get(name)
        return a['variants'] if a else None

    def fields(s, T, v):
        """[(field name, type)] of variant v of adt type T"""
        a = s.adts[T[1]]
        env = {}
        # params are type parameters in order; the dump lists their type ids or indices
        fs = a['variants'][v]['f'] if v < len(a['variants']) else ()
        out = []
        for f in fs:
            ft = s.T(f['t'])
            out.append((f['n'], s.subst_idx(ft, T[2])))
        return out

    def subst_idx(s, T, args):
        k = T[0]
        if k == 'par':
            return args[T[2]] if T[2] < len(args) else T
        if k == 'a' or k == 'fnd':
            return (k, T[1], tuple(s.subst_idx(x, args) for x in T[2]))
        if k == 'r':
            return ('r', T[1], s.subst_idx(T[2], args))
        if k == 's':
            return ('s', s.subst_idx(T[1], args))
        if k == 'arr':
            return ('arr', s.subst_idx(T[1], args), T[2])
        if k == 't':
            return ('t', tuple(s.subst_idx(x, args) for x in T[1]))
        return T

    def find_impl(s, trait, method, selfT, targs=None):
        """path of the local impl of trait::method for selfT (structural match), or None"""
        best = None
        for args, path, im in s.implidx.get((trait, method), []):
            env = {}
            if not match(args[0], selfT, env):
                continue
            if targs is not None and len(args) > 1:
                if not all(match(a, b, env) for a, b in zip(args[1:], targs)):
                    continue
            if path in s.bodies:
                best = path
                if args[0][0] != 'par':
                    return path
        return best

    # ---- control flow: natural loops and liveness
    def succs(s, bb):
        t = bb[1]
        k = t['k']
        if k == 'goto':
            return [t['t']]
        if k == 'switch':
            return [x[1] for x in t['ts']] + ([t['o']] if t.get('o') is not None else [])
        if k in ('call', 'assert'):
            return [t['t']] if t.get('t') is not None else []
        return []

    def loopinfo(s, name):
        """{head: set(blocks)} of natural loops of the body"""
        if name in s.loops:
            return s.loops[name]
        b = s.bodies[name]['b']
        n = len(b)
        succ = [s.succs(x) if x else [] for x in b]
        # reachable + dominators
        order = []
        seen = set()
        stack = [(0, iter(succ[0]))]
        seen.add(0)
        while stack:
            u, it = stack[-1]
            for v in it:
                if v not in seen and b[v]:
                    seen.add(v)
                    stack.append((v, iter(succ[v])))
                    break
            else:
                order.append(u)
                stack.pop()
        order.reverse()
        preds = {u: [] for u in order}
        for u in order:
            for v in succ[u]:
                if v in preds:
                    preds[v].append(u)
        idx = {u: i for i, u in enumerate(order)}
        dom = {0: {0}}
        alln = set(order)
        for u in order[1:]:
            dom[u] = alln
        ch = True
        while ch:
            ch = False
            for u in order[1:]:
                nd = None
                for p in preds[u]:
                    nd = set(dom[p]) if nd is None else nd & dom[p]
                nd = (nd or set()) | {u}
                if nd != dom[u]:
                    dom[u] = nd
                    ch = True
        loops = {}
        for u in order:
            for v in succ[u]:
                if v in dom[u]:
                    blocks = loops.setdefault(v, {v})
                    st = [u]
                    while st:
                        x = st.pop()
                        if x not in blocks:
                            blocks.add(x)
                            st.extend(preds[x])
        s.loops[name] = loops
        return loops

    def liveness(s, name):
        """live-in locals per block (plus every local whose address is taken)"""
        if name in s.live:
            return s.live[name]
        body = s.bodies[name]
        b = body['b']
        taken = set()
        use, de = [], []
        for x in b:
            u, d = set(), set()
            use.append(u)
            de.append(d)
            if not x:
                continue

            def rd(p):
                if p[0] not in d:
                    u.add(p[0])
                for pr in p[1]:
                    if isinstance(pr, list) and pr[0] == 'i' and pr[1] not in d:
                        u.add(pr[1])

            def op(o):
                if o[0] in 'cm':
                    rd(o[1])

            def wr(p):
                if p[1]:
                    rd(p)
                else:
                    d.add(p[0])
            for st in x[0]:
                rv = st[1]
                k = rv[0]
                if k == 'use' or k == 'repeat':
                    op(rv[1])
                elif k == 'ref':
                    rd(rv[1])
                    if '*' not in rv[1][1] and rv[2]:
                        taken.add(rv[1][0])
                elif k == 'cast':
                    op(rv[2])
                elif k == 'bin':
                    op(rv[2])
                    op(rv[3])
                elif k == 'un':
                    op(rv[2])
                elif k == 'discr':
                    rd(rv[1])
                elif k == 'agg':
                    for o in rv[2]:
                        op(o)
                wr(st[0])
            t = x[1]
            if t['k'] == 'switch':
                op(t['d'])
            elif t['k'] == 'call':
                for a in t['a']:
                    op(a)
                if 'fp' in t and isinstance(t['fp'], list):
                    op(t['fp'])
                wr(t['dst'])
            elif t['k'] == 'assert':
                op(t['c'])
            elif t['k'] == 'return':
                if 0 not in d:
                    u.add(0)
        livein = [set() for _ in b]
        ch = True
        while ch:
            ch = False
            for i in range(len(b) - 1, -1, -1):
                if not b[i]:
                    continue
                o = set()
                for v in s.succs(b[i]):
                    o |= livein[v]
                n = use[i] | (o - de[i])
                if n != livein[i]:
                    livein[i] = n
                    ch = True
        s.live[name] = (livein, taken)
        return s.live[name]


def match(pat, t, env):
    if pat[0] == 'par':
        if pat[1] in env:
            return env[pat[1]] == t
        env[pat[1]] = t
        return True
    if pat[0] != t[0]:
        return False
    if pat[0] in ('a', 'fnd'):
        return pat[1] == t[1] and len(pat[2]) == len(t[2]) and all(match(a, b, env) for a, b in zip(pat[2], t[2]))
    if pat[0] == 'r':
        return match(pat[2], t[2], env)
    if pat[0] in ('s', 'arr'):
        return match(pat[1], t[1], env)
    if pat[0] == 't':
        return len(pat[1]) == len(t[1]) and all(match(a, b, env) for a, b in zip(pat[1], t[1]))
    return pat == t


def tn(T):
    k = T[0]
    if k == 'p':
        return T[1]
    if k == 'a':
        a = [x for x in T[2] if x != ('a', 'std::alloc::Global', ())]
        return T[1].split('::')[-1] + ('<' + ','.join(map(tn, a)) + '>' if a else '')
    if k == 'r':
        return '&' + ('mut ' if T[1] else '') + tn(T[2])
    if k == 's':
        return '[' + tn(T[1]) + ']'
    if k == 'arr':
        return '[%s;%s]' % (tn(T[1]), T[2])
    if k == 't':
        return '(' + ','.join(map(tn, T[1])) + ')'
    return str(T[1])


def fplace(p):
    l, pr = p
    r = '_%d' % l
    for x in pr:
        if x == '*':
            r = '(*%s)' % r
        elif x[0] == 'f':
            r += '.%d' % x[1]
        elif x[0] == 'd':
            r += '@%s' % x[1]
        elif x[0] == 'i':
            r += '[_%s]' % x[1]
        else:
            r += str(x)
    return r


def fop(o):
    if o[0] == 'k':
        c = o[1]
        return 'const(%s)' % {k: v for k, v in c.items() if k not in ('k', 't')}
    return ('move ' if o[0] == 'm' else '') + fplace(o[1])


def frv(r):
    k = r[0]
    if k == 'use':
        return fop(r[1])
    if k == 'ref':
        return ('&mut ' if r[2] else '&') + fplace(r[1])
    if k == 'cast':
        return '%s as %s (%s)' % (fop(r[2]), r[3], r[1])
    if k == 'bin':
        return '%s(%s,%s)' % (r[1], fop(r[2]), fop(r[3]))
    if k == 'un':
        return '%s(%s)' % (r[1], fop(r[2]))
    if k == 'discr':
        return 'discr ' + fplace(r[1])
    if k == 'agg':
        return 'agg %s [%s]' % (r[1], ', '.join(fop(o) for o in r[2]))
    return str(r)


def pp(pr, name):
    b = pr.bodies[name]
    print(name, 'args', b['args'], 'span', b.get('span'))
    for i, t in enumerate(b['locals']):
        print('  _%d: %s' % (i, pr.tyname(t)))
    print('  vars', b['vars'])
    for i, bb in enumerate(b['b']):
        if bb is None:
            continue
        print(' bb%d:' % i)
        for st in bb[0]:
            print('    %s = %s' % (fplace(st[0]), frv(st[1])))
        t = bb[1]
        print('    ->', {k: ([fop(o) for o in v] if k == 'a' else (fplace(v) if k == 'dst' else v)) for k, v in t.items()})


if __name__ == '__main__':
    import sys
    pr = Prog(sys.argv[1])
    if len(sys.argv) > 2:
        for n in pr.bodies:
            if sys.argv[2] in n:
                pp(pr, n)
    else:
        for n in sorted(pr.bodies):
            print(n)
