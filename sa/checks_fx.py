"""C20, C21: effects and ordering.

A call graph over the resolved program (direct calls, resolved trait calls, every function or closure that is mentioned as a
value, trait impls that generic library code can call back for the types it is instantiated with) and, per body, the effectful
library items it mentions.  An effect is attributed to every public entry point from which its site can be reached."""
import os
import re
from core import *

FX = [
    ('read', r'^std::fs::(read|read_to_string|File::open|OpenOptions::open|read_link)$|^std::fs::OpenOptions'),
    ('write', r'^std::fs::(write|File::create|File::create_new|rename|copy|hard_link|remove_\w+|create_dir\w*|set_permissions|File::set_\w+)$|^std::fs::DirBuilder'),
    ('list', r'^std::fs::read_dir$|^std::fs::ReadDir|^std::fs::DirEntry'),
    ('exists', r'^std::path::Path::(exists|try_exists|is_file|is_dir|is_symlink|metadata|symlink_metadata)$|^std::fs::(metadata|symlink_metadata|exists|try_exists)$'),
    ('resolve', r'^std::path::Path::(canonicalize|read_link|read_dir)$|^std::fs::canonicalize$|^std::path::absolute$'),
    ('rand', r'^rand(_\w+)?::|^getrandom::|RandomState|^std::collections::hash_map::(RandomState|DefaultHasher)|^std::hash::(RandomState|BuildHasher)'),
    ('clock', r'^std::time::(SystemTime|Instant)|^chrono::(\w+::)*(Utc|Local)\b|^time::'),
    ('env', r'^std::env::'),
    ('process', r'^std::process::|^std::os::|^libc::|^nix::'),
    ('thread', r'^std::thread::|^rayon|^tokio|^std::sync::mpsc|^crossbeam'),
    ('net', r'^std::net::'),
    ('print', r'^std::io::(_print|_eprint|stdout|stderr|Stdout|Stderr|print|eprint)|^<std::io::(Stdout|Stderr)|^std::rt::begin_panic_fmt|^log::'),
    ('stdin', r'^std::io::(stdin|Stdin|read_to_string)|^<std::io::Stdin'),
    ('io', r'^std::io::(Read|Write|BufRead|Seek|copy)|^<std::fs::File as|^std::io::Buf'),
    ('panic-hook', r'^std::panic::(set_hook|take_hook)'),
    ('leak', r'^std::boxed::Box<.*>::leak$|^std::alloc::|^std::intrinsics::volatile|^std::ptr::(write|read)_volatile'),
]
FX = [(k, re.compile(r)) for k, r in FX]
PURE = re.compile(r'RandomState>?::default|HashMap<.*>::(new|default|with_capacity|insert|get|remove|contains_key|entry|len|is_empty|get_mut|into_values)$')

HASHY = re.compile(r'std::collections::(HashMap|HashSet)|std::collections::hash_(map|set)|hashbrown')
ITERS = re.compile(r'(::|^)(iter|iter_mut|keys|values|values_mut|into_keys|into_values|into_iter|drain|retain|next|fmt|extract_if|difference|intersection|union|from_iter|extend)$')
ADDR = re.compile(r'(core|std)::fmt::Pointer|new_pointer$|std::ptr::addr|::expose_provenance|::addr$|std::any::(type_name|TypeId)')


def effect(name):
    for k, r in FX:
        if r.search(name):
            return k
    return None


CB = {'Default', 'Clone', 'Display', 'Debug', 'PartialEq', 'Eq', 'PartialOrd', 'Ord', 'Hash', 'Serialize', 'Deserialize', 'Visitor', 'DeserializeSeed', 'FromIterator', 'IntoIterator',
      'Iterator', 'Extend', 'Error', 'AsRef', 'Deref', 'DerefMut', 'Borrow', 'Write', 'Read', 'SeqAccess', 'MapAccess', 'DoubleEndedIterator', 'Sum'}

CONV = {'into': ('From', 'Into'), 'from': ('From', 'Into'), 'from_residual': ('From', 'Into'), 'try_into': ('TryFrom', 'TryInto'), 'try_from': ('TryFrom', 'TryInto')}


class Graph:
    def __init__(s, p):
        s.p = p
        s.edges = {}
        s.fx = {}         # body -> [(kind, name, where)]
        s.byself = {}     # adt -> [(trait short, [bodies])]
        s.bytrait = {}
        for im in p.impls:
            tr = im['trait']
            if not tr:
                continue
            sh = tr.split('<')[0].split('::')[-1]
            selfs = im['args'][0] if im['args'] else None
            bs = [b for _, b in im['items']]
            if selfs is not None:
                T = p.T(selfs)
                if T[0] == 'a':
                    s.byself.setdefault(T[1], []).append((sh, bs))
            for m, b in im['items']:
                s.bytrait.setdefault((tr.split('<')[0], m), []).append(b)
        s.kids = {}
        for n in p.bodies:
            i = n.find('::{closure#')
            if i < 0:
                i = n.find('#p')
            if i > 0:
                s.kids.setdefault(n[:i], []).append(n)
        for n, b in p.bodies.items():
            s.scan(n, b)

    def adts(s, t, out, seen):
        """local types, closures and function items named in type number t"""
        if not isinstance(t, int) or t in seen:
            return
        seen.add(t)
        d = s.p.types[t]
        k = d.get('k')
        if k in ('adt', 'fndef', 'closure'):
            out.append((k, d.get('n'), d.get('a') or []))
        for a in d.get('a') or []:
            if isinstance(a, int):
                s.adts(a, out, seen)
        for f in ('e', 't'):
            if isinstance(d.get(f), int):
                s.adts(d[f], out, seen)

    def note(s, n, b, name, where, ga=()):
        k = effect(name)
        if k:
            s.fx[n].append((k, name, where))
        if ITERS.search(name.split('<')[0] if False else name) and HASHY.search(name):
            s.fx[n].append(('hash', name, where, ga))
        elif ITERS.search(name) or name in ('std::iter::Iterator::collect',) or name.startswith('std::iter::'):
            for g in ga:
                out = []
                s.adts(g, out, set())
                if any(HASHY.search(x[1] or '') for x in out if x[0] == 'adt'):
                    s.fx[n].append(('hash', name, where, ga))
                    break
        if ADDR.search(name):
            s.fx[n].append(('address', name, where))

    def target(s, n, b, name, local, trait, m, ga, where):
        E = s.edges[n]
        if name in s.p.bodies:
            E.add(name)
        if local and name not in s.p.bodies and trait:
            for x in s.bytrait.get((trait.split('<')[0], m), ()):
                E.add(x)
        s.note(n, b, name, where, ga)
        short = name.split('::')[-1]
        for g in ga:
            out = []
            s.adts(g, out, set())
            for k, nm, _ in out:
                if k in ('closure', 'fndef') and nm in s.p.bodies:
                    E.add(nm)
                elif k == 'fndef':
                    s.note(n, b, nm, where)
                elif k == 'adt':
                    for sh, bs in s.byself.get(nm, ()):
                        if sh in CB or (sh == 'FromStr' and short in ('parse', 'from_str', 'branch')) or (name not in s.p.bodies and short in CONV and sh in CONV[short]):
                            E.update(x for x in bs if x in s.p.bodies)

    def const(s, n, b, c, where):
        E = s.edges[n]
        for f in ('promoted', 'item'):
            if c.get(f) in s.p.bodies:
                E.add(c[f])
        if c.get('static'):
            s.fx[n].append(('static' if c.get('freeze') else 'state', c['static'], where))
        t = c.get('t')
        if isinstance(t, int):
            d = s.p.types[t]
            if d.get('k') in ('fndef', 'closure'):
                nm = d.get('n')
                if nm in s.p.bodies:
                    E.add(nm)
                else:
                    s.note(n, b, nm, where, d.get('a') or ())
                    tr, _, m = nm.rpartition('::')
                    a = d.get('a') or []
                    selfn = None
                    if a and isinstance(a[0], int):
                        T = s.p.T(a[0])
                        selfn = T[1] if T[0] == 'a' else None
                    short = tr.split('<')[0].split('::')[-1]
                    for sh, bs in s.byself.get(selfn, ()):
                        if sh == short or (short in ('Into', 'TryInto')):
                            E.update(x for x in bs if x in s.p.bodies)
                    # T::from and the like: the type converted into is a later argument, or the trait is local
                    for x in s.bytrait.get((tr.split('<')[0], m), ()):
                        if selfn is None or short in ('Into', 'TryInto', 'ToString'):
                            if short in ('Into', 'TryInto', 'ToString'):
                                continue
                            E.add(x)

    def walk(s, n, b, j, where):
        if isinstance(j, list):
            if len(j) == 2 and j[0] == 'k' and isinstance(j[1], dict):
                s.const(n, b, j[1], where)
                return
            if len(j) == 3 and j[0] == 'closure' and isinstance(j[1], str):
                if j[1] in s.p.bodies:
                    s.edges[n].add(j[1])
            if j and j[0] == 'tls':
                s.fx[n].append(('state', str(j[1]), where))
            for x in j:
                if isinstance(x, (list, dict)):
                    s.walk(n, b, x, where)
        elif isinstance(j, dict):
            for x in j.values():
                if isinstance(x, (list, dict)):
                    s.walk(n, b, x, where)

    def scan(s, n, b):
        s.edges[n] = set(s.kids.get(n, ()) if '{closure#' not in n and '#p' not in n else ())
        s.fx[n] = []
        for bb in b['b']:
            if not bb:
                continue
            for st in bb[0]:
                s.walk(n, b, st[1], '%s (%s)' % (n, st[2] if len(st) > 2 else ''))
            t = bb[1]
            if not isinstance(t, dict):
                continue
            where = '%s (%s)' % (n, t.get('sp', ''))
            if t.get('k') == 'call':
                s.walk(n, b, t.get('a'), where)
                if 'f' in t:
                    s.target(n, b, t.get('r') or t['f'], t.get('rl') or t.get('local'), t.get('trait'), t.get('m'), list(t.get('ga') or []) + list(t.get('ra') or []), where)
                    if t.get('r') and t['r'] != t['f']:
                        s.note(n, b, t['f'], where, t.get('ga') or ())
                elif 'fp' in t:
                    s.walk(n, b, [t['fp']], where)
            elif t.get('k') == 'other' and 'InlineAsm' in str(t.get('s')):
                s.fx[n].append(('process', 'asm!', where))
        ls = []
        for l in b['locals']:
            s.adts(l, ls, set())
        for k, nm, _ in ls:
            if k == 'adt':
                for sh, bs in s.byself.get(nm, ()):
                    if sh == 'Drop':
                        s.edges[n].update(x for x in bs if x in s.p.bodies)

    def reach(s, root):
        seen, todo = {root: None}, [root]
        while todo:
            x = todo.pop()
            for y in s.edges.get(x, ()):
                if y not in seen and y in s.p.bodies:
                    seen[y] = x
                    todo.append(y)
        return seen


# ---------------------------------------------------------------- entries

HERE = os.path.dirname(os.path.abspath(__file__))


def api_names():
    with open(os.path.join(HERE, 'api_names.txt')) as f:
        return set(l.rstrip('\n') for l in f)


def entries(p):
    """functions a user can call: the public functions and trait methods of the interface"""
    tr = set(b for im in p.impls if im['trait'] for _, b in im['items'])
    return [n for n, b in p.bodies.items() if b['kind'] in ('Fn', 'AssocFn') and (b['pub'] or n in tr)]


RFW = 'parser::ResourceFileWrapper'
ALLOW = [
    (r'^(decrypt_sw_file|encrypt_sw_file)$', {'read'}),
    (r'^encrypt_sw_file_to_file$', {'read', 'write'}),
    (r'^<parser::ResourceFiles as std::convert::TryFrom<', {'exists'}),
    (r'^parser::SketchwareProject::(parse|parse_from|parse_wo_res)$', {'exists'}),
    (r'^api::Resources::put_resource', {'exists'}),
    (r'^parser::ResourceFileWrapper::make_random_id$', {'rand'}),
    (r'^<api::SketchwareProject as std::convert::TryFrom<parser::SketchwareProject>>::try_from$', {'rand'}),
]
NAMES = {'read': 'reads files', 'write': 'writes files', 'list': 'lists directories', 'exists': 'asks the file system', 'resolve': 'resolves paths', 'rand': 'uses randomness',
         'clock': 'reads the clock', 'env': 'reads the environment', 'process': 'reaches the process or the system', 'thread': 'starts threads', 'net': 'uses the network',
         'print': 'prints', 'stdin': 'reads the terminal', 'io': 'does I/O', 'panic-hook': 'sets the panic hook', 'leak': 'reaches raw memory', 'state': 'keeps global state'}


def allowed(n):
    out = set()
    for r, k in ALLOW:
        if re.search(r, n):
            out |= k
    return out


def state_kind(g, p, x):
    """a cell that is filled once, by a function of nothing, is not state"""
    b = p.bodies.get(x)
    if b is None:
        return None
    ls = []
    g.adts(b['locals'][0], ls, set())
    nm = [y[1] for y in ls if y[0] == 'adt']
    if nm and nm[0] in ('std::sync::LazyLock', 'std::cell::LazyCell'):
        if not any(re.search(r'std::cell::(Cell|RefCell|UnsafeCell)|Mutex|RwLock|Atomic', z or '') for z in nm[1:]):
            return None
    if nm and nm[0] in ('std::sync::OnceLock', 'std::cell::OnceCell'):
        for n2, b2 in p.bodies.items():
            for bb in b2['b']:
                t = bb[1] if bb else None
                if isinstance(t, dict) and t.get('k') == 'call' and re.search(r'Once(Lock|Cell)<.*>::(set|get_or_init|get_or_try_init|take|get_mut_or_init)$', t.get('f') or ''):
                    if not t['f'].endswith('get_or_init'):
                        return 'state'
                    for ga in t.get('ga') or ():
                        d = p.types[ga] if isinstance(ga, int) else {}
                        if d.get('k') == 'closure' and captures(p, d):
                            return 'state'
        return None
    return 'state'


def captures(p, d):
    b = p.bodies.get(d.get('n'))
    if b is None:
        return True
    # the closure reads a field of its environment
    def rd(j):
        if isinstance(j, list):
            if len(j) == 2 and j[0] == 1 and isinstance(j[1], list) and any(isinstance(q, list) and q and q[0] == 'f' for q in j[1]):
                return True
            return any(rd(x) for x in j)
        if isinstance(j, dict):
            return any(rd(x) for x in j.values())
        return False
    return rd(b['b'])


def fxscan(ck):
    if not hasattr(ck, '_graph'):
        ck._graph = Graph(ck.p)
    return ck._graph


def sites(g, R, kinds):
    return [(m, x) for m in R for x in g.fx.get(m, ()) if x[0] in kinds]


def chain(R, m):
    out = []
    while m:
        out.append(m)
        m = R[m]
    return ' <- '.join(out)


def c21(ck):
    g = fxscan(ck)
    p = ck.p
    old = api_names()
    for n in p.bodies:
        ck.fns.add(n)
    ck.sites += sum(1 for b in p.bodies.values() for bb in b['b'] if bb and isinstance(bb[1], dict) and bb[1].get('k') == 'call')
    for n in entries(p):
        if n not in old:
            ck.count('functions not in the interface of the reference tree')
            continue
        R = g.reach(n)
        ck.paths += 1
        bad = False
        al = allowed(n)
        for m, x in sites(g, R, set(NAMES)):
            k = x[0]
            if k == 'state':
                k = state_kind(g, p, x[1])
            if k is None or k in al:
                continue
            bad = True
            ck.bad('%s: %s' % (n, NAMES[k]), '%s, reached by %s' % (x[1], chain(R, m)), x[2])
        if not bad:
            ck.ok('%s has %s' % (n, 'only its effects: ' + ', '.join(sorted(al)) if al else 'no effects'), '%d functions reachable' % len(R), ck.span(n))
    for n, b in p.bodies.items():
        if 'Static' in b['kind']:
            k = state_kind(g, p, n) if 'mutability: Mut' not in b['kind'] else 'state'
            ck.count('statics')
            if 'mutability: Mut' in b['kind']:
                ck.bad('static %s' % n, 'a mutable static', b.get('span'))
    ck.count('effect sites', sum(len(v) for v in g.fx.values()))
    engine21(ck)


def engine21(ck):
    """which path is asked for: the one of the resource"""
    pass


# ---------------------------------------------------------------- determinism

INSENS = re.compile(r'::(any|all|count|sum|product|min|max|min_by_key|max_by_key|len|is_empty|contains|size_hint|contains_key)$')
ADAPT = re.compile(r'::(map|filter|filter_map|copied|cloned|iter|iter_mut|keys|values|values_mut|into_iter|into_keys|into_values|chain|flat_map|flatten|inspect|drain|by_ref|deref|as_ref|fuse)$')


def hash_value_types(g, x):
    """adt names inside the generic arguments of a hash-order site"""
    out = []
    for t in x[3] if len(x) > 3 else ():
        g.adts(t, out, set())
    return set(y[1] for y in out if y[0] == 'adt')


def insensitive(g, p, m):
    """every consumer of a hash iterator in the body is one whose result does not depend on the order"""
    seen = False
    for bb in p.bodies[m]['b']:
        t = bb[1] if bb else None
        if not isinstance(t, dict) or t.get('k') != 'call' or 'f' not in t:
            continue
        tys = []
        for q in list(t.get('ga') or ()) + list(t.get('ra') or ()):
            g.adts(q, tys, set())
        if not any('hash_map::' in (y[1] or '') or 'hash_set::' in (y[1] or '') for y in tys if y[0] == 'adt') and not HASHY.search(t.get('r') or t['f']):
            continue
        f = t.get('r') or t['f']
        if ADAPT.search(f) or INSENS.search(f):
            seen = True
            continue
        if f.endswith('::collect') or f.endswith('::extend') or f.endswith('::from_iter'):
            names = [y[1] for y in tys if y[0] == 'adt']
            if names and (HASHY.search(names[-1]) or 'BTree' in ' '.join(names)):
                continue
            return False
        if not ITERS.search(f):
            continue
        return False
    return seen


def sorts(p, m):
    return any(re.search(r'::sort(_\w+)?$', (bb[1].get('r') or bb[1].get('f') or '')) for bb in p.bodies[m]['b'] if bb and isinstance(bb[1], dict) and bb[1].get('k') == 'call')


def c20(ck):
    g = fxscan(ck)
    p = ck.p
    old = api_names()
    ck.fns |= set(p.bodies)
    for n in entries(p):
        if n not in old:
            continue
        R = g.reach(n)
        ck.paths += 1
        al = allowed(n)
        hit = False
        for m, x in sites(g, R, {'rand', 'clock', 'env', 'process', 'thread', 'state', 'address', 'hash', 'list', 'stdin'}):
            k = x[0]
            if k in al:
                continue
            if k == 'state':
                k = state_kind(g, p, x[1])
                if k is None:
                    continue
            if k == 'hash':
                ts = hash_value_types(g, x)
                if RFW in ts:
                    continue            # the list of resource files is unordered by design
                if not ts - {'std::collections::HashMap', 'std::collections::HashSet'} and is_resfiles(g, p, m):
                    continue
                if insensitive(g, p, m):
                    continue
                if sorts(p, m):
                    ck.und('%s: order of a hash map' % n, 'sorted in %s' % m, x[2])
                    hit = True
                    continue
            hit = True
            what = {'hash': 'depends on the order of a hash map', 'address': 'depends on addresses', 'rand': 'depends on randomness', 'clock': 'depends on the clock', 'env': 'depends on the environment',
                    'state': 'depends on global state', 'thread': 'depends on threads', 'process': 'depends on the process', 'list': 'depends on a directory', 'stdin': 'depends on the terminal'}[k]
            ck.bad('%s: %s' % (n, what), '%s, reached by %s' % (x[1], chain(R, m)), x[2])
        if not hit:
            ck.ok('%s is a function of its arguments%s' % (n, ' and of random ids' if 'rand' in al else ''), '%d functions reachable' % len(R), ck.span(n))
    orders(ck)


def is_resfiles(g, p, m):
    return bool(re.search(r'<parser::ResourceFiles as std::convert::Into<|From<parser::ResourceFiles>', m))


# ---------------------------------------------------------------- order

def mods(v, out, path=''):
    """every pass over a list of the input that is not in the order it is held in"""
    if isinstance(v, tuple):
        if len(v) == 4 and v[0] == 'each' and isinstance(v[1], str):
            out.append((v[1], v[2]))
        for x in v:
            if isinstance(x, tuple):
                mods(x, out)
    return out


def orders(ck):
    import checks_text as T
    import checks_proj as P
    for t in T.SIMPLE + ['logic::Logic']:
        name = t.split('::')[-1]
        TT, parse, rec = T.impls(ck, t)
        where = ck.span(rec)
        with ck.case('order of ' + name, where):
            e = ck.eng(cls='id')
            x = e.mk('x', TT)
            facts = T.world(['variables', 'blocks']) if name == 'Logic' else {}
            for st, r in call(e, St({}, dict(facts), {}, ()), rec, [x]):
                for s2, ok, v in e.res(st, r):
                    if ok:
                        order1(ck, name, v, where, s2)


    for name, fn, T, opq in (('project to API', P.TRY, P.PP, P.OP_TRY), ('project from API', P.FROM, P.AP, P.OP_FROM)):
        f = ck.fn(fn)
        where = ck.span(f)
        with ck.case('order of ' + name, where):
            e = ck.eng(opaque=opq)
            e.distinct = True
            x = e.mk('x', A(T))
            for st, r in call(e, st0(), f, [x]):
                for s2, ok, v in e.res(st, r) if r[0] == 'adt' and r[1].endswith('Result') or r[0] == 'sym' and r[2][1].endswith('Result') else [(st, True, r)]:
                    if ok:
                        order1(ck, name, v, where, s2)


def order1(ck, name, v, where, st):
    ms = mods(v, [])
    for P, m in sorted(set(ms)):
        if m == '':
            ck.ok('%s: %s in the order held' % (name, P), '', where)
        elif m in ('rev', 'sort'):
            ck.bad('%s: %s in the order held' % (name, P), 'written %s' % ('backwards' if m == 'rev' else 'sorted'), where)
    if not ms:
        ck.ok('%s: no lists' % name, '', where)
