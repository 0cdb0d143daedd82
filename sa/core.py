"""Check harness: obligations, verdicts, evidence."""
import json
import os
import re
import sys
import time
import traceback
from prog import *
from eng import *
import eng
import models
from compare import cmp, worst, has_unknown


class Missing(Exception):
    """a public item the property is about is gone"""


class Ck:
    def __init__(s, pid, prog, tier='quick'):
        s.id, s.p, s.tier = pid, prog, tier
        s.obl = []        # (key, verdict, detail, where)
        s.fns = set()
        s.paths = s.sites = s.loops = 0
        s.ext = {}
        s.cases = []      # for each open case, how many unmodelled calls there were before
        s.notes = []
        s.counts = {}
        s.t0 = time.time()

    def eng(s, **kw):
        cls = kw.pop('cls', 'raw')      # strings are arbitrary unless the property restricts them to names
        e = Eng(s.p, **kw)
        e.defcls = cls
        s._engs = getattr(s, '_engs', [])
        s._engs.append(e)
        return e

    def span(s, fn):
        b = s.p.bodies.get(fn)
        return b.get('span') if b else None

    def ok(s, key, detail='', where=None):
        s.obl.append((key, 'ok', detail, where))

    def unmodelled(s):
        """calls without a model that the engine of the current obligation met: nothing definite can be said then"""
        es = getattr(s, '_engs', [])
        n = [k for e in es[-1:] for k in e.ext if k not in HARMLESS]
        c = s.cases[-1] if s.cases else None
        if c is not None and s.extcount() != c:
            n += [k for e in es for k in e.ext if k not in HARMLESS]
        return sorted(set(n))

    def extcount(s):
        return sum(v for e in getattr(s, '_engs', []) for k, v in e.ext.items() if k not in HARMLESS)

    def bad(s, key, detail, where=None):
        n = s.unmodelled()
        if n or UNKNOWN.search(str(detail)):
            s.obl.append((key, 'und', 'differs, but a call has no model (%s): %s' % (', '.join(n)[:120], detail), where))
            return
        s.obl.append((key, 'bad', detail, where))

    def und(s, key, detail, where=None):
        s.obl.append((key, 'und', detail, where))

    def judge(s, key, r, where=None, detail=''):
        if r[0] == 'y':
            s.ok(key, detail, where)
        elif r[0] == 'n':
            s.bad(key, r[1] + (' [%s]' % detail if detail else ''), where)
        else:
            s.und(key, r[1], where)

    def case(s, key, where=None):
        """context: Undecided inside becomes an undecided obligation"""
        return _Case(s, key, where)

    def count(s, k, n=1):
        s.counts[k] = s.counts.get(k, 0) + n

    def fn(s, *names):
        """first existing body"""
        for n in names:
            if n in s.p.bodies:
                return n
        raise Missing(' / '.join(names))

    def finish(s):
        for e in getattr(s, '_engs', []):
            s.fns |= e.fns
            s.paths += e.paths
            s.sites += e.sites
            s.loops += e.neach + e.nloops
            for k, v in e.ext.items():
                s.ext[k] = s.ext.get(k, 0) + v


# callees without a model that cannot change what a check compares: texts of errors, dates (their components are compared
# by name), the conversion to a trait object
HARMLESS = {'serde::de::Error::custom', 'thiserror::__private::AsDynError::as_dyn_error',
            'chrono::NaiveDate::from_ymd_opt', 'chrono::NaiveDate::and_hms_opt', 'chrono::NaiveDateTime::timestamp',
            'chrono::NaiveDateTime::from_timestamp_opt', 'chrono::Datelike::year', 'chrono::Datelike::month',
            'chrono::Datelike::day', 'chrono::Timelike::hour', 'chrono::Timelike::minute', 'chrono::Timelike::second'}
UNKNOWN = re.compile(r'(^|[\s(\[{.,:~&])\?[?a-zA-Z]')


class _Case:
    def __init__(s, ck, key, where):
        s.ck, s.key, s.where = ck, key, where

    def __enter__(s):
        s.ck.cases.append(s.ck.extcount())
        return s

    def __exit__(s, t, v, tb):
        s.ck.cases.pop()
        if t is None:
            return False
        if issubclass(t, Missing):
            return False
        if issubclass(t, (Undecided, NeedEach, NeedPeel, NeedLast, Overshoot, RecursionError)):
            s.ck.und(s.key, '%s: %s' % (t.__name__, v), s.where)
            return True
        if issubclass(t, Exception):
            if os.environ.get('SA_DEBUG'):
                traceback.print_exception(t, v, tb)
            s.ck.und(s.key, 'internal: %r' % (v,), s.where)
            return True
        return False


def st0(**facts):
    return St({}, {}, {}, ())


def sym(e, path, T):
    return e.mk(path, T)


def A(name, *args):
    return ('a', name, tuple(args))


def factstr(st, only=None):
    fs = []
    for k, v in st.facts.items():
        if only and not any(o in k[1] for o in only):
            continue
        fs.append('%s=%s' % (k[1] if k[0] in 'v' else k[0] + ':' + ':'.join(map(str, k[1:])), v if not isinstance(v, frozenset) else 'not ' + '/'.join(map(str, sorted(v, key=str)))))
    return ', '.join(fs)[:300]


def cell(e, st, v, T=None):
    """put v into a fresh cell; returns (state, &mut)"""
    st = st.copy()
    c = ('in', e.fresh())
    st.cells[c] = v
    if T is not None:
        e.celltype[c] = T
    return st, ('mref', c, ())


def call(e, st, name, args, targs=()):
    return e.call_local(st, name, args, targs)
