"""check <ID>: dump the resolved program of /repo, analyse it, write evidence, report."""
import json
import os
import signal
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
REPO = os.environ.get('SA_REPO', '/repo')


class Late(BaseException):
    pass


def late(*a):
    raise Late()


def build():
    drv = os.path.join(VERIF, 'driver', 'target', 'release', 'swrs-mir-dump')
    src = os.path.join(VERIF, 'driver', 'src', 'main.rs')
    if not os.path.exists(drv) or os.path.getmtime(drv) < os.path.getmtime(src):
        subprocess.run(['cargo', '+nightly', 'build', '--release', '--offline'], cwd=os.path.join(VERIF, 'driver'), check=True,
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)


def dump():
    d = os.environ.get('SA_DUMP')
    if d:
        return d, False
    build()
    w = os.path.join(VERIF, '.work')
    os.makedirs(w, exist_ok=True)
    out = os.path.join(w, 'dump.%d.json' % os.getpid())
    for i in range(2):
        r = subprocess.run(['bash', os.path.join(VERIF, 'driver', 'dump.sh'), out, REPO], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode == 0 and os.path.exists(out):
            return out, True
    sys.stderr.write(r.stdout.decode(errors='replace')[-4000:])
    sys.exit(3)


def known(pid):
    out = {}
    f = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(f):
        for l in open(f):
            if l.startswith('finding: property=%s ' % pid):
                rest = l.split(' ', 2)[2].strip()
                if rest.startswith('key='):
                    k, _, what = rest[4:].partition(' :: ')
                    out[k] = what
    return out


def main():
    t0 = time.time()
    signal.signal(signal.SIGALRM, late)
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2 and sys.argv[2] == 'thorough':
        tier = 'thorough'
    import registry
    from core import Ck, Missing
    from prog import Prog
    path, tmp = dump()
    try:
        prog = Prog(path)
    finally:
        if tmp:
            os.unlink(path)
    ck = Ck(pid, prog, tier)
    ent = registry.CHECKS[pid]
    for fn in ent['fns']:
        try:
            signal.alarm(max(1, int(os.environ.get('SA_LIMIT', '700')) - int(time.time() - t0)))
            fn(ck)
        except Missing as m:
            ck.und('anchor %s' % m, 'an item the analysis is anchored on no longer exists: %s' % m)
        except Late:
            ck.und('time', 'the analysis ran out of time')
        except Exception as x:      # an analysis that cannot cope with the program says so; it does not accuse it
            ck.und('internal', '%s: %r' % (type(x).__name__, x))
        finally:
            signal.alarm(0)
    ck.finish()
    inst = len(ck.obl)
    rank = {'bad': 0, 'und': 1, 'ok': 2}
    byk = {}
    for o in ck.obl:        # one obligation per key: violated if any instance is, else undecided if any is
        if o[0] not in byk or rank[o[1]] < rank[byk[o[0]][1]]:
            byk[o[0]] = o
    ck.obl = list(byk.values())
    bad = [o for o in ck.obl if o[1] == 'bad']
    und = [o for o in ck.obl if o[1] == 'und']
    ok = [o for o in ck.obl if o[1] == 'ok']
    kf = known(pid)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    listed = [o for o in bad if o[0] in kf]
    new = [o for o in bad if o[0] not in kf]
    for o in listed:
        print('KNOWN-FINDING: property=%s %s' % (pid, kf[o[0]]))
    floor = ent.get('floor', 0)
    note = ''
    if len(ok) + len(und) + len(bad) < floor:
        note = 'fewer obligations (%d) than on the reference tree (%d)' % (len(ok) + len(und) + len(bad), floor)
    ev = {
        'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
        'wall_s': round(time.time() - t0, 2), 'violations': len(new),
        'coverage': {
            'obligations': len(ck.obl), 'instances': inst, 'discharged': len(ok), 'undecided': len(und), 'violated': len(bad),
            'checker_cmd': './check %s' % pid,
            'rule': ent['rule'],
            'trusted_base': ['rustc nightly MIR of /repo (driver/)', 'sa/eng.py abstract semantics of MIR', 'sa/models.py, sa/text.py models of std, serde_json, hashlink'],
            'functions': sorted(ck.fns), 'functions_analysed': len(ck.fns), 'paths': ck.paths, 'call_sites': ck.sites, 'loops_summarised': ck.loops,
            'bodies_in_program': len(prog.bodies), 'unmodelled_externals': ck.ext, 'counts': ck.counts,
            'samples': [{'obligation': o[0], 'detail': o[2], 'where': o[3]} for o in ok[:12]],
            'undecided_obligations': [{'obligation': o[0], 'why': str(o[2])[:300]} for o in und[:40]],
            'explanation': 'Every obligation is decided from the MIR of the current tree; an undecided obligation is one the analysis could not '
                           'settle either way on this tree (none on the reference tree). ' + note,
        },
        'assumptions': ent.get('assume', []),
    }
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    print('%s: %d obligations, %d discharged, %d undecided, %d violated; %d functions, %d paths, %d call sites, %.1fs %s'
          % (pid, len(ck.obl), len(ok), len(und), len(bad), len(ck.fns), ck.paths, ck.sites, time.time() - t0, note))
    for o in und:
        print('  undecided: %s: %s' % (o[0], str(o[2])[:300]))
    if new:
        rp = os.path.join(VERIF, 'evidence', pid + '.violation.txt')
        with open(rp, 'w') as f:
            f.write('property %s: %s\nrule: %s\n\n' % (pid, ent.get('title', ''), ent['rule']))
            for k, _, d, w in new:
                f.write('obligation: %s\n  at: %s\n  %s\n' % (k, w, d))
        for k, _, d, w in new[:20]:
            print('  violated: %s\n    at %s: %s' % (k, w, str(d)[:500]))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    return 0


if __name__ == '__main__':
    sys.exit(main())
