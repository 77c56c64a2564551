"""Bounded exhaustive exploration engine.

A check module enumerates *cases* (JSON-able values, simplest first, grouped), and
runs every one of them on the real code of /repo against a reference model.  The
engine never samples: a group is explored completely or the run says that it was not.
"""
import importlib
import json
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
from concurrent.futures import ProcessPoolExecutor, FIRST_COMPLETED, wait
from concurrent.futures.process import BrokenProcessPool

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MC_REPO', '/repo')   # MC_REPO, MC_OUT: only for trying planted bugs in scratch copies
OUT = os.environ.get('MC_OUT', VERIF)
KNOWN = os.path.join(VERIF, 'known_findings.txt')
NPROC = int(os.environ.get('MC_PROCS', '8'))
CASE_LIMIT_S = 150


class Violation(Exception):
    pass


class HarnessHang(Exception):
    pass


class Ctx:
    """What one case reports back: counters, states, outcomes."""

    def __init__(self, tmp, tier):
        self.tmp = tmp          # scratch directory of this worker
        self.tier = tier
        self.states = set()     # hashes of canonical model states / distinct inputs
        self.edges = set()      # hashes of (state, event) transitions
        self.traces = 0         # executions of the real code compared with the model
        self.evals = 0          # single comparisons (input points)
        self.nontrivial = 0
        self.outcomes = {}
        self.known = {}
        self._n = 0

    def path(self, name):
        return os.path.join(self.tmp, name)

    def write(self, name, data):
        p = os.path.join(self.tmp, name)
        mode = 'wb' if isinstance(data, bytes) else 'w'
        with open(p, mode, **({} if mode == 'wb' else {'newline': ''})) as f:
            f.write(data)
        return p

    def state(self, key):
        self.states.add(hash_key(key))

    def edge(self, a, ev):
        self.edges.add(hash_key((a, ev)))

    def trace(self, n=1):
        self.traces += n

    def ev(self, n=1, nontrivial=None):
        self.evals += n
        self.nontrivial += n if nontrivial is None else nontrivial

    def outcome(self, name, n=1):
        self.outcomes[name] = self.outcomes.get(name, 0) + n

    def known_finding(self, kid, detail=''):
        """Note an occurrence of a listed finding; an unlisted one is a violation."""
        if kid not in known_ids():
            raise Violation('%s %s' % (kid, detail))
        self.known.setdefault(kid, detail)

    def check(self, cond, msg, *args):
        if not cond:
            raise Violation(msg % args if args else msg)


def hash_key(key):
    import hashlib
    return hashlib.blake2b(repr(key).encode(), digest_size=8).digest()


_known = None


def known_ids():
    """ids (first word after property=) of the findings committed in known_findings.txt"""
    global _known
    if _known is None:
        _known = {}
        if os.path.exists(KNOWN):
            for ln in open(KNOWN):
                ln = ln.strip()
                if ln.startswith('finding: '):
                    # finding: property=C04 id=<id> text
                    parts = ln[len('finding: '):].split(' ', 2)
                    pid = parts[0].split('=')[1]
                    kid = parts[1].split('=')[1]
                    _known[kid] = (pid, parts[2] if len(parts) > 2 else '')
    return _known


def setup_process():
    os.environ['OMP_NUM_THREADS'] = '1'
    os.environ['OPENBLAS_NUM_THREADS'] = '1'
    sys.dont_write_bytecode = True
    sys.pycache_prefix = '/nonexistent-pycache'  # never trust cached byte code of /repo
    if REPO in sys.path:
        sys.path.remove(REPO)
    sys.path.insert(0, REPO)
    import warnings
    warnings.simplefilter('ignore')
    os.environ['TZ'] = os.environ.get('MC_TZ', 'EST5EDT,M3.2.0,M11.1.0')
    time.tzset()
    import numpy as np
    np.seterr(all='ignore')
    import pandas  # noqa
    import shipgrav
    import shipgrav.io, shipgrav.nav, shipgrav.grav, shipgrav.utils  # noqa
    if not os.path.abspath(shipgrav.__file__).startswith(REPO + '/'):
        raise RuntimeError('shipgrav imported from ' + shipgrav.__file__)


_W = {}


def _worker_init(mod, tier, tmproot):
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
    _W['mod'] = importlib.import_module('mc.' + mod)
    _W['tier'] = tier
    _W['tmproot'] = tmproot
    import resource
    lim = 6 * 2**30
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    signal.signal(signal.SIGALRM, _alarm)


def _alarm(sig, frm):
    raise HarnessHang('case did not finish within %d s' % CASE_LIMIT_S)


def _tb(e):
    t = traceback.extract_tb(e.__traceback__)
    return ' <- '.join('%s:%d %s' % (os.path.basename(f.filename), f.lineno, f.name) for f in reversed(t[-4:]))


def run_one(mod, case, ctx):
    """-> None or violation message"""
    try:
        mod.run(case, ctx)
    except Violation as e:
        return str(e) or 'violation'
    except HarnessHang as e:
        return str(e)
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:
        return 'unexpected %s: %s [%s]' % (type(e).__name__, str(e)[:300], _tb(e))
    return None


def _work(chunk):
    tmp = tempfile.mkdtemp(dir=_W['tmproot'])
    ctx = Ctx(tmp, _W['tier'])
    bad = None
    n = 0
    try:
        for idx, case in chunk:
            signal.alarm(CASE_LIMIT_S)
            msg = run_one(_W['mod'], case, ctx)
            signal.alarm(0)
            n += 1
            if msg is not None:
                bad = (idx, case, msg)
                break
    finally:
        signal.alarm(0)
        shutil.rmtree(tmp, ignore_errors=True)
    return (n, ctx.states, ctx.edges, ctx.traces, ctx.evals, ctx.nontrivial,
            ctx.outcomes, ctx.known, bad)


class Total:
    def __init__(self):
        self.cases = 0
        self.states = set()
        self.edges = set()
        self.traces = self.evals = self.nontrivial = 0
        self.outcomes = {}
        self.known = {}
        self.bad = []

    def add(self, r):
        n, st, ed, tr, ev, nt, oc, kn, bad = r
        self.cases += n
        self.states |= st
        self.edges |= ed
        self.traces += tr
        self.evals += ev
        self.nontrivial += nt
        for k, v in oc.items():
            self.outcomes[k] = self.outcomes.get(k, 0) + v
        for k, v in kn.items():
            self.known.setdefault(k, v)
        if bad:
            self.bad.append(bad)


def chunks(it, size):
    buf = []
    for idx, c in it:
        buf.append((idx, c))
        if len(buf) >= size:
            yield buf
            buf = []
    if buf:
        yield buf


def explore(modname, tier, tmproot):
    mod = importlib.import_module('mc.' + modname)
    tot = Total()
    groups = {}
    samples = []
    with ProcessPoolExecutor(NPROC, initializer=_worker_init,
                             initargs=(modname, tier, tmproot),
                             mp_context=__import__('multiprocessing').get_context('fork')) as ex:
        idx0 = 0
        for name, gen, csize in mod.groups(tier):
            t0 = time.time()
            n0 = tot.cases

            def numbered():
                nonlocal idx0
                for c in gen:
                    yield idx0, c
                    idx0 += 1

            pend = {}
            it = chunks(numbered(), csize)
            stop = False
            done_iter = False
            last = None
            while pend or not done_iter:
                while not done_iter and not stop and len(pend) < 3 * NPROC:
                    ch = next(it, None)
                    if ch is None:
                        done_iter = True
                        break
                    if len(samples) < 6 and (last is None):
                        samples.append({'group': name, 'case': ch[0][1]})
                    last = ch
                    pend[ex.submit(_work, ch)] = ch
                if stop:
                    done_iter = True
                if not pend:
                    break
                done, _ = wait(list(pend), return_when=FIRST_COMPLETED)
                for f in done:
                    ch = pend.pop(f)
                    try:
                        tot.add(f.result())
                    except BrokenProcessPool:
                        tot.bad.append((ch[0][0], ch[0][1], 'a worker process died in this chunk of cases'))
                    if tot.bad:
                        stop = True
            if last is not None and len(samples) < 12:
                samples.append({'group': name, 'case': last[-1][1]})
            groups[name] = {'cases': tot.cases - n0, 'seconds': round(time.time() - t0, 2)}
            if tot.bad:
                break
    return tot, groups, samples


def shorten(x, n=600):
    s = json.dumps(x, default=str)
    return x if len(s) <= n else s[:n] + '...'


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('tier', nargs='?', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    a = ap.parse_args(argv)
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    pid = a.id.upper()
    modname = pid.lower()
    setup_process()
    mod = importlib.import_module('mc.' + modname)
    tmproot = tempfile.mkdtemp(prefix='mc_%s_' % pid)
    try:
        if a.replay:
            return replay(mod, a.replay, a.tier, tmproot)
        t0 = time.time()
        tot, groups, samples = explore(modname, a.tier, tmproot)
        wall = time.time() - t0
    finally:
        shutil.rmtree(tmproot, ignore_errors=True)

    complete = not tot.bad
    cov = {'samples': [shorten(s) for s in samples],
           'cases': tot.cases,
           'groups': groups,
           'bounds': mod.BOUNDS[a.tier] if isinstance(mod.BOUNDS, dict) else mod.BOUNDS,
           'exhaustive_within_bounds': complete,
           'outcomes': dict(sorted(tot.outcomes.items())[:60]),
           'distinct_outcomes': len(tot.outcomes)}
    if mod.LEVEL == 'model_checking':
        cov.update(states=len(tot.states), transitions=len(tot.edges),
                   traces_validated_against_impl=tot.traces,
                   evaluations=max(tot.evals, tot.traces))
    else:
        cov.update(evaluations=tot.evals, distinct_nontrivial=len(tot.states), rule=mod.RULE,
                   traces_validated_against_impl=tot.traces)
    if tot.known:
        cov['known_findings_seen'] = tot.known
    ev = {'property': pid, 'tier': 'thorough' if a.tier == 'thorough' else 'quick', 'seed': seed,
          'level': mod.LEVEL, 'coverage': cov, 'wall_s': round(wall, 2)}
    os.makedirs(os.path.join(OUT, 'evidence'), exist_ok=True)
    with open(os.path.join(OUT, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
        f.write('\n')
    for kid, det in sorted(tot.known.items()):
        print('KNOWN-FINDING: property=%s %s: %s' % (pid, kid, known_ids()[kid][1]))
    if tot.bad:
        tot.bad.sort(key=lambda b: b[0])
        idx, case, msg = tot.bad[0]
        os.makedirs(os.path.join(OUT, 'replays'), exist_ok=True)
        rp = os.path.join(OUT, 'replays', '%s.json' % pid)
        with open(rp, 'w') as f:
            json.dump({'property': pid, 'tier': a.tier, 'case': case, 'message': msg,
                       'how': '/verif/check.sh %s --replay %s' % (pid, rp)}, f, indent=1, default=str)
        print('case: ' + str(shorten(case)))
        print('what: ' + msg[:1500])
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    print('%s %s: %d cases, %d states, %d transitions, %d traces, %d evaluations, %d outcomes, %.1f s: held'
          % (pid, a.tier, tot.cases, len(tot.states), len(tot.edges), tot.traces, tot.evals,
             len(tot.outcomes), wall))
    return 0


def replay(mod, path, tier, tmproot):
    r = json.load(open(path))
    tier = r.get('tier', tier)
    ctx = Ctx(tmproot, tier)
    # same case twice: the observation must be the same both times
    out = []
    import io as _io
    import contextlib
    for _ in range(2):
        with contextlib.redirect_stdout(_io.StringIO()), contextlib.redirect_stderr(_io.StringIO()):
            out.append(run_one(mod, r['case'], ctx))
    print('case: ' + str(shorten(r['case'], 4000)))
    for o in out:
        print('observed: %s' % (o or 'property held'))
    if out[0]:
        print('VIOLATION property=%s replay=%s' % (r['property'], path))
        return 1
    return 0
