"""Runtime-monitoring harness.

A check module (checks/cNN.py) defines META (the property), LEVEL, TECHNIQUE,
LEVEL_NOTE, RULE, MODULES (repository files it watches), REQUIRE (event
counters that must be reached for a "held" verdict) and a list WORKLOADS of
Workload objects.  A workload is a function case(ctx) that drives the real
code with inputs drawn from ctx.rng while monitors (ctx.check / ctx.fail)
watch what it does.  Cases are independent and identified by
(seed, workload, index), which is what a replay file records.

Verdicts: exit 0 held on everything observed, exit 1 violated (with a
VIOLATION line), exit 2 inconclusive or harness error."""

import base64
import faulthandler
import hashlib
import importlib
import json
import logging
import os
import pickle
import random
import shutil
import signal
import sys
import tempfile
import threading
import time
import traceback
import warnings

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')


class Violation(Exception):

    def __init__(self, key, msg, witness=None):
        Exception.__init__(self, "%s: %s" % (key, msg))
        self.key = key
        self.msg = msg
        self.witness = witness or {}


class CpuHang(BaseException):
    pass


class WallHang(BaseException):
    pass


class Skip(Exception):
    """The generated case turned out to be vacuous"""


class Workload(object):
    """case -- function(ctx)
    quick, thorough -- number of cases in each tier
    serial -- run in one process only (ports, global state)
    cpu -- CPU seconds one case may use before it counts as a hang
    wall -- wall seconds before the run is inconclusive
    blocked -- if True a case that exceeds wall while using no CPU is a
        violation of the property's progress clause"""

    def __init__(self, name, case, quick, thorough=None, serial=False,
                 cpu=60, wall=300, blocked=False):
        self.name = name
        self.case = case
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 10
        self.serial = serial
        self.cpu = cpu
        self.wall = wall
        self.blocked = blocked


def jsonable(x, depth=0):
    if depth > 6:
        return repr(x)[:200]
    if x is None or isinstance(x, (bool, int, float)):
        return x
    if isinstance(x, str):
        return x if len(x) < 4000 else x[:4000] + '...'
    if isinstance(x, (bytes, bytearray)):
        return repr(bytes(x[:2000]))
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in list(x.items())[:60]}
    if isinstance(x, (list, tuple)):
        return [jsonable(v, depth + 1) for v in x[:80]]
    if isinstance(x, (set, frozenset)):
        return sorted([jsonable(v, depth + 1) for v in x], key=repr)[:80]
    return repr(x)[:1000]


class Context(object):

    def __init__(self, seed, tier):
        self.seed = seed
        self.tier = tier
        self.rng = None
        self.events = {}
        self.distinct = set()
        self.samples = []
        self.evaluations = 0
        self.workload_cases = {}
        self._lock = threading.Lock()
        self._case_witness = {}
        self.case_id = None
        self.tmp = None
        self.cleanups = []

    # -- monitors ---------------------------------------------------------
    def check(self, cond, key, msg='', **witness):
        self.count('monitor:' + key)
        if not cond:
            self.fail(key, msg, **witness)
        return True

    def equal(self, got, want, key, msg='', **witness):
        self.count('monitor:' + key)
        if not (got == want):
            self.fail(key, "%s: got %r, expected %r" % (
                msg, got, want), got=got, want=want, **witness)
        return True

    def fail(self, key, msg='', **witness):
        w = dict(self._case_witness)
        w.update(witness)
        raise Violation(key, msg[:3000], w)

    def raises(self, exc, fn, key, msg='', **witness):
        """fn() must raise exc (class or tuple); returns the exception"""
        self.count('monitor:' + key)
        try:
            r = fn()
        except exc as e:
            return e
        except Exception as e:
            w = dict(witness)
            w['traceback'] = traceback.format_exc()[-1500:]
            self.fail(key, "%s: raised %s(%s), expected %s" % (
                msg, type(e).__name__, e, exc), **w)
        self.fail(key, "%s: no exception raised (result %r), expected %s" % (
            msg, r, exc), **witness)

    def witness(self, **kw):
        """Facts about the running case attached to any violation"""
        self._case_witness.update(kw)

    # -- evidence ---------------------------------------------------------
    def count(self, name, n=1):
        with self._lock:
            self.events[name] = self.events.get(name, 0) + n

    def nontrivial(self, key):
        """Registers the case as distinct and non-trivial"""
        if not isinstance(key, bytes):
            key = repr(key).encode('utf-8', 'surrogatepass')
        with self._lock:
            self.distinct.add(hashlib.blake2b(key, digest_size=8).digest())

    def sample(self, obj):
        if len(self.samples) < 3:
            self.samples.append(jsonable(obj))

    # -- resources --------------------------------------------------------
    def tmpdir(self):
        """A scratch directory removed when the case ends"""
        d = tempfile.mkdtemp(prefix='case-', dir=self.tmp)
        self.cleanups.append(lambda: shutil.rmtree(d, ignore_errors=True))
        return d

    def cleanup(self, fn):
        self.cleanups.append(fn)

    def run_cleanups(self):
        while self.cleanups:
            fn = self.cleanups.pop()
            try:
                fn()
            except Exception:
                pass


def case_rng(seed, workload, index):
    return random.Random("%s|%s|%s" % (seed, workload, index))


def blame(tb):
    """'repo' if the innermost interesting frame is the code under test"""
    who = None
    for f, _ in traceback.walk_tb(tb):
        fn = f.f_code.co_filename
        if fn.startswith(REPO + '/pyslet'):
            who = 'repo'
        elif fn.startswith(VERIF):
            who = 'verif'
    return who


class LineMonitor(object):
    """Records which lines of the watched files ran (sys.monitoring)"""

    TOOL = 3

    def __init__(self, files):
        self.files = set(os.path.join(REPO, f) for f in files)
        self.hit = {}
        self.on = False

    def start(self):
        m = sys.monitoring
        try:
            m.use_tool_id(self.TOOL, 'verif-lines')
        except ValueError:
            return
        m.register_callback(self.TOOL, m.events.LINE, self.line)
        m.set_events(self.TOOL, m.events.LINE)
        self.on = True

    def line(self, code, lineno):
        fn = code.co_filename
        if fn in self.files:
            self.hit.setdefault(fn, set()).add(lineno)
        return sys.monitoring.DISABLE

    def totals(self):
        result = {}
        for fn in self.files:
            lines = set()
            try:
                with open(fn, 'rb') as f:
                    code = compile(f.read(), fn, 'exec')
            except Exception:
                continue
            stack = [code]
            while stack:
                c = stack.pop()
                for _, _, ln in c.co_lines():
                    if ln:
                        lines.add(ln)
                for k in c.co_consts:
                    if hasattr(k, 'co_lines'):
                        stack.append(k)
            result[fn] = lines
        return result


def load_known(pid):
    known = {}
    try:
        with open(KNOWN, encoding='utf-8') as f:
            for line in f:
                line = line.strip()
                if not line.startswith('known:'):
                    continue
                parts = line.split(None, 3)
                d = dict(p.split('=', 1) for p in parts[1:3])
                if d.get('property') == pid:
                    known[d['key']] = parts[3] if len(parts) > 3 else ''
    except FileNotFoundError:
        pass
    return known


def _arm(w):
    def on_cpu(sig, frame):
        raise CpuHang()

    def on_wall(sig, frame):
        raise WallHang()
    signal.signal(signal.SIGVTALRM, on_cpu)
    signal.signal(signal.SIGALRM, on_wall)
    signal.setitimer(signal.ITIMER_VIRTUAL, w.cpu)
    signal.setitimer(signal.ITIMER_REAL, w.wall)


def _disarm():
    signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    signal.setitimer(signal.ITIMER_REAL, 0)


def run_case(ctx, w, index, seed):
    """Runs one case; returns None or a violation/known/error record"""
    ctx.rng = case_rng(seed, w.name, index)
    ctx._case_witness = {}
    ctx.case_id = (seed, w.name, index)
    rec = None
    cpu0 = time.process_time()
    try:
        try:
            _arm(w)
            w.case(ctx)
        finally:
            _disarm()
        ctx.evaluations += 1
        ctx.workload_cases[w.name] = ctx.workload_cases.get(w.name, 0) + 1
    except Skip:
        ctx.count('skipped:' + w.name)
    except Violation as v:
        ctx.evaluations += 1
        rec = dict(kind='violation', key=v.key, msg=v.msg,
                   witness=jsonable(v.witness))
    except CpuHang:
        tb = traceback.format_exc()
        rec = dict(kind='violation', key='hang:' + w.name,
                   msg='case used more than %gs of CPU time' % w.cpu,
                   witness=jsonable(dict(ctx._case_witness,
                                         traceback=tb[-3000:])))
    except WallHang:
        tb = traceback.format_exc()
        used = time.process_time() - cpu0
        rec = dict(kind='violation' if w.blocked and used < w.wall * 0.2
                   else 'inconclusive',
                   key='blocked:' + w.name,
                   msg='case still not finished after %gs' % w.wall,
                   witness=jsonable(dict(ctx._case_witness,
                                         traceback=tb[-3000:])))
    except Exception as e:
        tb = traceback.format_exc()
        who = blame(e.__traceback__)
        rec = dict(kind='violation' if who == 'repo' else 'error',
                   key='crash:%s:%s' % (w.name, type(e).__name__),
                   msg='unexpected %s: %s' % (type(e).__name__, e),
                   witness=jsonable(dict(ctx._case_witness,
                                         traceback=tb[-3000:])))
    finally:
        ctx.run_cleanups()
    if rec is not None:
        rec.update(workload=w.name, index=index, seed=seed)
    return rec


def die_with_parent():
    try:
        import ctypes
        ctypes.CDLL(None).prctl(1, signal.SIGKILL)
    except Exception:
        pass


def worker(mod, seed, tier, shard, nshards, deadline, outfile, scale, only,
           known):
    die_with_parent()
    stop = os.path.join(os.path.dirname(outfile), 'stop')
    stopped = False
    ctx = Context(seed, tier)
    ctx.tmp = tempfile.mkdtemp(prefix='verif-w%d-' % shard)
    lm = LineMonitor(mod.MODULES)
    records = []
    truncated = []
    try:
        lm.start()
        for w in mod.WORKLOADS:
            if only and w.name not in only:
                continue
            total = w.quick if tier == 'quick' else w.thorough
            total = max(1, int(total * scale))
            if w.serial and shard != hash_shard(w.name, nshards):
                continue
            rng = range(total) if w.serial else range(shard, total, nshards)
            for i in rng:
                if time.time() > deadline:
                    truncated.append(w.name)
                    break
                if os.path.exists(stop):
                    # somebody found a violation: that decides the run
                    stopped = True
                    break
                rec = run_case(ctx, w, i, seed)
                if rec is not None:
                    records.append(rec)
                    if rec['kind'] == 'violation' and \
                            rec['key'] not in known:
                        open(stop, 'w').close()
            if stopped:
                break
    finally:
        shutil.rmtree(ctx.tmp, ignore_errors=True)
        result = dict(
            records=records, events=ctx.events, distinct=ctx.distinct,
            samples=ctx.samples, evaluations=ctx.evaluations,
            workloads=ctx.workload_cases, hit=lm.hit, truncated=truncated)
        with open(outfile + '.part', 'wb') as f:
            pickle.dump(result, f)
        os.rename(outfile + '.part', outfile)


def hash_shard(name, n):
    return int(hashlib.md5(name.encode()).hexdigest(), 16) % n


def setup_process():
    sys.path.insert(0, REPO)
    sys.path.insert(0, VERIF)
    warnings.simplefilter('ignore')
    logging.disable(logging.CRITICAL)
    faulthandler.enable()
    sys.setrecursionlimit(3000)


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int,
                    default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--jobs', type=int, default=0)
    ap.add_argument('--only', action='append')
    ap.add_argument('--lines', action='store_true')
    args = ap.parse_args(argv)
    setup_process()
    pid = args.property
    tier = 'thorough' if args.tier == 'thorough' else 'quick'
    t0 = time.time()
    mod = importlib.import_module('checks.' + pid.lower())
    import pyslet
    if not os.path.abspath(pyslet.__file__).startswith(REPO + '/'):
        print("HARNESS ERROR: pyslet imported from %s" % pyslet.__file__)
        return 2
    known = load_known(pid)
    if args.replay:
        return replay(mod, pid, args.replay, known)
    n = args.jobs or min(8, os.cpu_count() or 1)
    if getattr(mod, 'JOBS', None):
        n = min(n, mod.JOBS)
    cap = getattr(mod, 'CAP', {}).get(tier, 240 if tier == 'quick' else 3000)
    deadline = t0 + cap
    work = tempfile.mkdtemp(prefix='verif-%s-' % pid)
    sys.stdout.flush()
    pids = {}
    results = []
    dead = []
    try:
        for s in range(n):
            out = os.path.join(work, 'r%d' % s)
            child = os.fork()
            if child == 0:
                code = 0
                try:
                    worker(mod, args.seed, tier, s, n, deadline, out,
                           args.scale, args.only, known)
                except BaseException:
                    traceback.print_exc()
                    code = 3
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
            pids[child] = out
        limit = deadline + 420
        while pids:
            p, st = os.waitpid(-1, os.WNOHANG)
            if p == 0:
                if time.time() > limit:
                    for c in pids:
                        try:
                            os.kill(c, signal.SIGKILL)
                        except OSError:
                            pass
                    limit = time.time() + 1000
                time.sleep(0.02)
                continue
            out = pids.pop(p)
            if os.path.exists(out):
                with open(out, 'rb') as f:
                    results.append(pickle.load(f))
            else:
                dead.append((p, st))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return conclude(mod, pid, tier, args, known, results, dead, t0)


def conclude(mod, pid, tier, args, known, results, dead, t0):
    events, distinct, samples, wl = {}, set(), [], {}
    evaluations = 0
    hit = {}
    truncated = set()
    records = []
    for r in results:
        for k, v in r['events'].items():
            events[k] = events.get(k, 0) + v
        distinct |= r['distinct']
        samples.extend(r['samples'][:1])
        evaluations += r['evaluations']
        for k, v in r['workloads'].items():
            wl[k] = wl.get(k, 0) + v
        for k, v in r['hit'].items():
            hit.setdefault(k, set()).update(v)
        truncated.update(r['truncated'])
        records.extend(r['records'])
    records.sort(key=lambda r: (r['workload'], r['index']))
    reported = {}
    inconclusive = []
    violations = []
    for rec in records:
        if rec['kind'] == 'violation':
            if rec['key'] in known:
                reported.setdefault(rec['key'], rec)
            else:
                violations.append(rec)
        else:
            inconclusive.append(rec)
    for key in sorted(reported):
        print("KNOWN-FINDING: property=%s %s (%s)" % (pid, known[key], key))
    lm = LineMonitor(mod.MODULES)
    lines = {}
    for fn, tot in lm.totals().items():
        h = hit.get(fn, set()) & tot
        lines[os.path.relpath(fn, REPO)] = '%d/%d' % (len(h), len(tot))
        if args.lines:
            print(fn, 'not reached:', compact(sorted(tot - h)))
    for name, need in getattr(mod, 'REQUIRE', {}).items():
        if args.only or args.scale < 1:
            continue
        if events.get(name, 0) < need:
            inconclusive.append(dict(
                kind='inconclusive', key='require:' + name,
                msg='only %d %s events observed, need %d' % (
                    events.get(name, 0), name, need), witness={}))
    if dead:
        inconclusive.append(dict(
            kind='inconclusive', key='worker-died', msg=repr(dead),
            witness={}))
    wall = time.time() - t0
    coverage = dict(
        evaluations=evaluations, distinct_nontrivial=len(distinct),
        rule=mod.RULE, samples=samples[:4] or ['none'],
        workloads=wl, observed=dict(sorted(events.items())),
        lines_executed=lines, truncated_by_time=sorted(truncated),
        known_findings_seen=sorted(reported))
    ev = dict(property=pid, tier=tier, seed=args.seed, level=mod.LEVEL,
              coverage=coverage, assumptions=getattr(mod, 'ASSUMPTIONS', []),
              wall_s=round(wall, 2), violations=len(violations))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    if not args.only:
        path = os.path.join(VERIF, 'evidence', pid + '.json')
        with open(path + '.tmp', 'w') as f:
            json.dump(ev, f, indent=1, sort_keys=True, default=repr)
        os.rename(path + '.tmp', path)
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %.1fs" % (
        pid, tier, args.seed, evaluations, len(distinct), wall))
    if violations:
        rdir = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(rdir, exist_ok=True)
        shown = set()
        for v in violations:
            if v['key'] in shown:
                continue
            shown.add(v['key'])
            name = '%s-%s.json' % (pid, hashlib.md5(
                repr((v['key'], v['workload'], v['index'],
                      v['seed'])).encode()).hexdigest()[:10])
            rp = os.path.join(rdir, name)
            with open(rp, 'w') as f:
                json.dump(dict(v, property=pid, tier=tier), f, indent=1,
                          default=repr)
            print("  [%s] %s #%s: %s" % (
                v['key'], v['workload'], v['index'], v['msg'][:600]))
            print("VIOLATION property=%s replay=%s" % (pid, rp))
            if len(shown) >= 5:
                break
        return 1
    if inconclusive:
        for v in inconclusive[:2]:
            print("INCONCLUSIVE [%s] %s\n%s" % (
                v['key'], v['msg'], json.dumps(v['witness'])[:3000].replace(
                    '\\n', '\n')))
        return 2
    return 0


def compact(lines):
    out = []
    for n in lines:
        if out and out[-1][1] == n - 1:
            out[-1][1] = n
        else:
            out.append([n, n])
    return ' '.join('%d' % a if a == b else '%d-%d' % (a, b) for a, b in out)


def replay(mod, pid, path, known):
    with open(path) as f:
        rec = json.load(f)
    ctx = Context(rec['seed'], rec.get('tier', 'quick'))
    ctx.tmp = tempfile.mkdtemp(prefix='verif-replay-')
    try:
        for w in mod.WORKLOADS:
            if w.name == rec['workload']:
                r = run_case(ctx, w, rec['index'], rec['seed'])
                if r is None:
                    print("replay: the case passes")
                    return 0
                print(json.dumps(r, indent=1)[:6000].replace('\\n', '\n'))
                if r['kind'] == 'violation' and r['key'] not in known:
                    print("VIOLATION property=%s replay=%s" % (pid, path))
                    return 1
                return 0 if r['kind'] == 'violation' else 2
    finally:
        shutil.rmtree(ctx.tmp, ignore_errors=True)
    print("replay: no such workload")
    return 2


if __name__ == '__main__':
    # checks import lib.harness: make that this very module
    sys.path.insert(0, VERIF)
    import lib.harness as H
    sys.exit(H.main(sys.argv[1:]))
