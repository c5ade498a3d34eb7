"""Runs simulations: one forked process per run, in parallel, and reports.

A run is a pure function of (the code in /repo, property, tier, choice
sequence).  Every run starts from the same pristine forked image, so runs
cannot influence one another and the number of workers is irrelevant.
"""
import hashlib
import importlib
import json
import os
import pickle
import select
import signal
import struct
import subprocess
import sys
import time
import traceback

from . import choices as choices_mod
from .choices import Choices, TooManyChoices
from .world import Known, SimCrash, StepBudget, Violation, World

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('DST_REPO', '/repo')
LIB = os.path.join(REPO, 'ebmlite') + os.sep
CPU_LIMIT = 25          # seconds of CPU one run may use before it is a hang
WALL_LIMIT = int(os.environ.get('DST_WALL', '240'))        # seconds of wall time before a run is given up
MEM_LIMIT = 3 << 30
WORKERS = int(os.environ.get('DST_WORKERS', '0')) or min(8, os.cpu_count() or 1)
WALL_CAP = {'quick': 420, 'thorough': 6 * 3600}


def load_prop(pid):
    mod = importlib.import_module('dst.props.' + pid.lower())
    return mod


def known_findings(pid):
    with open(os.path.join(VERIF, 'known_findings.json')) as f:
        data = json.load(f)
    return {k['id']: k for k in data['known'] if k['property'] == pid}


def run_seed(base, pid, index):
    d = hashlib.blake2b(('%d/%s/%d' % (base, pid, index)).encode(), digest_size=8)
    return int.from_bytes(d.digest(), 'big')


# ---------------------------------------------------------------------------
# One run, in its own process
# ---------------------------------------------------------------------------

def _through_library(tb):
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(LIB):
            return True
        tb = tb.tb_next
    return False


def execute(mod, tier, seed=None, replay=None, verbose=False, known=()):
    """Run one simulation in this process; returns a result dict."""
    ch = Choices(seed=seed, replay=replay)
    world = World(ch, tier, verbose)
    world.known_ids = set(known)
    if verbose:      # (not part of the hash: a replay has no seed)
        world.lines.append('seed %r' % (seed,))
    res = {'status': 'ok', 'kind': None, 'msg': None}
    try:
        mod.run(world)
    except Violation as v:
        res.update(status='violation', kind=v.kind, msg=v.msg)
    except Known as k:
        world.known[k.finding] = world.known.get(k.finding, 0) + 1
        res['status'] = 'known'
    except TooManyChoices:
        res['status'] = 'toolong'
    except StepBudget as e:
        res.update(status='violation', kind='unbounded-work', msg=str(e))
    except BaseException as e:
        tb = traceback.format_exc()
        # (results of the wrong type or shape fail in the harness that looks at them)
        if not isinstance(e, (SimCrash, MemoryError)) and (
                _through_library(e.__traceback__)
                or isinstance(e, (TypeError, ValueError, LookupError, AttributeError, OSError))):
            res.update(status='violation', kind='escaped-' + type(e).__name__,
                       msg=tb[-1500:])
        else:
            res.update(status='harness', kind=type(e).__name__, msg=tb[-3000:])
    if res['status'] in ('violation', 'harness'):
        world.log('RESULT', res['status'], res['kind'])
    fin = getattr(mod, 'finish', None)
    if fin:
        fin(world)
    res.update(hash=world.h.hexdigest(), shape=world.shape.hexdigest(),
               nontrivial=world.nontrivial, faults=world.faults,
               probes=world.probes, known=world.known, now=world.now,
               nchoices=len(ch.log), seq=world.seq, case=world.case)
    if res['status'] in ('violation', 'harness') or verbose:
        res['choices'] = ch.log
        res['spans'] = sorted(set(ch.spans))
    if verbose:
        res['lines'] = world.lines
    return res


def _child(mod, tier, wfd, seed, replay, verbose, known):
    """Never returns."""
    import gc
    import resource

    def send(obj):
        data = pickle.dumps(obj)
        data = struct.pack('>I', len(data)) + data
        while data:
            n = os.write(wfd, data)
            data = data[n:]

    def hang(*_a):
        send({'status': 'hang', 'kind': 'hang', 'msg': 'run used %ds of CPU' % CPU_LIMIT,
              'hash': '', 'shape': '', 'nontrivial': 0, 'faults': {}, 'probes': {},
              'known': {}, 'now': 0, 'nchoices': 0, 'seq': 0, 'case': None})
        os._exit(0)

    try:
        gc.disable()
        resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_CPU, (CPU_LIMIT + 20, CPU_LIMIT + 25))
        signal.signal(signal.SIGVTALRM, hang)
        signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT)
        res = execute(mod, tier, seed, replay, verbose, known)
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        send(res)
    except BaseException:
        try:
            send({'status': 'harness', 'kind': 'child', 'msg': traceback.format_exc()[-3000:],
                  'hash': '', 'shape': '', 'nontrivial': 0, 'faults': {}, 'probes': {},
                  'known': {}, 'now': 0, 'nchoices': 0, 'seq': 0, 'case': None})
        except BaseException:
            pass
    finally:
        os._exit(0)


def _empty(status, kind, msg):
    return {'status': status, 'kind': kind, 'msg': msg, 'hash': '', 'shape': '',
            'nontrivial': 0, 'faults': {}, 'probes': {}, 'known': {}, 'now': 0,
            'nchoices': 0, 'seq': 0, 'case': None}


def forked(mod, tier, seed=None, replay=None, verbose=False, known=()):
    """Run one simulation in a fresh fork of this process."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        _child(mod, tier, w, seed, replay, verbose, known)
    os.close(w)
    buf = b''
    deadline = time.monotonic() + WALL_LIMIT
    try:
        while True:
            left = deadline - time.monotonic()
            if left <= 0:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                pid = 0
                return _empty('harness', 'wall', 'run exceeded %ds of wall time' % WALL_LIMIT)
            if not select.select([r], [], [], left)[0]:
                continue
            chunk = os.read(r, 1 << 20)
            if not chunk:
                break
            buf += chunk
    finally:
        os.close(r)
        st = os.waitpid(pid, 0)[1] if pid else 0
    if len(buf) >= 4:
        n = struct.unpack('>I', buf[:4])[0]
        if len(buf) >= 4 + n:
            return pickle.loads(buf[4:4 + n])
    if os.WIFSIGNALED(st) and os.WTERMSIG(st) == signal.SIGXCPU:
        return _empty('hang', 'hang', 'run exceeded its CPU limit')
    if os.WIFSIGNALED(st) and os.WTERMSIG(st) in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS):
        # CPython 3.12 itself can crash when bytecodes are traced in several
        # threads; the library is pure Python, so such a run says nothing
        return _empty('crashed', 'crashed', 'the interpreter crashed')
    return _empty('harness', 'died', 'run died with status %r' % st)


# ---------------------------------------------------------------------------
# A batch of runs
# ---------------------------------------------------------------------------

class Tally:
    def __init__(self):
        self.runs = self.nontrivial = self.simtime = self.choices = self.events = 0
        self.status = {}
        self.shapes = set()
        self.faults = {}
        self.probes = {}
        self.known = {}
        self.samples = []
        self.hashes = {}
        self.bad = []            # (index, result)

    def add(self, index, res):
        self.runs += 1
        self.status[res['status']] = self.status.get(res['status'], 0) + 1
        if res['nontrivial']:
            self.nontrivial += 1
            if res['shape']:
                self.shapes.add(res['shape'])
        self.simtime += res['now']
        self.choices += res['nchoices']
        self.events += res['seq']
        for k in ('faults', 'probes', 'known'):
            d = getattr(self, k)
            for n, c in res[k].items():
                d[n] = d.get(n, 0) + c
        if res['case'] and res['nontrivial'] and len(self.samples) < 4:
            self.samples.append({'index': index, 'case': res['case'],
                                 'faults': res['faults'], 'events': res['seq']})
        self.hashes[index] = res['hash']
        if res['status'] in ('violation', 'hang', 'harness'):
            self.bad.append((index, res))

    def merge(self, o):
        for k in ('runs', 'nontrivial', 'simtime', 'choices', 'events'):
            setattr(self, k, getattr(self, k) + getattr(o, k))
        for k in ('status', 'faults', 'probes', 'known'):
            d = getattr(self, k)
            for n, c in getattr(o, k).items():
                d[n] = d.get(n, 0) + c
        self.shapes |= o.shapes
        self.samples = sorted(self.samples + o.samples, key=lambda s: s['index'])[:4]
        self.hashes.update(o.hashes)
        self.bad = sorted(self.bad + o.bad, key=lambda b: b[0])


def batch(mod, pid, tier, base_seed, nruns, workers=None, cap=None, keep_going=False,
          known=(), start=0):
    """nruns runs over a fixed set of indices; stops at the first violation."""
    import mmap
    workers = min(workers or WORKERS, max(1, nruns))
    deadline = time.monotonic() + (cap or WALL_CAP[tier])
    shared = mmap.mmap(-1, 8)
    shared[:8] = struct.pack('<q', 1 << 60)
    procs = []
    for w in range(workers):
        r, wr = os.pipe()
        p = os.fork()
        if p == 0:
            os.close(r)
            code = 0
            try:
                t = Tally()
                for i in range(start + w, start + nruns, workers):
                    if time.monotonic() > deadline:
                        t.status['skipped'] = t.status.get('skipped', 0) + 1
                        continue
                    if i > struct.unpack('<q', shared[:8])[0] and not keep_going:
                        break
                    res = forked(mod, tier, seed=run_seed(base_seed, pid, i), known=known)
                    t.add(i, res)
                    if res['status'] in ('violation', 'hang') and not keep_going:
                        if i < struct.unpack('<q', shared[:8])[0]:
                            shared[:8] = struct.pack('<q', i)
                        break
                    if res['status'] == 'harness' and len(t.bad) > 5:
                        break
                with os.fdopen(wr, 'wb') as f:
                    pickle.dump(t, f)
            except BaseException:
                traceback.print_exc()
                code = 3
            finally:
                os._exit(code)
        os.close(wr)
        procs.append((p, r))
    total = Tally()
    broken = None
    for p, r in procs:
        with os.fdopen(r, 'rb') as f:
            data = f.read()
        st = os.waitpid(p, 0)[1]
        if st or not data:
            broken = 'worker ended with status %r' % st
        else:
            total.merge(pickle.loads(data))
    if broken:
        raise RuntimeError(broken)
    return total


# ---------------------------------------------------------------------------
# Checking one property
# ---------------------------------------------------------------------------

def replay_dict(pid, tier, base_seed, index, res, choices):
    return {'property': pid, 'tier': tier, 'verif_seed': base_seed, 'run_index': index,
            'kind': res['kind'], 'message': res['msg'], 'choices': choices,
            'log_hash': res['hash'], 'case': res.get('case'),
            'schedule_and_faults': res.get('lines', [])[-400:]}


def run_replay(path, verbose=False):
    """Re-execute a replay file in this process tree: (reproduced, result)."""
    with open(path) as f:
        rep = json.load(f)
    pid = rep['property']
    mod = load_prop(pid)
    mod.setup()
    if rep['choices'] is None:      # a hang: replay from its seed
        res = forked(mod, rep['tier'], seed=run_seed(rep['verif_seed'], pid, rep['run_index']),
                     known=known_findings(pid))
        return res['status'] == 'hang', rep, res
    res = forked(mod, rep['tier'], replay=rep['choices'], verbose=True,
                 known=known_findings(pid))
    return (res['status'] == 'violation' and res['kind'] == rep['kind']
            and res['hash'] == rep['log_hash']), rep, res


def _confirm(path):
    env = dict(os.environ, PYTHONHASHSEED='4242', PYTHONDONTWRITEBYTECODE='1')
    p = subprocess.run([sys.executable, os.path.join(VERIF, 'replay.py'), path, '--quiet'],
                       env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       timeout=WALL_LIMIT + 60)
    return p.returncode == 1, p.stdout.decode(errors='replace')


def check(pid, tier, base_seed, nruns=None, workers=None, evidence=True):
    from . import shrink
    t0 = time.monotonic()
    mod = load_prop(pid)
    mod.setup()
    known = known_findings(pid)
    nruns = nruns or mod.RUNS[tier]
    total = batch(mod, pid, tier, base_seed, nruns, workers, known=known)
    wall = time.monotonic() - t0
    violations = [b for b in total.bad if b[1]['status'] in ('violation', 'hang')]
    harness = [b for b in total.bad if b[1]['status'] == 'harness']
    code = 0
    reported = 0
    out = os.path.join(VERIF, 'evidence')
    os.makedirs(os.path.join(out, 'replays'), exist_ok=True)
    for index, res in violations[:3]:
        path = os.path.join(out, 'replays', '%s-%d.json' % (pid, index))
        ok, text = False, ''
        tries = []
        if res['status'] == 'hang':
            tries = [None]
        else:
            small = shrink.shrink(mod, tier, res, known)
            tries = [small, res['choices']]
        for choices in tries:
            if choices is not None:
                full = forked(mod, tier, replay=choices, verbose=True, known=known)
                if full['status'] != 'violation':
                    text = 'not reproduced in process: %r' % (full['status'],)
                    continue
            else:
                full = res
            with open(path, 'w') as f:
                json.dump(replay_dict(pid, tier, base_seed, index, full, choices), f, indent=1)
            ok, text = _confirm(path)
            if ok:
                break
        if ok:
            print('%s: %s: %s' % (pid, full['kind'], (full['msg'] or '')[:1200]))
            print('VIOLATION property=%s replay=%s' % (pid, os.path.relpath(path, VERIF)))
            reported += 1
            code = 1
            break
        print('%s: run %d failed (%s) but its replay did not reproduce it:\n%s\n%s'
              % (pid, index, res['kind'], res['msg'], text), file=sys.stderr)
        code = max(code, 2)
        if code == 2:
            harness.append((index, res))
    if code != 1 and harness:
        index, res = harness[0]
        print('%s: HARNESS ERROR in run %d: %s\n%s' % (pid, index, res['kind'], res['msg']),
              file=sys.stderr)
        code = 2
    skipped = total.status.get('skipped', 0)
    if code == 0 and total.runs < nruns * 0.1:
        print('%s: only %d of %d runs finished in time' % (pid, total.runs, nruns),
              file=sys.stderr)
        code = 2
    toolong = total.status.get('toolong', 0)
    if code == 0 and toolong > nruns * 0.02 + 2:
        print('%s: %d runs exceeded the choice limit' % (pid, toolong), file=sys.stderr)
        code = 2
    crashed = total.status.get('crashed', 0)
    if code == 0 and crashed > nruns * 0.01 + 2:
        print('%s: the interpreter crashed in %d runs' % (pid, crashed), file=sys.stderr)
        code = 2
    for kid, k in sorted(known.items()):
        print('KNOWN-FINDING: property=%s %s (seen in %d runs)'
              % (pid, k['what'], total.known.get(kid, 0)))
    zero = [p for p in getattr(mod, 'PROBES', ()) if not total.probes.get(p)]
    summary = ('%s %s: %d runs, %d distinct non-trivial, %.1f s, faults %s'
               % (pid, tier, total.runs, len(total.shapes), wall, dict(sorted(total.faults.items()))))
    print(summary)
    if zero:
        print('%s: probes never hit: %s' % (pid, ', '.join(zero)))
    if evidence:
        ev = {
            'property': pid, 'tier': tier, 'seed': base_seed, 'level': 'exploration',
            'wall_s': round(time.monotonic() - t0, 2), 'violations': reported,
            'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
            'coverage': {
                'evaluations': total.runs,
                'distinct_nontrivial': len(total.shapes),
                'rule': mod.RULE,
                'samples': total.samples,
                'runs_per_hour': int(total.runs / max(wall, .001) * 3600),
                'runs_with_fault_or_preemption': total.nontrivial,
                'runs_skipped_for_time': skipped,
                'run_status': total.status,
                'simulated_seconds': round(total.simtime / 1e6, 3),
                'choices_drawn': total.choices,
                'events_logged': total.events,
                'faults_injected': dict(sorted(total.faults.items())),
                'probes': dict(sorted(total.probes.items())),
                'probes_never_hit': zero,
                'known_findings_seen': total.known,
                'real_components': mod.REAL,
                'stub_components': mod.STUB,
                'workers': workers or WORKERS,
                'seeds': '%d run seeds derived from VERIF_SEED=%d' % (total.runs, base_seed),
            },
        }
        with open(os.path.join(out, pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, sort_keys=True)
    return code
