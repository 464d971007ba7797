"""Common machinery of the bounded model checker.

A check is a Python module in /verif/checks with a function ``explore(check)``.  It enumerates a
bounded space (input tables, call sequences, random-draw outcomes, file sets ...), runs the real code
of /repo on every element and compares what it observes with a reference model.

Work is split into shards that run in forked processes; every shard owns a ``Recorder``.  Nothing in
the enumeration is random, so VERIF_SEED only ends up in the evidence.
"""
import glob
import hashlib
import importlib
import json
import math
import multiprocessing as mp
import os
import shutil
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
FINDINGS = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
MAX_VIOLATIONS_PER_SHARD = 20
MAX_VIOLATIONS = 60


class StopShard(Exception):
    """Raised inside a shard when enough violations were recorded."""


def h64(obj):
    """64 bit digest of a canonical representation, the same in every process."""
    return int.from_bytes(hashlib.blake2b(repr(obj).encode(), digest_size=8).digest(), 'big')


class Recorder:
    """What one shard covered and found."""

    def __init__(self):
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.outcomes = set()
        self.samples = []
        self.violations = []
        self.known = {}
        self.counters = {}
        self.max_depth = 0

    def state(self, key, depth=0):
        k = h64(key)
        if depth > self.max_depth:
            self.max_depth = depth
        if k in self.states:
            return False
        self.states.add(k)
        return True

    def transition(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def outcome(self, obj):
        self.outcomes.add(h64(obj))

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def sample(self, obj, limit=3):
        if len(self.samples) < limit:
            self.samples.append(obj)

    def violation(self, what, replay, key=None, known_behaviour=False):
        """Record a violation.

        key names the defect (call site and input class); it is reported as a known finding only when
        the check has established that the observed behaviour is exactly the one on record.
        """
        self.violations.append({'key': key, 'what': what, 'replay': replay,
                                'known_behaviour': bool(known_behaviour)})
        if known_behaviour:
            # keep one witness per key, known findings never stop a shard
            if key in self.known:
                self.violations.pop()
            self.known[key] = self.known.get(key, 0) + 1
            return
        if sum(1 for v in self.violations if not v['known_behaviour']) >= MAX_VIOLATIONS_PER_SHARD:
            raise StopShard()


def _jsonable(obj):
    if isinstance(obj, dict):
        return {str(k): _jsonable(v) for k, v in obj.items()}
    if isinstance(obj, (list, tuple, set, frozenset)):
        return [_jsonable(v) for v in obj]
    if isinstance(obj, float):
        return obj if math.isfinite(obj) else repr(obj)
    if isinstance(obj, (int, str, bool)) or obj is None:
        return obj
    try:
        import numpy as np
        if isinstance(obj, np.ndarray):
            return _jsonable(obj.tolist())
        if isinstance(obj, np.generic):
            return _jsonable(obj.item())
    except ImportError:
        pass
    return repr(obj)


class Check:
    def __init__(self, pid, level='model_checking'):
        self.pid = pid
        self.level = level
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.seed = int(os.environ.get('VERIF_SEED', '1'))
        self.thorough = self.tier == 'thorough'
        self.t0 = time.time()
        self.total = Recorder()
        self.bounds = {}
        self.assumptions = []
        self.exhaustive = True
        self.preload = ['metcalcpy.agg_stat']
        self.scratch = tempfile.mkdtemp(prefix='vp_%s_' % pid)
        self.jobs = int(os.environ.get('VERIF_JOBS', str(min(8, os.cpu_count() or 1))))

    # ---------------------------------------------------------------- running
    def run(self, worker, items, chunk=None):
        """Run worker(rec, item) for every item.  Items are spread over forked processes."""
        items = list(items)
        if not items:
            return
        if chunk is None:
            chunk = max(1, len(items) // (self.jobs * 8))
        chunks = [items[i:i + chunk] for i in range(0, len(items), chunk)]
        if self.jobs == 1 or len(chunks) == 1:
            for c in chunks:
                self._merge(_run_chunk((worker, c, self.scratch)))
            return
        _preload(self.preload)
        global _WORKER
        _WORKER = worker
        with mp.get_context('fork').Pool(min(self.jobs, len(chunks))) as pool:
            for res in pool.imap_unordered(_run_chunk_fork, [(c, self.scratch) for c in chunks]):
                self._merge(res)
                if sum(1 for v in self.total.violations if not v['known_behaviour']) >= MAX_VIOLATIONS:
                    # the answer is known, the rest of the space is not visited
                    self.exhaustive = False
                    pool.terminate()
                    break

    def _merge(self, res):
        rec, err = res
        if err:
            raise RuntimeError('check machinery failed in a shard:\n' + err)
        t = self.total
        t.states |= rec.states
        t.transitions += rec.transitions
        t.traces += rec.traces
        t.outcomes |= rec.outcomes
        t.violations.extend(rec.violations)
        t.max_depth = max(t.max_depth, rec.max_depth)
        for k, v in rec.counters.items():
            t.counters[k] = t.counters.get(k, 0) + v
        for k, v in rec.known.items():
            t.known[k] = t.known.get(k, 0) + v
        for s in rec.samples:
            t.sample(s, 6)

    # ---------------------------------------------------------------- ending
    def finish(self):
        t = self.total
        listed = known_findings(self.pid)
        fresh, known = [], {}
        for v in t.violations:
            if v['known_behaviour'] and v['key'] in listed:
                known.setdefault(v['key'], v)
            else:
                fresh.append(v)
        fresh.sort(key=lambda v: (len(repr(v['replay'])), repr(v['replay'])))
        replay_path = None
        if fresh:
            d = os.path.join(VERIF, 'replays')
            os.makedirs(d, exist_ok=True)
            replay_path = os.path.join(d, self.pid + '.json')
            with open(replay_path, 'w') as f:
                json.dump({'property': self.pid, 'count': len(fresh),
                           'violations': _jsonable(fresh[:10])}, f, indent=1)
                f.write('\n')
        coverage = {
            'states': len(t.states),
            'transitions': t.transitions,
            'traces_validated_against_impl': t.traces,
            'distinct_outcomes': len(t.outcomes),
            'max_depth': t.max_depth,
            'bounds': _jsonable(self.bounds),
            'counters': t.counters,
            'samples': _jsonable(t.samples) or ['none'],
            'exhaustive': self.exhaustive,
        }
        evidence = {
            'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': self.level,
            'coverage': coverage, 'wall_s': round(time.time() - self.t0, 3),
            'assumptions': self.assumptions,
            'violations': len(fresh),
        }
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(evidence, f, indent=1)
            f.write('\n')
        shutil.rmtree(self.scratch, ignore_errors=True)
        print('%s: states=%d transitions=%d traces=%d outcomes=%d depth=%d wall=%.1fs %s' % (
            self.pid, len(t.states), t.transitions, t.traces, len(t.outcomes), t.max_depth,
            time.time() - self.t0, t.counters))
        for key, v in sorted(known.items()):
            print('KNOWN-FINDING: property=%s %s' % (self.pid, listed[key]))
        if fresh:
            for v in fresh[:5]:
                print('  violation: %s' % v['what'])
            print('VIOLATION property=%s replay=%s' % (self.pid, replay_path))
            return 1
        if t.traces == 0 or len(t.outcomes) < 2:
            print('vacuous exploration', file=sys.stderr)
            return 3
        return 0


_WORKER = None


def _preload(names):
    """Import once before forking; a module that cannot be imported is observed by the workers."""
    for name in names:
        try:
            importlib.import_module(name)
        except Exception:  # noqa
            pass


def _run_chunk_fork(args):
    chunk, scratch = args
    return _run_chunk((_WORKER, chunk, scratch))


def _run_chunk(args):
    worker, chunk, scratch = args
    rec = Recorder()
    here = tempfile.mkdtemp(dir=scratch)
    rec.dir = here
    old = os.getcwd()
    try:
        for item in chunk:
            worker(rec, item)
    except StopShard:
        pass
    except Exception as err:
        if not (from_code_under_test(err) or unreadable_result(err)):
            return rec, traceback.format_exc()
        # every input of the space is one the code has to answer, in the agreed form
        try:
            rec.violation('stopped with %s: %s' % (type(err).__name__, err),
                          {'item': repr(item)[:2000], 'trace': traceback.format_exc()[-1500:]})
        except StopShard:
            pass
    except BaseException:
        return rec, traceback.format_exc()
    finally:
        os.chdir(old)
        shutil.rmtree(here, ignore_errors=True)
    return rec, None


def from_code_under_test(err):
    """Whether an exception left the code of the repository and was not expected by the check."""
    tb = err.__traceback__
    while tb is not None:
        if os.sep + 'metcalcpy' + os.sep in tb.tb_frame.f_code.co_filename:
            return True
        tb = tb.tb_next
    return False


def unreadable_result(err):
    """Whether a check could not read a result: a missing key or column, no value where there must be one.

    Names that a check does not find in a module, or functions that take other arguments, are not meant.
    """
    if isinstance(err, (KeyError, IndexError, ValueError)):
        return True
    if isinstance(err, AttributeError):
        return not isinstance(getattr(err, 'obj', os), (type(os), type))
    if isinstance(err, TypeError):
        return 'positional argument' not in str(err) and 'keyword argument' not in str(err)
    return False


def known_findings(pid):
    """Lines 'known: property=<id> key=<key> <text>' of the findings file, as {key: text}."""
    out = {}
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            if line.startswith('known: property=%s key=' % pid):
                rest = line.strip().split('key=', 1)[1]
                key, text = rest.split(' ', 1)
                out[key] = text
    return out


def main(argv):
    pid = argv[1]
    mods = [m for m in glob.glob(os.path.join(VERIF, 'checks', '*.py'))
            if os.path.basename(m).split('_')[0].lower() == pid.lower()]
    if len(mods) != 1:
        print('no check for', pid, file=sys.stderr)
        return 2
    name = os.path.basename(mods[0])[:-3]
    sys.path.insert(0, VERIF)
    check = Check(pid)
    try:
        mod = importlib.import_module('checks.' + name)
        mod.explore(check)
        return check.finish()
    finally:
        shutil.rmtree(check.scratch, ignore_errors=True)
