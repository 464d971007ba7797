"""A05: output depends on input, parameters and seed only."""
import copy
import json
import multiprocessing
import os
import subprocess
import sys
import tempfile

from mc.aggdrv import quiet, read_table
from mc.jobs import catalogue, prepare
from mc.statrun import Raised

JOBS, ALONE, SECOND, STORE = {}, {}, [], []


def execute(name, dirname, **over):
    """Run a job; returns (output bytes or Raised, what it changed)."""
    job = JOBS[name]
    here = tempfile.mkdtemp(dir=dirname)
    params, inputs, out = prepare(job, here, **over)
    before = copy.deepcopy(params)
    contents = [open(p, 'rb').read() for p in inputs]
    try:
        with quiet():
            job[4](params)
        with open(out, 'rb') as f:
            got = f.read()
    except Exception as err:  # noqa
        got = repr(Raised(err)).encode()
    changed = []
    if params != before or repr(params) != repr(before):
        changed.append('parameters')
    if contents != [open(p, 'rb').read() for p in inputs]:
        changed.append('input')
    return got, changed


def in_child(fn):
    """Run fn in a forked child and return what it returned."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            with os.fdopen(w, 'wb') as f:
                f.write(repr(fn()).encode())
        except BaseException:  # noqa
            code = 9
        os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    if os.waitpid(pid, 0)[1] != 0:
        raise RuntimeError('a child process ended abnormally')
    return eval(data.decode())  # noqa: the repr of bytes, lists and strings


def baseline(rec, name):
    """Every job alone in a process: works, repeats, modifies nothing."""
    got, changed = in_child(lambda: execute(name, rec.dir))
    again, _ = in_child(lambda: execute(name, rec.dir))
    rec.state(('alone', name), depth=1)
    rec.transition(2)
    rec.trace(2)
    rec.outcome(got)
    with open(os.path.join(STORE[0], name), 'wb') as f:
        f.write(got)
    rec.sample({'job': name, 'output': got.decode().split('\n')[:2]})
    replay = {'job': name, 'output': got.decode()[:400]}
    if got.startswith(b'raised') or got.count(b'\n') < 2:
        rec.violation('%s: %s' % (name, got.decode()[:200]), replay)
    if changed:
        rec.violation('%s changes its %s' % (name, ' and '.join(changed)), replay)
    if got != again:
        rec.violation('%s gives different output in two processes' % name, dict(replay, second=again.decode()[:400]))


def after(rec, first):
    """Every other job after this one in the same process."""
    def history():
        execute(first, rec.dir)
        out = []
        for second in SECOND:
            got, changed = in_child(lambda: execute(second, rec.dir))
            out.append((second, got, changed))
        return out
    for second, got, changed in in_child(history):
        rec.state((first, second), depth=2)
        rec.transition()
        rec.trace()
        rec.outcome(got)
        if got != ALONE[second]:
            rec.violation('%s after %s gives other output than alone: %s' % (second, first, got.decode()[:200]),
                          {'history': [first, second], 'output': got.decode()[:600], 'alone': ALONE[second].decode()[:600]})
        if changed:
            rec.violation('%s after %s changes its %s' % (second, first, changed), {'history': [first, second]})


def chain(rec, names):
    """A long history in one process."""
    def history():
        return [(n, execute(n, rec.dir)[0]) for n in names]
    for i, (name, got) in enumerate(in_child(history)):
        rec.state(('chain', tuple(names[:i + 1])), depth=i + 1)
        rec.transition()
        rec.trace()
        if got != ALONE[name]:
            rec.violation('%s at step %d of a history gives other output than alone' % (name, i),
                          {'history': names[:i + 1], 'output': got.decode()[:600], 'alone': ALONE[name].decode()[:600]})
            return


def threads(rec, name):
    """The same number of threads repeats; the values do not depend on it."""
    # jobs start processes of their own
    multiprocessing.current_process()._config['daemon'] = False

    def values(raw):
        path = os.path.join(rec.dir, 'read.data')
        with open(path, 'wb') as f:
            f.write(raw)
        return [{k: v for k, v in r.items() if k not in ('stat_btcl', 'stat_btcu')} for r in read_table(path)[1]]
    significance = 'derived' in name or 'axes' in name
    for n in (1, 2, 3):
        got = [execute(name, rec.dir, num_threads=n)[0] for _ in range(2)]
        rec.state((name, n), depth=1)
        rec.transition(2)
        rec.trace(2)
        rec.outcome(got[0])
        if got[0] != got[1]:
            rec.violation('%s with %d threads gives different output with the same seed' % (name, n),
                          {'job': name, 'threads': n, 'outputs': [g.decode()[:500] for g in got]})
        if n > 1:
            rows, first = values(got[0]), values(ALONE[name])
            if significance:
                # a significance is made of replicates
                rows, first = [[r for r in rs if not any(v.startswith('DIFF_SIG') for v in r.values())] for rs in (rows, first)]
            if rows != first:
                rec.violation('%s with %d threads gives other values than with one' % (name, n),
                              {'job': name, 'threads': n, 'output': got[0].decode()[:500]})


def seeds(rec, name):
    """The same seed gives the same output, whatever numbers were drawn before."""
    import numpy as np
    for seed in (0, 1, 77, 2 ** 32 - 1):
        got = []
        for before in (5, 6):
            np.random.seed(before)
            got.append(execute(name, rec.dir, random_seed=seed)[0])
        rec.state((name, 'seed', seed), depth=1)
        rec.transition(2)
        rec.trace(2)
        rec.outcome(got[0])
        if got[0] != got[1]:
            rec.violation('%s with seed %d gives different output after other random numbers' % (name, seed),
                          {'job': name, 'seed': seed, 'outputs': [g.decode()[:500] for g in got]})


CHILD = '''
import sys, json, hashlib, tempfile, shutil
sys.path.insert(0, %r)
from checks import A05_histories as a
a.JOBS.update(a.catalogue())
d = tempfile.mkdtemp(dir=sys.argv[1])
print('RESULT' + json.dumps({n: a.execute(n, d)[0].decode() for n in a.JOBS}))
'''


def hash_seed(rec, seed):
    """A new interpreter with another order of sets."""
    from mc.core import VERIF
    env = dict(os.environ, PYTHONHASHSEED=str(seed))
    res = subprocess.run([sys.executable, '-c', CHILD % VERIF, rec.dir], env=env, capture_output=True, text=True)
    lines = [x for x in res.stdout.splitlines() if x.startswith('RESULT')]
    if not lines:
        raise RuntimeError('no result from the interpreter: ' + res.stderr[-500:])
    got = json.loads(lines[0][6:])
    for name in JOBS:
        rec.state(('hash seed', seed, name), depth=1)
        rec.transition()
        rec.trace()
        if got[name] != ALONE[name].decode():
            rec.violation('%s gives other output in an interpreter with hash seed %d' % (name, seed),
                          {'job': name, 'hash seed': seed, 'output': got[name][:600], 'before': ALONE[name].decode()[:600]})


def explore(check):
    check.preload = ['metcalcpy.agg_stat', 'metcalcpy.agg_stat_bootstrap', 'metcalcpy.agg_eclv', 'metcalcpy.sum_stat',
                     'metcalcpy.scorecard', 'metcalcpy.agg_stat_eqz', 'metcalcpy.agg_stat_event_equalize']
    from mc.core import _preload
    _preload(check.preload)
    JOBS.update(catalogue())
    STORE.append(tempfile.mkdtemp(dir=check.scratch))
    check.run(baseline, list(JOBS), chunk=1)
    for name in JOBS:
        with open(os.path.join(STORE[0], name), 'rb') as f:
            ALONE[name] = f.read()
    # jobs of one kind share their code, three line types of each stand for it
    SECOND.extend(n for n in JOBS if check.thorough or n.split()[-1] not in ('groups', 'summary', 'intervals')
                  or n.split()[0] in ('ctc', 'ecnt', 'pct'))
    check.run(after, list(JOBS), chunk=1)
    names = list(JOBS)
    n = len(names)
    check.run(chain, [names, names[::-1], names[1::2] + names[::2], names[n // 2:] + names[:n // 2] * 2], chunk=1)
    check.run(hash_seed, list(range(1, 5 if not check.thorough else 17)), chunk=1)
    check.run(seeds, [name for name in JOBS if JOBS[name][5]], chunk=1)
    check.run(threads, [name for name in JOBS if JOBS[name][5] and (
        check.thorough or not name.endswith(' intervals') or name.split()[0] in ('ctc', 'sl1l2', 'pct'))], chunk=1)
    check.bounds = {'jobs': n, 'histories of two': n * len(SECOND), 'long histories': 4, 'hash seeds': 4, 'seeds': 4, 'threads': '1-3'}
