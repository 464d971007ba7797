"""F09: validation of METviewer plots: every plot gets its verdict and only the files of plots that agree are removed.

The validation deletes files, so it runs in a process of an unprivileged user who owns nothing but a scratch directory.
The METviewer it starts is a stand-in that writes the images prepared for it.
"""
import contextlib
import datetime
import io
import itertools
import os
import pickle
import shutil
import tempfile
import xml.dom.minidom

import numpy as np

NOBODY = 65534
KINDS = ('same', 'different', 'slight', 'neither', 'original only', 'new only', 'other size', 'unreadable')
NAMES = ('p1', 'p10', 'p1_a', 'p.1', 'q')
DIRS = ('xml', 'plots', 'data', 'scripts')
SCRIPT = r'''#!/bin/sh
get() { sed -n "s/.*<$1>\([^<]*\)<\/$1>.*/\1/p" "$2" | head -1; }
home=$(dirname "$(dirname "$0")")
p=$(get plot_file "$1"); d=$(get data_file "$1"); r=$(get r_file "$1")
cp "$1" "$home/calls/$(basename "$1")"
echo "$(basename "$1")" >> "$home/calls/order"
if [ -f "$home/answers/$p" ]; then cp "$home/answers/$p" "$(get plots "$1")/$p"; fi
echo x > "$(get data "$1")/$d"
echo x > "$(get data "$1")/${d%.*}.info"
echo x > "$(get scripts "$1")/$r"
'''
XML = '''<?xml version="1.0"?>
<plot_spec><connection><user>old_user</user><password>old_pass</password></connection>
<folders><r_tmpl>/old/R_tmpl</r_tmpl><r_work>/old/R_work</r_work><plots>%(originals)s</plots><data>/old/data</data><scripts>/old/scripts</scripts></folders>
<plot><template>series_plot.R_tmpl</template><r_file>%(name)s.R</r_file><data_file>%(name)s.data</data_file><plot_file>%(name)s.png</plot_file></plot></plot_spec>
'''


def image(kind):
    out = np.full((24, 30, 3), 255, dtype=np.uint8)
    out[4:9, 5:20] = (0, 0, 0)
    if kind == 'different':
        out[14:20, 3:25] = (0, 0, 200)
    if kind == 'slight':
        out[20, 15] = 254
    if kind == 'other size':
        out = np.concatenate([out, out], axis=0)
    return out


def sandboxed(function):
    """Run a function as a user who owns nothing; its result or the text of its failure."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            os.dup2(os.open(os.devnull, os.O_WRONLY), 2)
            os.setgroups([])
            os.setgid(NOBODY)
            os.setuid(NOBODY)
            try:
                result = function()
            except BaseException as ex:  # noqa
                result = '%s: %s' % (type(ex).__name__, ex)
            with os.fdopen(w, 'wb') as f:
                pickle.dump(result, f)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        raise RuntimeError('the validation could not be started as an unprivileged user')
    return pickle.loads(data)


def prepare(top, cases, others, leftovers):
    import cv2
    for d in ('input', 'originals', 'mv/bin', 'mv/answers', 'mv/calls') + tuple('out/' + d for d in DIRS):
        os.makedirs(os.path.join(top, d))
    with open(os.path.join(top, 'mv/bin/mv_batch.sh'), 'w') as f:
        f.write(SCRIPT)
    os.chmod(os.path.join(top, 'mv/bin/mv_batch.sh'), 0o755)
    for name, kind, stamp in cases:
        path = os.path.join(top, 'input', name + '.xml')
        with open(path, 'w') as f:
            f.write(XML % {'originals': os.path.join(top, 'originals'), 'name': name})
        os.utime(path, (stamp, stamp))
        if kind not in ('neither', 'new only'):
            cv2.imwrite(os.path.join(top, 'originals', name + '.png'), image('same'))
        new = os.path.join(top, 'mv/answers', name + '_py.png')
        if kind == 'unreadable':
            with open(new, 'w') as f:
                f.write('not an image')
        elif kind not in ('neither', 'original only'):
            cv2.imwrite(new, image(kind))
    for name, stamp in others:
        path = os.path.join(top, 'input', name)
        with open(path, 'w') as f:
            f.write('something else')
        os.utime(path, (stamp, stamp))
    if leftovers:
        for d in DIRS:
            for n in ('old_py.xml', 'p1_py.data'):
                with open(os.path.join(top, 'out', d, n), 'w') as f:
                    f.write('old')
    for root, dirs, files in os.walk(top):
        for n in ['.'] + files:
            os.chown(os.path.join(root, n), NOBODY, NOBODY)


def listing(top):
    out = {}
    for root, _, files in os.walk(top):
        for n in files:
            path = os.path.join(root, n)
            with open(path, 'rb') as f:
                out[os.path.relpath(path, top)] = f.read()
    return out


def observe(item, rec, top, today):
    cases, others, slash, leftovers, window = item
    end = '/' if slash else ''
    params = {'input_xml_dir': top + '/input' + end, 'mv_home': top + '/mv' + end, 'db_user': 'new_user', 'db_pass': 'new_pass'}
    params.update({'output_%s_dir' % d: top + '/out/' + d + end for d in DIRS})
    params.update(window)
    before = listing(top)

    def work():
        from metcalcpy import validate_mv_python as code
        os.chdir(top)
        text = io.StringIO()
        with contextlib.redirect_stdout(text):
            code.main(params)
        return (text.getvalue(),)

    got = sandboxed(work)
    after = listing(top)
    tested = []
    first = datetime.date.fromisoformat(window['start_date']) if 'start_date' in window else today - datetime.timedelta(1)
    last = datetime.date.fromisoformat(window['end_date']) if 'end_date' in window else today
    for name, kind, stamp in sorted(cases, key=lambda c: c[0] + '.xml'):
        if first <= datetime.datetime.fromtimestamp(stamp).date() <= last:
            tested.append((name, kind))
    return params, got, before, after, tested


def judge(params, got, before, after, tested, top):
    if isinstance(got, str):
        return 'the validation ends with %s' % got
    verdicts = [line for line in got[0].splitlines() if line.startswith(('SUCCESS', 'ERROR'))]
    if len(verdicts) != len(tested):
        return 'verdicts %r for plots %r' % (verdicts, tested)
    for line, (name, kind) in zip(verdicts, tested):
        if line.startswith('SUCCESS') != (kind in ('same', 'neither')) or (' ' + name + '.png ') not in line:
            return 'verdict %r for the plot %r with %r images' % (line, name, kind)
    want = set()
    for name, kind in tested:
        if kind not in ('same', 'neither'):
            want |= {'out/xml/%s_py.xml' % name, 'out/data/%s_py.data' % name, 'out/data/%s_py.info' % name, 'out/scripts/%s_py.R' % name}
            if kind != 'original only':
                want.add('out/plots/%s_py.png' % name)
            if kind in ('different', 'slight'):
                want.add('out/plots/%s_thresh.png' % name)
    have = {p for p in after if p.startswith('out')}
    if have != want:
        return 'left in the output directories: %r, not %r' % (sorted(have), sorted(want))
    kept = {p: v for p, v in before.items() if not p.startswith('out')}
    now = {p: v for p, v in after.items() if not p.startswith(('out', 'mv/calls'))}
    if kept != now:
        return 'changed outside the output directories: %r' % sorted(set(kept.items()) ^ set(now.items()))[:3]
    calls = {p[9:]: v for p, v in after.items() if p.startswith('mv/calls/') and p != 'mv/calls/order'}
    if sorted(calls) != sorted('%s_py.xml' % name for name, _ in tested):
        return 'METviewer was run for %r' % sorted(calls)
    for name, _ in tested:
        doc = xml.dom.minidom.parseString(calls['%s_py.xml' % name])
        value = lambda tag: doc.getElementsByTagName(tag)[0].firstChild.nodeValue  # noqa: E731
        exact = {'plot_file': name + '_py.png', 'data_file': name + '_py.data', 'r_file': name + '_py.R', 'user': 'new_user',
                 'password': 'new_pass', 'template': 'series_plot.R_tmpl'}
        paths = {'r_tmpl': top + '/mv/R_tmpl', 'r_work': top + '/mv/R_work', 'plots': params['output_plots_dir'],
                 'data': params['output_data_dir'], 'scripts': params['output_scripts_dir']}
        for tag, v in exact.items():
            if value(tag) != v:
                return 'METviewer got %s %r, not %r' % (tag, value(tag), v)
        for tag, v in paths.items():
            if os.path.normpath(value(tag)) != os.path.normpath(v):
                return 'METviewer got %s %r, not %r' % (tag, value(tag), v)
    return None


def worker(rec, item):
    cases, others, slash, leftovers, window = item
    while True:
        today = datetime.date.today()
        noon = datetime.datetime.combine(today, datetime.time(12)).timestamp()
        dated = [(n, k, s if s is not None else noon) for n, k, s in cases]
        dated = [(n, k, noon - 86400 * int(s[4:]) if isinstance(s, str) else s) for n, k, s in dated]
        for outer in (os.path.dirname(rec.dir), rec.dir):
            os.chmod(outer, 0o711)
        top = tempfile.mkdtemp(dir=rec.dir)
        try:
            os.chmod(top, 0o755)
            prepare(top, dated, others, leftovers)
            seen = observe((dated, others, slash, leftovers, window), rec, top, today)
            wrong = judge(*seen, top)
        finally:
            shutil.rmtree(top)
        if datetime.date.today() == today or window.keys() >= {'start_date', 'end_date'}:
            break
    rec.state(repr(item), depth=len(cases))
    rec.transition(max(1, len(cases)))
    rec.trace(len(seen[4]))
    rec.outcome((tuple(seen[4]), slash))
    if wrong:
        rec.violation(wrong.replace(top, 'DIR'), {'plots': [c[:2] for c in cases], 'slash': slash, 'leftovers': leftovers, 'window': window,
                                                  'times': [c[2] for c in cases]})


def names_worker(rec, item):
    """The postfix goes before the extension of a name."""
    from metcalcpy import validate_mv_python as code
    for stem in item:
        for ext in ('.png', '.xml', '.R'):
            for postfix in ('py', 'thresh'):
                rec.state((stem, ext, postfix), depth=len(stem))
                rec.transition()
                rec.trace()
                got = code.replace_name(stem + ext, postfix)
                rec.outcome(got)
                if got != stem + '_' + postfix + ext:
                    rec.violation('%s with %s is %s' % (stem + ext, postfix, got), {'name': stem + ext, 'postfix': postfix})


def explore(check):
    check.preload = ['metcalcpy.validate_mv_python', 'xml.dom.minidom']
    big = check.thorough
    at = lambda *a: datetime.datetime(*a).timestamp()  # noqa: E731
    day = at(2021, 3, 2, 12)
    window = {'start_date': '2021-03-01', 'end_date': '2021-03-03'}
    items = []
    for name, kind, slash, old in itertools.product(NAMES, KINDS, (True, False), (True, False)):
        items.append((((name, kind, day),), (), slash, old, window))
    for (a, b), kinds in itertools.product(itertools.permutations(NAMES, 2) if big else itertools.combinations(NAMES, 2), itertools.product(KINDS, repeat=2)):
        items.append((((a, kinds[0], day), (b, kinds[1], day)), (), True, False, window))
    for names, kinds in itertools.product(itertools.combinations(NAMES, 3), itertools.product(KINDS[:4] if big else ('same', 'slight', 'neither'), repeat=3)):
        items.append((tuple((n, k, day) for n, k in zip(names, kinds)), (('notes.txt', day), ('xml', day)), True, True, window))
    # plots of the days about the period
    edges = [at(2021, 2, 28, 23, 59, 59), at(2021, 3, 1, 0, 0, 0), at(2021, 3, 2, 5), at(2021, 3, 3, 23, 59, 59), at(2021, 3, 4, 0, 0, 0)]
    for stamps in itertools.product(edges, repeat=2):
        for kinds in (('same', 'different'), ('different', 'same')):
            items.append((tuple((n, k, s) for n, k, s in zip(('p1', 'p10'), kinds, stamps)), (('p1.xml.bak', day),), True, False, window))
    for one in edges:
        items.append(((('p1', 'different', one),), (), True, False, {'start_date': '2021-03-01', 'end_date': '2021-03-01'}))
    for ago in ('days0', 'days1', 'days2'):
        items.append(((('p1', 'different', ago), ('q', 'same', ago)), (), True, False, {}))
        items.append(((('p1', 'different', ago),), (), True, False, {'start_date': '2021-03-01'}))
    stems = [''.join(s) for n in (1, 2, 3, 4) for s in itertools.product('ab._', repeat=n)
             if not s[0] == '.' and not s[-1] == '.' and '..' not in ''.join(s)]
    check.bounds = {'plots': 'one to three plots of %d names x %d kinds of images' % (len(NAMES), len(KINDS)),
                    'period': 'files of the days and seconds about it, given and default periods', 'names': 'up to 4 characters of a, b, dot, underscore'}
    check.assumptions = ['METviewer is a stand-in that writes prepared images and files named after the request',
                         'images that differ only in colours of equal grey are the business of F02']
    check.run(names_worker, [stems[i:i + 20] for i in range(0, len(stems), 20)])
    check.run(worker, items, chunk=12)
