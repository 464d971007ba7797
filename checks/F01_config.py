"""F01: environment references in configuration documents, all templates of up to three pieces."""
import itertools
import os
import re

from mc.spaces import batches
from checks.U03_serial import observe

PIECES = ('x', '/', '${VP_A}', '${VP_B}', '${VP_UNSET}', '$VP_A', '${}', '{VP_A}', '${VP-A}', '12')
A_VALUES = ('', 'v', '12', '${VP_B}', 'a b: c # d')
B_VALUES = ('w', '${VP_A}')
STYLES = ('plain', 'tagged plain', 'tagged single', 'tagged double', 'single', 'double')
PLACES = ('mapping', 'list', 'nested')


def templates(top):
    for n in range(1, top + 1):
        for c in itertools.product(PIECES, repeat=n):
            yield ''.join(c)


def writable(text, style):
    """Plain scalars cannot start with a brace."""
    return not (style.endswith('plain') and text[0] == '{')


def render(text, style, tag):
    q = {'single': "'", 'double': '"'}.get(style.split()[-1], '')
    return (tag + ' ' if style.startswith('tagged') else '') + q + text + q


def substituted(text, env):
    """Left to right, one pass; a variable that is not set leaves its name."""
    out, i = '', 0
    while i < len(text):
        end = text.find('}', i)
        name = text[i + 2:end] if text[i:i + 2] == '${' and end > 0 else ''
        if name and all(c.isalnum() or c == '_' for c in name):
            out += env.get(name, name)
            i = end + 1
        else:
            out += text[i]
            i += 1
    return out


def refers(text):
    return substituted(text, {'VP_A': '<', 'VP_B': '<', 'VP_UNSET': '<'}) != text


def expected(text, style, env):
    if style.startswith('tagged'):
        return substituted(text, env)
    if style == 'plain':
        if refers(text):
            return substituted(text, env)
        return int(text) if text.isdigit() else text
    return text


def document(texts, style, tag, place):
    shown = [render(t, style, tag) for t in texts]
    if place == 'mapping':
        return ''.join('k%d: %s\n' % (i, s) for i, s in enumerate(shown)) + 'number: 3\nflag: true\nnone: null\n'
    if place == 'list':
        return ''.join('- %s\n' % s for s in shown)
    return ''.join('k%d:\n  - p: 1.5\n    q: %s\n' % (i, s) for i, s in enumerate(shown))


def wanted(texts, style, env, place):
    vals = [expected(t, style, env) for t in texts]
    if place == 'mapping':
        return dict({'k%d' % i: v for i, v in enumerate(vals)}, number=3, flag=True, none=None)
    if place == 'list':
        return vals
    return {'k%d' % i: [{'p': 1.5, 'q': v}] for i, v in enumerate(vals)}


def set_env(env):
    for name in ('VP_A', 'VP_B', 'VP_UNSET'):
        os.environ.pop(name, None)
    os.environ.update(env)


def typed(x):
    """Values with their types, so that 3 and '3' and True and 1 differ."""
    if isinstance(x, dict):
        return {k: typed(v) for k, v in x.items()}
    if isinstance(x, list):
        return [typed(v) for v in x]
    return (type(x).__name__, x)


def worker(rec, item):
    texts, style, place, tag, by_path = item
    from metcalcpy.util.read_env_vars_in_config import parse_config
    texts = [t for t in texts if writable(t, style)]
    text = document(texts, style, tag, place)
    path = os.path.join(rec.dir, 'c.yaml')
    for a, b in itertools.product(A_VALUES, B_VALUES):
        env = {'VP_A': a, 'VP_B': b}
        set_env(env)
        kw = {} if tag == '!ENV' else {'tag': tag}
        if by_path:
            with open(path, 'w') as f:
                f.write(text)
            got = observe(parse_config, path=path, **kw)
        else:
            got = observe(parse_config, data=text, **kw)
        want = wanted(texts, style, env, place)
        for t in texts:
            rec.state((t, style, place, tag, by_path, a, b), depth=len(t))
        rec.transition(len(texts))
        rec.trace(len(texts))
        rec.outcome(repr(want))
        if isinstance(got, str) or typed(got) != typed(want):
            # find the first value that differs for the message
            what = got
            if not isinstance(got, str):
                what = 'read as %r' % (got,)
                flat = zip(got.items(), want.items()) if isinstance(got, dict) and isinstance(want, dict) else zip(
                    enumerate(got), enumerate(want)) if isinstance(got, list) else ()
                for (k, g), (k2, w) in flat:
                    if typed(g) != typed(w):
                        i = int(re.sub(r'\D', '', str(k)) or -1)
                        what = '%s: %r, expected %r' % (render(texts[i], style, tag) if i >= 0 else k, g, w)
                        break
            rec.violation('environment %r: %s' % (env, what),
                          {'document': text, 'environment': env, 'tag': tag, 'path': by_path})
    set_env({})


NAME_LETTERS = 'Aa_1'


def names(rec, item):
    """References by every short name, set and not set, in every style."""
    part, style = item
    from metcalcpy.util.read_env_vars_in_config import parse_config
    for name in part:
        for value in ('v', None):
            for before, after in (('', ''), ('x/', ''), ('', '/y')):
                text = before + '${' + name + '}' + after
                os.environ.pop(name, None)
                if value is not None:
                    os.environ[name] = value
                got = observe(parse_config, data='k: %s\n' % render(text, style, '!ENV'))
                os.environ.pop(name, None)
                want = {'k': text if style in ('single', 'double') else before + (value or name) + after}
                rec.state((name, style, value, before, after), depth=len(name))
                rec.transition()
                rec.trace()
                rec.outcome(repr(want))
                if got != want:
                    rec.violation('environment %s=%r, %s: %r, expected %r' % (
                        name, value, render(text, style, '!ENV'), got, want), {'name': name, 'text': text, 'style': style})


OPS = ('read', 'read other tag', 'plain yaml', 'set', 'unset', 'tagged yaml')


def history(rec, ops):
    """What is read depends on the document and on the current environment, not on what was read before."""
    import yaml
    from metcalcpy.util.read_env_vars_in_config import parse_config
    env = {'VP_A': 'first'}
    set_env(env)
    doc = 'p: ${VP_A}/x\nq: %s ${VP_A}\nr: "${VP_A}"\n'
    for i, op in enumerate(ops):
        rec.state(ops[:i + 1], depth=i + 1)
        rec.transition()
        want = None
        sub = env.get('VP_A', 'VP_A')
        if op == 'set':
            env['VP_A'] = 'value%d' % i
            set_env(env)
            continue
        if op == 'unset':
            env.pop('VP_A', None)
            set_env(env)
            continue
        if op == 'read':
            got = observe(parse_config, data=doc % '!ENV')
            want = {'p': sub + '/x', 'q': sub, 'r': '${VP_A}'}
        elif op == 'read other tag':
            got = observe(parse_config, data=doc % '!VAR', tag='!VAR')
            want = {'p': sub + '/x', 'q': sub, 'r': '${VP_A}'}
        elif op == 'plain yaml':
            got = observe(yaml.safe_load, doc % '')
            want = {'p': '${VP_A}/x', 'q': '${VP_A}', 'r': '${VP_A}'}
        else:
            got = observe(yaml.safe_load, doc % '!ENV')
            if isinstance(got, str) and got.startswith('ConstructorError'):
                got = want = 'refused'
        rec.trace()
        rec.outcome(repr(got))
        if got != want:
            rec.violation('after %r: %r, expected %r' % (list(ops[:i + 1]), got, want), {'operations': ops[:i + 1]})
            break
    set_env({})


def explore(check):
    check.preload = ['metcalcpy.util.read_env_vars_in_config']
    top = 4 if check.thorough else 3
    check.bounds = {'pieces': PIECES, 'length': '1..%d' % top, 'environments': [A_VALUES, B_VALUES],
                    'styles': STYLES, 'places': PLACES, 'operations': 'all sequences of up to 4 of %r' % (OPS,),
                    'names': 'up to 4 of the letters %s' % NAME_LETTERS}
    check.assumptions = ['references in keys are not judged']
    long_ones = batches(list(templates(top)), 60)
    short_ones = batches(list(templates(2)), 60)
    items = [(b, s, 'mapping', '!ENV', False) for b in long_ones for s in STYLES]
    items += [(b, s, p, tag, path) for b in short_ones for s in STYLES for p in PLACES
              for tag in ('!ENV', '!VAR') for path in (False, True)]
    check.run(worker, items, chunk=4)
    check.run(history, [o for n in range(1, 5) for o in itertools.product(OPS, repeat=n)], chunk=50)
    words = [''.join(w) for n in range(1, 5) for w in itertools.product(NAME_LETTERS, repeat=n)]
    words = [w for w in words if w not in os.environ and w != '_'] + ['HOME_DIR2', 'Path2Data', 'x' * 40]
    check.run(names, [(b, s) for b in batches(words, 30) for s in STYLES], chunk=4)
