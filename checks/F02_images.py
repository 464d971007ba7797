"""F02: image comparison of small images that differ in every pixel or pair of pixels, and call histories."""
import itertools
import os

import numpy as np

from checks.U03_serial import observe

SIZES = ((7, 7), (7, 9), (9, 8))
OPS = ('similarity', 'difference', 'threshold', 'boxes 1', 'boxes 2', 'show difference', 'show threshold',
       'show boxes 1', 'show boxes 2')


def base(kind, shape):
    rows, cols = shape
    r, c = np.indices(shape)
    if kind == 'flat':
        grey = np.full(shape, 100)
    elif kind == 'ramp':
        grey = 20 * r + 5 * c
    elif kind == 'board':
        grey = np.where((r + c) % 2, 0, 255)
    else:
        grey = np.where(c < cols // 2, 10, 240)
    return np.repeat(grey[:, :, None], 3, axis=2).astype(np.uint8)


def colour():
    a = np.full((7, 7, 3), 100, np.uint8)
    a[2:5, 1:6] = (10, 60, 200)
    return a


def changed(image, edits):
    """A change of the grey value by the given step, upwards or downwards as there is room."""
    out = image.astype(int)
    for (r, c), step in edits:
        v = out[r, c, 0]
        out[r, c, :] = v + step if v + step <= 255 else v - step
    return out.astype(np.uint8)


def grey(image):
    # luminance in fixed point, as used by the image library
    b, g, r = (image[..., i].astype(int) for i in range(3))
    return (b * 1868 + g * 9617 + r * 4899 + 8192) >> 14


class Screen:
    """Stands in for the window system: records what would be shown."""

    def __init__(self, cv2):
        self.shown = []
        cv2.imshow = lambda title, image: self.shown.append(np.array(image))
        cv2.waitKey = lambda *a: -1


def write(rec, name, image):
    import cv2
    path = os.path.join(rec.dir, name)
    cv2.imwrite(path, image)
    return path


def near(edited, shape):
    """Pixels whose 7x7 neighbourhood, mirrored at the border, holds an edited pixel."""
    out = np.zeros(shape, bool)
    for r, c in edited:
        out[max(0, r - 3):r + 4, max(0, c - 3):c + 4] = True
    return out


def similarity(first, second):
    """Structural similarity at every pixel, by its definition over mirrored 7x7 neighbourhoods."""
    x, y = (np.pad(grey(i).astype(float), 3, mode='symmetric') for i in (first, second))
    view = np.lib.stride_tricks.sliding_window_view
    x, y = (view(a, (7, 7)).reshape(first.shape[0], first.shape[1], 49) for a in (x, y))
    mx, my = x.mean(axis=2), y.mean(axis=2)
    dx, dy = x - mx[..., None], y - my[..., None]
    vx, vy, vxy = ((a * b).sum(axis=2) / 48 for a, b in ((dx, dx), (dy, dy), (dx, dy)))
    c1, c2 = (0.01 * 255) ** 2, (0.03 * 255) ** 2
    return (2 * mx * my + c1) * (2 * vxy + c2) / ((mx ** 2 + my ** 2 + c1) * (vx + vy + c2))


def saved(rec, cmp, op):
    import cv2
    path = os.path.join(rec.dir, 'out.png')
    if os.path.exists(path):
        os.remove(path)
    call = {'difference': cmp.save_difference_image, 'threshold': cmp.save_thresh_image,
            'boxes 1': cmp.save_difference_in_image_1, 'boxes 2': cmp.save_difference_in_image_2}[op]
    err = observe(call, path)
    if isinstance(err, str):
        return err
    return cv2.imread(path)


def judge(rec, first, second, edited, where, files):
    """One comparison: the answer, the difference image, the threshold image and the boxes."""
    from metcalcpy.compare_images import CompareImages
    p1, p2 = write(rec, '1.png', first), write(rec, '2.png', second)
    cmp = observe(CompareImages, p1, p2)
    back = observe(CompareImages, p2, p1)
    rec.trace(2)
    if isinstance(cmp, str) or isinstance(back, str):
        rec.violation('comparison fails: %r' % (cmp if isinstance(cmp, str) else back), where)
        return
    m, n = cmp.get_mssim(), back.get_mssim()
    rec.outcome(round(float(m), 12))
    same = not np.any(first != second)
    if (m == 1.0) != same:
        alike = not np.any(grey(first) != grey(second))
        rec.violation('images %s but the similarity is %r: %r' % ('are identical' if same else 'differ', m, where),
                      where, key='equal-grey' if alike else None, known_behaviour=alike and m == 1.0)
        return
    if not (-1 <= m <= 1) or abs(m - n) > 1e-12:
        rec.violation('similarity %r, other way round %r: %r' % (m, n, where), where)
    if not files:
        return
    mask = near(edited, first.shape[:2])
    diff = saved(rec, cmp, 'difference')
    rec.trace()
    if isinstance(diff, str) or diff is None or diff.shape[:2] != first.shape[:2]:
        rec.violation('difference image: %r' % (diff,), where)
        return
    d = diff[..., 0]
    want = np.clip(similarity(first, second), 0, 1) * 255
    if np.any(np.abs(d - want) > 1.001):
        i = tuple(int(x) for x in np.argwhere(np.abs(d - want) > 1.001)[0])
        rec.violation('difference image has %d at %r where the similarity is %.3f: %r'
                      % (d[i], i, want[i] / 255, where), where)
    if any(d[r, c] == 255 for r, c in edited):
        rec.violation('difference image shows no difference at a pixel that differs: %r' % (where,), where)
    thresh = saved(rec, cmp, 'threshold')
    rec.trace()
    if isinstance(thresh, str) or thresh is None:
        rec.violation('threshold image: %r' % (thresh,), where)
        return
    t = thresh[..., 0]
    if np.any((t != 0) & (t != 255)):
        rec.violation('threshold image is not binary: %r' % (where,), where)
    if not np.all(mask):
        if d.min() < 250 and np.any(t[~mask]):
            rec.violation('threshold image marks pixels where the images agree: %r' % (where,), where)
        # differences of less than 2 per cent may vanish in the rounding to whole grey values
        if bool(np.any(t)) == same and (same or d.min() < 250):
            rec.violation('threshold image %s: %r' % ('is empty' if not same else 'is not empty', where), where)
    boxed = []
    for op, image in (('boxes 1', first), ('boxes 2', second)):
        box = saved(rec, cmp, op)
        rec.trace()
        if isinstance(box, str) or box is None:
            rec.violation('%s: %r' % (op, box), where)
            return
        touched = np.any(box != image, axis=2)
        if np.any(box[touched] != (0, 0, 255)):
            rec.violation('%s is not the image with red boxes: %r' % (op, where), where)
        if same and touched.any():
            rec.violation('%s has boxes for identical images: %r' % (op, where), where)
        if not same and np.any(t) and not touched.any():
            rec.violation('%s has no box: %r' % (op, where), where)
        boxed.append(np.all(box == (0, 0, 255), axis=2))
    if np.any(boxed[0] != boxed[1]):
        rec.violation('the boxes in the two images differ: %r' % (where,), where)


def single(rec, item):
    kind, shape, step = item
    image = base(kind, shape)
    where = {'image': kind, 'shape': shape}
    rec.state(('same', kind, shape))
    judge(rec, image, image.copy(), [], where, True)
    for p in itertools.product(range(shape[0]), range(shape[1])):
        rec.state((kind, shape, step, p), depth=1)
        rec.transition()
        judge(rec, image, changed(image, [(p, step)]), [p], dict(where, pixels=[p], step=step), True)


def pair(rec, item):
    kind, shape, step, p = item
    image = base(kind, shape)
    cells = list(itertools.product(range(shape[0]), range(shape[1])))
    for q in cells[cells.index(p) + 1:]:
        rec.state((kind, shape, step, p, q), depth=2)
        rec.transition()
        judge(rec, image, changed(image, [(p, step), (q, step)]), [p, q],
              {'image': kind, 'shape': shape, 'pixels': [p, q], 'step': step}, True)


def block(rec, item):
    """Every rectangle is inverted."""
    kind, shape, rows = item
    image = base(kind, shape)
    for c1, c2 in itertools.combinations(range(shape[1] + 1), 2):
        other = image.copy()
        other[rows[0]:rows[1], c1:c2] = 255 - other[rows[0]:rows[1], c1:c2]
        edited = [(int(r), int(c)) for r, c in np.argwhere(np.any(other != image, axis=2))]
        rec.state((kind, shape, rows, c1, c2), depth=2)
        rec.transition()
        judge(rec, image, other, edited, {'image': kind, 'shape': shape, 'inverted': [rows, (c1, c2)]}, True)


def channels(rec, item):
    """Every change of one pixel's colour by small steps in the three channels."""
    pixel, = item
    image = colour()
    for steps in itertools.product((-3, -1, 0, 1, 3), repeat=3):
        other = image.astype(int)
        other[pixel] += steps
        rec.state((pixel, steps), depth=1)
        rec.transition()
        judge(rec, image, other.astype(np.uint8), [], {'pixel': pixel, 'steps': steps}, False)


def history(rec, item):
    """Whatever was asked before, each request gives what a fresh comparison gives."""
    import cv2
    from metcalcpy.compare_images import CompareImages
    which, start = item
    screen = Screen(cv2)
    image = base('ramp', (9, 8))
    other = {'same': image, 'one': changed(image, [((1, 1), 90)]),
             'two': changed(image, [((0, 0), 60), ((8, 7), 60)])}[which]
    p1, p2 = write(rec, '1.png', image), write(rec, '2.png', other)

    def step(cmp, op):
        if op == 'similarity':
            return observe(cmp.get_mssim)
        if op.startswith('show'):
            call = {'show difference': cmp.show_difference_image, 'show threshold': cmp.show_thresh_image,
                    'show boxes 1': cmp.show_difference_in_image_1, 'show boxes 2': cmp.show_difference_in_image_2}[op]
            del screen.shown[:]
            err = observe(call)
            if isinstance(err, str):
                return err
            got = screen.shown[0] if len(screen.shown) == 1 else None
            if got is not None and got.ndim == 2:
                got = np.repeat(got[:, :, None], 3, axis=2)
            return got
        return saved(rec, cmp, op)

    fresh = {}
    for op in OPS:
        fresh[op] = step(CompareImages(p1, p2), op)
    for op in OPS:
        if op.startswith('show') and not np.array_equal(fresh[op], fresh[op[5:]]):
            rec.violation('%s differs from what is saved (%s)' % (op, which), {'images': which, 'operations': [op]})
    for rest in itertools.chain([()], itertools.product(OPS, repeat=1), itertools.product(OPS, repeat=2),
                                itertools.product(OPS, repeat=3)):
        ops = (start,) + rest
        cmp = CompareImages(p1, p2)
        for i, op in enumerate(ops):
            got = step(cmp, op)
            rec.transition()
            rec.trace()
            if isinstance(got, str) or not np.array_equal(got, fresh[op]):
                rec.violation('images %s, after %r: %s' % (which, list(ops[:i + 1]), got if isinstance(got, str)
                              else 'not what a fresh comparison gives'), {'images': which, 'operations': ops[:i + 1]})
                return
        rec.state((which, ops), depth=len(ops))
        rec.outcome((which, op))


def unreadable(rec, item):
    from metcalcpy.compare_images import CompareImages
    good = write(rec, 'good.png', base('flat', (7, 7)))
    bad = os.path.join(rec.dir, item)
    if item == 'text.png':
        with open(bad, 'w') as f:
            f.write('text')
    if item == 'empty.png':
        open(bad, 'w').close()
    for a, b in ((good, bad), (bad, good), (bad, bad)):
        rec.state((item, a == bad, b == bad))
        rec.transition()
        rec.trace()
        got = observe(CompareImages, a, b)
        rec.outcome(str(got)[:8])
        if not isinstance(got, str) or not got.startswith('KeyError'):
            rec.violation('unreadable image %s is accepted: %r' % (item, got), {'file': item})


def explore(check):
    check.preload = ['metcalcpy.compare_images', 'cv2']
    kinds = ('flat', 'ramp', 'board', 'halves')
    check.bounds = {'sizes': SIZES, 'base images': kinds, 'edits': 'every pixel, every pair of pixels, '
                    'every inverted rectangle, every small colour change of a pixel',
                    'histories': 'all sequences of up to 4 of %d requests' % len(OPS)}
    check.assumptions = ['windows are not opened; what would be shown is recorded', 'images are at least 7 by 7']
    check.run(single, [(k, s, step) for k in kinds for s in SIZES for step in (1, 10, 120)], chunk=1)
    shapes = SIZES if check.thorough else SIZES[:1]
    check.run(pair, [(k, s, step, p) for k in kinds for s in shapes for step in (1, 90)
                     for p in itertools.product(range(s[0]), range(s[1]))], chunk=4)
    check.run(block, [(k, s, r) for k in kinds for s in SIZES
                      for r in itertools.combinations(range(s[0] + 1), 2)], chunk=4)
    check.run(channels, [(p,) for p in ((0, 0), (3, 3), (6, 6), (2, 1))], chunk=1)
    check.run(history, [(w, op) for w in ('same', 'one', 'two') for op in OPS], chunk=1)
    check.run(unreadable, ['absent.png', 'text.png', 'empty.png'], chunk=1)
