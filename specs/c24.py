"""C24: drawn pieces show their number; scaling stays in bounds."""
from dv.spec import Registry
R = Registry()
HARNESSES, TASKS = R.harnesses, R.tasks
MODULES = ['bglib.model.constants', 'bglib.image', 'bglib.image.base', 'bglib.image.css', 'bglib.image.draw']
RANDOM = 60
ASSUMPTIONS = ['sizes and places are at most 2^20, magnifications lie between 2^-20 and 2^20',
               'float operations are the exact result rounded: a monotone function with relative error at most 2^-53, '
               'exact on integers (dv/reals.py)']
BIG = 1 << 20


def base(h):
    return h.mod('bglib.image.base')


class Log(object):
    def __init__(self, h):
        self.h, self.calls = h, []
        C = self.calls

        def draw_text(position, size, text, font, fill):
            C.append(('text', pair(h, position), pair(h, size), text, font, fill))

        def draw_ellipse(position, size, fill=None):
            C.append(('ellipse', pair(h, position), pair(h, size), fill))

        def draw_polygon(points, fill=None):
            C.append(('polygon', [pair(h, p) for p in h.list(points)], fill))

        def draw_rect(position, size, fill=None):
            C.append(('rect', pair(h, position), pair(h, size), fill))

        def load_image(uri, size, flip):
            C.append(('load', uri, pair(h, size), flip))
            return ('loaded', uri)

        def paste_image(src, position, size):
            C.append(('paste', src, pair(h, position), pair(h, size)))
        self.ctx = h.obj('Context', dict(draw_text=draw_text, draw_ellipse=draw_ellipse, draw_polygon=draw_polygon,
                                         draw_rect=draw_rect, load_image=load_image, paste_image=paste_image))

    def of(self, kind):
        return [c for c in self.calls if c[0] == kind]


def pair(h, p):
    return (p[0], p[1])


def place(h, e, tag='', inherit=False):
    """arbitrary place, size and magnification"""
    v = dict(x=h.int('x' + tag, -BIG, BIG), y=h.int('y' + tag, -BIG, BIG), width=h.int('width' + tag, 0, BIG),
             height=h.int('height' + tag, 0, BIG))
    for k in sorted(v):
        h.set(e, k, v[k])
    return v


MAG = 'bglib.image.base:BaseElement.apply_mag'


def scale(h, e, contract=True):
    m = h.real('mag', 0.000001, 1000000.0)
    h.set(e, 'mag', m)
    if contract:
        # the contract of apply_mag (discharged by the task apply_mag): a number that depends on the argument and the
        # magnification only
        h.use(h.contract(MAG, lambda h, self, x: h.uf('scaled', x, self.mag)))
    return m


def scaled(h, e, x):
    return h.call(e.apply_mag, x).value


def at(h, e, p, s, v):
    """drawn at its scaled place, in its scaled size"""
    return h.And(h.eq(p[0], scaled(h, e, v['x'])), h.eq(p[1], scaled(h, e, v['y'])),
                 h.eq(s[0], scaled(h, e, v['width'])), h.eq(s[1], scaled(h, e, v['height'])))


@R.harness(_rounding=True, _runs=300, used=[False, True])
def apply_mag(h, used):
    """used: it was scaled otherwise before"""
    e = base(h).Element('point')
    x, y = h.int('a', -BIG, BIG), h.int('b', -BIG, BIG)
    if used:
        h.set(e, 'mag', h.real('mag before', 0.000001, 1000000.0))
        h.check('scales', h.call(e.apply_mag, x).ok)
        h.check('scales', h.call(e.calc_mag, (x, y)).ok)
    m = scale(h, e, False)
    r = h.call(e.apply_mag, x)
    h.check('scales', r.ok)
    f = base(h).Element('chequer')
    h.set(f, 'mag', m)
    h.check('depends on the argument and the magnification only', h.eq(h.call(f.apply_mag, x).value, r.value))
    d = x * m - r.value
    h.check('to the whole unit next to the exact value', h.And(d > -1.001, d < 1.001))
    h.check('not beyond it', h.And(h.Implies(x >= 0, h.And(r.value >= 0, r.value <= x * m + 0.001)),
                                   h.Implies(x <= 0, h.And(r.value <= 0, r.value >= x * m - 0.001))))
    q = h.call(e.calc_mag, (x, y))
    h.check('a pair is scaled in each direction', h.And(q.ok, len(q.value) == 2, h.eq(q.value[0], r.value),
                                                        h.eq(q.value[1], h.call(e.apply_mag, y).value)))


@R.harness(_rounding=True, _runs=300, _guess=[{'width': 100, 'height': 80, 'bound_w': 200, 'bound_h': 200},
                                               {'width': 100, 'height': 80, 'bound_w': 200, 'bound_h': 100}])
def fit(h):
    """fitting into a bound"""
    b = h.new(base(h).Board)
    w, g = h.int('width', 1, BIG), h.int('height', 1, BIG)
    bw, bh = h.int('bound_w', 1, BIG), h.int('bound_h', 1, BIG)
    h.set(b, 'width', w)
    h.set(b, 'height', g)
    r = h.call(b.set_mag, (bw, bh))
    h.check('any size can be fitted into any bound', r.ok)
    if not r.ok:
        return
    dw, dh = h.call(b.apply_mag, w).value, h.call(b.apply_mag, g).value
    h.check('never wider than the bound', dw <= bw)
    h.check('never higher than the bound', dh <= bh)
    h.check('as large as fits', h.Or(dw >= bw - 1, dh >= bh - 1))
    m = b.mag
    h.check('one magnification for both directions', h.And(dw <= w * m + 0.001, dw > w * m - 1.001, dh <= g * m + 0.001,
                                                           dh > g * m - 1.001))


MODES = ['none', 'image', 'font', 'image font']


def dress(h, e, mode, color='red'):
    """theme: image and/or font"""
    if 'image' in mode:
        h.set(e, 'image', 'p.png')
    if 'font' in mode:
        h.set(e, 'font', 'f.ttf')
    if color:
        h.set(e, 'color', color)


def pasted(h, log, e, v, flip):
    ok = len(log.calls) == 2 and log.calls[0][:2] == ('load', 'p.png') and \
        all([c[0] == 'paste' and c[1] == ('loaded', 'p.png') for c in log.calls[1:]])
    if not ok:
        return False
    return h.And(h.Iff(log.calls[0][3], flip), h.eq(log.calls[0][2][0], scaled(h, e, v['width'])),
                 h.eq(log.calls[0][2][1], scaled(h, e, v['height'])),
                 *[at(h, e, c[2], c[3], v) for c in log.calls[1:]])


@R.harness(n=[1, 2, 3, 4, 5, 6], mode=MODES, style=['dot', 'numeric', None])
def die(h, n, mode, style):
    e = base(h).Element('die')
    h.call(e.append, str(n))
    v = place(h, e)
    scale(h, e)
    dress(h, e, mode)
    flip = h.bool('flip')
    h.set(e, 'flip', flip)
    eye = h.int('eye', 0, BIG)
    h.set(e, 'eyesize', eye)
    if style:
        h.set(e, 'diestyle', style)
    log = Log(h)
    r = h.call(e.draw, log.ctx)
    if 'image' in mode:
        h.check('drawn as its picture', r.ok and pasted(h, log, e, v, flip))
    elif style == 'numeric' and 'font' in mode:
        h.check('drawn as its number', r.ok and len(log.calls) == 1 and log.calls[0][0] == 'text' and
                log.calls[0][3] == str(n))
        h.check('in its place', len(log.calls) == 1 and at(h, e, log.calls[0][1], log.calls[0][2], v))
    elif style == 'numeric':
        h.check('not drawn without a font', not r.ok)
    else:
        h.check('as many dots as its number', r.ok and len(log.calls) == n and len(log.of('ellipse')) == n)
        if len(log.of('ellipse')) != n:
            return
        d = scaled(h, e, eye)
        px, py = scaled(h, e, v['x']), scaled(h, e, v['y'])
        sx, sy = scaled(h, e, v['width']), scaled(h, e, v['height'])
        dots = [c[1] for c in log.calls]
        for c in log.calls:
            h.check('each a dot of the eye size in the die\'s colour', h.And(h.eq(c[2][0], d), h.eq(c[2][1], d), h.eq(c[3], 'red')))
        for p in dots:
            h.check('symmetric around the centre (up to rounding)', h.Or([
                h.And(p[0] + q[0] + d - 2 * px - sx <= 2, p[0] + q[0] + d - 2 * px - sx >= -2,
                      p[1] + q[1] + d - 2 * py - sy <= 2, p[1] + q[1] + d - 2 * py - sy >= -2) for q in dots]))
        if n % 2:
            h.check('an odd number has one in the centre', h.Or([
                h.And(2 * p[0] + d - 2 * px - sx <= 2, 2 * p[0] + d - 2 * px - sx >= -2,
                      2 * p[1] + d - 2 * py - sy <= 2, 2 * p[1] + d - 2 * py - sy >= -2) for p in dots]))
        for i in range(n):
            for j in range(i):
                h.check('at different places', h.Implies(
                    h.And(sx >= 4, sy >= 4), h.Not(h.And(h.eq(dots[i][0], dots[j][0]), h.eq(dots[i][1], dots[j][1])))))


@R.harness(mode=MODES, hide=[True, False, None], fill=[True, False], _merge_ifs='ctrl', _merge_depth=99)
def stack(h, mode, hide, fill):
    B = base(h)
    parent = B.Element('point')
    e = B.Element('chequer')
    h.call(parent.append, e)
    n = h.pick(h.int('count', 0, 15))
    h.call(e.append, str(n))
    v = place(h, e)
    place(h, parent, '_point')
    scale(h, parent)
    dress(h, e, mode)
    h.set(e, 'fill', fill)
    mx = h.int('max', 0)
    h.set(e, 'max_count', mx)
    for k in ('x_offset', 'y_offset', 'x_offset2', 'y_offset2'):
        h.set(e, k, h.int(k, -BIG, BIG))
    if hide is not None:
        h.set(e, 'hide_count', hide)
    log = Log(h)
    r = h.call(e.draw, log.ctx)
    h.check('drawn', r.ok)
    shown = log.of('paste') if 'image' in mode else log.of('ellipse')
    h.check('as many checkers as there are, up to the maximum', h.eq(len(shown), h.Ite(mx < n, mx, n)))
    t = log.of('text')
    if 'font' in mode and not hide:
        h.check('a number exactly when there are more', h.Iff(len(t) == 1, n > mx) and len(t) <= 1)
    else:
        h.check('no number', len(t) == 0)
    if len(t) == 1:
        h.check('the number is how many there are', t[0][3] == str(n))
    h.check('nothing else is drawn', len(log.of('ellipse')) + len(log.of('paste')) == len(shown) and
            len(log.calls) == len(shown) + len(log.of('load')) + len(t))
    if shown:
        c = shown[0]
        h.check('in its place', at(h, e, *(c[2:4] if c[0] == 'paste' else c[1:3]), **{'v': v}))
    for c in shown:
        s = c[3] if c[0] == 'paste' else c[2]
        h.check('every checker has the scaled size', h.And(h.eq(s[0], scaled(h, e, v['width'])), h.eq(s[1], scaled(h, e, v['height']))))


@R.harness(mode=MODES, initial=[True, False])
def cube(h, mode, initial):
    e = base(h).Element('cube')
    k = h.int('value', 0, 24)
    h.call(e.append, h.digits(k))
    v = place(h, e)
    scale(h, e)
    dress(h, e, mode)
    flip = h.bool('flip')
    h.set(e, 'flip', flip)
    if initial:
        h.set(e, 'initialCube', '64')
    log = Log(h)
    r = h.call(e.draw, log.ctx)
    if 'image' in mode:
        h.check('drawn as its picture', r.ok and pasted(h, log, e, v, flip))
    elif 'font' in mode:
        h.check('drawn as a number', r.ok and len(log.calls) == 1 and log.calls[0][0] == 'text')
        if len(log.calls) == 1:
            c = log.calls[0]
            h.check('in its place', at(h, e, c[1], c[2], v))
            if initial:
                h.check('two to the power of its value, or the mark of an unturned cube',
                        h.Or(h.And(k == 0, h.eq(c[3], '64')), h.And(k > 0, h.eq(c[3], h.digits(h.pow2(k))))))
            else:
                h.check('two to the power of its value', h.eq(c[3], h.digits(h.pow2(k))))
    else:
        h.check('not drawn without picture and font', not r.ok and not log.calls)


WORDS = ['none', 'single', 'gammon', 'backgammon']


@R.harness(n=[1, 2, 3], mode=MODES)
def resign(h, n, mode):
    e = base(h).Element('resign')
    h.call(e.append, str(n))
    v = place(h, e)
    scale(h, e)
    dress(h, e, mode)
    dx, dy = h.int('dx', -BIG, BIG), h.int('dy', -BIG, BIG)
    h.set(e, 'x_offset', dx)
    h.set(e, 'y_offset', dy)
    log = Log(h)
    r = h.call(e.draw, log.ctx)
    if 'image' in mode:
        p = log.of('paste')
        h.check('as many pictures as its level', r.ok and len(p) == n and len(log.calls) == len(log.of('load')) + n)
        for i, c in enumerate(p):
            h.check('one offset further each', h.And(
                h.eq(c[2][0], scaled(h, e, v['x']) + (i + 1) * scaled(h, e, dx)),
                h.eq(c[2][1], scaled(h, e, v['y']) + (i + 1) * scaled(h, e, dy)),
                h.eq(c[3][0], scaled(h, e, v['width'])), h.eq(c[3][1], scaled(h, e, v['height']))))
    elif 'font' in mode:
        h.check('its level by name', r.ok and len(log.calls) == 1 and log.calls[0][0] == 'text' and
                log.calls[0][3] == WORDS[n])
        h.check('in its place', len(log.calls) == 1 and at(h, e, log.calls[0][1], log.calls[0][2], v))
    else:
        h.check('not drawn without picture and font', not r.ok and not log.calls)


TEXTED = ['action', 'length', 'score', 'crawford', 'field']


@R.harness(name=TEXTED, mode=MODES, text=['True', 'False', '3'])
def texted(h, name, mode, text):
    e = base(h).Element(name)
    if name == 'field':
        h.set(e, 'text', text)
    else:
        h.call(e.append, text)
    v = place(h, e)
    scale(h, e)
    dress(h, e, mode)
    flip = h.bool('flip')
    h.set(e, 'flip', flip)
    log = Log(h)
    r = h.call(e.draw, log.ctx)
    h.check('drawn', r.ok)
    if 'image' in mode:
        h.check('as its picture, in its place', pasted(h, log, e, v, flip))
    elif 'font' in mode and not (name == 'crawford' and text != 'True'):
        h.check('as its text', len(log.calls) == 1 and log.calls[0][0] == 'text' and
                log.calls[0][3] == ('*' if name == 'crawford' else text))
        h.check('in its place', len(log.calls) == 1 and at(h, e, log.calls[0][1], log.calls[0][2], v))
    else:
        h.check('nothing to draw', not log.calls)


PLAIN = ['board', 'match', 'position', 'top_frame', 'bottom_frame', 'cubeholder', 'home', 'bar']


@R.harness(name=PLAIN, image=[False, True], background=[False, True])
def plain(h, name, image, background):
    B = base(h)
    e = B.Element(name)
    v = place(h, e)
    scale(h, e)
    flip = h.bool('flip')
    h.set(e, 'flip', flip)
    if image:
        h.set(e, 'image', 'p.png')
    log = Log(h)
    r = h.call(e.draw, log.ctx)
    h.check('drawn', r.ok)
    if image:
        h.check('as its picture, in its place', pasted(h, log, e, v, flip))
    else:
        h.check('nothing to draw', not log.calls)
    if background:
        h.set(e, 'background', 'blue')
        log = Log(h)
        r = h.call(e.bg_draw, log.ctx)
        h.check('its background in its place', r.ok and len(log.calls) == 1 and log.calls[0][0] == 'rect' and
                log.calls[0][3] == 'blue' and at(h, e, log.calls[0][1], log.calls[0][2], v))


@R.harness(image=[False, True], flip=[False, True], fill=[False, True], color=['red', None])
def point(h, image, flip, fill, color):
    e = base(h).Element('point')
    v = place(h, e)
    scale(h, e)
    dress(h, e, 'image' if image else 'none', color)
    h.set(e, 'flip', flip)
    h.set(e, 'fill', fill)
    log = Log(h)
    r = h.call(e.draw, log.ctx)
    h.check('drawn', r.ok)
    if image:
        h.check('as its picture, in its place', pasted(h, log, e, v, flip))
        return
    ok = len(log.calls) == 1 and log.calls[0][0] == 'polygon' and len(log.calls[0][1]) == 3
    h.check('as a triangle', ok)
    if ok:
        x, y = scaled(h, e, v['x']), scaled(h, e, v['y'])
        w, g = scaled(h, e, v['width']), scaled(h, e, v['height'])
        ps = log.calls[0][1]
        tip, base_y = (y + g, y) if flip else (y, y + g)
        h.check('with both ends of its base and its tip on its box', h.And(
            h.Or([h.And(h.eq(p[0], x), h.eq(p[1], base_y)) for p in ps]),
            h.Or([h.And(h.eq(p[0], x + w), h.eq(p[1], base_y)) for p in ps]),
            h.Or([h.And(2 * p[0] >= 2 * x + w - 1, 2 * p[0] <= 2 * x + w, h.eq(p[1], tip)) for p in ps])))
        h.check('filled or not', h.eq(log.calls[0][2], color or 'white') if fill else log.calls[0][2] is None)
