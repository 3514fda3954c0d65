"""C14: compact database positions and records."""
from dv.spec import Registry
from specs.common import *
R = Registry()
HARNESSES, TASKS = R.harnesses, R.tasks
MODULES = MODEL + ['bglib.encoding.dbbyte']
RANDOM = 150


def db(h):
    return h.mod('bglib.encoding.dbbyte')


def representable(h):
    """no point is held by both sides; every count fits a signed byte"""
    a, b = h.dist('a'), h.dist('b')
    for i in range(25):
        h.assume(h.And(a[i] <= 127, b[i] <= 128))
    for i in range(24):
        h.assume(h.Or(a[i] == 0, b[23 - i] == 0))
    return a, b


def count(h, a, b, k):
    """signed count at place k of the 26: opponent's bar, the points of the player on turn, his bar"""
    return (a[k - 1] if k > 0 else 0) - (b[24 - k] if k < 25 else 0)


def same(h, p, a, b):
    return h.And([p[0][i] == a[i] for i in range(25)] + [p[1][i] == b[i] for i in range(25)])


def shape(p):
    return isinstance(p, tuple) and len(p) == 2 and isinstance(p[0], tuple) and isinstance(p[1], tuple) \
        and len(p[0]) == 25 and len(p[1]) == 25


def byte(h, c):
    """the signed value of a byte"""
    o = h.ord(c)
    return h.Ite(o > 127, o - 256, o)


@R.harness()
def one_byte(h):
    n = h.int('n', -128, 127)
    r = h.callm(db(h).signedchr, n)
    h.check('written', r.ok)
    h.check('two-complement byte', h.ord(r.value) == h.Ite(n < 0, n + 256, n))
    b = h.callm(db(h).signedord, r.value)
    h.check('read back', h.And(b.ok, b.value == n))


@R.harness(part=[0, 1, 2, 3, 4])
def encode(h, part):
    a, b = representable(h)
    r = h.callm(db(h).encode_position, (a, b))
    h.check('encodes', r.ok)
    cs = h.list(r.value)
    h.check('26 bytes', len(cs) == 26)
    for k in range(part * 6, min(26, part * 6 + 6)):
        h.check('byte is the signed count', byte(h, cs[k]) == count(h, a, b, k))


@R.harness()
def decode_encoded(h):
    a, b = representable(h)
    r = h.callm(db(h).encode_position, (a, b))
    d = h.callm(db(h).decode_position, r.value)
    h.check('decodes', h.And(d.ok, shape(d.value)))
    h.check('restores both distributions', same(h, d.value, a, b))


@R.harness()
def encode_decoded(h):
    cs = [h.char('c%d' % i, 0, 255) for i in range(26)]
    # the opponent's bar holds only the opponent's checkers, the player's own bar only his
    h.assume(h.And(byte(h, cs[0]) <= 0, byte(h, cs[25]) >= 0))
    d = h.callm(db(h).decode_position, h.join('', cs))
    h.check('decodes', h.And(d.ok, shape(d.value)))
    a, b = d.value
    for k in range(26):
        v = byte(h, cs[k])
        if k > 0:
            h.check('player on turn holds positive counts', a[k - 1] == h.Ite(v > 0, v, 0))
        if k < 25:
            h.check('opponent holds negative counts', b[24 - k] == h.Ite(v < 0, -v, 0))
    r = h.callm(db(h).encode_position, d.value)
    h.check('encodes', r.ok)
    es = h.list(r.value)
    h.check('the same bytes', len(es) == 26 and h.And([h.ord(es[i]) == h.ord(cs[i]) for i in range(26)]))


def record_values(h, side):
    v = board_values(h, side=side)
    a, b = representable(h)
    v['position'] = (a, b) if side == 0 else (b, a)
    return v, a, b


@R.harness(side=[0, 1], part=[0, 1, 2])
def record(h, side, part):
    v, a, b = record_values(h, side)
    bd = board(h, v)
    r = h.callm(db(h).DatabaseBytesExpression, bd)
    h.check('stored', r.ok)
    rec = r.value
    e = h.callm(db(h).encode_position, (a, b))
    if part == 0:
        h.check('stores the position seen from the player on turn',
                h.And([h.ord(x) == h.ord(y) for x, y in zip(h.list(rec.position), h.list(e.value))]))
        h.check('stores the other attributes',
                h.And([eqv(h, getattr(rec, k), v[k]) for k in KEYS if k != 'position']))
    elif part == 1:
        t = h.callm(rec.tomodel)
        h.check('turned back', t.ok)
        h.check('into a board', h.isinst(t.value, h.mod('bglib.model.board').Board))
        h.check('the same board', attrs_eq(h, t.value, v))
    else:
        q = h.callm(lambda: rec.tomodel() == bd)
        h.check('equal to the original', h.And(q.ok, h.truth(q.value)))
    h.check('original unchanged', attrs_eq(h, bd, v))


@R.harness()
def record_default(h):
    r = h.call(db(h).DatabaseBytesExpression)
    h.check('stored', r.ok)
    t = h.call(r.value.tomodel)
    q = h.do(lambda: t.value == h.new(h.mod('bglib.model.board').Board))
    h.check('the default board', h.And(t.ok, q.ok, h.truth(q.value)))


@R.harness(key=KEYS, side=[0, 1])
def record_immutable(h, key, side):
    v, a, b = record_values(h, side)
    rec = h.callm(db(h).DatabaseBytesExpression, board(h, v)).value
    old = dict([(k, getattr(rec, k)) for k in KEYS])
    r = h.do(lambda: setattr(rec, key, 1))
    h.check('assignment refused', h.exc_is(r, 'TypeError'))
    r = h.do(lambda: setattr(rec, 'brand_new', 1))
    h.check('new attribute refused', h.exc_is(r, 'TypeError'))
    h.check('record unchanged', h.And([eqv(h, getattr(rec, k), old[k]) for k in KEYS if k != 'position'] +
                                      [h.eq(rec.position, old['position'])]))


@R.harness()
def record_other_attribute(h):
    rec = h.call(db(h).DatabaseBytesExpression).value
    r = h.do(lambda: h.get(rec, 'no_such_attribute'))
    h.check('only board attributes can be read', h.exc_is(r, 'AttributeError'))


@R.harness()
def distance(h):
    x = [h.char('x%d' % i, 0, 255) for i in range(26)]
    y = [h.char('y%d' % i, 0, 255) for i in range(26)]
    r = h.callm(db(h).distance, h.join('', x), h.join('', y))
    h.check('sum of squared differences',
            h.And(r.ok, r.value == h.sum([(byte(h, p) - byte(h, q)) * (byte(h, p) - byte(h, q)) for p, q in zip(x, y)])))


@R.harness()
def distance_symmetric(h):
    x = [h.char('x%d' % i, 0, 255) for i in range(26)]
    y = [h.char('y%d' % i, 0, 255) for i in range(26)]
    r = h.callm(db(h).distance, h.join('', x), h.join('', y))
    s = h.callm(db(h).distance, h.join('', y), h.join('', x))
    h.check('symmetric', h.And(r.ok, s.ok, r.value == s.value))


@R.harness()
def distance_zero(h):
    x = [h.char('x%d' % i, 0, 255) for i in range(26)]
    y = [h.char('y%d' % i, 0, 255) for i in range(26)]
    r = h.callm(db(h).distance, h.join('', x), h.join('', y))
    h.check('zero for equal strings', h.Implies(h.And([h.ord(p) == h.ord(q) for p, q in zip(x, y)]), r.value == 0))
    for p, q in zip(x, y):
        h.check('positive when a place differs', h.Implies(h.ord(p) != h.ord(q), r.value > 0))
