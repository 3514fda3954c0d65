"""C15: GNU Backgammon position IDs round-trip."""
from dv.spec import Registry
R = Registry()
HARNESSES, TASKS = R.harnesses, R.tasks
MODULES = ['bglib.encoding.gnubgid']
STUBS = True
RANDOM = 400
NOTE = ('the writer and the reader of keys by loop contracts over any places with up to 15 checkers each; the round trip over '
        'their contracts for every position; base64 by its contract')
TRUSTED = ['base64 (bytes to letters and back, "=" as padding only), struct.pack/unpack of one byte',
           'tonic.BitsArray is imported here but not used for positions']
SHARED = ['bglib.encoding.gnubgid (ByteContext)']      # replaced by its contract
ASSUMPTIONS = ['a position is 25 places a side with at most 15 checkers a side']


def M(h):
    return h.mod('bglib.encoding.gnubgid')


# ---- the contract: the bit string of a list of places.
# start(k) is the bit at which place k starts; bit(t) is bit t of the key.

def x(h, k):
    return h.uf('x', k)


def start(h, k):
    return h.uf('start', k)


def bit(h, t):
    return h.uf('bit', t)


def place(h, k, n):
    """definition of the bits of place k, with n checkers on it"""
    h.assume(h.And(x(h, k) == n, start(h, k + 1) == start(h, k) + n + 1, bit(h, start(h, k) + n) == 0))
    for j in range(n):
        h.assume(bit(h, start(h, k) + j) == 1)


def byte(h, q, c=8):
    """value of the first c bits of byte q"""
    r = 0
    for b in range(c):
        t = bit(h, 8 * q + b)
        h.assume(h.And(0 <= t, t <= 1))
        r = r + t * 2 ** b
    return r


def isint(h, v):
    return h.clsname(v) in ('int', 'SInt')


@R.harness(places=[50], _abstract=True, _replay=False, _random=False, _merge=False)
def writer(h, places):
    """the bytes of any 50 places: every bit where it belongs, ten bytes"""
    m = M(h)
    made, carried = [], []
    real = m.ByteContext

    def context():
        made.append(h.new(real))
        return made[-1]
    h.set(m, 'ByteContext', h.fn(context))
    g = {'n': 0}
    h.assume(start(h, 0) == 0)

    def elem(i):
        n = h.pick(h.havoc_int('checkers', 0, 15))
        place(h, i, n)
        return n

    def holds(i, loc):
        if not carried:
            carried.extend([k for k in sorted(loc) if isint(h, loc[k])] + [None])
        c = made[0].count
        q = start(h, i) // 8
        r = [('fewer than eight bits are not out yet', h.And(0 <= c, c < 8, 8 * q + c == start(h, i))),
             ('all complete bytes are out', g['n'] == q)]
        k = h.pick(c)
        r.append(('the bits not out yet are those of the key', made[0].byte == byte(h, q, k)))
        return r + [('the bytes are counted', loc[k] == q) for k in carried[:-1]]

    def state(i, loc):
        q, c = h.havoc_int('q', 0, 10), h.pick(h.havoc_int('c', 0, 7))
        h.assume(h.And(start(h, i) == 8 * q + c, start(h, i) >= i, start(h, i) <= 80))
        h.set(made[0], 'count', c)
        h.set(made[0], 'byte', byte(h, q, c))
        g['n'] = q
        if i is places:
            for t in range(places, 80):
                h.assume(h.Implies(t >= start(h, places), bit(h, t) == 0))
        return dict([(k, q) for k in carried[:-1]])

    xs = h.seq(places, elem, h.loop(holds, state, lambda: made, stream=True))
    r = h.call(m.seq2bytes, xs)
    h.check('starts', r.ok)
    for v in h.stream(r.value):
        h.check('the next byte of the key', h.And(h.length(v) == 1, h.ord(v) == byte(h, g['n'])))
        g['n'] = g['n'] + 1
    h.check('ten bytes', g['n'] == 10)


@R.harness(length=[10], _abstract=True, _replay=False, _random=False, _merge=False)
def reader(h, length):
    """the places of any ten bytes that are the key of 50 places"""
    m = M(h)
    carried = []
    g = {'k': 0}
    places = 50
    h.assume(h.And(start(h, 0) == 0, x(h, 0) >= 0))

    def known(k, p):
        """what the bits of byte p tell about place k (definition of the bits)"""
        n = x(h, k)
        h.assume(h.Implies(k < places, h.And(0 <= n, n <= 15, start(h, k + 1) == start(h, k) + n + 1, bit(h, start(h, k) + n) == 0,
                                             start(h, k + 1) + (places - k - 1) <= start(h, places))))
        for b in range(8):
            t = 8 * p + b
            h.assume(h.Implies(h.And(k < places, start(h, k) <= t, t < start(h, k) + n), bit(h, t) == 1))
            h.assume(h.Implies(t >= start(h, places), bit(h, t) == 0))

    def elem(i):
        g['p'] = i
        known(g['k'], i)
        return h.chr(byte(h, i))

    def holds(i, loc):
        if not carried:
            carried.extend([k for k in sorted(loc) if isint(h, loc[k])] + [None])
        k = g['k']
        r = [('the next place starts before this byte and does not end before it',
              h.Implies(k < places, h.And(start(h, k) <= 8 * i, 8 * i <= start(h, k) + x(h, k)))),
             ('places are numbered', k >= 0)]
        return r + [('its checkers so far are counted', h.Implies(k < places, loc[c] == 8 * i - start(h, k))) for c in carried[:-1]]

    def state(i, loc):
        g['k'] = h.havoc_int('k', 0)
        g['p'] = None
        r = dict([(c, h.havoc_int('n')) for c in carried[:-1]])
        h.assume(h.And(start(h, places) >= places, start(h, places) <= 80))
        for label, c in holds(i, r):
            h.assume(c)
        if not h.split(h.eq(i, length)):
            return r
        known(g['k'], length - 1)
        return r

    bs = h.seq(length, elem, h.loop(holds, state, stream=True))
    r = h.call(m.byts2seq, bs)
    h.check('starts', r.ok)
    for v in h.stream(r.value):
        h.check('the next place', h.Implies(g['k'] < places, v == x(h, g['k'])))
        g['k'] = g['k'] + 1
        if g['p'] is not None:
            known(g['k'], g['p'])
    h.check('every place is there', g['k'] >= places + 1)


@R.harness(_abstract=True, _replay=False, _random=False, _merge=False)
def round_trip(h):
    """over the contracts of the writer and the reader: fourteen letters that lead back to the position"""
    m = M(h)
    me, op = h.dist('me', 15), h.dist('op', 15)
    key = [h.havoc_int('key', 0, 255) for i in range(10)]
    total = h.sum(me) + h.sum(op)

    def writes(h_, xs):
        ps = h.list(xs)
        h.check('the places of the player, then those of the opponent', h.And(len(ps) == 50, h.And([p == q for p, q in zip(ps, me + op)])))
        return h.lst([h.chr(v) for v in key])

    def reads(h_, s):
        h.check('the ten bytes of the key', h.eq(s, h.join('', [h.chr(v) for v in key])))
        # one number per zero bit, and one more for the end
        return h.lst(list(me + op) + [0] * (31 - h.pick(total)))
    h.use(h.contract('bglib.encoding.gnubgid:seq2bytes', writes), h.contract('bglib.encoding.gnubgid:byts2seq', reads))
    h.abstract_base64()
    r = h.call(m.encode_position, (me, op))
    h.check('encodes', r.ok)
    if not r.ok:
        return
    h.check('fourteen letters', h.length(r.value) == 14)
    s = h.call(m.decode_position, r.value)
    h.check('decodes', s.ok)
    if not s.ok:
        return
    v = h.list(s.value)
    h.check('two sides', h.And(len(v) == 2, len(h.list(v[0])) == 25, len(h.list(v[1])) == 25))
    h.check('the position comes back', h.And([a == b for a, b in zip(h.list(v[0]) + h.list(v[1]), me + op)]))


def spec_key(me, op):
    bits = []
    for n in me + op:
        bits += [1] * n + [0]
    bits += [0] * (80 - len(bits))
    return [sum([bits[8 * i + b] << b for b in range(8)]) for i in range(10)]


LETTERS = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'


def spec_id(me, op):
    bs = spec_key(me, op) + [0, 0]
    out = ''
    for i in range(0, 12, 3):
        n = bs[i] * 65536 + bs[i + 1] * 256 + bs[i + 2]
        out += ''.join([LETTERS[(n >> s) & 63] for s in (18, 12, 6, 0)])
    return out[:14]


def judge(h, me, op):
    m = M(h)
    r = h.call(m.encode_position, (me, op))
    h.check('encodes', r.ok)
    if r.ok:
        h.check('the ID of the key', r.value == spec_id(me, op))
        s = h.call(m.decode_position, r.value)
        h.check('decodes', s.ok)
        if s.ok:
            h.check('the position comes back', [tuple(h.list(v)) for v in h.list(s.value)] == [me, op])
    k = h.call(m.twoside_encode, (me, op))
    h.check('the key', k.ok and [h.ord(c) for c in h.list(k.value)] == spec_key(me, op))


def side(h, name, n):
    t = [0] * 25
    while n:
        k = h.choice('%s.%d.size' % (name, n), list(range(1, n + 1)))
        t[h.choice('%s.%d.at' % (name, n), list(range(25)))] += k
        n -= k
    return tuple(t)


@R.harness(_concrete_only=True, _runs=4)
def any_position(h):
    """a position in real bytes and letters"""
    judge(h, side(h, 'me', h.choice('mine', list(range(16)))), side(h, 'op', h.choice('his', list(range(16)))))


@R.harness(mine=list(range(16)), his=list(range(16)), _runs=0.02, _merge=False,
           _quick=lambda mine, his: (mine + his) % 8 in (5, 6, 7) or mine == his)
def totals(h, mine, his):
    """positions with each number of checkers, a place and its neighbours, in real bytes and letters"""
    h.bounded('a few places')
    for at, to in [(0, 24), (24, 0), (7, 8), (15, 15)]:
        me, op = [0] * 25, [0] * 25
        me[at] += mine // 2
        me[to] += mine - mine // 2
        op[to] += his // 3
        op[at] += his - his // 3
        judge(h, tuple(me), tuple(op))


@R.harness()
def known_ids(h):
    """IDs printed by GNU Backgammon"""
    h.bounded('known IDs')
    start_ = (0, 0, 0, 0, 0, 5, 0, 3, 0, 0, 0, 0, 5, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 0)
    for want, me, op in [('4HPwATDgc/ABMA', start_, start_),
                         ('vzsAAFhu2xFABA', (6, 3, 3, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 1),
                          (0, 3, 2, 2, 2, 3, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 1, 0, 0, 0, 0))]:
        h.check('known ID', spec_id(me, op) == want)
        judge(h, me, op)
