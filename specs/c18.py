"""C18: bear-off database indexes are a bijection with positions."""
from dv.spec import Registry
R = Registry()
HARNESSES, TASKS = R.harnesses, R.tasks
MODULES = ['bglib.encoding.bearoff', 'bglib.encoding.bearoff.nori', 'bglib.encoding.bearoff.gnubgdb']
STUBS = True
RANDOM = 40
NOTE = ('nori indexing: every position and every index, case by case; gnubg indexing: induction on the number of bits, '
        'then every position of up to six points')
TRUSTED = ['tonic.combination (absent here; stand-in dv/jystubs: C, and C_Hash/C_RHash as mutually inverse numberings)']
ASSUMPTIONS = ['tonic.combination behaves like the stand-in in dv/jystubs/tonic/combination.py']


def N(h):
    return h.mod('bglib.encoding.bearoff.nori')


def G(h):
    return h.mod('bglib.encoding.bearoff.gnubgdb')


def binom(n, k):
    r = 1
    for i in range(k):
        r = r * (n - i) // (i + 1)
    return r


def upto(c, points=6):
    """number of positions with at most c checkers"""
    return binom(c + points, points)


def positions(c, points):
    """every way to put exactly c checkers on the points"""
    if points == 1:
        return [(c,)]
    return [(a,) + r for a in range(c + 1) for r in positions(c - a, points - 1)]


def slices(c):
    """number of chunks for the positions of c checkers"""
    return max(1, binom(c + 5, 5) // 600)


def there_and_back(h, ts):
    t2k, k2t = N(h).oneside_upto6_t2k, N(h).oneside_upto6_k2t
    inrange = back = isint = True
    for t in ts:
        c = sum(t)
        r = h.call(t2k, t)
        if not r.ok:
            return 'no index of %s' % (t,)
        k = r.value
        if not (upto(c - 1) if c else 0) <= k < upto(c):
            return 'index of %s out of range' % (t,)
        s = h.call(k2t, k)
        if not s.ok or tuple(h.list(s.value)) != t:
            return 'index of %s does not lead back' % (t,)
    return None


def back_and_there(h, ks):
    t2k, k2t = N(h).oneside_upto6_t2k, N(h).oneside_upto6_k2t
    for k in ks:
        s = h.call(k2t, k)
        if not s.ok:
            return 'no position of index %d' % k
        t = tuple(h.list(s.value))
        if len(t) != 6 or min(t) < 0 or not (upto(sum(t) - 1) if sum(t) else 0) <= k < upto(sum(t)):
            return 'index %d has a wrong position' % k
        r = h.call(t2k, t)
        if not r.ok or r.value != k:
            return 'position of index %d does not lead back' % k
    return None


@R.harness(checkers=list(range(16)), part=list(range(26)),
           _quick=lambda checkers, part: part < slices(checkers),
           _weight=lambda checkers, part: checkers, _runs=0.03, _merge=False)
def nori(h, checkers, part):
    """every position with this many checkers leads to an index in its range and back, every index to its position and back"""
    n = slices(checkers)
    if part >= n:
        return
    ts = [t for i, t in enumerate(positions(checkers, 6)) if i % n == part]
    h.check('every position of %d checkers has an index of its own' % checkers, there_and_back(h, ts) is None)
    ks = [k for k in range(upto(checkers - 1) if checkers else 0, upto(checkers)) if k % n == part]
    h.check('every index of %d checkers has a position of its own' % checkers, back_and_there(h, ks) is None)


@R.harness(_runs=0.03)
def sizes(h):
    """the numbers the index is built on"""
    B = h.mod('bglib.encoding.bearoff')
    sd = N(h).sigmaD
    h.check('nothing below no checkers', h.item(sd, -1) == 0)
    for c in range(16):
        h.check('positions of at most %d checkers' % c, h.item(sd, c) == upto(c))
    for n in range(1, 31):
        for m in range(0, 31):
            h.check('ways to put m checkers on n points', B.D(n, m) == binom(n + m - 1, m))
            if n > 1 and m:
                h.check('Trice identity', B.D(n, m) == B.D(n, m - 1) + B.D(n - 1, m))
    total = total2 = 0
    for m in range(16):
        want = binom(24, m) * binom(16, 15 - m) * binom(40 - m, 15)
        h.check('backgammon positions with m points held', B.BackgammonCombination(m) == want)
        h.check('the two counts agree', B.BackgammonCombination_allC(m) == want)
        total, total2 = total + want, total2 + B.BackgammonCombination(m)
    h.check('all backgammon positions', total2 == total and B.WTN == total)


# ---- gnubg indexing

@R.harness(n=list(range(1, 41)), _quick=lambda n: n < 22 or n in (25, 33, 40), _abstract=True, _replay=False, _random=False)
def gnubg_step(h, n):
    """f numbers the n-bit strings with r ones without repetition below C(n, r), if it does so for n-1 bits.
    ones(m, s) is the number of ones of an m-bit string; its first facts are carried through the induction."""
    f = G(h).f
    m = n - 1
    r = h.choice('r', list(range(n + 1)))
    calls = []

    def ones(s):
        """the facts about shorter strings"""
        k = h.uf('ones%d' % m, s)
        h.assume(h.And(0 <= k, k <= m, h.Iff(k == 0, s == 0), h.Iff(k == m, s == 2 ** m - 1)))
        return k

    def smaller(h_, b, n_, r_):
        """the contract of f for n-1 bits"""
        rest = b % (2 ** m)
        h.check('asked for one bit less', n_ == m)
        h.check('asked with its number of ones', r_ == ones(rest))
        k = h.uf('index%d' % m, rest, r_)
        h.assume(h.And(0 <= k, k < h.at([binom(m, i) for i in range(m + 1)], r_)))
        calls.append((rest, r_, k))
        return k
    found = []
    for name in ('b', 'c'):
        top, rest = h.int(name + '.top', 0, 1), h.int(name + '.rest', 0, 2 ** m - 1)
        s = top * 2 ** m + rest
        k = top + ones(rest)
        h.check('number of ones in range', h.And(0 <= k, k <= n))
        h.check('no ones only in zero', h.Iff(k == 0, s == 0))
        h.check('all ones only in the greatest', h.Iff(k == n, s == 2 ** n - 1))
        h.assume(k == r)
        h.use(h.contract('bglib.encoding.bearoff.gnubgdb:f', smaller, 1))
        x = h.call(f, s, n, r)
        h.check('answers', x.ok)
        if not x.ok:
            return
        h.check('in range', h.And(0 <= x.value, x.value < binom(n, r)))
        found.append((s, x.value))
    if len(calls) == 2:
        h.assume(h.Implies(h.And(calls[0][1] == calls[1][1], calls[0][2] == calls[1][2]), calls[0][0] == calls[1][0]))
    h.check('no two strings have the same number', h.Implies(found[0][1] == found[1][1], found[0][0] == found[1][0]))


@R.harness(n=[0, 1, 2, 40], _random=False)
def gnubg_base(h, n):
    """no ones, or only ones: the first number"""
    h.check('no bits', h.call(G(h).f, 0, n, 0).value == 0)
    h.check('only ones', h.call(G(h).f, 2 ** n - 1, n, n).value == 0)


def rank(t, points):
    """number of the bit string of a position among those with as many ones, least first"""
    bits = []
    for x in t[:points]:
        bits = bits + [1] + [0] * x
    k = seen = 0
    for i, b in enumerate(reversed(bits)):
        if b:
            seen += 1
            k += binom(i, seen)
    return k


def gnubg_wrong(h, ts, points, most):
    g = G(h).oneside_index
    for t in ts:
        r = h.call(g, t + (0,) * (25 - points), points, most)
        if not r.ok:
            return 'no index of %s' % (t,)
        if not 0 <= r.value < upto(most, points):
            return 'index of %s out of range' % (t,)
        if r.value != rank(t, points):
            return 'index of %s is not its number' % (t,)
    return None


@R.harness(checkers=list(range(16)), part=list(range(26)),
           _quick=lambda checkers, part: part < slices(checkers),
           _weight=lambda checkers, part: checkers, _runs=0.03, _merge=False)
def gnubg(h, checkers, part):
    """every position with this many checkers on up to six points has its number among the bit strings"""
    n = slices(checkers)
    if part >= n:
        return
    ts = [t for i, t in enumerate(positions(checkers, 6)) if i % n == part]
    h.check('every position of %d checkers has the index of its bit string' % checkers, gnubg_wrong(h, ts, 6, 15) is None)
    if part == 0:
        for points in range(1, 6):
            for most in set([checkers, 15]):
                h.check('and on %d points' % points, gnubg_wrong(h, positions(checkers, points)[:200], points, most) is None)


@R.harness(_concrete_only=True, _runs=2)
def gnubg_any(h):
    """any position with up to 15 checkers on up to 25 points"""
    points = h.choice('points', list(range(1, 26)))
    t = [0] * points
    for i in range(h.choice('checkers', list(range(16)))):
        t[h.choice('at%d' % i, list(range(points)))] += 1
    h.check('its index is that of its bit string', gnubg_wrong(h, [tuple(t)], points, 15) is None)
