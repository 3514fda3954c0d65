"""C19: ratings and tournament chances."""
from dv.spec import Registry
R = Registry()
HARNESSES, TASKS = R.harnesses, R.tasks
MODULES = ['bglib.stat.rating', 'bglib.stat.tourney']
RANDOM = 500
TRUSTED = ['laws of real square root and powers (dv/reals.py), instantiated on the terms that occur']
ASSUMPTIONS = ['floating point numbers are treated as real numbers (no rounding, no overflow)']


def rating(h):
    return h.mod('bglib.stat.rating')


def ratings(h, kind, *names):
    if kind == 'int':
        return [h.int(n) for n in names]
    return [h.real(n) for n in names]


def probability(h, x):
    return h.And(h.le(0, x), h.le(x, 1))


@R.harness(kind=['int', 'real'])
def chances(h, kind):
    m = rating(h)
    hi, lo = ratings(h, kind, 'high', 'low')
    h.assume(hi >= lo)
    n = h.int('length', 1, 1000)
    u, w = h.call(m.upset_chance, hi, lo, n), h.call(m.winning_chance, hi, lo, n)
    h.check('answers', h.And(u.ok, w.ok))
    h.check('probabilities', h.And(probability(h, u.value), probability(h, w.value)))
    h.check('add up to one', h.close(u.value + w.value, 1))
    h.check('an upset is never more likely than not', h.le(u.value, 0.5))
    e = h.call(m.upset_chance, hi, hi, n)
    h.check('one half for equal ratings', h.And(e.ok, h.close(e.value, 0.5)))


@R.harness(kind=['int', 'real'])
def refused(h, kind):
    m = rating(h)
    hi, lo = ratings(h, kind, 'high', 'low')
    h.assume(hi < lo)
    n = h.int('length', 1, 1000)
    h.check('the favourite must be named first', h.exc_is(h.call(m.upset_chance, hi, lo, n), 'AssertionError'))


@R.harness()
def gap(h):
    m = rating(h)
    h1, l1, h2, l2 = ratings(h, 'real', 'high1', 'low1', 'high2', 'low2')
    n = h.int('length', 1, 1000)
    h.assume(h.And(h1 >= l1, h2 - l2 >= h1 - l1))
    a, b = h.call(m.upset_chance, h1, l1, n), h.call(m.upset_chance, h2, l2, n)
    h.check('upsets never grow with the gap', h.And(a.ok, b.ok, h.le(b.value, a.value)))


@R.harness()
def length(h):
    m = rating(h)
    hi, lo = ratings(h, 'real', 'high', 'low')
    h.assume(hi >= lo)
    n, k = h.int('length', 1, 1000), h.int('longer', 1, 1000)
    h.assume(n <= k)
    a, b = h.call(m.upset_chance, hi, lo, n), h.call(m.upset_chance, hi, lo, k)
    h.check('upsets never grow with the match length', h.And(a.ok, b.ok, h.le(b.value, a.value)))


@R.harness(kind=['int', 'real'])
def gains(h, kind):
    m = rating(h)
    p, o = ratings(h, kind, 'player', 'opponent')
    n = h.int('length', 1, 1000)
    a, b = h.call(m.gain_on_win, p, o, n), h.call(m.gain_on_win, o, p, n)
    h.check('answers', h.And(a.ok, b.ok))
    h.check('between nothing and the match length', h.And(h.le(0, a.value), h.le(a.value, n)))
    h.check('gains add up to the match length', h.close(a.value + b.value, n))
    h.check('the weaker player gains at least as much', h.Implies(p <= o, h.le(b.value, a.value)))
    u = h.call(m.upset_chance, h.Ite(p >= o, p, o), h.Ite(p >= o, o, p), n)
    h.check("the match length times the chance of the player's defeat",
            h.close(a.value, n * h.Ite(p >= o, u.value, 1 - u.value)))


def tourney(h):
    return h.mod('bglib.stat.tourney')


@R.harness()
def tourney_chances(h):
    m = tourney(h)
    p, av = ratings(h, 'real', 'player', 'average')
    rounds, n = h.int('rounds', 1, 12), h.int('length', 1, 64)
    r = h.call(m.tourney_chance, p, av, rounds, n)
    h.check('answers', r.ok)
    w, s = r.value
    h.check('probabilities', h.And(probability(h, w), probability(h, s)))
    h.check('winning and coming second exclude each other', h.le(w + s, 1))
    u = h.call(rating(h).upset_chance, h.Ite(p >= av, p, av), h.Ite(p >= av, av, p), n).value
    c = h.Ite(p >= av, 1 - u, u)
    h.check('every round is won', h.close(w, h.power(c, rounds)))
    h.check('the last round is lost', h.close(s, h.power(c, rounds - 1) * (1 - c)))


@R.harness()
def tourney_grows(h):
    m = tourney(h)
    p, q, av = ratings(h, 'real', 'player', 'better', 'average')
    h.assume(p <= q)
    rounds, n = h.int('rounds', 1, 12), h.int('length', 1, 64)
    a, b = h.call(m.tourney_chance, p, av, rounds, n), h.call(m.tourney_chance, q, av, rounds, n)
    h.check("the winner's chance grows with the rating", h.And(a.ok, b.ok, h.le(a.value[0], b.value[0])))


@R.harness()
def average_player(h):
    m = tourney(h)
    av = h.real('average')
    rounds, n = h.int('rounds', 1, 12), h.int('length', 1, 64)
    first, second, fee = h.real('first', 0, 1000), h.real('second', 0, 1000), h.real('fee', 0, 1000)
    r = h.call(m.prize_handicap, av, av, rounds, n, first, second)
    h.check('prizes of the average player', h.And(r.ok, h.close(r.value[0], first), h.close(r.value[1], second)))
    r = h.call(m.entryfee_handicap, av, av, rounds, n, fee)
    h.check('fee of the average player', h.And(r.ok, h.close(r.value, fee)))
    p = h.real('player')
    c, d = h.call(m.tourney_chance, p, av, rounds, n), h.call(m.tourney_chance, av, av, rounds, n)
    r = h.call(m.prize_handicap, p, av, rounds, n, first, second)
    h.check("every player expects the average player's prize",
            h.And(r.ok, h.close(r.value[0] * c.value[0], first * d.value[0]),
                  h.close(r.value[1] * c.value[1], second * d.value[1])))
    r = h.call(m.entryfee_handicap, p, av, rounds, n, fee)
    h.check("every player pays in proportion to his chance", h.And(r.ok, h.close(r.value * d.value[0], fee * c.value[0])))
