"""Square root and powers of reals as uninterpreted functions with ground instances of their laws.

Laws used (facts of real arithmetic, listed in the trusted base of the checks that use them):
  sqrt(x) >= 0, sqrt(x)^2 = x, sqrt is monotone (x >= 0; a negative argument raises ValueError)
  10^x > 0, 10^0 = 1, strictly increasing
  x^n (n an integer): x^0 = 1, x^1 = x, x > 0 -> x^n > 0, 0 <= x <= 1 and n >= 0 -> 0 <= x^n <= 1,
  0 <= x < y and n >= 1 -> x^n < y^n, 0 < x <= 1 and n <= m -> x^m <= x^n, x^n = x * x^(n-1) for x > 0
"""
import z3
from .sym import *

R_, I_ = z3.RealSort(), z3.IntSort()
SQRT = z3.Function('sqrt', R_, R_)
POW10 = z3.Function('pow10', R_, R_)
POWN = z3.Function('pown', R_, I_, R_)
LAWS = 'laws of real square root and powers (dv/reals.py), instantiated on the terms that occur; floats are reals'


def terms(I, k):
    d = I.engine.__dict__.setdefault('real_terms', {})
    return d.setdefault(k, [])


def note(ts, e):
    # kept for the whole task: the laws hold for all terms
    if not any(e.eq(t) for t in ts):
        ts.append(e)


def law(I, c):
    I.engine.assume_nocheck(c)


def sqrt(I, x):
    e = re_(x)
    if I.engine.branch(e < 0):
        I.throw('ValueError', 'math domain error')
    s = SQRT(e)
    law(I, z3.And(s >= 0, s * s == e, z3.Implies(e > 0, s > 0)))
    for t in terms(I, 'sqrt'):
        law(I, z3.And(z3.Implies(e <= t, s <= SQRT(t)), z3.Implies(t <= e, SQRT(t) <= s)))
    note(terms(I, 'sqrt'), e)
    return SReal(s)


def power(I, a, b):
    if not isinstance(a, Sym) and a == 10:
        e = re_(b)
        s = POW10(e)
        law(I, z3.And(s > 0, z3.Implies(e == 0, s == 1), z3.Implies(e > 0, s > 1), z3.Implies(e < 0, s < 1)))
        for t in terms(I, 'pow10'):
            law(I, z3.And(z3.Implies(e < t, s < POW10(t)), z3.Implies(t < e, POW10(t) < s)))
        note(terms(I, 'pow10'), e)
        return SReal(s)
    if intlike(b):
        x, n = re_(a), ie(b)
        if I.engine.branch(z3.And(x == 0, n < 0)):
            I.throw('ZeroDivisionError', '0.0 cannot be raised to a negative power')
        s = POWN(x, n)
        s1 = POWN(x, n - 1)
        law(I, z3.And(z3.Implies(n == 0, s == 1), z3.Implies(n == 1, s == x), z3.Implies(x > 0, z3.And(s > 0, s1 > 0)),
                      z3.Implies(z3.And(x >= 0, x <= 1, n >= 0), z3.And(s >= 0, s <= 1)),
                      z3.Implies(x > 0, s == x * s1)))
        for y, m in terms(I, 'pown'):
            t = POWN(y, m)
            law(I, z3.And(z3.Implies(z3.And(n == m, n >= 1, x >= 0, x < y), s < t),
                          z3.Implies(z3.And(n == m, n >= 1, y >= 0, y < x), t < s),
                          z3.Implies(z3.And(x == y, x > 0, x <= 1, n <= m), t <= s),
                          z3.Implies(z3.And(x == y, x > 0, x <= 1, m <= n), s <= t)))
        if not any(x.eq(y) and n.eq(m) for y, m in terms(I, 'pown')):
            terms(I, 'pown').append((x, n))
        return SReal(s)
    raise Unsupported('power')


RND = z3.Function('rnd', R_, R_)
U = z3.Q(1, 2 ** 53)
ROUNDING = ('float operations are the exact result rounded: a monotone function, relative error at most 2^-53, exact on '
            'integers up to 2^53 (no overflow or underflow)')


def round_(I, x):
    e = x.e
    s = RND(e)
    if z3.is_rational_value(e):
        return x
    law(I, z3.And(z3.If(e >= 0, z3.And(s >= e * (1 - U), s <= e * (1 + U)), z3.And(s <= e * (1 - U), s >= e * (1 + U))),
                  z3.Implies(z3.And(z3.ToReal(z3.ToInt(e)) == e, e >= -2 ** 53, e <= 2 ** 53), s == e)))
    for t in terms(I, 'rnd'):
        if not t.eq(e):
            law(I, z3.And(z3.Implies(e <= t, s <= RND(t)), z3.Implies(t <= e, RND(t) <= s)))
    note(terms(I, 'rnd'), e)
    return SReal(s)


def install(I):
    I.real_round = round_
    I.real_pow = power
    I.real_sqrt = sqrt
    I.real_fabs = lambda I, x: SReal(z3.If(re_(x) < 0, -re_(x), re_(x)))
