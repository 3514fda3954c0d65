"""C05: bearing off."""
from dv.spec import Registry
from specs.common import *
R = Registry()
HARNESSES, TASKS = R.harnesses, R.tasks
MODULES = MODEL
RANDOM = 1500


def setup(h, side):
    me, op = h.dist('me'), h.dist('op')
    v = board_values(h, side=side)
    v['position'] = (me, op) if side == 0 else (op, me)
    return me, op, v


def may_bear_off(h, me, n, die):
    """specification of the rule for a home point n (0..5)"""
    allhome = h.And([me[i] == 0 for i in range(6, 25)])
    beyond = h.And([h.Implies(n < i, me[i] == 0) for i in range(0, 6)])
    return h.And(allhome, h.at(me[:6], n) > 0, h.Or(n + 1 == die, h.And(n + 1 < die, beyond)))


@R.harness(side=[0, 1], kind=['board', 'editor', 'used'])
def ok_to_bearoff_from(h, side, kind):
    me, op, v = setup(h, side)
    n, die = h.int('n', 0, 5), h.int('die', 1, 6)
    if kind == 'used':
        h.assume(n == 1 + side)
        b = used(h, v, lambda e: h.callm(e.is_ok_to_bearoff_from, n, die))
    else:
        b = (board if kind == 'board' else editor)(h, v)
    r = h.call(b.is_ok_to_bearoff_from, n, die)
    h.check('answers', r.ok)
    if r.ok:
        h.check('allowed exactly by the rule', h.Iff(h.truth(r.value), may_bear_off(h, me, n, die)))
    h.check('board unchanged', attrs_eq(h, b, v))


@R.harness(side=[0, 1])
def not_from_outside(h, side):
    """a checker outside the home board cannot be borne off, whatever the die"""
    me, op, v = setup(h, side)
    n, die = h.int('n', 6, 24), h.int('die', 1, 6)
    h.assume(h.at(me, n) > 0)
    b = editor(h, v)
    r = h.call(b.is_ok_to_bearoff_from, n, die)
    h.check('answers', r.ok)
    if r.ok:
        h.check('never allowed from outside home', h.Not(h.truth(r.value)))


@R.harness(side=[0, 1], die=[1, 2, 3, 4, 5, 6], kind=['board', 'editor', 'used'],
           _quick=lambda side, die, kind: kind != 'used' or (side, die) == (0, 5))
def find_src(h, side, die, kind):
    me, op, v = setup(h, side)
    if kind == 'used':
        b = used(h, v, lambda e: h.callm(e.find_src_of_bearoff_with, die))
    else:
        b = (board if kind == 'board' else editor)(h, v)
    r = h.call(b.find_src_of_bearoff_with, die)
    h.check('answers', r.ok)
    if r.ok:
        x = r.value
        exact = me[die - 1] > 0
        allhome = h.And([me[i] == 0 for i in range(6, 25)])
        far = h.And([me[i] == 0 for i in range(die - 1, 6)])
        if x is None:
            h.check('none only when the rules give none',
                    h.Not(h.And(allhome, h.Or(exact, h.And(far, h.Or([me[i] > 0 for i in range(0, 6)]))))))
        else:
            h.check('all checkers home', allhome)
            h.check('a home point', h.And(x >= 0, x <= 5))
            h.check('exact point if present', h.Implies(exact, x == die - 1))
            h.check('else the farthest checker, all nearer than the die',
                    h.Implies(h.Not(exact), h.And([far, h.at(me[:6], x) > 0] +
                                                  [h.Implies(i > x, me[i] == 0) for i in range(0, 6)])))
            h.check('it may bear off', may_bear_off(h, me, x, die))
    h.check('board unchanged', attrs_eq(h, b, v))
