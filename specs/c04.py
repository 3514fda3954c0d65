"""C04: landing, hitting and movability predicates."""
from dv.spec import Registry
from specs.common import *
R = Registry()
HARNESSES, TASKS = R.harnesses, R.tasks
MODULES = MODEL


def setup(h, side, kind, lo, hi, q):
    me, op = h.dist('me'), h.dist('op')
    n = h.int('n', lo, hi)
    v = board_values(h, side=side)
    v['position'] = (me, op) if side == 0 else (op, me)
    if kind == 'used':
        b = used(h, v, lambda e: h.callm(getattr(e, q), h.int('n before', lo, hi)))
    else:
        b = (board if kind == 'board' else editor)(h, v)
    return me, op, n, v, b


@R.harness(side=[0, 1], kind=['board', 'editor', 'used'])
def open_to_land(h, side, kind):
    me, op, n, v, b = setup(h, side, kind, -1, 23, 'is_open_to_land')
    r = h.call(b.is_open_to_land, n)
    h.check('answers', r.ok)
    if r.ok:
        want = h.Or(n == -1, h.at(op, h.Ite(n == -1, 0, 23 - n)) < 2)
        h.check('open exactly when fewer than two opposing checkers (off: always)', h.Iff(h.truth(r.value), want))
    h.check('board unchanged', attrs_eq(h, b, v))


@R.harness(side=[0, 1], kind=['board', 'editor', 'used'])
def hitting_to_land(h, side, kind):
    me, op, n, v, b = setup(h, side, kind, -1, 23, 'is_hitting_to_land')
    r = h.call(b.is_hitting_to_land, n)
    h.check('answers', r.ok)
    if r.ok:
        want = h.And(n != -1, h.at(op, h.Ite(n == -1, 0, 23 - n)) == 1)
        h.check('hits exactly when one opposing checker (off: never)', h.Iff(h.truth(r.value), want))
    h.check('board unchanged', attrs_eq(h, b, v))


@R.harness(side=[0, 1], kind=['board', 'editor', 'used'])
def chequer_to_move(h, side, kind):
    me, op, n, v, b = setup(h, side, kind, 0, 24, 'has_chequer_to_move')
    r = h.call(b.has_chequer_to_move, n)
    h.check('answers', r.ok)
    if r.ok:
        want = h.And(h.at(me, n) > 0, h.Or(me[24] == 0, n == 24))
        h.check('movable exactly when there and not waiting on the bar', h.Iff(h.truth(r.value), want))
    h.check('board unchanged', attrs_eq(h, b, v))


@R.harness(q=['is_open_to_land', 'is_hitting_to_land', 'has_chequer_to_move'])
def symmetric(h, q):
    """same answer for the mirrored board and turn"""
    me, op = h.dist('me'), h.dist('op')
    n = h.int('n', -1 if q != 'has_chequer_to_move' else 0, 23 if q != 'has_chequer_to_move' else 24)
    a = editor(h, dict(position=(me, op), on_action=YOU))
    b = editor(h, dict(position=(op, me), on_action=HIM))
    x = h.callm(getattr(a, q), n)
    y = h.callm(getattr(b, q), n)
    h.check('both answer', h.And(x.ok, y.ok))
    if x.ok and y.ok:
        h.check('mirror-symmetric', h.Iff(h.truth(x.value), h.truth(y.value)))


@R.harness(n=[-1])
def flip_point(h, n):
    u = h.mod('bglib.model.util')
    p = h.int('p', 0, 23)
    r = h.call(u.flip_point, p)
    h.check('mirror of a point', h.And(r.ok, r.value == 23 - p))
    r2 = h.call(u.flip_point, r.value)
    h.check('involution', h.And(r2.ok, r2.value == p))
