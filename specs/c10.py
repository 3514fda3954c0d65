"""C10: single-step suggestions are legal, and a legal step is not missed."""
from dv.spec import Registry
from specs.common import *
R = Registry()
HARNESSES, TASKS = R.harnesses, R.tasks
MODULES = MODEL
RANDOM = 120
ASSUMPTIONS = ['converting a printed object to text terminates normally (debug prints are not modelled)']
DICE = [1, 2, 3, 4, 5, 6]


def dice_left(h, tag=''):
    """dice that can be left from some roll: part of one roll"""
    return roll_part(h, tag)


def roll_part(h, tag):
    cnt = h.ints('left' + tag, 6, 0, 4)
    h.assume(h.sum(cnt) <= 4)
    # several different numbers only once each and at most two of them; a repeated number only alone
    for i in range(6):
        h.assume(h.Implies(cnt[i] >= 2, h.sum(cnt) == cnt[i]))
    h.assume(h.Implies(h.sum(cnt) >= 3, h.Or([c >= 2 for c in cnt])))
    return cnt


def setup(h, side, cnt):
    m = h.mod('bglib.model.move')
    me, op = h.dist('me'), h.dist('op')
    vals = dict(position=(me, op) if side == 0 else (op, me), on_action=side, on_inner_action=side, game_state=1,
                rolled=(1, 2))
    b = editor(h, vals)
    mf = h.new(m.MoveFactory, b)
    for i in DICE:
        mf.available[i] = cnt[i - 1]
    return me, op, b, mf


def movable(h, me, n):
    return h.And(h.at(me, n) > 0, h.Or(me[24] == 0, n == 24))


def legal(h, me, op, src, die):
    """a checker on src may be played with die"""
    dest = src - die
    if not isinstance(src, int) or not isinstance(die, int):
        raise TypeError('concrete')
    if dest >= 0:
        return h.And(movable(h, me, src), op[23 - dest] < 2)
    return h.And(movable(h, me, src), bearoff(h, me, src, die))


def bearoff(h, me, n, die):
    allhome = [me[i] == 0 for i in range(6, 25)]
    if n + 1 == die:
        return h.And(allhome + [me[n] > 0])
    if n + 1 < die:
        return h.And(allhome + [me[n] > 0] + [me[i] == 0 for i in range(n + 1, 6)])
    return False


def unchanged(h, b, mf, side, me, op, cnt):
    p = b.position
    x, y = p[side], p[1 - side]
    return h.And([x[i] == me[i] for i in range(25)] + [y[i] == op[i] for i in range(25)] +
                 [mf.available[d] == cnt[d - 1] for d in DICE] + [len(h.list(mf.move)) == 0])


def caller_dice(h, side, cnt):
    me, op, b, mf = setup(h, side, cnt)
    av = h.new(h.mod('bglib.model.move').AvailableToPlay, (0, 0))
    for d in DICE:
        av[d] = cnt[d - 1]
        mf.available[d] = 0
    return me, op, b, mf, av


def caller_unchanged(h, side, r, me, op, b, mf, av, cnt):
    h.check('answers', r.ok)
    h.check("the caller's dice are unchanged", h.And([av[d] == cnt[d - 1] for d in DICE]))
    h.check('asking changes nothing', unchanged(h, b, mf, side, me, op, [0] * 6))


@R.harness(side=[0, 1], way=['source', 'dest'], given=[False, True], point=[0, 5, 12])
def given_dice(h, side, way, given, point):
    """dice and board passed by the caller are only looked at"""
    cnt = dice_left(h)
    me, op, b, mf, av = caller_dice(h, side, cnt)
    other = h.new(h.mod('bglib.model.boardeditor').BoardEditor, b) if given else None
    guess = mf.guess_your_single_pm_from_source if way == 'source' else mf.guess_your_single_pm_from_dest
    r = h.callm(guess, point, other, av)
    caller_unchanged(h, side, r, me, op, b, mf, av, cnt)


@R.harness(side=[0, 1], top=[0, 1, 2, 3, 4, 5, 6])
def given_dice_off(h, side, top):
    cnt = dice_left(h)
    largest(h, cnt, top)
    me, op, b, mf, av = caller_dice(h, side, cnt)
    r = h.callm(mf.guess_your_single_pm_from_dest, -1, None, av)
    caller_unchanged(h, side, r, me, op, b, mf, av, cnt)


def largest(h, cnt, top):
    for d in DICE:
        if d > top:
            h.assume(cnt[d - 1] == 0)
        if d == top:
            h.assume(cnt[d - 1] > 0)


@R.harness(side=[0, 1], src=list(range(25)))
def from_source(h, side, src):
    cnt = dice_left(h)
    me, op, b, mf = setup(h, side, cnt)
    r = h.call(mf.guess_your_single_pm_from_source, src)
    h.check('answers', r.ok)
    if not r.ok:
        return
    pm = r.value
    can = [h.And(cnt[d - 1] > 0, legal(h, me, op, src, d)) for d in DICE]
    if h.split(h.truth(pm)):
        h.check('uses the largest die that is left and gives a legal step',
                h.And([h.Or([pm.die == d for d in DICE])] +
                      [h.Implies(pm.die == d, can[d - 1]) for d in DICE] +
                      [h.Implies(can[d - 1], pm.die >= d) for d in DICE]))
        h.check('goes the distance of the die or off',
                h.And(pm.src == src, h.Ite(pm.die <= src, pm.dest == src - pm.die, pm.dest == -1)))
        want = h.And(pm.dest >= 0, h.at(op, h.Ite(pm.dest >= 0, 23 - pm.dest, 0)) == 1)
        h.check('marked as hitting exactly when it hits', h.Iff(h.truth(pm.is_hitting), want))
    else:
        h.check('nothing suggested only when nothing is legal', h.Not(h.Or(can)))
    h.check('asking changes nothing', unchanged(h, b, mf, side, me, op, cnt))


@R.harness(side=[0, 1], dest=list(range(24)))
def from_dest(h, side, dest):
    cnt = dice_left(h)
    suggest_dest(h, side, dest, cnt)


@R.harness(side=[0, 1], top=[0, 1, 2, 3, 4, 5, 6], _weight=3)
def to_off(h, side, top):
    """bearing off; case split on the largest die left"""
    cnt = dice_left(h)
    largest(h, cnt, top)
    suggest_dest(h, side, -1, cnt)


def suggest_dest(h, side, dest, cnt):
    me, op, b, mf = setup(h, side, cnt)
    r = h.call(mf.guess_your_single_pm_from_dest, dest)
    h.check('answers', r.ok)
    if not r.ok:
        return
    pm = r.value
    can = []
    for d in DICE:
        if dest >= 0:
            ok = legal(h, me, op, dest + d, d) if dest + d <= 24 else False
        else:
            ok = h.Or([bearoff(h, me, s, d) for s in range(d)])
        can.append(h.And(cnt[d - 1] > 0, ok))
    if h.split(h.truth(pm)):
        h.check('uses the largest die that is left and gives a legal step',
                h.And([h.Or([pm.die == d for d in DICE])] +
                      [h.Implies(pm.die == d, can[d - 1]) for d in DICE] +
                      [h.Implies(can[d - 1], pm.die >= d) for d in DICE]))
        if dest >= 0:
            h.check('goes the distance of the die', h.And(pm.dest == dest, pm.src == dest + pm.die))
        else:
            h.check('bears off as the rules allow',
                    h.And([pm.dest == -1, pm.src >= 0, pm.src <= 5] +
                          [h.Implies(h.And(pm.src == s, pm.die == d), bearoff(h, me, s, d))
                           for s in range(6) for d in DICE]))
        want = h.And(pm.dest >= 0, h.at(op, h.Ite(pm.dest >= 0, 23 - pm.dest, 0)) == 1)
        h.check('marked as hitting exactly when it hits', h.Iff(h.truth(pm.is_hitting), want))
    else:
        h.check('nothing suggested only when nothing is legal', h.Not(h.Or(can)))
    h.check('asking changes nothing', unchanged(h, b, mf, side, me, op, cnt))
