"""C11: multi-step suggestions chain legal steps and leave the game as it was."""
from dv.spec import Registry
from specs.common import *
from specs import c10
R = Registry()
HARNESSES, TASKS = R.harnesses, R.tasks
MODULES = MODEL
RANDOM = 150
ASSUMPTIONS = ['converting a printed object to text terminates normally (debug prints are not modelled)']
DICE = [1, 2, 3, 4, 5, 6]
SINGLE = 'bglib.model.move:MoveFactory.guess_your_single_pm_from_source'
# every multiset of dice that can be left from a roll
LEFT = [''] + ['%d' % d for d in DICE] + ['%d%d' % (a, b) for a in DICE for b in DICE if a >= b] + \
    ['%d' % d * k for d in DICE for k in (3, 4)]


def multiset(left):
    return [left.count(str(d)) for d in DICE]


def single_step_contract(h):
    """contract of guess_your_single_pm_from_source(src, b, available), discharged by single_step below:
    the step with the largest die left that is legal, or a false value; nothing is changed"""
    def apply_(h, self, src, b, available):
        m = h.mod('bglib.model.move')
        side = b.on_action
        pos = b.position
        me, op = (pos[0], pos[1]) if side == 0 else (pos[1], pos[0])
        for d in reversed(DICE):
            if h.split(available[d] > 0):
                if h.split(h.And(movable_at(h, me, src), src - d >= 0,
                                 h.at(op, h.Ite(src - d >= 0, 23 - (src - d), 0)) < 2)):
                    return h.new(m.PartialMove, d, src, src - d, h.at(op, 23 - (src - d)) == 1)
                if h.split(bears_off(h, me, src, d)):
                    return h.new(m.PartialMove, d, src, -1, False)
        return h.new(m.MoveFactory.Error, 'none')
    return h.contract(SINGLE, apply_)


def movable_at(h, me, n):
    return h.And(h.at(me, n) > 0, h.Or(me[24] == 0, n == 24))


def bears_off(h, me, n, die):
    """specification: a checker on n may be borne off with die"""
    return h.And([me[i] == 0 for i in range(6, 25)] + [h.at(me, n) > 0, n + 1 <= die] +
                 [h.Or(n + 1 == die, h.And([h.Or(i <= n, me[i] == 0) for i in range(0, 6)]))])


def legal_step(h, me, op, src, die, dest, hit):
    return h.And(movable_at(h, me, src),
                 h.Ite(dest >= 0, h.And(dest == src - die, h.at(op, h.Ite(dest >= 0, 23 - dest, 0)) < 2,
                                        h.Iff(hit, h.at(op, h.Ite(dest >= 0, 23 - dest, 0)) == 1)),
                       h.And(dest == -1, bears_off(h, me, src, die), h.Not(hit))))


def play(h, me, op, src, dest, hit):
    me = h.upd(h.upd(me, src, lambda x: x - 1), h.Ite(dest >= 0, dest, 0), lambda x: x + h.Ite(dest >= 0, 1, 0))
    op = h.upd(op, h.Ite(dest >= 0, 23 - dest, 0), lambda x: x - h.Ite(hit, 1, 0))
    return me, op[:24] + [op[24] + h.Ite(hit, 1, 0)]


def setup(h, side, cnt):
    m = h.mod('bglib.model.move')
    me, op = h.dist('me'), h.dist('op')
    # a point is never held by both sides
    for i in range(24):
        h.assume(h.Or(me[i] == 0, op[23 - i] == 0))
    vals = dict(position=(me, op) if side == 0 else (op, me), on_action=side, on_inner_action=side, game_state=1,
                rolled=(1, 2))
    b = editor(h, vals)
    mf = h.new(m.MoveFactory, b)
    for i in DICE:
        mf.available[i] = cnt[i - 1]
    # some move has been built already
    p = h.new(m.PartialMove, h.int('dieb', 1, 6), h.int('srcb', 0, 24), h.int('destb', -1, 23), h.bool('hitb'))
    h.call(mf.move.append, p)
    return me, op, b, mf, p


def as_before(h, b, mf, side, me, op, cnt, p):
    x, y = b.position[side], b.position[1 - side]
    mv = h.list(mf.move)
    return h.And([x[i] == me[i] for i in range(25)] + [y[i] == op[i] for i in range(25)] +
                 [mf.available[d] == cnt[d - 1] for d in DICE] +
                 [len(mv) == 1 and h.same(mv[0], p), b.on_action == side, b.on_inner_action == side,
                  b.game_state == 1])


@R.harness(side=[0, 1], left=LEFT)
def chain(h, side, left):
    cnt = multiset(left)
    me, op, b, mf, p = setup(h, side, cnt)
    src, dest = h.int('src', 0, 24), h.int('dest', -1, 23)
    h.assume(dest < src)
    h.use(single_step_contract(h))
    r = h.call(mf.guess_your_multiple_pms, src, dest)
    h.check('answers', r.ok)
    if not r.ok:
        return
    h.check('asking leaves the game as it was', as_before(h, b, mf, side, me, op, cnt, p))
    if not h.split(h.truth(r.value)):
        return
    steps = h.list(r.value)
    h.check('a move', h.isinst(r.value, h.mod('bglib.model.move').Move))
    h.check('starts at the source', steps[0].src == src)
    h.check('ends at the destination', steps[-1].dest == dest)
    me, op, cnt = list(me), list(op), list(cnt)
    for i, s in enumerate(steps):
        if i:
            h.check('each step starts where the previous one ended', s.src == steps[i - 1].dest)
        h.check('each step uses a die that is left', h.Or([h.And(s.die == d, cnt[d - 1] > 0) for d in DICE]))
        hit = h.truth(s.is_hitting)
        h.check('each step is legal when it is played', legal_step(h, me, op, s.src, s.die, s.dest, hit))
        me, op = play(h, me, op, s.src, s.dest, hit)
        cnt = [cnt[d - 1] - h.Ite(s.die == d, 1, 0) for d in DICE]


@R.harness(side=[0, 1], src=list(range(25)))
def single_step(h, side, src):
    """the contract used above, on the real body, for a board and dice given by the caller"""
    m = h.mod('bglib.model.move')
    me, op = h.dist('me'), h.dist('op')
    b = editor(h, dict(position=(me, op) if side == 0 else (op, me), on_action=side))
    mf = h.new(m.MoveFactory, editor(h, dict(rolled=(1, 2))))
    cnt = c10.dice_left(h)
    av = h.new(m.AvailableToPlay, (0, 0))
    for d in DICE:
        av[d] = cnt[d - 1]
    r = h.call(mf.guess_your_single_pm_from_source, src, b, av)
    h.check('answers', r.ok)
    if not r.ok:
        return
    pm = r.value
    can = [h.And(cnt[d - 1] > 0, c10.legal(h, me, op, src, d)) for d in DICE]
    if h.split(h.truth(pm)):
        h.check('largest die that gives a legal step',
                h.And([h.Or([h.And(pm.die == d, can[d - 1]) for d in DICE])] +
                      [h.Implies(can[d - 1], pm.die >= d) for d in DICE]))
        want = h.And(pm.dest >= 0, h.at(op, h.Ite(pm.dest >= 0, 23 - pm.dest, 0)) == 1)
        h.check('source, destination, hit',
                h.And(pm.src == src, h.Ite(pm.die <= src, pm.dest == src - pm.die, pm.dest == -1),
                      h.Iff(h.truth(pm.is_hitting), want)))
    else:
        h.check('refused only when nothing is legal', h.Not(h.Or(can)))
    x, y = b.position[side], b.position[1 - side]
    h.check('board unchanged', h.And([x[i] == me[i] for i in range(25)] + [y[i] == op[i] for i in range(25)]))
    h.check('dice unchanged', h.And([av[d] == cnt[d - 1] for d in DICE]))
    h.check('nothing recorded', len(h.list(mf.move)) == 0)
