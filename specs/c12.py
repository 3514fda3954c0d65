"""C12: building a move keeps board, dice and move in step."""
from dv.spec import Registry
from specs.common import *
from specs import c01, c09, c11
R = Registry()
HARNESSES, TASKS = R.harnesses, R.tasks
MODULES = MODEL
RANDOM = 200
ASSUMPTIONS = ['converting a printed object to text terminates normally (debug prints are not modelled)',
               'is_leagal_to_pickup_dice: guess_your_single_pm_from_source and guess_your_multiple_pms are used '
               'by their contracts, discharged by the checks of C10 and C11 and by single_step there']
DICE = [1, 2, 3, 4, 5, 6]
MULTI = 'bglib.model.move:MoveFactory.guess_your_multiple_pms'


def factory(h, side, n):
    """an arbitrary board and dice, with n steps recorded, none of which reverses another"""
    m = h.mod('bglib.model.move')
    v = board_values(h, side=side)
    b = editor(h, v)
    ss = c09.steps(h, n, 'no', 'old')
    mf = h.new(m.MoveFactory, b, c09.build(h, ss))
    cnt = h.ints('left', 6, 0)
    for d in DICE:
        mf.available[d] = cnt[d - 1]
    return mf, b, v, ss, cnt


def new_step(h, die, tag='new'):
    src, dest, hit = c01.step_input(h, 0, tag)
    w = dict(die=die, src=src, dest=dest, is_hitting=hit)
    return h.new(h.mod('bglib.model.move').PartialMove, die, src, dest, hit), w


def board_after(h, v, side, w):
    pos = v['position']
    x, y = pos[side], pos[1 - side]
    a, b = c01.effect(h, x, y, w['src'], w['dest'], w['is_hitting'])
    want = dict(v)
    want['position'] = (tuple(a), tuple(b)) if side == 0 else (tuple(b), tuple(a))
    return want


def dice(h, mf, cnt):
    return h.And([mf.available[d] == cnt[d - 1] for d in DICE])


@R.harness(side=[0, 1], n=[0, 1, 2, 3], die=DICE, _quick=lambda side, n, die: n < 3)
def append(h, side, n, die):
    h.bounded('records of up to three earlier steps (board and dice arbitrary)')
    mf, b, v, ss, cnt = factory(h, side, n)
    p, w = new_step(h, die)
    vs = [x for q, x in ss]
    forward = h.split(w['src'] > w['dest'])
    r = h.call(mf.append, p)
    if forward:
        h.check('a step is refused exactly when its die is not left', h.Iff(r.ok, cnt[die - 1] > 0))
    else:
        h.check('a reverse step is accepted', r.ok)
    if not r.ok:
        h.check('refusal changes nothing', h.And(attrs_eq(h, b, v), dice(h, mf, cnt), c09.holds(h, mf.move, vs)))
        return
    k = -1 if forward else 1
    h.check('played on the board', attrs_eq(h, b, board_after(h, v, side, w)))
    h.check('its die is used, or given back', dice(h, mf, [c + (k if i == die - 1 else 0) for i, c in enumerate(cnt)]))
    h.check('recorded, or its exact reverse taken off the record', c09.holds(h, mf.move, c09.expected(h, vs, w)))
    h.check('the board is the one given', h.same(mf.board, b))


@R.harness(side=[0, 1], n=[0, 1, 2], die=DICE)
def reverse(h, side, n, die):
    h.bounded('records of up to two earlier steps (board and dice arbitrary)')
    mf, b, v, ss, cnt = factory(h, side, n)
    h.assume(cnt[die - 1] > 0)
    p, w = new_step(h, die)
    h.assume(w['src'] > w['dest'])
    vs = [x for q, x in ss]
    for x in vs:
        h.assume(h.Not(c09.reverses(h, x, w)))
    r = h.call(mf.append, p)
    h.check('accepted', r.ok)
    q = h.new(h.mod('bglib.model.move').PartialMove, die, w['dest'], w['src'], w['is_hitting'])
    r = h.call(mf.append, q)
    h.check('the reverse is accepted', r.ok)
    h.check('board restored', attrs_eq(h, b, v))
    h.check('die given back', dice(h, mf, cnt))
    h.check('taken off the record', c09.holds(h, mf.move, vs))


@R.harness(side=[0, 1], k=[0, 1, 2])
def add(h, side, k):
    """adding a move adds its steps one after another"""
    h.bounded('moves of up to two steps, one step recorded before')
    m = h.mod('bglib.model.move')
    mf, b, v, ss, cnt = factory(h, side, 1)
    vs = [x for q, x in ss]
    mv = h.new(m.Move)
    for i in range(k):
        die = h.int('die%d' % i, 1, 6)
        src, dest, hit = c01.step_input(h, 0, 'n%d' % i)
        h.assume(src > dest)
        p, w = h.new(m.PartialMove, die, src, dest, hit), dict(die=die, src=src, dest=dest, is_hitting=hit)
        h.call(mv.append, p)
        h.assume(h.at(cnt, die - 1) > 0)
        cnt = [c - h.Ite(die == d + 1, 1, 0) for d, c in enumerate(cnt)]
        vs = c09.expected(h, vs, w)
        v = board_after(h, v, side, w)
    r = h.call(mf.add, mv)
    h.check('accepted', r.ok)
    h.check('played in order', attrs_eq(h, b, v))
    h.check('dice used', dice(h, mf, cnt))
    h.check('recorded in order', c09.holds(h, mf.move, vs))


@R.harness(side=[0, 1], case=['none', 'some'], die=DICE, _quick=lambda side, case, die: die % 2 == side, **dict(c09.ANY, _merge=True))
def append_any(h, side, case, die):
    """a record of any length: k is the place of the latest step the new one reverses, if there is one"""
    m = h.mod('bglib.model.move')
    p, w = new_step(h, die)
    k, g = h.int('k', -1), {}
    h.assume(k == -1 if case == 'none' else k >= 0)
    a = g['m'] = c09.AnyMove(h, 'm', c09.latest(h, w, k), c09.search(h, g, k))
    h.assume(k < a.n)
    v = board_values(h, side=side)
    b = editor(h, v)
    mf = h.new(m.MoveFactory, b, a.m)
    cnt = h.ints('left', 6, 0)
    for d in DICE:
        mf.available[d] = cnt[d - 1]
    forward = h.split(w['src'] > w['dest'])
    r = h.call(mf.append, p)
    if forward:
        h.check('a step is refused exactly when its die is not left', h.Iff(r.ok, cnt[die - 1] > 0))
    else:
        h.check('a reverse step is accepted', r.ok)
    if not r.ok:
        h.check('refusal changes nothing', h.And(attrs_eq(h, b, v), dice(h, mf, cnt)))
        j = h.int('j', 0)
        for s in a.now(mf.move):
            h.check('refusal leaves the record', h.length(s) == a.n)
            if h.split(j < a.n):
                q = h.item(s, j)
                h.check('in order', c09.place(h, q) is not None and c09.place(h, q) == j)
        return
    c = -1 if forward else 1
    h.check('played on the board', attrs_eq(h, b, board_after(h, v, side, w)))
    h.check('its die is used, or given back', dice(h, mf, [x + (c if i == die - 1 else 0) for i, x in enumerate(cnt)]))
    c09.check_latest(h, a, mf.move, k, p)


@R.harness(**dict(c09.ANY, _merge=True))
def add_any(h):
    """adding a move of any length adds its steps one after another, up to the first that is refused (append by its contract)"""
    m = h.mod('bglib.model.move')
    count = {'n': 0, 'called': True}

    def refused(i):
        return h.uf('refused', i) == 1

    def holds_(i, loc):
        if not count['called'] or loop.way < 0:
            h.undecided('append is not used')
        return [('one step after another', count['n'] == i)]

    def state(i, loc):
        count['n'], count['called'] = i, False
    loop = h.default_loop = h.loop(holds_, state)
    a = c09.AnyMove(h, 'm', loop=loop)
    mf = h.new(m.MoveFactory, editor(h, board_values(h)))

    def append(h, self, pm):
        h.check('by the factory itself', h.same(self, mf))
        i = c09.place(h, pm)
        h.check('the next step', i is not None and i == count['n'])
        count['called'] = True
        if h.split(refused(i)):
            h.throw('AssertionError', 'refused')
        count['n'] = count['n'] + 1
    h.use(h.contract('bglib.model.move:MoveFactory.append', append))
    r = h.call(mf.add, a.m)
    if r.ok:
        h.check('every step added once', count['n'] == a.n)
    else:
        h.check('only a refused step ends it', h.And(h.exc_is(r, 'AssertionError'), refused(count['n'])))
    h.check('the added move is unchanged', h.And([h.length(s) == a.n for s in a.now()]))


@R.harness(kind=['dice', 'roll'])
def new_factory(h, kind):
    """a factory starts from the dice and move it is given, and keeps its own copies"""
    m = h.mod('bglib.model.move')
    v = board_values(h)
    if kind == 'roll':
        h.assume(h.And(h.Iff(v['rolled'][0] == 0, v['rolled'][1] == 0)))
        b = editor(h, v)
        mf = h.new(m.MoveFactory, b)
        d1, d2 = v['rolled']
        h.check('dice of the roll', h.And([mf.available[d] == h.Ite(
            d1 == 0, 0, h.Ite(d1 == d2, h.Ite(d1 == d, 4, 0), h.Ite(h.Or(d1 == d, d2 == d), 1, 0))) for d in DICE]))
        h.check('no step yet', len(h.list(mf.move)) == 0)
        return
    b = editor(h, v)
    ss = c09.steps(h, 1, 'no', 'old')
    given = c09.build(h, ss)
    av = h.new(m.AvailableToPlay, (0, 0))
    cnt = h.ints('left', 6, 0)
    h.assume(h.sum(cnt) > 0)
    for d in DICE:
        av[d] = cnt[d - 1]
    mf = h.new(m.MoveFactory, b, given, av)
    h.check('dice given', dice(h, mf, cnt))
    h.check('move given', c09.holds(h, mf.move, [ss[0][1]]))
    p, w = new_step(h, 3)
    h.call(mf.append, p)
    h.check("the caller's dice and move are its own",
            h.And([av[d] == cnt[d - 1] for d in DICE] + [c09.holds(h, given, [ss[0][1]])]))


def single_contract(h):
    """contract of guess_your_single_pm_from_source, weakened to the truth of its answer (discharged by the checks
    of C10 and C11): a step is suggested exactly when some die left gives a legal one; nothing is changed"""
    def apply_(h, self, src, b, available):
        b = self.board if b is None else b
        available = self.available if available is None else available
        me, op = b.position if b.on_action == 0 else (b.position[1], b.position[0])
        t = h.Or([h.And(available[d] > 0, can_play(h, me, op, src, d)) for d in DICE])
        return h.obj('Suggestion', {'__nonzero__': lambda: t})
    return h.contract(c11.SINGLE, apply_)


def multi_contract(h):
    """contract of guess_your_multiple_pms, weakened to its frame (the C11 check discharges it): it changes nothing
    and gives some move or refusal"""
    def apply_(h, self, src, dest, b, available, mv):
        n, t = h.havoc_int('steps', 0), h.havoc_bool('found')
        return h.obj('Suggestion', {'__len__': lambda: n, '__nonzero__': lambda: t})
    return h.contract(MULTI, apply_)


def leagal_step_left(h, me, op, cnt):
    return h.Or([h.And(cnt[d - 1] > 0, can_play(h, me, op, s, d)) for d in DICE for s in range(25)])


def can_play(h, me, op, src, die):
    mv = h.And(me[src] > 0, h.Or(me[24] == 0, src == 24))
    if src - die >= 0:
        return h.And(mv, op[23 - (src - die)] < 2)
    return h.And(mv, c11.bears_off(h, me, src, die))


@R.harness(side=[0, 1], rolled=['%d%d' % (a, b) for a in DICE for b in DICE if a >= b], played=[0, 1], _weight=2, _merge_ifs='ctrl',
           _quick=lambda side, rolled, played: played != side or rolled[0] == rolled[1])
def pickup(h, side, rolled, played):
    m = h.mod('bglib.model.move')
    d1, d2 = int(rolled[0]), int(rolled[1])
    me, op = h.dist('me'), h.dist('op')
    for i in range(24):
        h.assume(h.Or(me[i] == 0, op[23 - i] == 0))
    v = dict(position=(me, op) if side == 0 else (op, me), on_action=side, on_inner_action=side, game_state=1,
             rolled=(d1, d2))
    b = editor(h, v)
    mf = h.new(m.MoveFactory, b)
    cnt = [(4 if d1 == d2 else 1) if d in (d1, d2) else 0 for d in DICE]
    vs = []
    if played:
        # one legal step has been played with either die
        die = h.choice('which', [d1, d2])
        src = h.int('src', 0, 24)
        dest = h.Ite(src - die >= 0, src - die, -1)
        hit = h.And(dest >= 0, h.at(op, h.Ite(dest >= 0, 23 - dest, 0)) == 1)
        h.assume(c11.legal_step(h, me, op, src, die, dest, hit))
        p = h.new(m.PartialMove, die, src, dest, hit)
        h.call(mf.append, p)
        me, op = c11.play(h, list(me), list(op), src, dest, hit)
        cnt[die - 1] -= 1
        vs = [dict(die=die, src=src, dest=dest, is_hitting=hit)]
        v['position'] = (tuple(me), tuple(op)) if side == 0 else (tuple(op), tuple(me))
    h.use(single_contract(h), multi_contract(h))
    r = h.callm(mf.is_leagal_to_pickup_dice)
    h.check('answers', r.ok)
    if r.ok:
        h.check('no while a checker can be moved with a die that is left',
                h.Implies(leagal_step_left(h, me, op, cnt), h.Not(h.truth(r.value))))
    h.check('asking changes nothing', h.And(attrs_eq(h, b, v), dice(h, mf, cnt), c09.holds(h, mf.move, vs)))


@R.harness(side=[0, 1], d1=DICE)
def pickup_all_played(h, side, d1):
    m = h.mod('bglib.model.move')
    v = board_values(h, side=side)
    d2 = h.int('d2x', 1, 6)
    v['rolled'] = (d1, d2)
    b = editor(h, v)
    mf = h.new(m.MoveFactory, b)
    for d in DICE:
        mf.available[d] = 0
    r = h.call(mf.is_leagal_to_pickup_dice)
    h.check('yes when no die is left', h.And(r.ok, h.truth(r.value)))
    h.check('asking changes nothing', h.And(attrs_eq(h, b, v), dice(h, mf, [0] * 6)))
    r = h.call(mf.pickupdice)
    h.check('picking up passes the turn', h.And(r.ok, b.rolled[0] == 0, b.rolled[1] == 0, b.on_action == 1 - side))
