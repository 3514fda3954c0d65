"""C01: playing a checker step / a move has its exact effect and is undone by its reverse."""
from dv.spec import Registry
R = Registry()
HARNESSES, TASKS = R.harnesses, R.tasks
MODULES = ['bglib.model.board', 'bglib.model.boardeditor', 'bglib.model.move']
ATTRS = ['cube_in_logarithm', 'cube_owner', 'on_action', 'crawford', 'game_state', 'on_inner_action', 'doubled',
         'resign_offer', 'rolled', 'match_length', 'score']


def effect(h, to_move, to_hit, src, dest, hit):
    """specification: the two distributions after one step (OFF = -1, BAR = 24; going up is undoing)"""
    a, b = [], []
    undo = dest > src
    pt = h.Ite(undo, src, dest)
    for i in range(25):
        a.append(to_move[i] - h.Ite(src == i, 1, 0) + h.Ite(dest == i, 1, 0))
        n = h.Ite(undo, -1, 1)
        if i == 24:
            b.append(to_hit[i] + h.Ite(hit, n, 0))
        else:
            b.append(to_hit[i] - h.Ite(h.And(hit, pt == 23 - i), n, 0))
    return a, b


def other_attrs(h):
    return dict(cube_in_logarithm=h.int('cube', 0, 20), cube_owner=h.choice('owner', [0, 1, 3]),
                crawford=h.bool('crawford'), game_state=h.int('state', 0, 4), on_inner_action=h.int('inner', 0, 1),
                doubled=h.bool('doubled'), resign_offer=h.int('resign', 0, 3),
                rolled=(h.int('d1', 0, 6), h.int('d2', 0, 6)), match_length=h.int('len', 0),
                score=(h.int('s1', 0), h.int('s2', 0)))


def same_board(h, b, pos, side, attrs):
    cs = [b.position[k][i] == pos[k][i] for k in (0, 1) for i in range(25)]
    cs.append(b.on_action == side)
    for k in attrs:
        cs.append(h.eq(getattr(b, k), attrs[k]))
    return h.And(cs)


def step_input(h, side, tag=''):
    """a step and a position in which it can be played (or undone)"""
    src = h.int('src' + tag, -1, 24)
    dest = h.int('dest' + tag, -1, 24)
    hit = h.bool('hit' + tag)
    h.assume(src != dest)
    # hitting happens on points only: the landing point of the forward step is not off or the bar
    pt = h.Ite(dest > src, src, dest)
    h.assume(h.Implies(hit, h.And(pt >= 0, pt <= 23)))
    return src, dest, hit


@R.harness(side=[0, 1], kind=['new', 'used'])
def step(h, side, kind):
    you, him = h.dist('you'), h.dist('him')
    attrs = other_attrs(h)
    src, dest, hit = step_input(h, side)
    m = h.mod('bglib.model')
    if kind == 'new':
        b = h.new(m.BoardEditor, position=(you, him), on_action=side, **attrs)
    else:
        # a step of either player has been played on the editor before
        b = h.new(m.BoardEditor, position=(h.dist('you0'), h.dist('him0')), on_action=h.int('action0', 0, 1))
        s0, d0, h0 = step_input(h, side, '0')
        h.callm(b.make_partial_move, h.new(h.mod('bglib.model.move').PartialMove, h.int('die0', 1, 6), s0, d0, h0))
        for k, v in sorted(attrs.items()) + [('position', (you, him)), ('on_action', side)]:
            h.set(b, k, v)
    pm = h.new(h.mod('bglib.model.move').PartialMove, h.int('die', 1, 6), src, dest, hit)
    r = h.call(b.make_partial_move, pm)
    h.check('plays', r.ok)
    if not r.ok:
        return
    x, y = (you, him) if side == 0 else (him, you)
    ea, eb = effect(h, x, y, src, dest, hit)
    want = (ea, eb) if side == 0 else (eb, ea)
    h.check('mover moved exactly one checker', h.And([b.position[side][i] == ea[i] for i in range(25)]))
    h.check('opponent lost exactly the hit checker', h.And([b.position[1 - side][i] == eb[i] for i in range(25)]))
    h.check('nothing else changed', same_board(h, b, want, side, attrs))
    tot = h.sum(b.position[side]) - h.sum(x)
    h.check('checkers conserved', h.And(tot == h.Ite(dest == -1, -1, h.Ite(src == -1, 1, 0)),
                                        h.sum(b.position[1 - side]) == h.sum(y)))
    rev = h.new(h.mod('bglib.model.move').PartialMove, pm.die, dest, src, hit)
    r = h.call(b.make_partial_move, rev)
    h.check('reverse plays', r.ok)
    if r.ok:
        h.check('reverse restores', same_board(h, b, (you, him), side, attrs))


@R.harness(side=[0, 1], n=[0, 1, 2, 3])
def whole_move(h, side, n):
    """make(mv) = its steps one after another, in order (steps appended so that none cancels another)"""
    h.bounded('moves of up to 3 steps (4 in the thorough tier); each step by the step contract')
    you, him = h.dist('you'), h.dist('him')
    m = h.mod('bglib.model')
    mv = h.mod('bglib.model.move')
    b = h.new(m.BoardEditor, position=(you, him), on_action=side)
    b2 = h.new(m.BoardEditor, position=(you, him), on_action=side)
    move = h.new(mv.Move)
    steps = []
    for k in range(n):
        src, dest = h.int('src%d' % k, 0, 24), h.int('dest%d' % k, -1, 23)
        hit = h.bool('hit%d' % k)
        h.assume(src > dest)
        h.assume(h.Implies(hit, dest >= 0))
        pm = h.new(mv.PartialMove, h.int('die%d' % k, 1, 6), src, dest, hit)
        move.append(pm)
        steps.append(pm)
    a, o = (you, him) if side == 0 else (him, you)
    for pm in steps:
        a, o = effect(h, a, o, pm.src, pm.dest, pm.is_hitting)
    r = h.callm(b.make, move)
    h.check('make returns', r.ok)
    if not r.ok:
        return
    h.check('make = steps in order (mover)', h.And([b.position[side][i] == a[i] for i in range(25)]))
    h.check('make = steps in order (opponent)', h.And([b.position[1 - side][i] == o[i] for i in range(25)]))


@R.harness(side=[0, 1], _abstract=True, _replay=False, _random=False, _merge=False)
def whole_move_any(h, side):
    """a move of any number of steps: after i of them the board is as after i single steps (seen, by definition the fold of
    the effect of a step, at the places the loop comes to)"""
    from specs import c09
    attrs = other_attrs(h)
    m = h.mod('bglib.model')

    def fold(i, side_):
        return tuple([h.uf('fold %d %d' % (side_, p), i) for p in range(25)])

    def learned(i, v):
        """the step can be played where the move has led"""
        pt = h.Ite(v['dest'] > v['src'], v['src'], v['dest'])
        x, y = fold(i, side), fold(i, 1 - side)
        ea, eb = effect(h, x, y, v['src'], v['dest'], v['is_hitting'])
        nx, ny = fold(i + 1, side), fold(i + 1, 1 - side)
        return h.And([v['src'] != v['dest'], h.Implies(v['is_hitting'], h.And(pt >= 0, pt <= 23))] +
                     [h.And(nx[p] == ea[p], ny[p] == eb[p]) for p in range(25)])

    def pos(i):
        return (fold(i, 0), fold(i, 1))

    def holds(i, loc):
        if loop.way < 0:
            h.undecided('backwards')
        return [('the board is as after these steps', same_board(h, b, pos(i), side, attrs))]

    def state(i, loc):
        h.set(b, 'position', pos(i))
    loop = h.default_loop = h.loop(holds, state, modifies=lambda: ((b, 'position'),))
    a = c09.AnyMove(h, 'm', learned, loop)
    b = h.new(m.BoardEditor, position=pos(0 * a.n), on_action=side, **attrs)
    r = h.callm(b.make, a.m)
    h.check('make returns', r.ok)
    h.check('make = its steps one after another', same_board(h, b, pos(a.n), side, attrs))
    h.check('the move is unchanged', h.And([h.length(s) == a.n for s in a.now()]))
