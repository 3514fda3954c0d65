"""C06: who may act, and what acting does."""
from dv.spec import Registry
from specs.common import *
R = Registry()
HARNESSES, TASKS = R.harnesses, R.tasks
MODULES = MODEL
ON_GOING, RESIGNED, DOUBLED_OUT = 1, 3, 4


def cond(h, q, v, who):
    no_dice = h.And(v['rolled'][0] == 0, v['rolled'][1] == 0)
    own = h.And(v['on_action'] == who, v['on_inner_action'] == who)
    pending = v['resign_offer'] != 0
    cube = h.And(v['doubled'], v['on_inner_action'] != v['on_action'], v['on_inner_action'] == who)
    return {
        'is_leagal_to_roll': lambda: h.And(v['game_state'] == ON_GOING, h.Not(pending), no_dice, own),
        'is_leagal_to_move': lambda: h.And(v['game_state'] == ON_GOING, h.Not(pending), h.Not(no_dice), own),
        'is_leagal_to_resign': lambda: own,
        'is_cube_take_or_pass': lambda: cube,
        'is_leagal_to_redouble': lambda: h.And(cube, v['match_length'] == 0),
        'is_to_accept_resign': lambda: h.And(pending, v['on_inner_action'] == who),
    }[q]()


def rolled_ok(h, v):
    d1, d2 = v['rolled']
    h.assume(h.Iff(d1 == 0, d2 == 0))


@R.harness(q=['is_leagal_to_roll', 'is_leagal_to_move', 'is_leagal_to_resign', 'is_cube_take_or_pass',
              'is_leagal_to_redouble', 'is_to_accept_resign'], who=[0, 1], kind=['board', 'editor', 'used'])
def legality(h, q, who, kind):
    v = board_values(h)
    rolled_ok(h, v)
    if kind == 'used':
        b = used(h, v, lambda e: h.callm(getattr(e, q), h.int('who before', 0, 1)))
    else:
        b = (board if kind == 'board' else editor)(h, v)
    r = h.callm(getattr(b, q), who)
    h.check('answers', r.ok)
    if r.ok:
        h.check('exactly when it is that player\'s action', h.Iff(h.truth(r.value), cond(h, q, v, who)))
    h.check('asking changes nothing', attrs_eq(h, b, v))


def act(h, v, name, allowed, *args):
    """performs an action; returns the editor if it was accepted"""
    e = editor(h, v)
    r = h.callm(getattr(e, name), *args)
    h.check('accepted exactly when legal', h.Iff(r.ok, allowed))
    if not r.ok:
        h.check('a refused action changes nothing', attrs_eq(h, e, v))
        return None
    return e


@R.harness(who=[0, 1])
def double(h, who):
    v = board_values(h)
    rolled_ok(h, v)
    h.assume(h.And(v['rolled'][0] == 0, v['game_state'] == ON_GOING))
    e0 = editor(h, v)
    q = h.callm(e0.is_leagal_to_double, who)
    h.check('answers', q.ok)
    if not q.ok:
        return
    e = act(h, v, 'double', h.truth(q.value), who)
    if e is not None:
        h.check('decision goes to the opponent', h.And(e.on_inner_action == 1 - who, h.truth(e.doubled)))
        h.check('nothing else', unchanged_except(h, e, v, 'on_inner_action', 'doubled'))


@R.harness(who=[0, 1])
def take(h, who):
    v = board_values(h)
    e = act(h, v, 'take', cond(h, 'is_cube_take_or_pass', v, who), who)
    if e is not None:
        h.check('decision goes back', e.on_inner_action == v['on_action'])
        h.check('nothing else', unchanged_except(h, e, v, 'on_inner_action'))


@R.harness(who=[0, 1])
def drop(h, who):
    v = board_values(h)
    e = act(h, v, 'drop', cond(h, 'is_cube_take_or_pass', v, who), who)
    if e is not None:
        h.check('game over', e.game_state == DOUBLED_OUT)
        h.check('doubler is paid the cube value', h.And(e.score[1 - who] == v['score'][1 - who] + h.pow2(v['cube_in_logarithm']),
                                                       e.score[who] == v['score'][who]))
        h.check('nothing else', unchanged_except(h, e, v, 'game_state', 'score'))


@R.harness(who=[0, 1])
def offer_resign(h, who):
    v = board_values(h)
    n = h.int('how_much', -2, 6)
    e = act(h, v, 'offer_resign', h.And(cond(h, 'is_leagal_to_resign', v, who), n >= 1, n <= 3), who, n)
    if e is not None:
        h.check('offer recorded and passed to the opponent', h.And(e.resign_offer == n, e.on_inner_action == 1 - who))
        h.check('nothing else', unchanged_except(h, e, v, 'resign_offer', 'on_inner_action'))


@R.harness(who=[0, 1])
def accept_resign(h, who):
    v = board_values(h)
    e = act(h, v, 'accept_resign', cond(h, 'is_to_accept_resign', v, who), who)
    if e is not None:
        h.check('game over', e.game_state == RESIGNED)
        h.check('accepting player is paid',
                h.And(e.score[who] == v['score'][who] + v['resign_offer'] * h.pow2(v['cube_in_logarithm']),
                      e.score[1 - who] == v['score'][1 - who]))
        h.check('nothing else', unchanged_except(h, e, v, 'game_state', 'score'))


@R.harness(who=[0, 1])
def reject_resign(h, who):
    v = board_values(h)
    e = act(h, v, 'reject_resign', cond(h, 'is_to_accept_resign', v, who), who)
    if e is not None:
        h.check('offer withdrawn and turn handed back', h.And(e.resign_offer == 0, e.on_inner_action == 1 - who))
        h.check('nothing else', unchanged_except(h, e, v, 'resign_offer', 'on_inner_action'))


@R.harness()
def pickupdice(h):
    v = board_values(h)
    e = editor(h, v)
    r = h.callm(e.pickupdice)
    h.check('returns', r.ok)
    h.check('turn passes, dice up', h.And(e.on_action == 1 - v['on_action'], e.on_inner_action == 1 - v['on_inner_action'],
                                          eqv(h, e.rolled, (0, 0))))
    h.check('nothing else', unchanged_except(h, e, v, 'on_action', 'on_inner_action', 'rolled'))


@R.harness()
def opponent(h):
    """get_opp is the involution on players"""
    u = h.mod('bglib.model.util')
    p = h.int('p', -3, 5)
    r = h.call(u.get_opp, p)
    if r.ok:
        h.check('players only', h.Or(p == 0, p == 1))
        h.check('the other player', r.value == 1 - p)
    else:
        h.check('refused only for a non-player', h.And(p != 0, p != 1, h.exc_is(r, 'ValueError')))
