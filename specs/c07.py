"""C07: doubling is offered by the same rule to both players."""
from dv.spec import Registry
from specs.common import *
R = Registry()
HARNESSES, TASKS = R.harnesses, R.tasks
MODULES = MODEL
ON_GOING = 1


def before_roll(h, side=None):
    v = board_values(h, side=side)
    v['rolled'] = (0, 0)
    v['game_state'] = ON_GOING
    return v


@R.harness(side=[0, 1], who=[0, 1], kind=['board', 'editor', 'used'])
def may_double(h, side, who, kind):
    v = before_roll(h, side)
    if kind == 'used':
        b = used(h, v, lambda e: h.callm(e.is_leagal_to_double, h.int('who before', 0, 1)))
    else:
        b = (board if kind == 'board' else editor)(h, v)
    r = h.callm(b.is_leagal_to_double, who)
    h.check('answers', r.ok)
    if r.ok:
        want = h.And(side == who, v['on_inner_action'] == who, h.Not(v['crawford']), h.Not(v['doubled']),
                     h.Or(v['match_length'] == 0,
                          v['score'][who] + h.pow2(v['cube_in_logarithm']) < v['match_length']))
        h.check('exactly by the rule', h.Iff(h.truth(r.value), want))
    h.check('asking changes nothing', attrs_eq(h, b, v))


@R.harness()
def mirrored(h):
    v = before_roll(h, 0)
    w = dict(v)
    w['on_action'] = 1
    w['on_inner_action'] = 1 - v['on_inner_action']
    w['score'] = (v['score'][1], v['score'][0])
    w['position'] = (v['position'][1], v['position'][0])
    w['cube_owner'] = v['cube_owner'] if v['cube_owner'] == 3 else 1 - v['cube_owner']
    a, b = editor(h, v), editor(h, w)
    for who in (0, 1):
        x = h.callm(a.is_leagal_to_double, who)
        y = h.callm(b.is_leagal_to_double, 1 - who)
        h.check('both answer', h.And(x.ok, y.ok))
        if x.ok and y.ok:
            h.check('same answer for the mirrored board', h.Iff(h.truth(x.value), h.truth(y.value)))
