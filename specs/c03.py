"""C03: flipping swaps the two players everywhere and is an involution."""
from dv.spec import Registry
from specs.common import *
R = Registry()
HARNESSES, TASKS = R.harnesses, R.tasks
MODULES = MODEL


def mirrored(h, v):
    w = dict(v)
    w['position'] = (v['position'][1], v['position'][0])
    w['score'] = (v['score'][1], v['score'][0])
    w['cube_owner'] = v['cube_owner'] if v['cube_owner'] == CENTER else 1 - v['cube_owner']
    w['on_action'] = 1 - v['on_action']
    w['on_inner_action'] = 1 - v['on_inner_action']
    return w


@R.harness(owner=[0, 1, 3], kind=['editor', 'used'])
def flip(h, owner, kind):
    v = board_values(h, owner=owner)
    e = editor(h, v) if kind == 'editor' else used(h, v, lambda x: h.callm(x.flip))
    r = h.call(e.flip)
    h.check('flip returns', r.ok)
    w = mirrored(h, v)
    for k in KEYS:
        h.check('flipped ' + k, eqv(h, getattr(e, k), w[k]))
    r = h.call(e.flip)
    h.check('second flip returns', r.ok)
    for k in KEYS:
        h.check('restored ' + k, eqv(h, getattr(e, k), v[k]))
