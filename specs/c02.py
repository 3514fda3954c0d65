"""C02: boards are immutable values; editing never leaks between copies."""
from dv.spec import Registry
from specs.common import *
R = Registry()
HARNESSES, TASKS = R.harnesses, R.tasks
MODULES = MODEL
RANDOM = 60


def other(h, key):
    """another arbitrary value for one attribute"""
    return board_values(h, '_new')[key]


@R.harness()
def construct_all(h):
    v = board_values(h)
    b = board(h, v)
    h.check('board has the given values', attrs_eq(h, b, v))
    e = editor(h, v)
    h.check('editor has the given values', attrs_eq(h, e, v))
    e2 = h.new(h.mod('bglib.model.boardeditor').BoardEditor, b)
    h.check('editor of a board agrees with it', attrs_eq(h, e2, v))
    e3 = h.new(h.mod('bglib.model.boardeditor').BoardEditor, e)
    h.check('editor of an editor agrees with it', attrs_eq(h, e3, v))
    r = h.call(e3.freeze)
    h.check('freeze returns', r.ok)
    if r.ok:
        h.check('freeze gives a Board', h.isinst(r.value, h.mod('bglib.model.board').Board))
        h.check('frozen board has the values', attrs_eq(h, r.value, v))
        h.check('frozen board equals the source', h.truth(h.eq(r.value, b)))


@R.harness(key=KEYS, mode=['only', 'allbut'])
def construct_some(h, key, mode):
    """given keywords override the source or the defaults; the rest comes from there"""
    D = dict(h.mod('bglib.model.board').AbstractBoard.defaults)
    h.check('twelve attributes', h.And([k in D for k in KEYS] + [len(D) == 12]))
    v = board_values(h)
    given = dict([(k, v[k]) for k in KEYS if (k == key) == (mode == 'only')])
    want = dict(D)
    want.update(given)
    h.check('board keywords override defaults', attrs_eq(h, board(h, given), want))
    h.check('editor keywords override defaults', attrs_eq(h, editor(h, given), want))
    src = board_values(h, '_src')
    want = dict(src)
    want.update(given)
    sb = board(h, src)
    BE = h.mod('bglib.model.boardeditor').BoardEditor
    e = h.new(BE, sb, **given)
    h.check('editor keywords override a board', attrs_eq(h, e, want))
    se = editor(h, src)
    e2 = h.new(BE, se, **given)
    h.check('editor keywords override an editor', attrs_eq(h, e2, want))
    h.check('sources unchanged', h.And(attrs_eq(h, sb, src), attrs_eq(h, se, src)))
    D2 = h.mod('bglib.model.board').AbstractBoard.defaults
    h.check('defaults unchanged', h.And([eqv(h, D2[k], D[k]) for k in KEYS]))


@R.harness()
def unknown_keyword(h):
    r = h.call(h.mod('bglib.model.board').Board, no_such_attribute=1)
    h.check('unknown keyword refused', not r.ok)


@R.harness(key=KEYS)
def immutable(h, key):
    v = board_values(h)
    b = board(h, v)
    x = other(h, key)
    r = h.do(lambda: setattr(b, key, x))
    h.check('assignment refused', h.exc_is(r, 'TypeError'))
    h.check('board unchanged', attrs_eq(h, b, v))
    r = h.do(lambda: setattr(b, 'brand_new', x))
    h.check('new attribute refused', h.exc_is(r, 'TypeError'))
    r = h.do(lambda: h.delete(b, key))
    h.check('deletion refused', h.exc_is(r, 'TypeError'))
    h.check('board unchanged', attrs_eq(h, b, v))


@R.harness(key=KEYS)
def no_leak(h, key):
    v = board_values(h)
    x = other(h, key)
    BE = h.mod('bglib.model.boardeditor').BoardEditor
    b = board(h, v)
    e = h.new(BE, b)
    sib = h.new(BE, e)
    early = e.freeze()
    r = h.do(lambda: setattr(e, key, x))
    h.check('editing works', r.ok)
    want = dict(v)
    want[key] = x
    h.check('edited attribute set, others kept', attrs_eq(h, e, want))
    h.check('source board unchanged', attrs_eq(h, b, v))
    h.check('sibling editor unchanged', attrs_eq(h, sib, v))
    h.check('earlier frozen board unchanged', attrs_eq(h, early, v))
    late = e.freeze()
    h.check('later frozen board has the edit', attrs_eq(h, late, want))
    child = h.new(BE, late)
    r = h.do(lambda: setattr(child, key, v[key]))
    h.check('frozen board does not follow its editor', h.And(attrs_eq(h, late, want), attrs_eq(h, e, want)))
    h.check('fresh board has the defaults', eqv(h, getattr(h.new(h.mod('bglib.model.board').Board), key),
                                                h.mod('bglib.model.board').AbstractBoard.defaults[key]))


@R.harness(side=[0, 1])
def no_leak_through_moves(h, side):
    v = board_values(h, side=side)
    BE = h.mod('bglib.model.boardeditor').BoardEditor
    b = board(h, v)
    e = h.new(BE, b)
    sib = h.new(BE, e)
    early = e.freeze()
    src, dest = h.int('src', 0, 24), h.int('dest', -1, 23)
    h.assume(src > dest)
    pm = h.new(h.mod('bglib.model.move').PartialMove, 1, src, dest, h.And(h.bool('hit'), dest >= 0))
    h.call(e.make_partial_move, pm)
    h.call(e.flip)
    h.call(e.pickupdice)
    h.check('source, sibling, frozen board unchanged',
            h.And(attrs_eq(h, b, v), attrs_eq(h, sib, v), attrs_eq(h, early, v)))


@R.harness(kind=['board', 'editor'], owners=['same', 'different'])
def equality(h, kind, owners):
    v = board_values(h, owner=3 if owners == 'same' else 0)
    w = board_values(h, '_w', owner=3 if owners == 'same' else 1)
    mk = board if kind == 'board' else editor
    a, b = mk(h, v), mk(h, w)
    alleq = h.And([eqv(h, v[k], w[k]) for k in KEYS])
    r = h.callm(lambda: a == b)
    h.check('== returns', r.ok)
    if r.ok:
        h.check('equal exactly when all attributes are equal', h.Iff(h.truth(r.value), alleq))
    r = h.callm(lambda: a != b)
    h.check('!= returns', r.ok)
    if r.ok:
        h.check('unequal exactly when some attribute differs', h.Iff(h.truth(r.value), h.Not(alleq)))
    h.check('comparison changes nothing', h.And(attrs_eq(h, a, v), attrs_eq(h, b, w)))


@R.harness(key=KEYS, kind=['board', 'editor'])
def equality_one(h, key, kind):
    """a difference in one attribute alone decides"""
    v = board_values(h)
    w = dict(v)
    w[key] = other(h, key)
    mk = board if kind == 'board' else editor
    a, b = mk(h, v), mk(h, w)
    r = h.callm(lambda: a == b)
    h.check('== returns', r.ok)
    if r.ok:
        h.check('equal exactly when the attribute is equal', h.Iff(h.truth(r.value), eqv(h, v[key], w[key])))
    r = h.callm(lambda: a != b)
    h.check('!= returns', r.ok)
    if r.ok:
        h.check('unequal exactly when it differs', h.Iff(h.truth(r.value), h.Not(eqv(h, v[key], w[key]))))


@R.harness(kind=['board', 'editor'], what=['int', 'none', 'str', 'tuple'])
def not_a_board(h, kind, what):
    v = board_values(h)
    a = (board if kind == 'board' else editor)(h, v)
    x = {'int': 0, 'none': None, 'str': 'x', 'tuple': ()}[what]
    h.check('== with a non-board is a type error', h.exc_is(h.do(lambda: a == x), 'TypeError'))
    h.check('!= with a non-board is a type error', h.exc_is(h.do(lambda: a != x), 'TypeError'))
