"""Shared input builders and specification functions (Python 2/3 common subset)."""
YOU, HIM, CENTER = 0, 1, 3
OFF, BAR = -1, 24
KEYS = ['position', 'cube_in_logarithm', 'cube_owner', 'on_action', 'crawford', 'game_state', 'on_inner_action',
        'doubled', 'resign_offer', 'rolled', 'match_length', 'score']
MODEL = ['bglib.model', 'bglib.model.board', 'bglib.model.boardeditor', 'bglib.model.move', 'bglib.model.util']


def board_values(h, tag='', side=None, owner=None, total=None):
    """an arbitrary value for each of the twelve attributes"""
    return dict(position=(h.dist('you' + tag, total), h.dist('him' + tag, total)),
                cube_in_logarithm=h.int('cube' + tag, 0, 20),
                cube_owner=h.choice('owner' + tag, [0, 1, 3]) if owner is None else owner,
                on_action=h.int('action' + tag, 0, 1) if side is None else side,
                crawford=h.bool('crawford' + tag), game_state=h.int('state' + tag, 0, 4),
                on_inner_action=h.int('inner' + tag, 0, 1),
                doubled=h.bool('doubled' + tag), resign_offer=h.int('resign' + tag, 0, 3),
                rolled=(h.int('d1' + tag, 0, 6), h.int('d2' + tag, 0, 6)), match_length=h.int('len' + tag, 0),
                score=(h.int('s1' + tag, 0), h.int('s2' + tag, 0)))


def eqv(h, a, b):
    """equality of attribute values, with the shape compared natively"""
    if isinstance(a, tuple) or isinstance(b, tuple):
        if not (isinstance(a, tuple) and isinstance(b, tuple)) or len(a) != len(b):
            return False
        return h.And([eqv(h, x, y) for x, y in zip(a, b)])
    return h.eq(a, b)


def attrs_eq(h, board, vals):
    return h.And([eqv(h, getattr(board, k), vals[k]) for k in sorted(vals)])


def unchanged_except(h, board, vals, *keys):
    return attrs_eq(h, board, dict([(k, v) for k, v in vals.items() if k not in keys]))


def editor(h, vals):
    return h.new(h.mod('bglib.model.boardeditor').BoardEditor, **vals)


def used(h, vals, before):
    """an editor that has been used with other values first: before(it), then every attribute assigned"""
    e = editor(h, board_values(h, ' before'))
    before(e)
    for k in sorted(vals):
        h.set(e, k, vals[k])
    return e


def board(h, vals):
    return h.new(h.mod('bglib.model.board').Board, **vals)


def opp(x):
    return 1 - x
