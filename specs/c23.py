"""C23: the drawn board shows exactly the given position."""
from dv.spec import Registry
from specs.common import *
R = Registry()
HARNESSES, TASKS = R.harnesses, R.tasks
MODULES = MODEL + ['bglib.image.base', 'bglib.image.css']
RANDOM = 60
LEVEL = 'proof'
NAMES = ['you', 'him']


def inputs(h, side, phase):
    """a board as it can occur in play: at most fifteen checkers a side, and no dice while an answer is awaited"""
    v = board_values(h, total=15)
    v['on_action'] = side
    if phase == 'move':
        v['rolled'] = (h.int('r1', 1, 6), h.int('r2', 1, 6))
    else:
        v['rolled'] = (0, 0)
    v['on_inner_action'] = 1 - side if phase in ('double', 'resign') else side
    if phase == 'double':
        v['doubled'] = True
    elif phase == 'taken':
        v['doubled'] = True
    elif phase in ('resign', 'roll'):
        v['doubled'] = False
    if phase == 'resign':
        v['resign_offer'] = h.int('offer', 1, 3)
    return v


PHASES = ['roll', 'move', 'double', 'taken', 'resign']


def picture(h, v):
    b = board(h, v)
    E = h.mod('bglib.image.base').ElementTree
    return h.call(E, b)


def elems(h, e, name=None):
    B = h.mod('bglib.image.base').BaseElement
    return [c for c in h.list(e.children) if h.isinst(c, B) and (name is None or c.name == name)]


def texts(h, e):
    B = h.mod('bglib.image.base').BaseElement
    return [c for c in h.list(e.children) if not h.isinst(c, B)]


def shows(h, e, value):
    t = texts(h, e)
    return len(t) == 1 and not elems(h, e) and h.eq(t[0], h.digits(value))


def holds(h, label, e, counts):
    """the element shows for each player as many checkers as given, at most one stack a player"""
    got = elems(h, e, 'chequer')
    for w in (YOU, HIM):
        n = counts.get(w, 0)
        mine = [c for c in got if h.eq(c.player, NAMES[w])]
        if len(mine) == 1:
            h.check(label, h.And(n != 0, shows(h, mine[0], n)))
        else:
            h.check(label, h.And(len(mine) == 0, h.eq(n, 0)))


@R.harness(side=[0, 1], phase=PHASES, part=['bar', 'home', 'points'],
           _merge_ifs=True, _merge_depth=99, _weight=2)
def checkers(h, side, phase, part):
    v = inputs(h, side, phase)
    r = picture(h, v)
    h.check('a picture is made', r.ok)
    if not r.ok:
        return
    t, pos = r.value, v['position']

    def bar(w):
        h.check('the bar is that of its player', h.eq(t.bar[w].player, NAMES[w]))
        holds(h, 'the bar shows the checkers its player has there', t.bar[w], {w: pos[w][24]})

    def home(w):
        h.check('the home is that of its player', h.eq(t.home[w].player, NAMES[w]))
        holds(h, 'the home shows the rest of fifteen', t.home[w], {w: 15 - h.sum(list(pos[w]))})

    def point(i):
        holds(h, 'a point shows the checkers each player has there, seen from your side', t.points[i],
              {YOU: pos[YOU][i - 1], HIM: pos[HIM][24 - i]})
        x = texts(h, t.points[i])
        h.check('the points carry their numbers', len(x) == 1 and h.eq(x[0], str(i)))
    if part == 'bar':
        h.each((YOU, HIM), bar)
    elif part == 'home':
        h.each((YOU, HIM), home)
    else:
        h.each(range(1, 25), point)


CAPTION = {('roll', 0): (0, 'you to roll or double.'), ('roll', 1): (1, 'him to roll or double.'),
           ('move', 0): (0, 'you to move.'), ('move', 1): (1, 'him to move.'),
           ('double', 0): (None, 'you doubled. him to take or drop.'),
           ('double', 1): (None, 'he doubled. you to take or drop.'),
           ('taken', 0): (0, 'you doubled. he took. you to roll.'),
           ('taken', 1): (1, 'he doubled. you took. him to roll.'),
           ('resign', 0): (1, 'him to accept your resignation or not.'),
           ('resign', 1): (0, 'you to accept his resignation or not.')}


@R.harness(side=[0, 1], phase=PHASES, _merge_ifs=True, _merge_depth=99)
def the_rest(h, side, phase):
    v = inputs(h, side, phase)
    r = picture(h, v)
    h.check('a picture is made', r.ok)
    if not r.ok:
        return
    t = r.value
    for w in (YOU, HIM):
        h.check('each player has the score given', h.And(h.eq(t.score[w].player, NAMES[w]),
                                                         shows(h, t.score[w], v['score'][w])))
    h.check('the match length is shown as given', shows(h, t.length, v['match_length']))
    c = texts(h, t.crawford)
    h.check('Crawford is shown as given',
            len(c) == 1 and h.Iff(h.eq(c[0], 'True'), v['crawford']))
    # the cube
    cubes = []
    for name, e in [('home', t.home[YOU]), ('home', t.home[HIM]), ('center', t.cubeholder), ('field', t.field[YOU]),
                    ('field', t.field[HIM])]:
        for x in elems(h, e, 'cube'):
            cubes.append((name, e, x))
    h.check('the cube appears exactly once', len(cubes) == 1)
    if len(cubes) == 1:
        name, e, x = cubes[0]
        if phase == 'double':
            h.check('an offered cube lies before the player to answer, at twice its value',
                    h.And(h.same(e, t.field[1 - side]), shows(h, x, v['cube_in_logarithm'] + 1)))
        else:
            own = v['cube_owner']
            h.check('the cube is with its owner or in the centre, at its value',
                    h.And(h.same(e, t.home[YOU] if own == YOU else t.home[HIM] if own == HIM else t.cubeholder),
                          shows(h, x, v['cube_in_logarithm'])))
    # dice, resignation
    for w in (YOU, HIM):
        f = t.field[w]
        h.check('each field is that of its player', h.eq(f.player, NAMES[w]))
        dice, res = elems(h, f, 'die'), elems(h, f, 'resign')
        if phase == 'move' and w == side:
            h.check('the two dice of the player to move', len(dice) == 2)
            if len(dice) == 2:
                by = dict([(str(d.id), d) for d in dice])
                h.check('right and left', sorted(by) == ['left', 'right'])
                if sorted(by) == ['left', 'right']:
                    h.check('with their numbers', h.And(shows(h, by['right'], v['rolled'][0]),
                                                        shows(h, by['left'], v['rolled'][1])))
        else:
            h.check('no other dice', len(dice) == 0)
        if phase == 'resign' and w != side:
            h.check('the resignation lies before the player to answer, with its level',
                    len(res) == 1 and shows(h, res[0], v['resign_offer']))
        else:
            h.check('no other resignation', len(res) == 0)
        h.check('nothing else on the field',
                len(elems(h, f)) == len(dice) + len(res) + len(elems(h, f, 'cube')) and not texts(h, f))
    # the caption
    who, text = CAPTION[phase, side]
    c = texts(h, t.action)
    h.check('one caption, that of the situation', len(c) == 1 and h.eq(c[0], text))
    p = t.action.player
    h.check('of the player concerned', h.Or(h.eq(p, NAMES[0]), h.eq(p, NAMES[1])) if who is None
            else h.eq(p, NAMES[who]))


@R.harness(side=[0, 1], phase=PHASES, _merge_ifs=True, _merge_depth=99)
def layout(h, side, phase):
    """every piece is in the picture exactly once, in its place"""
    v = inputs(h, side, phase)
    r = picture(h, v)
    h.check('a picture is made', r.ok)
    if not r.ok:
        return
    t = r.value
    top = elems(h, t.board)
    h.check('a board holds the match and the position',
            len(top) == 2 and h.same(top[0], t.match) and h.same(top[1], t.position))
    m = elems(h, t.match)
    want = [t.action, t.length, t.crawford, t.score[YOU], t.score[HIM]]
    h.check('the match holds its five parts once', len(m) == 5 and
            len([1 for x in want for y in m if h.same(x, y)]) == 5)
    p = elems(h, t.position)
    want = [t.cubeholder] + [t.field[w] for w in (YOU, HIM)] + [t.home[w] for w in (YOU, HIM)] + \
        [t.bar[w] for w in (YOU, HIM)] + [t.points[i] for i in range(1, 25)]
    h.check('the position holds every point, bar, home and field once',
            len([1 for x in want for y in p if h.same(x, y)]) == len(want) and len(p) == len(want) + 2)
    h.check('in order', [i for i in range(1, 25) for y in p if h.same(y, t.points[i])] == list(range(1, 25)))
    h.check('of the shown position only', len(h.list(t.points)) == 25)
