"""C13: point and move notation."""
from dv.spec import Registry
from specs.common import *
R = Registry()
HARNESSES, TASKS = R.harnesses, R.tasks
MODULES = MODEL
LABEL = ['your', 'his']


def util(h):
    return h.mod('bglib.model.util')


def place_text(h, n, side):
    """the label of a place for a player, as the notation defines it"""
    return h.digits(n + 1 if side == 0 else 24 - n)


@R.harness(side=[0, 1])
def write_position(h, side):
    u = util(h)
    n = h.int('n')
    r = h.call(u.position_ntop, n, side)
    if h.split(n >= 25):
        h.check('beyond the bar is refused', h.exc_is(r, 'ValueError'))
        return
    h.check('answers', r.ok)
    if h.split(n == 24):
        h.check('bar', h.eq(r.value, LABEL[side] + ' bar'))
    elif h.split(n < 0):
        h.check('home', h.eq(r.value, LABEL[side] + ' home'))
    else:
        h.check('point', h.eq(r.value, place_text(h, n, side)))
    back = h.call(u.position_pton, r.value, side)
    h.check('reading back gives the same place', h.And(back.ok, back.value == h.Ite(n < 0, -1, n)))


@R.harness(side=[0, 1])
def read_position(h, side):
    u = util(h)
    k = h.int('k')
    t = h.digits(k)
    r = h.call(u.position_pton, t, side)
    valid = h.And(k >= 1, k <= 24)
    h.check('exactly the points are read', h.Ite(valid, r.ok, h.exc_is(r, 'ValueError')))
    if r.ok:
        h.check('point', r.value == (k - 1 if side == 0 else 24 - k))
        w = h.call(u.position_ntop, r.value, side)
        h.check('writing back gives the same label', h.And(w.ok, h.eq(w.value, t)))


@R.harness(side=[0, 1], what=['home', 'bar'])
def read_special(h, side, what):
    u = util(h)
    t = LABEL[side] + ' ' + what
    r = h.call(u.position_pton, t, side)
    h.check('read', h.And(r.ok, r.value == (-1 if what == 'home' else 24)))
    w = h.call(u.position_ntop, r.value, side)
    h.check('writing back gives the same label', h.And(w.ok, h.eq(w.value, t)))


@R.harness(side=[0, 1], fn=['position_pton', 'move_pton'])
def read_other_text(h, side, fn):
    """arbitrary text that is not a number and not one of the names"""
    u = util(h)
    t = h.word('text', 'a b')
    h.assume(h.Not(h.isnumeral(t)))
    for w in ['your home', 'his home', 'your bar', 'his bar', 'bar', 'off']:
        h.assume(h.Not(h.eq(t, w)))
    r = h.call(getattr(u, fn), *([t, side] if fn == 'position_pton' else [t]))
    h.check('text that names no place is refused', h.exc_is(r, 'ValueError'))


@R.harness(fn=['position_pton', 'move_pton'],
           text=['', ' ', 'home', 'bar home', 'your', 'your  home', 'Bar', 'OFF', 'his off', '1 2', '1.0', '0x1', 'one', '-', '+'])
def read_near_miss(h, fn, text):
    u = util(h)
    r = h.call(getattr(u, fn), *([text, 0] if fn == 'position_pton' else [text]))
    h.check('text that names no place is refused', h.exc_is(r, 'ValueError'))


@R.harness(fn=['position_pton', 'move_pton'], n=[1, 2, 3, 4])
def short_text(h, fn, n):
    """every text of up to four characters: refused unless it names a place"""
    h.bounded('texts of up to four characters')
    u = util(h)
    cs = [h.char('c%d' % i, 33, 126) for i in range(n)]
    t = h.join('', cs)
    o = [h.ord(c) for c in cs]
    if n > 1:
        h.assume(h.And(o[n - 1] != 76, o[n - 1] != 108))
    r = h.call(getattr(u, fn), *([t, 0] if fn == 'position_pton' else [t]))
    if h.split(r.ok):
        named = h.Or(h.eq(t, 'bar'), h.eq(t, 'off')) if fn == 'move_pton' else False
        num = h.And([h.And(c >= 48, c <= 57) for c in o[1:]] +
                    [h.Or(h.And(o[0] >= 48, o[0] <= 57), o[0] == 43, o[0] == 45)])
        h.check('only names and numerals are read', h.Or(named, num))
        h.check('gives a place', h.And(r.value >= -1, r.value <= 24))
    else:
        h.check('refused with a value error', h.exc_is(r, 'ValueError'))


@R.harness()
def write_move(h):
    u = util(h)
    n = h.int('n')
    r = h.call(u.move_ntop, n)
    if h.split(n >= 25):
        h.check('beyond the bar is refused', h.exc_is(r, 'ValueError'))
        return
    h.check('answers', r.ok)
    if h.split(n == 24):
        h.check('bar', h.eq(r.value, 'bar'))
    elif h.split(n < 0):
        h.check('off', h.eq(r.value, 'off'))
    else:
        h.check('point', h.eq(r.value, h.digits(n + 1)))
    back = h.call(u.move_pton, r.value)
    h.check('reading back gives the same place', h.And(back.ok, back.value == h.Ite(n < 0, -1, n)))


@R.harness()
def read_move(h):
    u = util(h)
    k = h.int('k')
    h.assume(h.And(k != 0, k != 25))
    t = h.digits(k)
    r = h.call(u.move_pton, t)
    valid = h.And(k >= 1, k <= 24)
    h.check('exactly the points are read', h.Ite(valid, r.ok, h.exc_is(r, 'ValueError')))
    if r.ok:
        h.check('point', r.value == k - 1)
        w = h.call(u.move_ntop, r.value)
        h.check('writing back gives the same label', h.And(w.ok, h.eq(w.value, t)))
    for t, n in [('bar', 24), ('off', -1)]:
        r = h.call(u.move_pton, t)
        h.check('names', h.And(r.ok, r.value == n))


@R.harness(side=[0, 1])
def distinct(h, side):
    u = util(h)
    n, m = h.int('n', -1, 24), h.int('m', -1, 24)
    h.assume(n != m)
    a, b = h.call(u.position_ntop, n, side), h.call(u.position_ntop, m, side)
    h.check('distinct places have distinct labels', h.And(a.ok, b.ok, h.Not(h.eq(a.value, b.value))))
    a, b = h.call(u.move_ntop, n), h.call(u.move_ntop, m)
    h.check('distinct places have distinct move labels', h.And(a.ok, b.ok, h.Not(h.eq(a.value, b.value))))


@R.harness()
def mirrored(h):
    u = util(h)
    n = h.int('n', 0, 23)
    a = h.call(u.position_ntop, n, 0)
    f = h.call(u.flip_point, n)
    h.check('flip', h.And(f.ok, f.value == 23 - n))
    b = h.call(u.position_ntop, f.value, 1)
    h.check("the players' labels mirror each other", h.And(a.ok, b.ok, h.eq(a.value, b.value)))
    g = h.call(u.flip_point, f.value)
    h.check('flipping twice', h.And(g.ok, g.value == n))


@R.harness()
def bad_player(h):
    u = util(h)
    n = h.int('n', 0, 23)
    p = h.int('player')
    h.assume(h.And(p != 0, p != 1))
    h.check('a point has no label for somebody who does not play',
            h.exc_is(h.call(u.position_ntop, n, p), 'ValueError'))


@R.harness()
def opponent(h):
    u = util(h)
    p = h.int('player')
    r = h.call(u.get_opp, p)
    if h.split(h.Or(p == 0, p == 1)):
        h.check('the other player', h.And(r.ok, r.value == 1 - p))
        b = h.call(u.get_opp, r.value)
        h.check("the opponent's opponent is the player", h.And(b.ok, b.value == p))
    else:
        h.check('anything else is refused', h.exc_is(r, 'ValueError'))
