"""C17: reading a FIBS board line."""
from dv.spec import Registry
from specs.common import *
R = Registry()
HARNESSES, TASKS = R.harnesses, R.tasks
MODULES = MODEL + ['bglib.encoding.FIBS']
RANDOM = 300
NAMES = ['you', 'him', 'matchlength', 'your_score', 'his_score'] + ['board%d' % i for i in range(26)] + \
        ['turn', 'your_die1', 'your_die2', 'his_die1', 'his_die2', 'cube', 'you_may', 'he_may', 'was_doubled', 'colour',
         'direction', 'home', 'bar', 'your_home', 'his_home', 'your_bar', 'his_bar', 'to_play', 'x1', 'x2', 'redoubles']


def fibs(h):
    return h.mod('bglib.encoding.FIBS')


def line(h, colour, direction, turn, cube=2):
    """a line of an ongoing game: values and text"""
    n = {}
    for k in NAMES[2:]:
        n[k] = h.int('f.' + k, -15, 15) if k[:5] == 'board' else h.int('f.' + k)
    n.update(colour=colour, direction=direction, turn=turn * colour, cube=cube)
    t = dict([(k, h.digits(n[k])) for k in n])
    t['you'], t['him'] = h.word('you', 'You', ':'), h.word('him', 'someone', ':')
    return n, h.join(':', ['board'] + [t[k] for k in NAMES])


def mine(h, x, colour):
    """checkers of a colour in a board field"""
    s = x * colour
    return h.Ite(s > 0, s, 0)


@R.harness(colour=[1, -1], direction=[1, -1], turn=[1, -1])
def read(h, colour, direction, turn):
    v = board_values(h)
    b = editor(h, v)
    n, t = line(h, colour, direction, turn)
    r = h.call(fibs(h).decode, b, t)
    h.check('the line is read', r.ok)
    f = [n['board%d' % i] for i in range(26)]
    # counted from the side of the player who moves towards field 1, and from the other one's
    down, up = f[1:25] + [f[25]], f[24:0:-1] + [f[0]]
    me, op = (down, up) if direction < 0 else (up, down)
    pos = (tuple([mine(h, x, colour) for x in me]), tuple([mine(h, x, -colour) for x in op]))
    h.check("each player's checkers", eqv(h, b.position, pos))
    may, hemay, dbl = n['you_may'] != 0, n['he_may'] != 0, n['was_doubled'] != 0
    h.check('cube', h.And(b.cube_in_logarithm == 1, b.cube_owner == h.Ite(may, h.Ite(hemay, 3, 0), h.Ite(hemay, 1, 3))))
    h.check('Crawford', h.Iff(h.truth(b.crawford), h.And(h.Not(may), h.Not(hemay))))
    side = 0 if turn == 1 else 1
    h.check('player on turn', b.on_action == side)
    h.check('game goes on', b.game_state == 1)
    w = 'your' if side == 0 else 'his'
    h.check('dice of the player on turn', eqv(h, b.rolled, (n[w + '_die1'], n[w + '_die2'])))
    h.check('a standing double is marked and passes the decision',
            h.And(h.Iff(h.truth(b.doubled), dbl), b.on_inner_action == h.Ite(dbl, 1 - side, side)))
    h.check('match length and score', h.And(b.match_length == n['matchlength'],
                                            eqv(h, b.score, (n['your_score'], n['his_score']))))
    h.check('nothing resigned', b.resign_offer == 0)


@R.harness(k=list(range(31)))
def cube(h, k):
    h.bounded('cube values up to 2**30')
    b = editor(h, board_values(h))
    n, t = line(h, 1, -1, 1, 2 ** k)
    r = h.call(fibs(h).decode, b, t)
    h.check('cube value', h.And(r.ok, b.cube_in_logarithm == k))
