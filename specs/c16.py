"""C16: reading an XG ID."""
from dv.spec import Registry
from specs.common import *
R = Registry()
HARNESSES, TASKS = R.harnesses, R.tasks
MODULES = MODEL + ['bglib.encoding', 'bglib.encoding.xgid']
RANDOM = 300
FIELDS = ['position', 'cube_in_logarithm', 'cube_owner', 'on_action', 'rolled', 'your_score', 'his_score', 'flag',
          'match_length', 'cube_max']
NUMERIC = ['cube_in_logarithm', 'cube_owner', 'on_action', 'your_score', 'his_score', 'flag', 'match_length']
SAMPLE = '-b---BD-B---cE---c-eb---B-'


def text(h, f):
    return h.join(':', [f[k] for k in FIELDS])


def place(h, name):
    """a place of the position text: a checker count and its owner, and the character that says so"""
    c = h.char(name, 45, 111, '-ABCDEFGHIJKLMNOabcdefghijklmno')
    o = h.ord(c)
    h.assume(h.Or(o == 45, h.And(o >= 65, o <= 79), h.And(o >= 97, o <= 111)))
    return c, h.Ite(o >= 97, o - 96, 0), h.Ite(h.And(o >= 65, o <= 79), o - 64, 0)


def numbers(h):
    """the numbers of a well-formed text"""
    f = dict(position=SAMPLE, cube_max=h.word('max', '10', ':'))
    n = {}
    n['cube_in_logarithm'] = h.int('tcube', 0)
    n['cube_owner'] = h.int('towner', -1, 1)
    n['on_action'] = h.choice('taction', [-1, 1])
    n['your_score'], n['his_score'] = h.int('tupper', 0), h.int('tlower', 0)
    n['flag'] = h.int('tflag', 0, 1)
    n['match_length'] = h.int('tlen', 0)
    d1, d2 = h.int('die1', 0, 6), h.int('die2', 0, 6)
    h.assume(h.Iff(d1 == 0, d2 == 0))
    n['rolled'] = (d1, d2)
    for k in NUMERIC:
        f[k] = h.digits(n[k])
    f['rolled'] = h.join('', [h.chr(48 + d1), h.chr(48 + d2)])
    return f, n


def expected(h, v, n, pos):
    """the lower-case side of the text is this library's YOU"""
    want = dict(v)
    side = 0 if n['on_action'] == -1 else 1
    want.update(position=pos, cube_in_logarithm=n['cube_in_logarithm'],
                cube_owner=h.Ite(n['cube_owner'] == -1, 0, h.Ite(n['cube_owner'] == 1, 1, 3)),
                on_action=side, on_inner_action=side, rolled=n['rolled'], score=(n['his_score'], n['your_score']),
                match_length=n['match_length'], crawford=h.And(n['match_length'] > 0, n['flag'] == 1), game_state=1)
    return want


SAMPLE_POS = (tuple([ord(SAMPLE[24 - i]) - 96 if SAMPLE[24 - i] in 'abcdefghijklmno' else 0 for i in range(25)]),
              tuple([ord(SAMPLE[1 + i]) - 64 if SAMPLE[1 + i] in 'ABCDEFGHIJKLMNO' else 0 for i in range(25)]))


def xgid(h):
    return h.mod('bglib.encoding.xgid')


@R.harness()
def read_numbers(h):
    v = board_values(h)
    b = editor(h, v)
    f, n = numbers(h)
    r = h.call(xgid(h).decode, b, text(h, f))
    h.check('a well-formed text is read', r.ok)
    h.check('the board is exactly what the text says', attrs_eq(h, b, expected(h, v, n, SAMPLE_POS)))


def other_case(h, c):
    """the letter of the same number of the other player's checkers"""
    k = h.ord(c)
    return h.chr(h.Ite(k >= 97, k - 32, h.Ite(k >= 65, k + 32, k)))


@R.harness(after=[False, True])
def read_position(h, after):
    """after: the same text with the players exchanged was read before"""
    v = board_values(h)
    b = editor(h, v)
    cs = [place(h, 'p%d' % i) for i in range(26)]
    f, n = numbers(h)
    if after:
        f['position'] = h.join('', [other_case(h, c) for c, lo, up in cs])
        h.check('a well-formed text is read', h.call(xgid(h).decode, editor(h, {}), text(h, f)).ok)
    f['position'] = h.join('', [c for c, lo, up in cs])
    r = h.call(xgid(h).decode, b, text(h, f))
    h.check('a well-formed text is read', r.ok)
    low = tuple([cs[24 - i][1] for i in range(25)])
    upp = tuple([cs[i + 1][2] for i in range(25)])
    h.check('the position is exactly what the text says', eqv(h, b.position, (low, upp)))
    h.check('everything else too', attrs_eq(h, b, expected(h, v, n, b.position)))


def refused(h, f, v=None):
    v = board_values(h)
    b = editor(h, v)
    r = h.call(xgid(h).decode, b, text(h, f) if isinstance(f, dict) else f)
    h.check('refused with a decoding error', h.exc_is(r, 'DecodeError', 'InconsistentData', 'UndefinedTurn'))


@R.harness(field=NUMERIC)
def not_a_number(h, field):
    f, n = numbers(h)
    f[field] = h.word('text', 'ab', ':')
    h.assume(h.Not(h.isnumeral(f[field])))
    refused(h, f)


@R.harness(field=NUMERIC)
def empty_number(h, field):
    f, n = numbers(h)
    f[field] = ''
    refused(h, f)


@R.harness(field=['cube_owner', 'on_action', 'flag', 'match_length'])
def out_of_range(h, field):
    f, n = numbers(h)
    k = h.int('bad')
    ok = {'cube_owner': h.And(k >= -1, k <= 1), 'on_action': h.Or(k == -1, k == 1), 'flag': h.And(k >= 0, k <= 1),
          'match_length': k >= 0}
    h.assume(h.Not(ok[field]))
    f[field] = h.digits(k)
    refused(h, f)


@R.harness()
def bad_dice(h):
    f, n = numbers(h)
    c1, c2 = h.char('c1'), h.char('c2')
    a, b = h.ord(c1), h.ord(c2)
    h.assume(h.And(a != 58, b != 58))
    h.assume(h.Not(h.Or(h.And(a == 48, b == 48), h.And(a >= 49, a <= 54, b >= 49, b <= 54))))
    f['rolled'] = h.join('', [c1, c2])
    refused(h, f)


@R.harness(n=[0, 1, 3, 4, 5, 10])
def dice_of_wrong_length(h, n):
    f, k = numbers(h)
    cs = [h.char('c%d' % i) for i in range(n)]
    for c in cs:
        h.assume(h.ord(c) != 58)
    f['rolled'] = h.join('', cs)
    refused(h, f)


@R.harness()
def position_of_wrong_length(h):
    f, k = numbers(h)
    f['position'] = h.word('position', 'ABC', ':')
    h.assume(h.length(f['position']) != 26)
    refused(h, f)


@R.harness(n=list(range(10)) + list(range(11, 25)))
def wrong_number_of_fields(h, n):
    h.bounded('texts of up to 24 fields')
    if n == 0:
        refused(h, '')
        return
    f, k = numbers(h)
    fs = [f[x] for x in FIELDS]
    fs = fs[:n] + [h.word('extra%d' % i, '1', ':') for i in range(10, n)]
    refused(h, h.join(':', fs))
