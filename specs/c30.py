"""C30: GNU Backgammon match IDs carry every field."""
from dv.spec import Registry
from specs.common import *
R = Registry()
HARNESSES, TASKS = R.harnesses, R.tasks
MODULES = MODEL + ['bglib.encoding.gnubgid']
STUBS = True
RANDOM = 300
NOTE = 'every value of every field; the position by the contract of its own encoding (C15); base64 by its contract'
TRUSTED = ['tonic.BitsArray (absent here; stand-in dv/jystubs: a little-endian array of bits)',
           'base64 (bytes to letters and back, "=" as padding only)',
           'encode_position/decode_position are inverse to each other (discharged by C15)']
ASSUMPTIONS = ['tonic.BitsArray behaves like the stand-in in dv/jystubs/tonic/__init__.py']
# the documented layout of the key: first bit, number of bits
FIELDS = [('cube_in_logarithm', [(0, 4)]), ('cube_owner', [(4, 2)]), ('on_action', [(6, 1)]), ('crawford', [(7, 1)]),
          ('game_state', [(8, 3)]), ('on_inner_action', [(11, 1)]), ('doubled', [(12, 1)]), ('resign_offer', [(13, 2)]),
          ('rolled', [(15, 3), (18, 3)]), ('match_length', [(21, 15)]), ('score', [(36, 15), (51, 15)])]
FLAGS = ('crawford', 'doubled')


def M(h):
    return h.mod('bglib.encoding.gnubgid')


def digits(h, x, n):
    """lemma: a number below 2**n is the sum of its n bits (proved one bit at a time)"""
    for b in range(n):
        fact = x // 2 ** b == 2 * (x // 2 ** (b + 1)) + x // 2 ** b % 2
        h.check('lemma: bits', fact)
        h.assume(fact)
    h.check('lemma: no more bits', x // 2 ** n == 0)
    h.assume(x // 2 ** n == 0)
    total = h.sum([x // 2 ** b % 2 * 2 ** b for b in range(n)]) == x
    h.check('lemma: the sum of the bits', total)
    h.assume(total)
    return x


def values(h, prefix=''):
    v = {}
    for name, parts in FIELDS:
        xs = [digits(h, h.int('%s%s.%d' % (prefix, name, i), 0, 2 ** n - 1), n) for i, (at, n) in enumerate(parts)]
        v[name] = xs[0] == 1 if name in FLAGS else xs[0] if len(xs) == 1 else tuple(xs)
    return v


def data(h, p):
    """the bits behind a match ID"""
    return [v for k, v in sorted(h.instdict(p).items()) if h.clsname(v) == 'BitsArray'][0]


def numbers(h, name, v):
    return [h.Ite(v, 1, 0)] if name in FLAGS else list(v) if type(v) is tuple else [v]


def key(h, v):
    """the bytes of the key"""
    bits = [0] * 72
    for name, parts in FIELDS:
        for (at, n), x in zip(parts, numbers(h, name, v[name])):
            for b in range(n):
                bits[at + b] = x // 2 ** b % 2
    return [h.sum([bits[8 * i + b] * 2 ** b for b in range(8)]) for i in range(9)]


def same_fields(h, m, v, names=None):
    out = []
    for name, parts in FIELDS:
        if names is None or name in names:
            got = h.get(m, name)
            if name in FLAGS:
                out.append(h.And(h.isbool(got), h.Iff(h.truth(got), v[name])))
            else:
                got = h.list(got) if len(parts) > 1 else [got]
                out.append(h.And(len(got) == len(parts), h.And([a == b for a, b in zip(got, numbers(h, name, v[name]))])))
    return h.And(out)


@R.harness(field=[f[0] for f in FIELDS], _merge=False)
def one_field(h, field):
    """a field is written into its bits and no others, and read from them"""
    m = M(h)
    p = h.new(m.MatchProxy)
    parts = dict(FIELDS)[field]
    xs = [digits(h, h.int('x%d' % i, 0, 2 ** n - 1), n) for i, (at, n) in enumerate(parts)]
    v = xs[0] == 1 if field in FLAGS else xs[0] if len(xs) == 1 else tuple(xs)
    r = h.do(lambda: h.set(p, field, v))
    h.check('can be set', r.ok)
    bits = h.get(data(h, p), 'bits')
    h.check('66 bits', len(bits) == 66)
    want = [0] * 66
    for (at, n), x in zip(parts, xs):
        for b in range(n):
            want[at + b] = x // 2 ** b % 2
    h.check('its bits and no others', h.And([a == b for a, b in zip(bits, want)]))
    got = h.get(p, field)
    if field in FLAGS:
        h.check('reads the same flag', h.Iff(h.truth(got), v))
    else:
        got = h.list(got) if len(parts) > 1 else [got]
        h.check('reads the same', h.And(len(got) == len(xs), h.And([a == b for a, b in zip(got, xs)])))


@R.harness(field=[f[0] for f in FIELDS], _merge=False)
def other_bits(h, field):
    """writing a field leaves the other bits of a key alone, and reading depends on its bits only"""
    m = M(h)
    p = h.new(m.MatchProxy)
    old = [h.int('bit%d' % i, 0, 1) for i in range(66)]
    h.set(data(h, p), 'bits', h.lst(old))
    parts = dict(FIELDS)[field]
    want = [h.sum([old[at + b] * 2 ** b for b in range(n)]) for at, n in parts]
    got = h.get(p, field)
    if field in FLAGS:
        h.check('reads its bits', h.Iff(h.truth(got), want[0] == 1))
    else:
        got = h.list(got) if len(parts) > 1 else [got]
        h.check('reads its bits', h.And([a == b for a, b in zip(got, want)]))
    xs = [h.int('x%d' % i, 0, 2 ** n - 1) for i, (at, n) in enumerate(parts)]
    h.set(p, field, xs[0] == 1 if field in FLAGS else xs[0] if len(xs) == 1 else tuple(xs))
    mine = [at + b for at, n in parts for b in range(n)]
    bits = h.get(data(h, p), 'bits')
    h.check('leaves the other bits', h.And([bits[i] == old[i] for i in range(66) if i not in mine]))


@R.harness(_merge=False)
def match_id(h):
    """every field into the nine bytes and twelve letters"""
    m = M(h)
    v = values(h)
    p = h.new(m.MatchProxy)
    for name, parts in FIELDS:
        h.set(p, name, v[name])
    h.check('every field is there', same_fields(h, p, v))
    s = h.call(h.get(p, 'encode'))
    h.check('nine bytes', h.And(s.ok, h.length(s.value) == 9))
    h.check('the documented bits, lowest first', h.And([h.ord(c) == b for c, b in zip(h.list(s.value), key(h, v))]))
    h.abstract_base64()
    r = h.call(m.encode_match, p)
    h.check('twelve letters', h.And(r.ok, h.length(r.value) == 12))


@R.harness(_merge=False)
def from_id(h):
    """any nine bytes through the twelve letters: every bit comes back, so every field (other_bits, digits)"""
    m = M(h)
    bits = [h.int('bit%d' % i, 0, 1) for i in range(66)] + [0] * 6
    p = h.new(m.MatchProxy)
    h.set(data(h, p), 'bits', h.lst(bits[:66]))
    h.abstract_base64()
    r = h.call(m.encode_match, p)
    h.check('encodes', r.ok)
    q = h.call(m.decode_match, r.value)
    h.check('decodes', q.ok)
    got = h.get(data(h, q.value), 'bits')
    h.check('66 bits', len(got) == 66)
    for a, b in zip(got, bits):
        h.check('every bit comes back', a == b)


@R.harness(side=[0, 1], _merge=False)
def board(h, side):
    """a board through its two IDs, over the contracts of the two codecs"""
    m = M(h)
    v = values(h)
    h.assume(v['on_action'] == side)
    v['on_action'] = side
    me, op = h.dist('me', 15), h.dist('op', 15)
    E = h.mod('bglib.model').BoardEditor
    b, c = h.new(E), h.new(E)
    for name, parts in FIELDS:
        h.set(b, name, v[name])
    h.set(b, 'position', (me, op))
    pid, mid = h.word('pid', 'pid'), h.word('mid', 'mid')
    ids = {}

    def enc(h_, xs):
        ids['xs'] = tuple([tuple(h.list(x)) for x in h.list(xs)])
        return pid

    def dec(h_, s):
        h.check('the position ID is passed on', h.eq(s, pid))
        return ids['xs']

    def enc_match(h_, p):
        h.check('every field is in the match ID', same_fields(h, p, v))
        return mid

    def dec_match(h_, s):
        h.check('the match ID is passed on', h.eq(s, mid))
        return h.obj('Fields', {}, dict(v))
    q = 'bglib.encoding.gnubgid:'
    h.use(h.contract(q + 'encode_position', enc), h.contract(q + 'decode_position', dec),
          h.contract(q + 'encode_match', enc_match), h.contract(q + 'decode_match', dec_match))
    r = h.call(m.encode, b)
    h.check('encodes', r.ok)
    if not r.ok:
        return
    pair = h.list(r.value)
    h.check('two IDs', len(pair) == 2)
    bad = h.And(v['game_state'] == 1, v['match_length'] == 0, h.Or(v['score'][0] > 0, v['score'][1] > 0))
    s = h.call(m.decode, c, pair[0], pair[1])
    h.check('decodes unless a running money game has a score', h.Iff(s.ok, h.Not(bad)))
    if s.ok:
        h.check('every field comes back', same_fields(h, c, v))
        got = [h.list(x) for x in h.list(c.position)]
        h.check('both sides come back', h.And(len(got) == 2, h.And([a == b for a, b in zip(got[0] + got[1], me + op)])))
    else:
        h.check('refused as inconsistent', h.exc_is(s, 'InconsistentData'))


KNOWN = [('QYkqASAAIAAA', {'cube_in_logarithm': 1, 'cube_owner': 0, 'on_action': 1, 'crawford': False, 'game_state': 1,
                           'on_inner_action': 1, 'doubled': False, 'resign_offer': 0, 'rolled': (5, 2), 'match_length': 9, 'score': (2, 4)})]


@R.harness(n=list(range(len(KNOWN))))
def known(h, n):
    """the example of the GNU Backgammon manual"""
    h.bounded('one known ID')
    m = M(h)
    mid, v = KNOWN[n]
    q = h.call(m.decode_match, mid)
    h.check('decodes to its fields', h.And(q.ok, same_fields(h, q.value, v)))
    h.check('and back', h.call(m.encode_match, q.value).value == mid)


@R.harness(which=['pid', 'mid'])
def padded(h, which):
    """IDs with their padding are not IDs"""
    m = M(h)
    E = h.mod('bglib.model').BoardEditor
    pid, mid = '4HPwATDgc/ABMA', 'QYkqASAAIAAA'
    r = h.call(m.decode_position, pid[:-1] + '=') if which == 'pid' else h.call(m.decode_match, mid[:-1] + '=')
    h.check('refused', h.exc_is(r, 'TypeError'))
    s = h.call(m.decode, h.new(E), pid + '=' if which == 'pid' else pid, mid + '=' if which == 'mid' else mid)
    h.check('refused for a board', h.exc_is(s, 'TypeError'))
