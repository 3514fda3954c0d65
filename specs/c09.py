"""C09: a move under construction cancels a step with its exact reverse."""
from dv.spec import Registry
from specs.common import *
R = Registry()
HARNESSES, TASKS = R.harnesses, R.tasks
MODULES = MODEL
FIELDS = ['die', 'src', 'dest', 'is_hitting']
RANDOM = 400


def step(h, tag):
    v = dict(die=h.int('die' + tag, 1, 6), src=h.int('src' + tag, -1, 24), dest=h.int('dest' + tag, -1, 24),
             is_hitting=h.bool('hit' + tag))
    p = h.new(h.mod('bglib.model.move').PartialMove, v['die'], v['src'], v['dest'], v['is_hitting'])
    return p, v


def reverses(h, v, w):
    return h.And(v['die'] == w['die'], v['src'] == w['dest'], v['dest'] == w['src'],
                 h.Iff(v['is_hitting'], w['is_hitting']))


def has(h, p, v):
    return h.And(p.die == v['die'], p.src == v['src'], p.dest == v['dest'],
                 h.Iff(h.truth(p.is_hitting), v['is_hitting']))


def holds(h, m, vs):
    """the move consists of exactly these steps in this order"""
    xs = h.list(m)
    return len(xs) == len(vs) and h.And([has(h, x, v) for x, v in zip(xs, vs)])


def steps(h, n, alias, tag=''):
    out = []
    for i in range(n):
        if (i, alias) in [(1, 'first two'), (2, 'first and third'), (3, 'second and fourth')] and n > i:
            out.append(out[i - 1 if alias == 'first two' else i - 2])
        else:
            out.append(step(h, tag + str(i)))
    return out


def build(h, ss):
    """the move made by adding these steps, none of which reverses another"""
    m = h.new(h.mod('bglib.model.move').Move)
    for i, (p, v) in enumerate(ss):
        for q, w in ss[:i]:
            h.assume(h.Not(reverses(h, w, v)))
        r = h.call(m.append, p)
        h.check('step accepted', r.ok)
    return m


def expected(h, vs, w):
    """specification of adding one step (case split on which step is cancelled)"""
    for k in range(len(vs) - 1, -1, -1):
        if h.split(reverses(h, vs[k], w)):
            return vs[:k] + vs[k + 1:]
    return vs + [w]


@R.harness(n=[0, 1, 2, 3, 4], alias=['no'])
def append(h, n, alias):
    h.bounded('moves of up to four steps')
    ss = steps(h, n, alias)
    m = build(h, ss)
    vs = [v for p, v in ss]
    h.check('steps in order', holds(h, m, vs))
    p, w = step(h, 'new')
    r = h.call(m.append, p)
    h.check('step accepted', r.ok)
    h.check('latest exact reverse cancelled, else added at the end', holds(h, m, expected(h, vs, w)))
    h.check('steps are not altered', h.And([has(h, q, v) for q, v in ss] + [has(h, p, w)]))
    k = h.call(getattr(m, '__len__'))
    h.check('length', h.And(k.ok, k.value == len(expected(h, vs, w))))


@R.harness(n=[4], alias=['first two', 'first and third', 'second and fourth'])
def append_same_step_twice(h, n, alias):
    """the very same step object may occur twice in a move"""
    append(h, n, alias)


@R.harness(n=[0, 1, 2])
def add_to_itself(h, n):
    h.bounded('moves of up to two steps')
    ss = steps(h, n, 'no')
    m = build(h, ss)
    vs = [v for p, v in ss]
    r = h.call(m.add, m)
    for w in vs[:]:
        vs = expected(h, vs, w)
    h.check('accepted', r.ok)
    h.check('steps added one after another', holds(h, m, vs))


@R.harness(n=[0, 1, 2], k=[0, 1, 2, 3])
def add(h, n, k):
    h.bounded('moves of up to three steps added to moves of up to two')
    ss, ts = steps(h, n, 'no'), steps(h, k, 'no', 't')
    m, t = build(h, ss), build(h, ts)
    vs = [v for p, v in ss]
    for p, w in ts:
        vs = expected(h, vs, w)
    r = h.call(m.add, t)
    h.check('accepted', r.ok)
    h.check('steps added one after another', holds(h, m, vs))
    h.check('the added move is unchanged', holds(h, t, [w for p, w in ts]))


@R.harness(n=[0, 1, 2, 3])
def copy(h, n):
    h.bounded('moves of up to three steps')
    ss = steps(h, n, 'no')
    m = build(h, ss)
    vs = [v for p, v in ss]
    r = h.call(h.mod('bglib.model.move').Move, m)
    h.check('copied', h.And(r.ok, holds(h, r.value, vs)))
    p, w = step(h, 'new')
    h.call(r.value.append, p)
    h.check('the original does not follow the copy', holds(h, m, vs))
    h.call(m.append, p)
    h.call(m.append, p)
    h.check('the copy does not follow the original', holds(h, r.value, expected(h, vs, w)))


@R.harness(n=[0, 1, 2, 3, 4])
def find(h, n):
    h.bounded('moves of up to four steps')
    ss = steps(h, n, 'no')
    m = build(h, ss)
    d = h.int('dest', -1, 24)
    want = [p for p, v in reversed(ss) if h.split(v['dest'] == d)]
    r = h.call(m.find, d)
    h.check('answers', r.ok)
    got = h.list(r.value)
    h.check('exactly the steps ending there, latest first',
            len(got) == len(want) and all([h.same(a, b) for a, b in zip(got, want)]))
    h.check('move unchanged', holds(h, m, [v for p, v in ss]))


@R.harness()
def reverse_relation(h):
    p, v = step(h, '1')
    q, w = step(h, '2')
    r = h.callm(p.are_invertible_element, q)
    h.check('exact reverse', h.And(r.ok, h.Iff(h.truth(r.value), reverses(h, v, w))))
    s = h.callm(q.are_invertible_element, p)
    h.check('symmetric', h.And(s.ok, h.Iff(h.truth(r.value), h.truth(s.value))))
    u = h.callm(p.is_undo)
    h.check('a step away from home is an undo', h.And(u.ok, h.Iff(h.truth(u.value), v['dest'] > v['src'])))


@R.harness(what=['int', 'none', 'tuple', 'move'])
def not_a_step(h, what):
    M = h.mod('bglib.model.move').Move
    m = h.new(M)
    p, v = step(h, '0')
    h.call(m.append, p)
    x = {'int': 1, 'none': None, 'tuple': (1, 5, 4, False), 'move': h.new(M)}[what]
    h.check('something that is not a step is refused', h.Not(h.call(m.append, x).ok))
    h.check('move unchanged', holds(h, m, [v]))


# ---- moves of any length: the loops over the steps by contract --------------------------------------------------
ANY = dict(_abstract=True, _replay=False, _random=False, _merge=False)


class AnyMove(object):
    """a move of any number of steps; learned(i, fields): what is known of the step at place i"""
    def __init__(self, h, name, learned=lambda i, v: True, loop=None):
        self.h = h
        self.n = h.int('n' + name, 0)
        self.name, self.learned = name, learned
        P = h.mod('bglib.model.move').PartialMove
        self.m = h.new(h.mod('bglib.model.move').Move)
        p, v = step(h, 'probe' + name)
        h.call(self.m.append, p)
        self.where = [k for k in sorted([str(k) for k in h.instdict(self.m)]) if type(h.get(self.m, k)) is list and p in h.get(self.m, k)]
        h.check('the steps are kept', len(self.where) > 0)

        def elem(i):
            v = self.fields(i)
            q = h.new(P, v['die'], v['src'], v['dest'], v['is_hitting'])
            h.set(q, 'ghost_place', (name, i))
            return q
        self.seq = h.seq(self.n, elem, loop)
        for k in self.where:
            h.set(self.m, k, self.seq)

    def fields(self, i):
        h = self.h
        v = dict([(f, h.uf(f + self.name, i)) for f in FIELDS])
        v['is_hitting'] = v['is_hitting'] == 1
        h.assume(h.And(v['die'] >= 1, v['die'] <= 6, v['src'] >= -1, v['src'] <= 24, v['dest'] >= -1, v['dest'] <= 24))
        h.assume(self.learned(i, v))
        return v

    def change(self):
        """the move is changed in a way not known"""
        h = self.h
        n, x = h.havoc_int('n', 0), h.havoc_int('x')

        def elem(i):
            v = dict([(f, h.uf('changed ' + f, i, x)) for f in FIELDS])
            return h.new(h.mod('bglib.model.move').PartialMove, *[v[f] for f in FIELDS])
        h.seq_is(self.seq, n, elem)

    def now(self, m=None):
        """the steps as they are now"""
        m = self.m if m is None else m
        return [self.h.get(m, k) for k in self.where]


def place(h, q):
    return h.get(q, 'ghost_place')[1] if h.hasattr(q, 'ghost_place') else None


def search(h, g, k):
    """contract of a search backwards through the steps of g['m'] for the latest that fits, at place k, -1 if none does"""
    def holds_(i, loc):
        return [('the latest one is not behind', k < g['m'].n - i)]

    def state(i, loc):
        for label, c in holds_(i, loc):
            h.assume(c)

    def begin(loc):
        if loop.way > 0:
            h.undecided('a search forwards through the steps')
    loop = h.loop(holds_, state, begin=begin)
    h.default_loop = loop
    return loop


def latest(h, w, k):
    """k is the place of the latest step that w reverses, or -1"""
    def learned(i, v):
        r = reverses(h, v, w)
        return h.And(h.Implies(i > k, h.Not(r)), h.Implies(i == k, r))
    return learned


def check_latest(h, a, m, k, p):
    """the steps of m are those of a without the one at k, or with p after them"""
    j = h.int('j', 0)
    none = h.split(k == -1)
    for s in a.now(m):
        length = h.length(s)
        h.check('one step less or one step more', length == (a.n + 1 if none else a.n - 1))
        h.assume(j < length)
        q = h.item(s, j)
        if none and h.split(j == a.n):
            h.check('added at the end', h.same(q, p))
        else:
            h.check('the latest exact reverse is gone, the others stay in order', place(h, q) is not None and
                    place(h, q) == (j if none else h.Ite(j < k, j, j + 1)))
        if place(h, q) is not None:
            h.check('steps are not altered', has(h, q, a.fields(place(h, q))))


@R.harness(case=['none', 'some'], **ANY)
def append_any(h, case):
    """one step added to a move of any length: k is the place of the latest step it reverses, if there is one"""
    p, w = step(h, 'new')
    k, g = h.int('k', -1), {}
    h.assume(k == -1 if case == 'none' else k >= 0)
    a = g['m'] = AnyMove(h, 'm', latest(h, w, k), search(h, g, k))
    h.assume(k < a.n)
    r = h.call(a.m.append, p)
    h.check('step accepted', r.ok)
    check_latest(h, a, a.m, k, p)
    h.check('nor is the new one', has(h, p, w))


@R.harness(case=['none', 'some'], who=['copy', 'original'], **ANY)
def copy_any(h, case, who):
    """a copy of a move of any length, and a step added to either"""
    p, w = step(h, 'new')
    k, g = h.int('k', -1), {}
    h.assume(k == -1 if case == 'none' else k >= 0)
    a = g['m'] = AnyMove(h, 'm', latest(h, w, k), search(h, g, k))
    h.assume(k < a.n)
    r = h.call(h.mod('bglib.model.move').Move, a.m)
    h.check('copied', r.ok)
    c = r.value
    x, y = (c, a.m) if who == 'copy' else (a.m, c)
    h.check('step accepted', h.call(x.append, p).ok)
    check_latest(h, a, x, k, p)
    j = h.int('other', 0)
    for s in a.now(y):
        h.check('the other one keeps its steps', h.length(s) == a.n)
        h.assume(j < a.n)
        q = h.item(s, j)
        h.check('in order', place(h, q) is not None and place(h, q) == j)


@R.harness(itself=[False, True], **ANY)
def add_any(h, itself):
    """adding a move of any length adds its steps one after another (append by its contract: it changes the move)"""
    count = {'n': 0, 'called': True}

    def holds_(i, loc):
        if not count['called']:
            h.undecided('append is not used')
        return [('one step after another', count['n'] == i)]

    def state(i, loc):
        count['n'], count['called'] = i, False
        a.change()

    def begin(loc):
        if loop.way < 0:
            h.undecided('backwards')
    loop = h.loop(holds_, state, begin=begin, modifies=lambda: (a.seq,))
    h.default_loop = loop
    a = AnyMove(h, 'm', loop=loop)
    t = a if itself else AnyMove(h, 't', loop=loop)
    before = t.n

    def append(h, self, pm):
        h.check('to the move itself', h.same(self, a.m))
        h.check('the next step', place(h, pm) is not None and h.And(place(h, pm) == count['n'], h.get(pm, 'ghost_place')[0] == t.name))
        count['n'], count['called'] = count['n'] + 1, True
        a.change()
    h.use(h.contract('bglib.model.move:Move.append', append))
    r = h.call(a.m.add, t.m)
    h.check('accepted', r.ok)
    h.check('every step added once', count['n'] == before)
    if not itself:
        h.check('the added move is unchanged', h.And([h.length(s) == before for s in t.now()]))


@R.harness(**ANY)
def find_any(h):
    """the steps of a move of any length that end at a place; one of them, anywhere, is watched"""
    d = h.int('d', -1, 24)
    g = {'hits': 0, 'last': h.int('none', 0)}
    j = h.int('watched', 0)

    def holds_(i, loc):
        if loop.way > 0:
            h.undecided('a search forwards through the steps')
        return [('the watched one was found once if it ends there', g['hits'] == h.Ite(h.And(j >= a.n - i, a.fields(j)['dest'] == d), 1, 0)),
                ('only later ones were found', g['last'] >= a.n - i)]

    def state(i, loc):
        g['hits'], g['last'] = h.havoc_int('hits'), h.havoc_int('last')
        for label, c in holds_(i, loc):
            h.assume(c)
    loop = h.default_loop = h.loop(holds_, state, stream=True)
    a = AnyMove(h, 'm', loop=loop)
    h.assume(h.And(j < a.n, g['last'] >= a.n))
    r = h.call(a.m.find, d)
    h.check('answers', r.ok)
    for q in h.stream(r.value):
        i = place(h, q)
        h.check('a step of the move, latest first', i is not None and h.And(i >= 0, i < g['last']))
        h.check('that ends there', h.And(has(h, q, a.fields(i)), a.fields(i)['dest'] == d))
        g['last'] = i
        g['hits'] = g['hits'] + h.Ite(i == j, 1, 0)
    h.check('each of them once', g['hits'] == h.Ite(a.fields(j)['dest'] == d, 1, 0))
    h.check('move unchanged', h.And([h.length(s) == a.n for s in a.now()]))
