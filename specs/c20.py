"""C20: a tournament round costs exactly one life per pairing and loses nobody."""
from dv.spec import Registry
R = Registry()
HARNESSES, TASKS = R.harnesses, R.tasks
MODULES = ['bglib.stat', 'bglib.stat.rating', 'bglib.stat.tourney']
NOTE = 'rounds with any number of players, any lives, ratings, draw and results (cut loop); up to five players without the cut'
ASSUMPTIONS = ['the random module draws any permutation and any number in [0, 1) (no probability is modelled)']


def chance_contract(h):
    """a winning chance is some probability (C19 proves what it is)"""
    def apply_(h, *a):
        r = h.havoc_real('chance', 0, 1)
        return r
    return h.contract('bglib.stat.rating:winning_chance', apply_)


def entrants(h, T, n, name, lo, hi):
    lives = h.ints(name + '_lives', n, lo, hi)
    rating = [h.real('%s_rating.%d' % (name, i), 0, 3000) for i in range(n)]
    return [h.new(T.Player, lives[i], rating[i]) for i in range(n)], lives, rating


def members(h, d, players):
    """which of the players are in the dictionary, under their own name"""
    return [[k for k in h.list(h.call(getattr(d, 'keys')).value) if h.same(d[k], p)] for p in players]


@R.harness(n=[0, 1, 2, 3, 4, 5], _quick=lambda n: n < 5, _runs=2, _weight=5)
def one_round(h, n):
    h.bounded('%d living players' % n)
    T = h.mod('bglib.stat.tourney')
    h.use(chance_contract(h))
    h.control_random()
    players, lives, rating = entrants(h, T, n, 'alive', 1, 5)
    gone, gone_lives, gone_rating = entrants(h, T, 2, 'dead', -1, 0)
    names = ['a', 'b', 'c', 'd', 'e'][:n]
    t = h.new(T.Tourney, n, dict(zip(names, players)))
    t.dead['y'], t.dead['z'] = gone
    r = h.call(t.round)
    h.check('finishes', r.ok)
    alive, dead = t.alive, t.dead
    losers = 0
    for i, k in enumerate(names):
        p = players[i]
        here, there = k in alive, k in dead
        h.check('alive or dead, never both', here != there)
        if here:
            h.check('still the same player', h.same(alive[k], p))
        if there:
            h.check('still the same player', h.same(dead[k], p))
        h.check('dead exactly when the lives ran out', h.Iff(there, p.lives <= 0))
        h.check('loses at most one life', h.Or(p.lives == lives[i], p.lives == lives[i] - 1))
        h.check('ratings never change', p.rating == rating[i])
        losers = losers + h.Ite(p.lives == lives[i] - 1, 1, 0)
    h.check('one loser for each pair', losers == n // 2)
    for k, p, x, g in zip(['y', 'z'], gone, gone_lives, gone_rating):
        h.check('the dead stay dead', k in dead and k not in alive and h.same(dead[k], p))
        h.check('the dead are not touched', h.And(p.lives == x, p.rating == g))
    h.check('nobody else', len(alive) + len(dead) == n + 2)


class Entrants(object):
    """any number of living players, named after their places in the draw, and any number of dead ones. after: the lives of
    those already drawn. Every pair drawn so far has lost one life: kept by each iteration, assumed of those before it."""
    def __init__(self, h, loop):
        self.h, self.loop = h, loop
        self.n = h.int('n', 0)
        self.names, self.players, self.moved = [], [], []
        self.at, self.done = None, 0
        self.T = h.mod('bglib.stat.tourney')
        self.alive = h.map(self.n, lambda k: self.where(k)[0], self.get, lambda k, v: self.put(k, 0, v), lambda k: self.drop(k, 0), self.keys)
        self.dead = h.map(h.int('dead', 0), lambda k: self.where(k)[1], self.get, lambda k, v: self.put(k, 1, v),
                          lambda k: self.drop(k, 1), self.keys)

    def name(self, i):
        h = self.h
        for j, o in self.names:
            if h.identical(i, j):
                return o
        o = h.obj('Name', {})
        self.names.append((i, o))
        return o

    def place(self, name):
        return [i for i, o in self.names if o is name][0]

    def keys(self):
        s = self.h.seq(self.n, self.name, self.loop)
        s.any_order = True
        return s

    def lives(self, i):
        """the lives of the player at place i when the current iteration began"""
        h = self.h
        a = h.uf('alive at the start', i)
        p = i - i % 2
        x, y, lx, ly = h.uf('after', p), h.uf('after', p + 1), h.uf('alive at the start', p), h.uf('alive at the start', p + 1)
        h.assume(h.And(lx >= 1, ly >= 1, h.Or(h.And(x == lx, y == ly - 1), h.And(x == lx - 1, y == ly))))
        return h.Ite(i < 2 * self.done, h.uf('after', i), a)

    def get(self, name):
        h, i = self.h, self.place(name)
        for j, p, x, r in self.players:
            if h.split(i == j):
                return p
        x, r = self.lives(i), h.havoc_real('rating', 0, 3000)
        p = h.new(self.T.Player, x, r)
        self.players.append((i, p, x, r))
        return p

    def where(self, name):
        """alive, dead"""
        h, i = self.h, self.place(name)
        d = h.uf('died before', i) == 1
        there = [h.And(0 <= i, i < self.n, self.lives(i) > 0), h.Ite(i < 0, d, h.And(i < 2 * self.done, self.lives(i) <= 0))]
        for j, m, v in self.moved:
            if h.split(i == j):
                there[m] = v is not None
        return there

    def put(self, name, m, v):
        self.h.check('the same player', self.h.same(v, self.get(name)))
        self.moved.append((self.place(name), m, v))

    def drop(self, name, m):
        self.moved.append((self.place(name), m, None))

    def holds(self, i, loc):
        h = self.h
        if self.loop.way < 0:
            h.undecided('backwards')
        if self.at is None:
            return [('nobody was touched before the first pair', not self.players and not self.moved)]
        a, b = self.name(2 * self.at), self.name(2 * self.at + 1)
        p, q = self.get(a), self.get(b)
        out = []
        for j, o, x, r in self.players:
            pair = h.Or(j == 2 * self.at, j == 2 * self.at + 1)
            out.append(('ratings never change', o.rating == r))
            out.append(('at most one life is lost, in the pair only', h.Or(o.lives == x, h.And(pair, o.lives == x - 1))))
        out.append(('one life is lost by the pair', p.lives + q.lives == self.lives(2 * self.at) + self.lives(2 * self.at + 1) - 1))
        for k, o in self.names:
            w = self.where(o)
            pair = h.Or(k == 2 * self.at, k == 2 * self.at + 1)
            p = self.get(o)
            out.append(('alive with lives left, else dead', h.Implies(pair, h.And(h.Iff(w[0], p.lives > 0), h.Iff(w[1], p.lives <= 0)))))
            out.append(('nobody else comes or goes', h.Or(pair, not [1 for j, m, v in self.moved if h.split(j == k)])))
        return out

    def state(self, i, loc):
        h = self.h
        self.players, self.moved = [], []
        self.at = self.done = i


@R.harness(_abstract=True, _replay=False, _random=False, _merge=False)
def round_any(h):
    """a round of any number of players: any player is looked at afterwards"""
    h.use(chance_contract(h))
    h.control_random()
    g = {}
    h.default_loop = loop = h.loop(lambda i, loc: g['e'].holds(i, loc), lambda i, loc: g['e'].state(i, loc))
    e = g['e'] = Entrants(h, loop)
    t = h.new(e.T.Tourney, 0, {})
    h.set(t, 'alive', e.alive)
    h.set(t, 'dead', e.dead)
    r = h.call(t.round)
    h.check('finishes', r.ok)
    h.check('the living and the dead', t.alive is e.alive and t.dead is e.dead)
    i = h.int('anybody')
    h.assume(i < e.n)
    o = e.name(i)
    w, p = e.where(o), e.get(o)
    before = h.uf('alive at the start', i)
    if h.split(i < 0):
        h.check('the dead stay dead', h.Iff(w[1], h.uf('died before', i) == 1))
        h.check('and are not alive', h.Not(w[0]))
        return
    h.check('alive or dead, never both', h.Iff(w[0], h.Not(w[1])))
    h.check('dead exactly when the lives ran out', h.Iff(w[1], p.lives <= 0))
    if h.split(h.And(i == e.n - 1, e.n % 2 == 1)):
        h.check('the one left over loses nothing', h.And(p.lives == before, w[0]))
        return
    j = i + 1 - 2 * (i % 2)
    q = e.get(e.name(j))
    h.check('one player of the pair has lost exactly one life', h.Or(
        h.And(p.lives == before, q.lives == h.uf('alive at the start', j) - 1),
        h.And(p.lives == before - 1, q.lives == h.uf('alive at the start', j))))


@R.harness(n=[2, 3], _runs=2)
def pairs(h, n):
    """the pairs are the neighbours of the draw: with all lives long, two rounds lose exactly two lives per pair"""
    h.bounded('%d players, two rounds' % n)
    T = h.mod('bglib.stat.tourney')
    h.use(chance_contract(h))
    h.control_random()
    players, lives, rating = entrants(h, T, n, 'alive', 1, 3)
    names = ['a', 'b', 'c'][:n]
    t = h.new(T.Tourney, n, dict(zip(names, players)))
    pairs = 0
    for k in range(2):
        pairs += len(t.alive) // 2
        r = h.call(t.round)
        h.check('finishes', r.ok)
    lost = h.sum([lives[i] - players[i].lives for i in range(n)])
    h.check('one life for every pairing', lost == pairs)
    for i, k in enumerate(names):
        h.check('dead exactly when the lives ran out', h.Iff(k in t.dead, players[i].lives <= 0))
        h.check('alive or dead, never both', (k in t.dead) != (k in t.alive))


@R.harness(n=[0, 1, 2, 3, 4, 5, 6, 7, 8])
def start(h, n):
    h.bounded('%d players' % n)
    T = h.mod('bglib.stat.tourney')
    t = h.new(T.Tourney, n)
    h.check('everybody starts alive', len(t.alive) == n and len(t.dead) == 0)
    h.check('with lives left', h.And([p.lives > 0 for p in h.list(t.alive.values())]))
    ps = h.list(t.alive.values())
    h.check('nobody shares his lives', all([not h.same(ps[i], ps[j]) for i in range(n) for j in range(i)]))


@R.harness()
def player(h):
    T = h.mod('bglib.stat.tourney')
    n, x = h.int('lives', -5), h.real('rating')
    p = h.new(T.Player, n, x)
    r = h.call(p.isdead)
    h.check('dead exactly without lives', h.And(r.ok, h.Iff(h.truth(r.value), n <= 0)))
    r = h.call(p.lost)
    h.check('exactly one life', h.And(r.ok, p.lives == n - 1, p.rating == x))
