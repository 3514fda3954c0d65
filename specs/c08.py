"""C08: the dice still to be played behave as a multiset."""
from dv.spec import Registry
from specs.common import *
R = Registry()
HARNESSES, TASKS = R.harnesses, R.tasks
MODULES = MODEL
DICE = [1, 2, 3, 4, 5, 6]


def av_of(h, tag='', lo=0, hi=None):
    """an arbitrary multiset of dice, built through the public interface"""
    A = h.mod('bglib.model.move').AvailableToPlay
    a = h.new(A, (0, 0))
    cnt = h.ints('count' + tag, 6, lo, hi)
    for i in DICE:
        a[i] = cnt[i - 1]
    return a, cnt


def content(h, a, cnt):
    return h.And([a[i] == cnt[i - 1] for i in DICE])


def total(h, cnt):
    return h.sum(cnt)


@R.harness(d1=[0, 1, 2, 3, 4, 5, 6])
def roll(h, d1):
    d2 = h.int('d2', 1, 6) if d1 else 0
    a = h.new(h.mod('bglib.model.move').AvailableToPlay, (d1, d2))
    for i in DICE:
        want = h.Ite(d1 == 0, 0, h.Ite(d1 == d2, h.Ite(i == d1, 4, 0), h.Ite(h.Or(i == d1, i == d2), 1, 0)))
        h.check('dice of a roll', a[i] == want)
    r = h.callm(getattr(a, '__len__'))
    h.check('size', h.And(r.ok, r.value == h.Ite(d1 == 0, 0, h.Ite(d1 == d2, 4, 2))))




@R.harness()
def use(h):
    a, cnt = av_of(h)
    d = h.pick(h.int('die', 1, 6))
    r = h.callm(a.consume, d)
    h.check('used exactly when one is left', h.Iff(r.ok, cnt[d - 1] > 0))
    if r.ok:
        h.check('exactly one removed', content(h, a, [c - (1 if i == d - 1 else 0) for i, c in enumerate(cnt)]))
    else:
        h.check('refusal changes nothing', content(h, a, cnt))


@R.harness()
def put_back(h):
    a, cnt = av_of(h)
    d = h.pick(h.int('die', 1, 6))
    r = h.callm(a.add, d)
    h.check('accepted', r.ok)
    h.check('exactly one added', content(h, a, [c + (1 if i == d - 1 else 0) for i, c in enumerate(cnt)]))
    r = h.callm(a.consume, d)
    h.check('and can be used again', h.And(r.ok, content(h, a, cnt)))


@R.harness()
def queries(h):
    a, cnt = av_of(h)
    r = h.callm(getattr(a, '__len__'))
    h.check('size is the number of dice', h.And(r.ok, r.value == total(h, cnt)))
    for i in DICE:
        r = h.callm(getattr(a, '__contains__'), i)
        h.check('present exactly when it occurs', h.And(r.ok, h.Iff(h.truth(r.value), cnt[i - 1] > 0)))
    r = h.callm(a.is_doubles)
    h.check('doubles exactly when some number occurs twice',
            h.And(r.ok, h.Iff(h.truth(r.value), h.Or([c > 1 for c in cnt]))))
    h.check('asking changes nothing', content(h, a, cnt))


@R.harness()
def largest(h):
    a, cnt = av_of(h)
    r = h.callm(a.get_max)
    h.check('answers', r.ok)
    if not r.ok:
        return
    if r.value is None:
        h.check('none only if empty', h.And([c == 0 for c in cnt]))
    else:
        h.check('the largest number left',
                h.And([h.Or([h.And(r.value == i, cnt[i - 1] > 0) for i in DICE])] +
                      [h.Implies(cnt[i - 1] > 0, r.value >= i) for i in DICE]))
    h.check('asking changes nothing', content(h, a, cnt))


@R.harness()
def copies(h):
    A = h.mod('bglib.model.move').AvailableToPlay
    a, cnt = av_of(h)
    r = h.call(A, None, a)
    h.check('copy', h.And(r.ok, content(h, r.value, cnt)))
    b = r.value
    d = h.pick(h.int('die', 1, 6))
    h.call(b.add, d)
    h.check('original unaffected by the copy', content(h, a, cnt))
    h.call(a.add, d)
    h.call(a.add, d)
    h.check('copy unaffected by the original',
            content(h, b, [c + (1 if i == d - 1 else 0) for i, c in enumerate(cnt)]))


@R.harness(bad=[0, 7, -1])
def not_a_die(h, bad):
    a, cnt = av_of(h)
    r = h.call(a.add, bad)
    h.check('adding something that is not a die is refused', h.Not(r.ok))
    r = h.call(a.consume, bad)
    h.check('using something that is not a die is refused', h.Not(r.ok))
    h.check('nothing changed', content(h, a, cnt))


@R.harness(first=['consume', 'add', 'set'], second=['consume', 'add', 'set'], roll=['plain', 'doubles'])
def history(h, first, second, roll):
    """asking, changing, asking, changing, asking: the answers are always those of the present content"""
    A = h.mod('bglib.model.move').AvailableToPlay
    d1, d2 = h.int('d1', 1, 6), h.int('d2', 1, 6)
    if roll == 'doubles':
        h.assume(d1 == d2)
    else:
        h.assume(d1 > d2)
    d1, d2 = h.pick(d1), h.pick(d2)
    a = h.new(A, (d1, d2))
    cnt = [h.Ite(d1 == d2, 4, 1) if i in (d1, d2) else 0 for i in DICE]
    for k, op in enumerate([first, second]):
        h.callm(a.get_max)
        h.callm(getattr(a, '__len__'))
        h.callm(a.is_doubles)
        d = h.pick(h.int('die%d' % k, 1, 6))
        if op == 'set':
            n = h.int('n%d' % k, 0, 4)
            a[d] = n
            cnt[d - 1] = n
        elif op == 'add':
            h.callm(a.add, d)
            cnt[d - 1] = cnt[d - 1] + 1
        else:
            h.assume(cnt[d - 1] > 0)
            h.callm(a.consume, d)
            cnt[d - 1] = cnt[d - 1] - 1
    m, n, t = h.callm(a.get_max), h.callm(getattr(a, '__len__')), h.callm(a.is_doubles)
    h.check('answers', m.ok and n.ok and t.ok)
    best = [i for i in DICE if h.split(cnt[i - 1] > 0)]
    h.check('the largest number left', h.eq(m.value, best[-1]) if best else m.value is None)
    h.check('size is the number of dice', n.value == total(h, cnt))
    h.check('doubles exactly when some number occurs twice', h.Iff(h.truth(t.value), h.Or([c > 1 for c in cnt])))
