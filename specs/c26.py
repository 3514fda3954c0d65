"""C26: the FIBS message classifier follows the login, message-of-the-day and run phases."""
import itertools
from dv.spec import Registry
R = Registry()
HARNESSES, TASKS = R.harnesses, R.tasks
MODULES = ['bglib.protocol', 'bglib.protocol.fibs']
RANDOM = 60
NOTE = ('one message from any state, so over all histories: the phase step for every name there is; the choice of the name over the '
        'real tables for every matching relation and any number of kinds remembered (cut loop); the marker lines among texts of up '
        'to five characters')
SHARED = ['State.regexp_cache']      # any content of it is covered by the harnesses
PHASES = ['LoginState', 'MOTDState', 'RunState']
DEFAULT = {'State': 'FIBS_Unknown', 'LoginState': 'FIBS_PreLogin', 'MOTDState': 'FIBS_MOTD', 'RunState': 'FIBS_Unknown'}
KINDS = ['FIBS_Aa', 'CLIP_Bb', 'FIBS_Cc', 'CLIP_Dd']
TOKENS = [('FIBS_Aa', 'A0'), ('FIBS_Aa', 'A1'), ('CLIP_Bb', 'B0'), ('FIBS_Cc', 'C0'), ('CLIP_Dd', 'D0')]
ORDERS = [list(p) for n in range(5) for p in itertools.permutations(KINDS, n)]


def F(h):
    return h.mod('bglib.protocol.fibs')


def table(base):
    """pattern table; names are distinct per phase, since compiled patterns are kept by name"""
    return dict([(k, ['.*' + t for kk, t in TOKENS if kk == k]) for k in KINDS] + [('OTHER_Xx', ['.*']), ('Fibs_Yy', ['.*'])])


def message(h, tag='', n=5):
    """a message and the kinds it matches"""
    bits = [h.split(h.bool('m%s_%s' % (tag, t))) for k, t in TOKENS[:n]]
    text = 'x' + ''.join([t for (k, t), b in zip(TOKENS, bits) if b])
    return text, [k for k in KINDS if [1 for (kk, t), b in zip(TOKENS, bits) if b and kk == k]]


@R.harness(base=PHASES + ['State'], order=list(range(len(ORDERS))), _quick=lambda base, order: order % 4 == 0 or base == 'State')
def choose(h, base, order):
    """one message from any recency order of the kinds"""
    h.bounded('five patterns of four kinds')
    s = h.new(h.subclass(getattr(F(h), base), 'Phase', None, table(base)))
    if not h.hasattr(s, 'last_match'):
        h.check('nothing to start from', True)
        return
    recent = list(ORDERS[order])
    h.set(s, 'last_match', h.lst(list(recent)))
    text, hit = message(h)
    r = h.call(s.make_cookie, text)
    h.check('every message gets a name', r.ok)
    first = [k for k in recent if k in hit]
    h.check('the default name exactly when nothing matches', (r.value == DEFAULT[base]) == (not hit))
    if hit:
        h.check('a kind that it matches', r.value in hit)
        if first:
            h.check('the most recently matched of those', r.value == first[0])
    q = [str(x) for x in h.list(h.get(s, 'last_match'))]
    if hit:
        h.check('the kind becomes the most recent, the others keep their order',
                q == [str(r.value)] + [k for k in recent if k != r.value])
    else:
        h.check('nothing matched: the order stays', q == recent)


@R.harness(base=PHASES + ['State'], steps=[2, 3], _quick=lambda base, steps: steps == 2)
def sequence(h, base, steps):
    """messages one after another, from the start of the phase"""
    h.bounded('two or three messages, three kinds')
    s = h.new(h.subclass(getattr(F(h), base), 'Phase', {'__init__': lambda: None}, table(base)))
    h.set(s, 'last_match', h.lst([]))
    recent = []
    for i in range(steps):
        text, hit = message(h, str(i), 4)
        r = h.call(s.make_cookie, text)
        first = [k for k in recent if k in hit]
        h.check('every message gets a name', r.ok)
        if not hit:
            h.check('the default name', r.value == DEFAULT[base])
        else:
            h.check('a matching kind, the most recent first', r.value == first[0] if first else r.value in hit)
            recent = [str(r.value)] + [k for k in recent if k != r.value]


@R.harness(base=['LoginState', 'RunState'], n=[8, 30, 90], _weight=3)
def many(h, base, n):
    """many kinds matched one after another: all are remembered, in their order"""
    h.bounded('%d kinds' % n)
    names = [('FIBS_', 'CLIP_')[i % 2] + 'K%02d' % i for i in range(n)]
    s = h.new(h.subclass(getattr(F(h), base), 'Phase', {'__init__': lambda: None}, dict([(k, ['.*' + k[-3:]]) for k in names])))
    h.set(s, 'last_match', h.lst([]))
    for k in names:
        h.check('its name', h.call(s.make_cookie, 'x' + k[-3:]).value == k)
    a, b = h.choice('two', [(0, 1), (0, n - 1), (n // 2, n - 2), (n - 2, n - 1)])
    text = 'x' + names[a][-3:] + names[b][-3:]
    h.check('the more recent one', h.call(s.make_cookie, text).value == names[b])
    h.check('again', h.call(s.make_cookie, text).value == names[b])
    h.check('until the other one comes', h.call(s.make_cookie, 'x' + names[a][-3:]).value == names[a])
    h.check('which is the more recent one then', h.call(s.make_cookie, text).value == names[a])


@R.harness(n=[1, 2])
def empty(h, n):
    """an empty line in the run phase"""
    s = h.new(h.subclass(F(h).RunState, 'Phase', None, table('RunState')))
    for i in range(n):
        h.call(s.make_cookie, 'x' + ['A0', 'C0'][i])
    r = h.call(s.make_cookie, '')
    h.check('has its own name', r.ok and r.value == 'FIBS_Empty')
    h.check('is not remembered', h.call(s.make_cookie, 'xA0C0B0').value == [None, 'FIBS_Aa', 'FIBS_Cc'][n])


NEXT = {('LoginState', 'CLIP_MOTD_BEGIN'): 'MOTDState', ('MOTDState', 'CLIP_MOTD_END'): 'RunState',
        ('RunState', 'FIBS_Goodbye'): 'LoginState'}


@R.harness(phase=PHASES)
def phases(h, phase):
    """one message of every kind there is, in every phase"""
    names = set(['FIBS_Unknown', 'FIBS_Empty', 'FIBS_PreLogin', 'FIBS_MOTD', 'FIBS_Nothing'])
    for p in PHASES:
        names.update([str(k) for k in h.list(h.get(getattr(F(h), p), '__dict__').keys()) if k[:4] in ('FIBS', 'CLIP')])
    h.check('the markers exist', len([1 for p, k in NEXT if k in names]) == 3)
    for name in sorted(names):
        m = h.new(F(h).CookieMonster)
        h.check('a session starts in the login phase', h.clsname(m.state) == 'LoginState')
        st = h.new(getattr(F(h), phase))
        h.set(st, 'make_cookie', h.fn(lambda text: name))
        h.set(m, 'state', st)
        r = h.call(m.make_cookie, 'text')
        h.check('the name is passed on', r.ok and r.value == name)
        now = h.clsname(m.state)
        h.check('the phase changes exactly on its marker', now == NEXT.get((phase, name), phase))
        if (phase, name) not in NEXT:
            h.check('the phase goes on', h.same(m.state, st))


@R.harness(phase=['LoginState', 'MOTDState'], n=[0, 1, 2, 3, 4, 5])
def markers(h, phase, n):
    """any text of a few characters: the marker lines are exactly 3 and 4"""
    h.bounded('texts of up to five characters')
    m = h.new(F(h).CookieMonster)
    if phase != 'LoginState':
        h.check('the begin marker', h.call(m.make_cookie, '3').value == 'CLIP_MOTD_BEGIN' and
                h.clsname(m.state) == 'MOTDState')
    text = h.chars('c', n, 32, 126) if n else ''
    r = h.call(m.make_cookie, text)
    h.check('gets a name', r.ok)
    mark = {'LoginState': '3', 'MOTDState': '4'}[phase]
    there = h.eq(text, mark) if n == 1 else False
    h.check('the phase changes exactly on the marker line', h.Iff(h.clsname(m.state) != phase, there))
    h.check('which has its name', h.Iff(r.value == ('CLIP_MOTD_BEGIN' if mark == '3' else 'CLIP_MOTD_END'), there))
    if phase == 'MOTDState':
        h.check('any other line is the message of the day', h.Iff(r.value == 'FIBS_MOTD', h.Not(there)))


@R.harness(rounds=[1, 2])
def session(h, rounds):
    """whole sessions on the real tables"""
    h.bounded('a sample session, repeated')
    m = h.new(F(h).CookieMonster)
    for i in range(rounds):
        for text, name, phase in [('Welcome to FIBS.', 'FIBS_PreLogin', 'LoginState'), ('login:', 'FIBS_LoginPrompt', 'LoginState'),
                                  ('1 nori 1041253132 192.168.40.3', 'CLIP_WELCOME', 'LoginState'),
                                  ('2 nori 1 1 0 0 0 0 1 1', 'CLIP_OWN_INFO', 'LoginState'),
                                  ('4', 'FIBS_PreLogin', 'LoginState'), ('3', 'CLIP_MOTD_BEGIN', 'MOTDState'),
                                  ('+--+', 'FIBS_MOTD', 'MOTDState'), ('3', 'FIBS_MOTD', 'MOTDState'), ('', 'FIBS_MOTD', 'MOTDState'),
                                  ('           Goodbye.', 'FIBS_MOTD', 'MOTDState'),
                                  ('4', 'CLIP_MOTD_END', 'RunState'), ('', 'FIBS_Empty', 'RunState'),
                                  ('You roll 1 and 6', 'FIBS_YouRoll', 'RunState'), ('no such message', 'FIBS_Unknown', 'RunState'),
                                  ('6', 'CLIP_WHO_END', 'RunState'), ('           Goodbye.', 'FIBS_Goodbye', 'LoginState')]:
            r = h.call(m.make_cookie, text)
            h.check('its kind', r.ok and r.value == name)
            h.check('its phase', h.clsname(m.state) == phase)


@R.harness(phase=PHASES, recent=[False, True], warm=[False, True], every=[False, True], _quick=lambda phase, recent, warm, every: not every, _abstract=True, _replay=False, _random=False, _merge=False)
def any_history(h, phase, recent, warm, every):
    """one message after any history: the kinds matched before, any number of them, most recent first; k is the place of the
    first of them that the message matches (recent), or there is none. The patterns are those of the phase; what they match
    is arbitrary. warm: all patterns have been used before, or none has"""
    h.assumption('a kind remembered before has its patterns compiled or not, independently of the others (both are checked)')
    P = getattr(F(h), phase)
    tab = {}
    for c in h.list(h.get(P, '__mro__')):
        d = h.get(c, '__dict__')
        for name in h.list(d.keys()):
            if str(name)[:4] in ('FIBS', 'CLIP') and str(name) not in tab:
                tab[str(name)] = [str(x) for x in h.list(d[name])]
    kinds = sorted(tab)
    some = kinds if every else [kinds[0], kinds[len(kinds) // 2], kinds[-1]][:len(kinds)]
    ids = {}

    def fits(pattern):
        return h.uf('fits', ids.setdefault(pattern, len(ids))) == 1

    def match(x, text):
        p = str(x if isinstance(x, str) else h.get(x, 'ghost_pattern'))
        return h.split(fits(p)) if text != 'warm' else False

    def compiled(p):
        p = p if isinstance(p, str) else h.get(p, 'ghost_pattern')
        o = h.obj('Pattern', {'match': lambda text: match(o, text) or None}, {'ghost_pattern': p})
        return o
    re = h.obj('re', {'compile': lambda p: compiled(p), 'match': lambda p, text: match(p, text) or None})
    h.set(re, 'error', h.get(h.mod('re'), 'error'))
    h.set(F(h), 're', re)
    n, k = h.int('n', 0), h.int('k')
    h.assume(h.And(k >= 0, k < n) if recent else k == n)
    g = {}

    def elem(i):
        g['asked'] = i
        if g.get('moved'):
            return 'one of the kinds'
        name = some[h.pick(h.havoc_int('kind', 0, len(some) - 1))]
        h.assume(h.Iff(i == k, h.Or([fits(p) for p in tab[name]])))
        g['name'] = name
        return name

    def holds(i, loc):
        if loop.way < 0:
            h.undecided('backwards')
        return [('none of the kinds seen so far fits', i <= k)]

    def state(i, loc):
        h.assume(i <= k)
        g['over'] = h.split(i == n)

    def caches():
        return [h.get(c, '__dict__')[x] for c in h.list(h.get(P, '__mro__')) for x in h.list(h.get(c, '__dict__').keys())
                if type(h.get(c, '__dict__')[x]) is dict]
    s = h.new(P)
    if warm:
        h.check('a message before', h.call(s.make_cookie, 'warm').ok)
    loop = h.default_loop = h.loop(holds, state, modifies=caches, stream=True)
    seq = h.seq(n, elem, loop)
    seq.find = lambda name: k if recent and name == g.get('name') else None
    where = [x for x in sorted([str(x) for x in h.instdict(s)]) if type(h.get(s, x)) is list]
    h.check('what was matched is remembered', len(where) == 1)
    h.set(s, where[0], seq)
    r = h.call(s.make_cookie, 'text')
    h.check('every message gets a name', r.ok)
    if not r.ok:
        return
    now, name = h.get(s, where[0]), r.value
    g['moved'] = True
    j = h.int('j', 0)
    if recent:
        h.check('the most recently matched of the kinds that fit', name == g['name'])
    elif h.split(h.Not(h.Or([fits(p) for x in kinds for p in tab[x]]))):
        h.check('the default name when nothing fits', name == DEFAULT[phase])
        h.check('nothing matched: what is remembered stays', h.same(now, seq) and h.length(now) == n)
        h.assume(j < n)
        h.item(now, j)
        h.check('in its order', g['asked'] == j)
        return
    else:
        h.check('a kind that fits', name in tab and h.Or([fits(p) for p in tab[name]]))
    h.check('one kind is remembered more unless it was before', h.length(now) == (n if recent else n + 1))
    h.check('it is the most recent now', h.item(now, 0) == name)
    h.assume(h.And(j >= 1, j < h.length(now)))
    h.item(now, j)
    h.check('the others stay in their order', g['asked'] == (h.Ite(j <= k, j - 1, j) if recent else j - 1))
