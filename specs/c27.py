"""C27: guarded session operations always release the lock and deliver each message once."""
from dv.spec import Registry
R = Registry()
HARNESSES, TASKS = R.harnesses, R.tasks
MODULES = ['bglib.protocol', 'bglib.protocol.fibs', 'bglib.protocol.session']
RANDOM = 40
NOTE = ('every outcome of a guarded operation; one message to any number of subscribers, one subscriber '
        'coming or going among any number, and any number of received lines, by loop contracts')
TRUSTED = ['threading.RLock/Condition/Event, thread.exit, telnetlib.Telnet: replaced by recorders or no-ops; thread.exit raises SystemExit']
SHARED = ['State.regexp_cache', 'Transport (_lock']      # C26; replaced by a recorder
ERRORS = ['ValueError', 'AttributeError', 'SystemExit', 'KeyboardInterrupt', 'AssertionError', 'StopIteration']


def S(h):
    return h.mod('bglib.protocol.session')


def recorder(h, log, fails=False):
    """a lock that records what is done to it"""
    def acquire(*a, **k):
        log.append('acquire')
        if fails:
            h.throw('ValueError', 'cannot lock')
        return True

    def leave(*a):
        log.append('release')
    return h.obj('Lock', {'acquire': acquire, 'release': lambda: log.append('release'), '__enter__': acquire, '__exit__': leave})


def held(log, upto):
    """how often the lock is held after the first upto records"""
    return len([x for x in log[:upto] if x == 'acquire']) - len([x for x in log[:upto] if x == 'release'])


def discipline(h, log, what):
    """taken first, released last, held throughout"""
    h.check(what + ': takes the lock first', log[:1] == ['acquire'])
    h.check(what + ': releases it last', log[-1:] == ['release'])
    h.check(what + ': holds it throughout', min([held(log, i) for i in range(1, len(log))] or [0]) >= 1)
    h.check(what + ': leaves it free', held(log, len(log)) == 0)


@R.harness(outcome=['result', 'none'] + ERRORS, n=[0, 1, 2], kw=[0, 1], _quick=lambda outcome, n, kw: kw == 0 or n == 1)
def guarded(h, outcome, n, kw):
    """synchronized_with around a body with any outcome"""
    log, got = [], []
    lock = recorder(h, log)
    args = [h.int('a%d' % i) for i in range(n)]
    kws = {'key': h.int('k')} if kw else {}
    me = h.obj('Me')
    result = h.int('result') if outcome == 'result' else None

    def accessor(self, *a, **k):
        got.append(('accessor', self))
        return lock

    def body(self, *a, **k):
        log.append('body')
        got.append((self, list(a), dict(k)))
        if outcome in ERRORS:
            h.throw(outcome, 'body')
        return result
    f = h.call(h.call(S(h).synchronized_with, h.fn(accessor)).value, h.fn(body))
    h.check('the wrapper is built without touching the lock', f.ok and log == [])
    r = h.call(f.value, me, *args, **kws)
    h.check('lock, body, unlock', log == ['acquire', 'body', 'release'])
    h.check('the result or the error is passed on', r.ok == (outcome in ('result', 'none')))
    if r.ok:
        h.check('the result', h.same(r.value, None) if outcome == 'none' else r.value == result)
    else:
        h.check('the error', h.exc_is(r, outcome))
    mine = [x for x in got if x[0] != 'accessor']
    h.check('the lock of this object', h.And(*[h.same(x[1], me) for x in got if x[0] == 'accessor']))
    h.check('the arguments are passed on', h.And(len(mine) == 1, h.same(mine[0][0], me), len(mine[0][1]) == n,
                                                 h.And(*[x == y for x, y in zip(mine[0][1], args)]),
                                                 sorted(mine[0][2].keys()) == sorted(kws.keys()),
                                                 h.And(*[mine[0][2][k] == kws[k] for k in kws])))


@R.harness()
def refused(h):
    """a lock that cannot be taken"""
    log = []
    lock = recorder(h, log, True)
    f = h.call(h.call(S(h).synchronized_with, h.fn(lambda self: lock)).value, h.fn(lambda self: log.append('body')))
    r = h.call(f.value, h.obj('Me'))
    h.check('the body does not run and nothing is released', log == ['acquire'])
    h.check('the error is passed on', h.exc_is(r, 'ValueError'))


def locks(h, o, cls=None):
    """names of the attributes of o that are locks"""
    d = h.get(cls, '__dict__') if cls is not None else h.instdict(o)
    return [k for k in sorted([str(x) for x in h.list(d.keys())])
            if k[:2] != '__' and h.hasattr(h.get(cls if cls is not None else o, k), 'acquire')]


def session(h, log, writes=None):
    """a session that is not connected, with a recorded lock"""
    T = S(h).Transport
    lock = recorder(h, log)
    s = h.new(h.subclass(S(h).Session, 'MySession', {'write': lambda text: log.append(('write', text))}))
    for k in locks(h, None, T):
        h.set(T, k, lock)
        if h.hasattr(s, k):
            h.set(s, k, lock)
    for k in locks(h, s):
        h.set(s, k, lock)
    return s


@R.harness(op=['is_active', 'close', 'send_line', 'register', 'unregister', 'dispatch', 'stopped', 'two', 'bad register', 'bad unregister'])
def operation(h, op):
    """the operations of a session"""
    log = []
    s = session(h, log)
    x = h.int('x')
    sub = h.new(h.subclass(S(h).Subscriber, 'Sub', {'msg': lambda got: log.append(('got', got))}))
    other = h.new(S(h).Subscriber)
    line = 'roll ' + h.word('line', 'roll 7')
    closed = False
    if op == 'is_active':
        h.set(s, '_active', h.bool('active'))
        r = h.call(s.is_active)
        h.check('tells whether it is connected', h.Iff(h.truth(r.value), h.truth(s._active)))
    elif op == 'close':
        h.set(s, '_active', True)
        r = h.call(s.close)
    elif op == 'send_line':
        r = h.call(s.send_line, line)
        h.check('the line goes out once, ended', h.And(len(log) == 3, h.eq(log[1][1], line + '\r\n')))
    elif op == 'register':
        r = h.call(s.register, sub)
    elif op == 'two':
        r = h.call(s.register, sub, other)
    elif op == 'unregister':
        h.call(s.register, sub, other)
        del log[:]
        r = h.call(s.unregister, sub)
    elif op == 'bad register':
        r = h.call(s.register, x)
    elif op == 'bad unregister':
        r = h.call(s.unregister, sub)
    elif op == 'dispatch':
        h.call(s.register, sub)
        del log[:]
        r = h.call(s._dispatch, 'msg', x)
    else:
        h.call(s.register, sub)
        h.call(s.close)
        del log[:]
        r = h.call(s._dispatch, 'msg', x)
    done = list(log)
    discipline(h, log, op)
    if op == 'bad register':
        h.check('only subscribers can be registered', h.exc_is(r, 'AssertionError', 'TypeError', 'ValueError'))
    elif op == 'bad unregister':
        h.check('only registered ones can be taken back', h.exc_is(r, 'ValueError'))
    elif op == 'stopped':
        h.check('a closed session ends its listener', h.exc_is(r, 'SystemExit'))
        h.check('and delivers nothing', len([e for e in done if isinstance(e, tuple)]) == 0)
    else:
        h.check('succeeds', r.ok)
    if op == 'close':
        h.check('not active any more', h.Not(h.truth(h.call(s.is_active).value)))
    if op in ('register', 'two', 'unregister', 'dispatch'):
        del log[:]
        h.check('a message can be delivered', h.call(s._dispatch, 'msg', x).ok)
        n = len([e for e in log if isinstance(e, tuple)])
        h.check('exactly the registered ones get it', n == (0 if op == 'unregister' else 1))


KINDS = ['handles', 'fails', 'other', 'none']


@R.harness(n=[0, 1, 2, 3, 4], left=[-1, 0, 1, 2, 3], error=ERRORS,
           _quick=lambda n, left, error: left < n and n < 4 and (error in ('ValueError', 'AttributeError') or (n, left) == (2, -1)))
def deliver(h, n, left, error):
    """one message to any subscribers, after one of them may have left"""
    h.bounded('up to four subscribers')
    if left >= n:
        return
    log = []
    s = session(h, log)
    x = h.int('x')

    def handler(i, fails):
        def msg(got):
            log.append((i, got))
            if fails:
                h.throw(error, 'handler')
        return msg
    kinds, subs = [], []
    for i in range(n):
        kind = h.choice('kind%d' % i, KINDS)
        kinds.append(kind)
        m = {'handles': {'msg': handler(i, False)}, 'fails': {'msg': handler(i, True)}}.get(kind, {})
        m = dict(m)
        m['another'] = lambda got: log.append(('another', got))
        subs.append(h.new(h.subclass(S(h).Subscriber, 'Sub%d' % i, m, {'msg': None} if kind == 'none' else {})))
    if n:
        h.check('registered', h.call(s.register, subs[0]).ok)
        h.check('registered', h.call(s.register, *subs[1:]).ok)
    if left >= 0:
        h.check('taken back', h.call(s.unregister, subs[left]).ok)
    del log[:]
    r = h.call(s._dispatch, 'msg', x)
    want, failed = [], False
    for i in range(n):
        if i != left and not failed and kinds[i] in ('handles', 'fails'):
            want.append(i)
            failed = kinds[i] == 'fails'
    discipline(h, log, 'delivery')
    got = [e for e in log if isinstance(e, tuple)]
    h.check('each handling subscriber once, in order, up to the first that fails', [e[0] for e in got] == want)
    h.check('with the message', h.And(*[e[1] == x for e in got]))
    h.check('the error of a handler is passed on', h.exc_is(r, error) if failed else r.ok)


@R.harness(error=['ValueError', 'AttributeError', 'KeyError'], watched=KINDS, _abstract=True, _replay=False, _random=False, _merge=False)
def deliver_any(h, error, watched):
    """one message to any number of subscribers of any kinds; one of them, anywhere, is watched"""
    log = []
    s = session(h, log)
    x, n = h.int('x'), h.int('n', 1)
    j = h.int('j', 0)
    h.assume(j < n)
    g = {'hits': 0, 'last': h.int('none', -1, -1), 'failed': False}

    def kind(i):
        return h.uf('kind', i)
    h.assume(kind(j) == KINDS.index(watched))

    def make(k, i):
        def msg(got):
            h.check('the subscribers are served in order', i > g['last'])
            h.check('no subscriber after one that failed', not g['failed'])
            h.check('a handler gets the message', got == x)
            h.check('under the lock', held(log, len(log)) >= 1)
            g['last'] = i
            g['hits'] = g['hits'] + h.Ite(i == j, 1, 0)
            if k == 'fails':
                g['failed'] = True
                h.throw(error, 'handler')
        return h.new(h.subclass(S(h).Subscriber, 'Sub', {'msg': msg} if k in ('handles', 'fails') else {},
                                {'msg': None} if k == 'none' else {}))

    def elem(i):
        for a in range(3):
            if h.split(kind(i) == a):
                return make(KINDS[a], i)
        return make(KINDS[3], i)

    def holds(i, loc):
        return [('the watched one was served once, if it handles and its turn has come',
                 g['hits'] == h.Ite(h.And(j < i, watched in ('handles', 'fails')), 1, 0)),
                ('only earlier ones were served', g['last'] < i), ('none failed', not g['failed']),
                ('none of the earlier fails', h.Implies(j < i, watched != 'fails')),
                ('the lock is held', held(log, len(log)) >= 1)]

    def state(i, loc):
        g['hits'] = h.havoc_int('hits')
        g['last'] = h.havoc_int('last')
        for label, c in holds(i, None):
            h.assume(c)
    sub = h.new(S(h).Subscriber)
    h.check('registered', h.call(s.register, sub).ok)
    where = [k for k in sorted([str(k) for k in h.instdict(s)]) if k[:2] != '__' and type(h.get(s, k)) is list and sub in h.get(s, k)]
    for k in where:
        h.set(s, k, h.seq(n, elem, h.loop(holds, state)))
    del log[:]
    r = h.call(s._dispatch, 'msg', x)
    discipline(h, log, 'delivery')
    served = h.Ite(watched in ('handles', 'fails'), 1, 0)
    if r.ok:
        h.check('no handler failed', not g['failed'] and watched != 'fails')
        h.check('every subscriber is served exactly once if it handles the message', g['hits'] == served)
    else:
        h.check('only a failing handler ends the delivery', h.And(g['failed'], h.exc_is(r, error)))
        h.check('every subscriber up to the one that failed is served exactly once', g['hits'] == h.Ite(j <= g['last'], served, 0))


@R.harness(n=[2, 3], how=['one handler', 'equal', 'both'])
def alike(h, n, how):
    """subscribers that share a handler, or are equal to each other, are still different subscribers"""
    log = []
    s = session(h, log)
    x = h.int('x')
    got = []
    handler = h.fn(lambda m: got.append(m))
    C = h.subclass(S(h).Subscriber, 'Sub', dict([('msg', lambda m: got.append(m))] +
                                                ([('__eq__', lambda o: True), ('__hash__', lambda: 1)] if how != 'one handler' else [])))
    for i in range(n):
        sub = h.new(C)
        if how != 'equal':
            h.set(sub, 'msg', handler)
        h.check('registered', h.call(s.register, sub).ok)
    r = h.call(s._dispatch, 'msg', x)
    h.check('each is served once', h.And(r.ok, len(got) == n, *[m == x for m in got]))


@R.harness(ops=[1, 2, 3])
def history(h, ops):
    """subscribers come and go before the message"""
    h.bounded('three subscribers, three changes')
    log = []
    s = session(h, log)
    x = h.int('x')

    def handler(i):
        return lambda got: log.append((i, got))
    subs = [h.new(h.subclass(S(h).Subscriber, 'Sub%d' % i, {'msg': handler(i)})) for i in range(3)]
    now = []
    for k in range(ops):
        i = h.choice('who%d' % k, [0, 1, 2])
        if i in now:
            h.check('taken back', h.call(s.unregister, subs[i]).ok)
            now.remove(i)
        else:
            h.check('registered', h.call(s.register, subs[i]).ok)
            now.append(i)
    for k in range(2):
        del log[:]
        h.check('delivered', h.call(s._dispatch, 'msg', x).ok)
        h.check('to each once, in order of registration', [e[0] for e in log if isinstance(e, tuple)] == now)


@R.harness(n=[0, 1, 2, 3], end=['EOFError', 'closed', 'error'])
def listener(h, n, end):
    """every line received is classified and delivered without its line end"""
    h.bounded('up to three lines')
    log = []
    s = session(h, log)
    h.set(s, '_active', True)
    texts = []
    for i in range(n):
        prompt = h.choice('prompt%d' % i, [False, True])
        texts.append((1, 'login: ') if prompt else (0, 'text ' + h.chars('t%d' % i, 2, 32, 126)))
    state = [0]

    def expect(pats, *a):
        i = state[0]
        state[0] += 1
        if i >= n:
            h.throw('EOFError' if end == 'EOFError' else 'ValueError', 'closed')
        if end == 'closed' and i == n - 1:
            h.set(s, '_active', False)
        k, t = texts[i]
        return (k, None, t + ('' if k else '\r\n'))
    h.set(s, 'expect', h.fn(expect))
    h.set(s, 'monster', h.obj('Monster', {'make_cookie': lambda t: (log.append(('classified', t)), 'msg')[1]}))
    sub = h.new(h.subclass(S(h).Subscriber, 'Sub', {'msg': lambda got: log.append(('got', got)),
                                                    'EOFError': lambda got: log.append(('end', got))}))
    h.call(s.register, sub)
    del log[:]
    if end == 'closed' and n == 0:
        h.set(s, '_active', False)
    r = h.call(s._listener)
    h.check('the listener ends its thread', h.exc_is(r, 'SystemExit'))
    ev = [e for e in log if isinstance(e, tuple)]
    h.check('each line is classified and delivered, the end is reported',
            [e[0] for e in ev] == ['classified', 'got'] * n + (['end'] if end == 'EOFError' else []))
    h.check('as it was received', h.And(*[h.eq(ev[2 * i + j][1], texts[i][1]) for i in range(n) for j in range(2)]))
    h.check('the lock is free again', held(log, len(log)) == 0)


@R.harness(op=['register', 'unregister'], _abstract=True, _replay=False, _random=False, _merge=False)
def change_any(h, op):
    """a subscriber comes or goes among any number of others; one of them, anywhere, is watched"""
    log = []
    s = session(h, log)
    n, i, j = h.int('n', 0), h.int('which', 0), h.int('watched', 0)
    C = S(h).Subscriber
    sub, other = h.new(C), h.new(C)
    h.assume(j < n if op == 'register' else h.And(i < n, j < n, i != j))

    def elem(k):
        if op == 'unregister' and h.split(k == i):
            return sub
        return other if h.split(k == j) else h.new(C)
    probe = h.new(C)
    h.check('registered', h.call(s.register, probe).ok)
    where = [k for k in sorted([str(k) for k in h.instdict(s)]) if k[:2] != '__' and type(h.get(s, k)) is list and probe in h.get(s, k)]
    h.check('kept', len(where) > 0)
    seqs = []
    for k in where:
        q = h.seq(n, elem)
        q.find = lambda v: i if op == 'unregister' and h.same(v, sub) else j if h.same(v, other) else None
        seqs.append(q)
        h.set(s, k, q)
    del log[:]
    r = h.call(getattr(s, op), sub)
    h.check('accepted', r.ok)
    discipline(h, log, op)
    for k, q in zip(where, seqs):
        now = h.get(s, k)
        if not h.isseq(now):
            h.undecided('another list of subscribers')
        if op == 'register':
            h.check('one more', now.n == n + 1)
            h.check('the new one is the last', h.same(h.item(now, n), sub))
            h.check('the others keep their places', h.same(h.item(now, j), other))
        else:
            h.check('one less', now.n == n - 1)
            h.check('the others keep their order', h.same(h.item(now, h.Ite(j < i, j, j - 1)), other))


@R.harness(end=['EOFError', 'closed', 'error', 'handler'], _abstract=True, _replay=False, _random=False, _merge=False)
def listener_any(h, end):
    """any number of lines, then the connection ends"""
    log = []
    s = session(h, log)
    h.set(s, '_active', True)
    g = {'lines': 0, 'got': 0, 'line': None, 'over': False}
    n = h.int('n', 0)

    def expect(pats, *a):
        h.check('not listening while the lock is held', held(log, len(log)) == 0)
        h.check('listens to an open connection only', not g['over'])
        h.check('every line so far was delivered', g['lines'] == g['got'])
        if h.split(g['lines'] == n):
            g['over'] = True
            h.throw('ValueError' if end == 'error' else 'EOFError', 'closed')
        g['lines'] = g['lines'] + 1
        if end == 'closed' and h.split(g['lines'] == n):
            g['over'] = True
            h.set(s, '_active', False)
        g['seen'] = []
        if h.split(h.havoc_bool('prompt')):
            g['line'] = 'login: '
            return (1, None, g['line'])
        g['line'] = h.word('line%d' % len(words))
        words.append(g['line'])
        return (0, None, h.join('', [g['line'], '\r\n']))
    words = []

    def classified(t):
        h.check('the line is classified as it was received', h.eq(t, g['line']))
        g['seen'].append('classified')
        return 'msg'

    def msg(got):
        h.check('the line is delivered as it was received', h.eq(got, g['line']))
        h.check('classified, then delivered once', g['seen'] == ['classified'])
        h.check('under the lock', held(log, len(log)) >= 1)
        g['seen'].append('got')
        g['got'] = g['got'] + 1
        if end == 'handler' and h.split(g['lines'] == n):
            g['over'] = True
            h.throw('ValueError', 'handler')
    h.set(s, 'expect', h.fn(expect))
    h.set(s, 'monster', h.obj('Monster', {'make_cookie': classified}))
    ends = []
    sub = h.new(h.subclass(S(h).Subscriber, 'Sub', {'msg': msg, 'EOFError': lambda got: ends.append(1)}))
    h.call(s.register, sub)
    del log[:]

    def holds(i, loc):
        return [('every line was delivered', g['got'] == g['lines']), ('no more lines than there are', h.And(g['lines'] >= 0, g['lines'] <= n)),
                ('the connection is over when it was closed', g['over'] == (not h.get(s, '_active'))),
                ('all of them, once it is over', g['lines'] == n if g['over'] else True),
                ('closed with the last line', end not in ('closed', 'handler') or g['over'] or g['lines'] < n),
                ('a failed handler or a lost connection is not survived', not g['over'] or end == 'closed'),
                ('the lock is free', held(log, len(log)) == 0), ('the end is not reported before', ends == [])]

    def state(i, loc):
        del log[:]
        g['lines'] = g['got'] = h.havoc_int('lines')
        g['over'] = end == 'closed' and h.split(h.havoc_bool('over'))
        h.set(s, '_active', not g['over'])
        for label, c in holds(i, loc):
            h.assume(c)
    loop = h.loop(holds, state, modifies=lambda: [(s, '_active')])
    h.default_while = lambda loc: loop
    if end in ('handler', 'closed'):
        h.assume(n >= 1)
    r = h.call(s._listener)
    h.check('the listener ends its thread', h.exc_is(r, 'SystemExit'))
    h.check('every line was delivered', h.And(g['got'] == g['lines'], g['lines'] == n))
    h.check('the end is reported if the connection was lost', ends == ([1] if end == 'EOFError' else []))
    h.check('the lock is free again', held(log, len(log)) == 0)


@R.harness()
def subscriber(h):
    """the operation of a subscriber is guarded by its own lock"""
    log, mine = [], []
    s = session(h, log)
    a = h.new(S(h).Subscriber)
    for k in locks(h, a):
        h.set(a, k, recorder(h, mine))
    r = h.call(a.nop)
    h.check('succeeds', r.ok)
    h.check('its own lock', len(mine) == 2 and log == [])
    discipline(h, mine, 'nop')
