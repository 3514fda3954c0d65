"""C28: a Snowie match text is accepted exactly when its lines follow the format's order."""
from dv.spec import Registry
R = Registry()
HARNESSES, TASKS = R.harnesses, R.tasks
MODULES = ['bglib.record', 'bglib.record.snowietxt']
STUBS = True
RANDOM = 60
NOTE = 'one line of every kind with any move number from any state, so over all sequences of lines'
TRUSTED = ['tonic.lineparser.LineParser (absent here; stand-in dv/jystubs: hands each match to the handlers of its named groups)',
           'decorator.decorator (calls the wrapper with the method and its arguments), sha']
ASSUMPTIONS = ['tonic.lineparser behaves like the stand-in in dv/jystubs/tonic/lineparser.py']
NEXT = {None: ['mathclength'], 'emptyline': ['gameheader'], 'mathclength': ['gameheader'], 'gameheader': ['playerheader'],
        'playerheader': ['moves'], 'moves': ['moves', 'emptyline', 'gameheader']}
KINDS = ['emptyline', 'mathclength', 'gameheader', 'playerheader', 'moves']
STATES = [None] + KINDS


def allowed(state, kind):
    return kind == 'emptyline' or kind in NEXT[state]


def validator(h, state):
    v = h.new(h.mod('bglib.record.snowietxt').LineValidator)
    h.check('starts before the first line', v.state is None)
    count = None
    if state is not None:
        count = h.int('count', 1)
        h.set(v, 'state', 'handle_' + state)
        h.set(v, 'count', count)
    return v, count


def judge(h, v, r, state, count, kind, number=None):
    """the outcome of one line of a kind after any history"""
    now = (count + 1 if state == 'moves' else 1) if kind == 'moves' else 1
    good = allowed(state, kind)
    if kind == 'moves' and good:
        good = number == now
    h.check('accepted exactly when it may follow', h.Iff(r.ok, good))
    if r.ok:
        h.check('its kind is the last one', v.state == 'handle_' + kind)
        h.check('the moves are counted', v.count == now)
    else:
        h.check('rejected with a value error', h.exc_is(r, 'ValueError'))
        h.check('the last kind stays', v.state == ('handle_' + state if state else None))
        h.check('the count stays', v.count is None if count is None else v.count == count)


@R.harness(state=STATES, kind=KINDS)
def step(h, state, kind):
    """one handler from any state"""
    v, count = validator(h, state)
    number = h.int('number', 0)
    m = h.obj('Match', {'groupdict': lambda *a: {'nthmove': h.digits(number)}})
    r = h.call(h.get(v, 'handle_' + kind), 'the line', m)
    judge(h, v, r, state, count, kind, number)


@R.harness(state=STATES)
def bad(h, state):
    """a line of no kind"""
    v, count = validator(h, state)
    for line in ['hogehoge\n', 'Game\n', ' Game x\n', ' x point match', ' a : b\n', '.', '\t1) 31:']:
        r = h.call(v.parse, line)
        h.check('rejected with a value error: ' + line.strip(), h.exc_is(r, 'ValueError'))
        h.check('the last kind stays', v.state == ('handle_' + state if state else None))
        h.check('the count stays', v.count is None if count is None else v.count == count)


@R.harness(state=STATES, kind=KINDS + ['result'], digits=[1, 2, 3], end=['no', 'lf', 'crlf'],
           _quick=lambda state, kind, digits, end: digits < 3 and end != 'crlf')
def line(h, state, kind, digits, end):
    """one real line of a kind, with any numbers"""
    v, count = validator(h, state)
    end = {'no': '', 'lf': '\n', 'crlf': '\r\n'}[end]
    d = h.chars('d', digits, 48, 57)
    number = 0
    for x in h.list(d):
        number = number * 10 + h.ord(x) - 48
    if kind == 'emptyline':
        if not end and digits == 1:
            return
        text = [' ', '', '   '][digits - 1] + (end or ' ')
    elif kind == 'mathclength':
        text = ' ' + d + ' point match' + end
    elif kind == 'gameheader':
        text = h.choice('pad', ['', ' ', '   ']) + 'Game ' + d + end
    elif kind == 'playerheader':
        text = ' ' + h.choice('name', ['nori', 'Diana IN', 'x-y,1200']) + ' : ' + d + '    ' + 'bgnori : ' + d + end
    elif kind == 'result':
        text = h.choice('pad', ['', '  ']) + 'Wins ' + d + ' points' + end
    else:
        rest = h.choice('rest', ['31: 8/5 6/5                     41: 24/23 13/9', '63: 7/1 3/0                     Wins 2 points',
                                 ' Doubles => 2                   Takes', '                                52: 13/8 24/22', '66:',
                                 ' Drops                          Wins 1 point'])
        text = h.choice('pad', ['', ' ', '  ']) + d + ') ' + rest + end
    r = h.call(v.parse, text)
    if kind == 'result':
        h.check('a result line is accepted', r.ok)
        h.check('the last kind stays', v.state == ('handle_' + state if state else None))
        h.check('the count stays', v.count is None if count is None else v.count == count)
        return
    judge(h, v, r, state, count, kind, number)


GAME = [' 5 point match\n', '\n', ' Game 1\n', ' DianaIN : 0                         bgnori : 0\n',
        '  1) 31: 8/5 6/5                     41: 24/23 13/9\n', '  2) 63: 7/1 3/0                     Wins 2 points\n',
        '\n', ' Game 2\n', ' DianaIN : 2                         bgnori : 0\n', '  1)                                 52: 13/8 24/22\n',
        '  2)  Doubles => 2                    Drops\n', '      Wins 1 point\n']


@R.harness(swap=list(range(len(GAME))), _quick=lambda swap: swap % 2 == 0)
def match(h, swap):
    """a whole text, as it is and with two lines exchanged, dropped or repeated, through the validator"""
    h.bounded('a sample text')
    S = h.mod('bglib.record.snowietxt')
    other = h.choice('other', list(range(len(GAME))))
    what = h.choice('what', ['exchanged', 'dropped', 'repeated'])
    text = list(GAME)
    if what == 'exchanged':
        text[swap], text[other] = text[other], text[swap]
    elif what == 'dropped':
        text = [x for i, x in enumerate(text) if i not in (swap, other)]
    else:
        text = [y for i, x in enumerate(text) for y in ([x, x] if i in (swap, other) else [x])]
    v = h.new(S.Validator)
    state, count = None, 0
    for x in text:
        kind = ('emptyline' if not x.strip() else 'mathclength' if 'point match' in x else 'gameheader' if 'Game' in x else
                'moves' if ')' in x else 'playerheader' if ' : ' in x else None)
        r = h.call(v.feed, x)
        if kind is None:
            h.check('a result is accepted', r.ok)
            continue
        now = count + 1 if (state, kind) == ('moves', 'moves') else 1
        good = allowed(state, kind) and (kind != 'moves' or int(x.split(')')[0]) == now)
        h.check('accepted exactly when it may follow', r.ok == good)
        if good:
            state, count = kind, now
