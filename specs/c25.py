"""C25: style rules match as descendant selectors and set validated attributes."""
from dv.spec import Registry
R = Registry()
HARNESSES, TASKS = R.harnesses, R.tasks
MODULES = ['bglib.model.constants', 'bglib.image', 'bglib.image.base', 'bglib.image.css']
RANDOM = 40
NOTE = ('all obligations discharged: selectors, rules of any number of selectors on paths of any length, values, inheritance in '
        'the shapes of the picture tree; reading a rule from text and a sheet of rules in sample shapes')
PRIMARY = {'x': 'int', 'y': 'int', 'width': 'int', 'height': 'int', 'image': 'str', 'flip': 'bool', 'background': 'str',
           'color': 'str', 'font': 'str', 'mag': 'float'}
INHERIT = {'x': 1, 'y': 1, 'width': 1, 'height': 1, 'flip': 1, 'font': 1, 'mag': 1, 'fill': 1}
DEFAULT = {'flip': False, 'fill': True, 'x_offset': 0, 'y_offset': 0, 'x_offset2': 0, 'y_offset2': 0, 'hide_count': False,
           'diestyle': 'dot'}
EXTRA = {'die': {'backgammon': 'str', 'diestyle': 'style', 'eyesize': 'int', 'id': 'str'},
         'cube': {'initialCube': 'str'}, 'field': {'player': 'player', 'text': 'str'},
         'resign': {'player': 'player', 'x_offset': 'int', 'y_offset': 'int'},
         'home': {'player': 'player', 'fill': 'bool'}, 'bar': {'player': 'player'},
         'chequer': {'player': 'player', 'x_offset': 'int', 'y_offset': 'int', 'x_offset2': 'int', 'y_offset2': 'int',
                     'hide_count': 'bool', 'max_count': 'int'},
         'point': {'fill': 'bool', 'parity': 'parity'}, 'score': {'player': 'player'}, 'action': {'player': 'player'},
         'board': {}, 'match': {}, 'position': {}, 'length': {}, 'crawford': {}, 'top_frame': {}, 'bottom_frame': {},
         'cubeholder': {}}
NAMES = sorted(EXTRA)
WORDS = {'style': ['dot', 'numeric'], 'player': ['you', 'him'], 'parity': ['even', 'odd'], 'str': ['red', 'left']}


def B(h):
    return h.mod('bglib.image.base')


def kinds(name):
    d = dict(PRIMARY)
    d.update(EXTRA[name])
    return d


def attrs(h, e):
    """the attributes set on the element itself, by name"""
    d = h.get(e, 'attributes')
    return dict([(str(k), d[k]) for k in h.list(d.keys())])


def vals(h, e):
    return dict([(k, a.get()) for k, a in attrs(h, e).items()])


def same_vals(h, a, b):
    return sorted(a) == sorted(b) and h.And([h.eq(a[k], b[k]) for k in sorted(a)])


# ---- selectors
@R.harness(other=[False, True], attr=[None, 'set', 'unset'], data=[None, 0, 1, 2, 3], kind=['int', 'player', 'bool', 'id'])
def selector(h, other, attr, data, kind):
    """name, attribute with its value, and text"""
    C = h.mod('bglib.image.css')
    name = {'int': 'point', 'player': 'chequer', 'bool': 'point', 'id': 'die'}[kind]
    key = {'int': 'x', 'player': 'player', 'bool': 'flip', 'id': 'id'}[kind]
    e = B(h).Element(name)
    texts = ['7', 'x', '12']
    for i in range(3):
        h.call(e.append, texts[i])
    h.set(e, 'y', 3)
    h.set(e, 'color', 'red')
    want = not other
    value = None
    if kind == 'int':
        have, ask = h.int('have', -40000, 40000), h.int('ask', -40000, 40000)
        value, hit = h.digits(ask), h.eq(have, ask)
    elif kind == 'bool':
        have, ask = h.bool('have'), h.bool('ask')
        ask = h.split(ask)
        value, hit = str(ask), h.Iff(have, ask)
    else:
        ws = WORDS['player'] if kind == 'player' else ['left', 'right']
        have, ask = ws[h.pick(h.int('have', 0, 1))], ws[h.pick(h.int('ask', 0, 1))]
        value, hit = ask, have == ask
    if attr == 'set':
        h.set(e, key, have)
    before = vals(h, e)
    s = h.new(C.Selector, 'bar' if other else name, key if attr else None, value if attr else None,
              None if data is None else ['7', 'x', '12', '1'][data])
    r = h.call(s.is_match, e)
    h.check('decides', r.ok)
    ok = h.And(want, attr != 'unset', h.Implies(attr == 'set', hit), data != 3)
    h.check('matches exactly when name, attribute and text are those of the element', h.Iff(r.value, ok))
    h.check('and does not change it', same_vals(h, before, vals(h, e)))


@R.harness(other=[False, True], attr=['set', 'unset'], data=[None, 0, 3])
def selector_without_value(h, other, attr, data):
    C = h.mod('bglib.image.css')
    e = B(h).Element('point')
    h.call(e.append, '7')
    if attr == 'set':
        h.set(e, 'x', h.int('x'))
    s = h.new(C.Selector, 'bar' if other else 'point', 'x', None, None if data is None else ['7', '', '', '1'][data])
    r = h.call(s.is_match, e)
    h.check('an attribute asked for without a value must be set', h.And(r.ok, h.Iff(
        r.value, not other and attr == 'set' and data != 3)))


# ---- rules
def subsequence(h, hit, n, m):
    """last selector on the last element, the others on some ancestors in order (definition by recursion)"""
    if m > n:
        return False

    def fits(i, j):
        # selectors 0..j-1 match some of the elements 0..i-1 in order
        if j == 0:
            return True
        if i < j:
            return False
        return h.Or(h.And(hit[i - 1][j - 1], fits(i - 1, j - 1)), fits(i - 1, j))
    return h.And(hit[n - 1][m - 1], fits(n - 1, m - 1))


@R.harness(n=[1, 2, 3, 4, 5], m=[1, 2, 3, 4, 5, 6], _quick=lambda n, m: n * m <= 16 or m > n + 1)
def rule_match(h, n, m):
    """any matching relation between the elements of a path and the selectors"""
    h.bounded('paths of up to five elements, rules of up to six selectors')
    C = h.mod('bglib.image.css')
    hit = [[h.bool('hit%d_%d' % (i, j)) for j in range(m)] for i in range(n)]
    path = [B(h).Element('point') for i in range(n)]
    rule = h.new(C.Rule, '/theme/a.css', 7)

    def selector(j):
        def is_match(e):
            for i in range(n):
                if h.same(e, path[i]):
                    return hit[i][j]
            return False
        return h.obj('Selector%d' % j, {'is_match': is_match})
    for j in range(m):
        h.call(rule.add, selector(j))
    r = h.call(rule.is_match, h.lst(path))
    h.check('decides', r.ok)
    h.check('matches exactly when the last selector matches the element and the others some ancestors in order',
            h.Iff(r.value, subsequence(h, hit, n, m)))
    h.check('the rule stays', len(h.list(rule.pattern)) == m)
    r2 = h.call(rule.is_match, h.lst(path))
    h.check('and decides the same again', h.Iff(r2.value, r.value))


def fits_here(h, hit, i, j):
    """S(i, j): selectors 0..j-1 match some of the elements 0..i-1 in order (the definition, unfolded at i and j, and the
    lemma that one selector less is easier, which selector_less proves)"""
    def S(a, b):
        return h.Or(b == 0, h.And(b > 0, b <= a, h.uf('fits', a, b) == 1))
    h.assume(h.Implies(h.And(j >= 1, i >= 1), h.And(h.Iff(S(i, j), h.Or(h.And(hit(i - 1, j - 1), S(i - 1, j - 1)), S(i - 1, j))),
                                                    h.Implies(S(i - 1, j), S(i - 1, j - 1)))))
    return S(i, j)


@R.harness(_abstract=True, _replay=False, _random=False, _merge=False)
def selector_less(h):
    """lemma, by induction over the elements: what more selectors match in order, one selector less does too"""
    i, j = h.int('i', 0), h.int('j', 1)

    def hit(a, b):
        return h.uf('hit', a, b) == 1

    def S(a, b):
        return h.Or(b == 0, h.And(b > 0, b <= a, h.uf('fits', a, b) == 1))

    def unfold(a, b):
        h.assume(h.Implies(h.And(b >= 1, a >= 1), h.Iff(S(a, b), h.Or(h.And(hit(a - 1, b - 1), S(a - 1, b - 1)), S(a - 1, b)))))
    unfold(i, j)
    unfold(i, j - 1)
    h.check('no element: nothing is asked', h.Implies(i == 0, h.Not(S(i, j))))
    h.assume(h.Implies(i >= 1, h.Implies(S(i - 1, j), S(i - 1, j - 1))))
    h.check('one selector less', h.Implies(S(i, j), S(i, j - 1)))


@R.harness(_abstract=True, _replay=False, _random=False, _merge=False)
def rule_match_any(h):
    """a path and a rule of any length, any matching relation"""
    C = h.mod('bglib.image.css')
    n, m = h.int('n', 1), h.int('m', 1)
    g = {}

    def hit(i, j):
        return h.uf('hit', i, j) == 1
    want = h.And(hit(n - 1, m - 1), fits_here(h, hit, n - 1, m - 1))

    def element(i):
        return h.obj('Element', {}, {'name': 'point', 'ghost_place': i})

    def selector(j):
        return h.obj('Selector', {'is_match': lambda e: hit(h.get(e, 'ghost_place'), j)})

    def left(i, loc):
        """the number of selectors still to be matched"""
        for v in g['copies']:
            return h.length(v)
        for k in sorted(loc):
            if k in g['counts']:
                return loc[k] + g['counts'][k]
        h.undecided('how far the rule is matched is not seen')

    def holds(i, loc):
        if loop.way > 0:
            h.undecided('forwards')
        r = left(i, loc)
        return [('selectors are left', h.And(r >= 1, r <= m, h.Implies(i == 0, r == m))),
                ('what is left decides', h.Or(i == 0, h.Iff(want, fits_here(h, hit, n - i, r))))]

    def begin(loc):
        g['copies'] = [v for v in loc.values() if h.isseq(v) and v is not path and v is not pattern and h.identical(h.length(v), m)]
        g['counts'] = dict([(k, m - v) for k, v in loc.items() if h.isint(v) and (h.identical(v, m) or h.identical(v, m - 1))])

    def state(i, loc):
        r = h.havoc_int('left', 1)
        for v in g['copies']:
            h.seq_is(v, r, selector)
        out = dict([(k, r - g['counts'][k]) for k in loc if k in g['counts']])
        for label, c in holds(i, out):
            h.assume(c)
        return out
    loop = h.default_loop = h.loop(holds, state, begin=begin, modifies=lambda: g['copies'])
    path, pattern = h.seq(n, element, loop), h.seq(m, selector, loop)
    rule = h.new(C.Rule, '/theme/a.css', 7)
    h.set(rule, 'pattern', pattern)
    r = h.call(rule.is_match, path)
    h.check('decides', r.ok)
    h.check('matches exactly when the last selector matches the element and the others some ancestors in order',
            h.Iff(h.truth(r.value), want))
    h.check('the rule stays', h.And(h.same(h.get(rule, 'pattern'), pattern), h.length(pattern) == m))


@R.harness(n=[2, 3])
def rule_extended(h, n):
    """a rule that has been asked is extended and asked again, about the same path and about another one"""
    h.bounded('up to three selectors')
    C = h.mod('bglib.image.css')
    E = B(h).Element
    a, b, c = E('board'), E('point'), E('chequer')
    rel = dict([((i, j), h.bool('m%d%d' % (i, j))) for i in range(3) for j in range(n)])
    rule = h.new(C.Rule, '/theme/a.css', 7)
    which = [a, b, c]

    def selector(j):
        return h.obj('Selector', {'is_match': lambda x: h.Or([h.And(h.same(x, which[i]), rel[(i, j)]) for i in range(3)])})

    def fits(path, k):
        """the first k selectors against the elements of the path"""
        if k == 0:
            return True
        return h.Or([h.And(rel[(path[i], k - 1)], before(path[:i], k - 1)) for i in [len(path) - 1]])

    def before(path, k):
        if k == 0:
            return True
        return h.Or([h.And(rel[(path[i], k - 1)], before(path[:i], k - 1)) for i in range(len(path))])
    for k in range(1, n + 1):
        h.call(rule.add, selector(k - 1))
        for path in ([0, 1, 2], [0, 1], [0, 2]):
            r = h.call(rule.is_match, h.lst([which[i] for i in path]))
            h.check('decides', r.ok)
            h.check('matches exactly when its selectors do', h.Iff(h.truth(r.value), fits(path, k)))


def text_of(h, kind, v):
    """how the value is written in a style sheet"""
    if kind in ('int', 'float'):
        return h.digits(v)
    return str(v)


def value(h, kind, tag):
    if kind == 'int':
        return h.int('v' + tag, -40000, 40000)
    if kind == 'bool':
        return h.split(h.bool('v' + tag))
    ws = WORDS[kind]
    return ws[h.pick(h.int('v' + tag, 0, 1))]


@R.harness(name=NAMES, matches=[False, True], before=[False, True])
def rule_apply(h, name, matches, before):
    """a rule sets exactly its attributes, with the values written, or nothing"""
    C = h.mod('bglib.image.css')
    ks = dict([(k, t) for k, t in kinds(name).items() if t != 'float' and k not in ('image', 'font')])

    def one(key):
        e, p = B(h).Element(name), B(h).Element('board')
        for k in sorted(ks):
            if k != key and k in ('y', 'color', 'id'):
                h.set(e, k, 5 if ks[k] == 'int' else 'old')
        if before:
            h.set(e, key, value(h, ks[key], '_old_' + key))
        h.set(p, 'x', 1)
        was, pwas = vals(h, e), vals(h, p)
        v = value(h, ks[key], '_new_' + key)
        rule = h.new(C.Rule, '/theme/a.css', 7)
        h.call(rule.add, h.obj('Selector', {'is_match': lambda x: matches and h.same(x, e)}))
        h.call(rule.update, {key: text_of(h, ks[key], v)})
        r = h.call(rule.apply, h.lst([p, e]))
        h.check('can be applied', r.ok)
        now = vals(h, e)
        want = dict(was)
        if matches:
            want[key] = v
        h.check('sets exactly its attribute when it matches', same_vals(h, now, want))
        h.check('of no other element', same_vals(h, vals(h, p), pwas))
    h.each(sorted(ks), one)


@R.harness(key=['image', 'font'], before=['none', 'rule', 'program'])
def rule_apply_file(h, key, before):
    """pictures and fonts are found next to the style sheet naming them"""
    C = h.mod('bglib.image.css')
    e = B(h).Element('point')
    if before == 'rule':
        h.call(e.apply, '/other/b.css', {key: 'uri("old.png")'})
        h.check('first value', h.eq(h.get(e, key), '/other/old.png'))
    elif before == 'program':
        h.set(e, key, 'old')
    rule = h.new(C.Rule, '/theme/a.css', 7)
    h.call(rule.add, h.new(C.Selector, 'point'))
    h.call(rule.update, {key: 'uri("new.png")', 'x': '12'})
    r = h.call(rule.apply, h.lst([e]))
    h.check('can be applied', r.ok)
    h.check('a later value replaces an earlier one', r.ok and h.eq(h.get(e, key), '/theme/new.png'))
    h.check('all its attributes are set', r.ok and h.eq(h.get(e, 'x'), 12) and sorted(attrs(h, e)) == sorted([key, 'x']))


@R.harness(name=NAMES)
def unknown_attribute(h, name):
    e = B(h).Element(name)
    h.set(e, 'x', 1)
    was = vals(h, e)
    for key in ['nothing', 'Color', 'children', 'z']:
        r = h.call(e.apply, '/theme/a.css', {key: '1'})
        h.check('an attribute the element cannot have is refused', h.exc_is(r, 'KeyError'))
        h.check('and nothing is set', same_vals(h, was, vals(h, e)))


SAMPLE = {'int': 5, 'float': 1.5, 'str': 'word', 'bool': True, 'none': None, 'list': [1]}
TAKES = {'int': ['int', 'bool'], 'float': ['float'], 'bool': ['bool'], 'str': ['str'], 'style': [], 'player': [],
         'parity': []}


@R.harness(name=NAMES, before=[False, True])
def set_type(h, name, before):
    """a value of the wrong type is refused and changes nothing"""
    ks = kinds(name)

    def one(key):
        kind = ks[key]
        for t in sorted(SAMPLE):
            if (kind, t) == ('int', 'bool'):
                continue     # a truth value is a number here
            e = B(h).Element(name)
            if before:
                h.set(e, key, 2.5 if kind == 'float' else value(h, kind, '_%s_%s' % (key, t)))
            was = vals(h, e)
            v = SAMPLE[t]
            r = h.do(lambda: h.set(e, key, v))
            if t in TAKES[kind]:
                h.check('a value of the right type is taken', r.ok)
                h.check('and read back', h.eq(h.get(e, key), v))
                rest = dict([(k, x) for k, x in was.items() if k != key])
                h.check('no other attribute changes', same_vals(h, rest, dict([(k, x) for k, x in vals(h, e).items() if k != key])))
            else:
                h.check('a value of the wrong type is refused', h.exc_is(r, 'TypeError'))
                h.check('and changes nothing', same_vals(h, was, vals(h, e)))
    h.each(sorted(ks), one)


PATHS = [['board', 'match', 'score'], ['board', 'position', 'home', 'cube'], ['board', 'position', 'home', 'chequer'],
         ['board', 'position', 'point', 'chequer'], ['board', 'position', 'field', 'die'], ['board', 'position', 'home'],
         ['board', 'position', 'field', 'resign'], ['board', 'position', 'point'], ['board', 'match', 'action']]


@R.harness(path=list(range(len(PATHS))))
def inheritance(h, path):
    """reading an attribute: its own value, else the nearest ancestor's when inherited, else its default"""
    P = PATHS[path]
    es = []
    for n in P:
        e = B(h).Element(n)
        if es:
            h.call(es[-1].append, e)
        es.append(e)
    last = es[-1]
    ks = kinds(P[-1])

    def one(key):
        kind = ks[key]
        have, vs = [], []
        for i, n in enumerate(P):
            can = key in kinds(n)
            s = h.split(h.bool('set_%s_%d' % (key, i))) if can else False
            v = None
            if s:
                v = h.real('v_%s_%d' % (key, i), -1000.0, 1000.0) if kind == 'float' else \
                    value(h, kinds(n)[key], '_%s_%d' % (key, i))
                h.set(es[i], key, v)
            have.append(s)
            vs.append(v)
        if have[-1]:
            want = ('value', vs[-1])
        else:
            want = ('none', None)
            if key in INHERIT:
                for i in range(len(P) - 2, -1, -1):
                    if have[i]:
                        want = ('value', vs[i])
                        break
            if want[0] == 'none' and key in DEFAULT:
                want = ('value', DEFAULT[key])
        r = h.do(lambda: h.get(last, key))
        if want[0] == 'value':
            h.check('its own, the nearest inherited or the default value', h.And(r.ok, h.eq(r.value, want[1])))
        else:
            h.check('nothing when there is none', h.exc_is(r, 'AttributeError'))
        h.check('asking for it changes nothing', (key in attrs(h, last)) == have[-1])
    h.each(sorted(ks), one)


# ---- the style sheet
@R.harness(shape=[0, 1, 2, 3, 4, 5])
def parse(h, shape):
    """a rule as written"""
    C = h.mod('bglib.image.css')
    a, b = h.chars('a', 2, 48, 57), h.chars('b', 3, 48, 57)
    p = h.new(C.CSSParser)
    pat, want = [(['point'], [('point', None, None, None)]),
                 (['point[x=', a, ']'], [('point', 'x', a, None)]),
                 (['point:data(', a, ')'], [('point', None, None, a)]),
                 (['home[player=you] cube'], [('home', 'player', 'you', None), ('cube', None, None, None)]),
                 (['board point[parity=even]  chequer[player=him]:data(', a, ')'],
                  [('board', None, None, None), ('point', 'parity', 'even', None), ('chequer', 'player', 'him', a)]),
                 ([' top_frame[y-', a, '=', b, ']'], [('top_frame', h.join('', ['y-', a]), b, None)])][shape]
    r = h.call(p.rule, '/theme/a.css', 3, h.join('', pat + [' { x: ', b, ' ; color: #', a, 'f ;y:', a, '}\n']))
    h.check('is read', r.ok)
    rule = r.value
    got = h.list(rule.pattern)
    h.check('its selectors in order', len(got) == len(want) and h.And([
        h.And([(x is None) == (y is None) and (x is None or h.eq(x, y)) for x, y in
               zip((g.element, g.name, g.value, g.data), w)]) for g, w in zip(got, want)]))
    blk = rule.block
    h.check('its attributes', sorted([str(k) for k in h.list(blk.keys())]) == ['color', 'x', 'y'] and h.And(
        h.eq(blk['x'], b), h.eq(blk['y'], a), h.eq(blk['color'], h.join('', ['#', a, 'f']))))
    h.check('knows where it is from', h.eq(rule.css_path, '/theme/a.css') and h.eq(rule.lineno, 3))


@R.harness(n=[0, 1, 2, 3])
def order(h, n):
    """the rules of a sheet are applied to every element of the tree, in their order"""
    C = h.mod('bglib.image.css')
    b = h.new(C.Binder)
    t = h.new(B(h).ElementTree)
    rules = []
    for i in range(n):
        r = h.new(C.Rule, '/theme/a.css', i)
        h.call(r.add, h.new(C.Selector, ['point', 'home', 'point'][i]))
        h.call(r.update, {['x', 'y', 'x'][i]: ['1', '2', '3'][i]})
        h.call(b.append, r)
        rules.append(r)
    r = h.call(b.apply, t)
    h.check('applied', r.ok)
    for i in range(1, 25):
        h.check('a later rule wins', vals(h, t.points[i]) == dict(
            [('parity', 'odd' if i % 2 else 'even')] + ([('x', 3 if n == 3 else 1)] if n else [])))
    for w in (0, 1):
        h.check('on its elements only', sorted(vals(h, t.home[w])) == (['player', 'y'] if n > 1 else ['player']) and
                sorted(vals(h, t.bar[w])) == ['player'])
    h.check('the board has none', not vals(h, t.board))
