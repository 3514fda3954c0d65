"""C22: document trees are written as balanced HTML and edited without losing nodes."""
from dv.spec import Registry
R = Registry()
HARNESSES, TASKS = R.harnesses, R.tasks
MODULES = ['bglib.doc', 'bglib.doc.html', 'bglib.doc.doctree']
NOTE = ('every visit of a node with any number of children, and every editing step from an arbitrary state with any number '
        'of enclosing nodes; unrolled again for up to four of them so that a counterexample can be replayed')


def tree(h):
    return h.mod('bglib.doc.doctree')


def recorder(h, log):
    V = tree(h).Visitor
    return h.new(h.subclass(V, 'Recorder', {'enter': lambda n: log.append(('enter', n)),
                                            'leave': lambda n: log.append(('leave', n))}))


def same_log(h, a, b):
    return len(a) == len(b) and all([x[0] == y[0] and h.same(x[1], y[1]) for x, y in zip(a, b)])


@R.harness(n=[0, 1, 2, 3, 4])
def visit_node(h, n):
    """induction step over trees: a node is entered, then each child is visited once in order, then it is left"""
    h.bounded('%d children' % n)
    D = tree(h)
    log = []
    v = recorder(h, log)

    def child(i):
        box = []

        def accept(visitor):
            log.append(('child', box[0]))
            h.check('the visitor is handed on', h.same(visitor, v))
        box.append(h.new(h.subclass(D.Node, 'Child%d' % i, {'accept': accept}), None))
        return box[0]
    node = h.new(D.Node, None)
    kids = [child(i) for i in range(n)]
    for k in kids:
        h.call(node.append, k)
    r = h.call(node.accept, v)
    h.check('visits', r.ok)
    h.check('the node, its children in order, the node again',
            same_log(h, log, [('enter', node)] + [('child', k) for k in kids] + [('leave', node)]))
    h.check('the children stay', len(node.children) == n and all([h.same(a, b) for a, b in zip(node.children, kids)]))


@R.harness()
def write_node(h):
    """the writer adds a node's opening when it is entered and its closing when it is left, to whatever was written"""
    D = tree(h)
    w = h.new(D.HtmlWriter)
    a, b, c = h.word('before', 'a'), h.word('opening', '<x>'), h.word('closing', '</x>')
    node = h.new(h.subclass(D.BgWikiElementNode, 'N', {'open': lambda: b, 'close': lambda: c}), None)
    h.check('starts empty', h.eq(h.call(w.html).value, ''))
    w.buf = a
    r = h.call(w.enter, node)
    h.check('opened', h.And(r.ok, h.eq(h.call(w.html).value, h.join('', [a, b]))))
    w.buf = a
    r = h.call(w.leave, node)
    h.check('closed', h.And(r.ok, h.eq(h.call(w.html).value, h.join('', [a, c]))))


PLAIN = [('SpanElement', 'span'), ('BoldElement', 'strong'), ('ItalicElement', 'i'), ('UnderlineElement', 'span'),
         ('StrikeElement', 'del'), ('SubscriptElement', 'sub'), ('SuperscriptElement', 'sup'),
         ('MonospaceElement', 'span'), ('TableCellElement', 'td'), ('TableRowElement', 'tr'),
         ('TableHeaderElement', 'th'), ('DefinitionHeaderElement', 'dt'), ('AnchorElement', 'a'), ('H1Element', 'h1'),
         ('H2Element', 'h2'), ('H3Element', 'h3'), ('DefinitionBodyElement', 'dd'), ('DivElement', 'div'),
         ('DefinitionListElement', 'dl'), ('TableElement', 'table'), ('BlockQuoteElement', 'blockquote p'),
         ('CitationContentElement', 'p'), ('CitationElement', 'blockquote'), ('BgWikiElementRoot', ''),
         ('BgWikiElementNode', ''), ('BRElement', '/br'), ('ImgElement', '/img'), ('BgWikiElementMacroNode', '')]


def tags(text):
    """tag names in order: 'x' opened, '/x' closed, 'x/' both; None when the text is not made of tags"""
    out = []
    i = 0
    while i < len(text):
        if text[i] in ' \n':
            i += 1
            continue
        if text[i] != '<':
            return None
        j = text.find('>', i)
        if j < 0:
            return None
        body = text[i + 1:j]
        name = body.split(' ')[0].rstrip('/')if not body.startswith('/') else body
        if name.strip('/') == '' or '<' in body:
            return None
        out.append(name + '/' if body.endswith('/') else name)
        i = j + 1
    return out


def balanced(h, o, c, want=None):
    """the opening opens elements and the closing closes them in reverse order"""
    a, b = tags(o), tags(c)
    if a is None or b is None:
        return False
    left = [t for t in a if not t.endswith('/')]
    if want is not None and left != want:
        return False
    return not [t for t in left if t.startswith('/')] and b == ['/' + t for t in left[::-1]]


@R.harness(i=list(range(len(PLAIN))), attrs=[0, 1])
def element(h, i, attrs):
    D = tree(h)
    name, tag = PLAIN[i]
    d = {'class': 'x', 'title': 'a<b>"c'} if attrs else {}
    e = h.new(getattr(D, name), *([] if name == 'BgWikiElementRoot' else [None]), **d)
    o, c = h.call(e.open), h.call(e.close)
    h.check('opens and closes', o.ok and c.ok)
    if tag.startswith('/'):
        h.check('an element without content is closed at once', tags(o.value) == [tag[1:] + '/'] and c.value == '')
    else:
        h.check('what is opened is closed, in reverse order', balanced(h, o.value, c.value, tag.split()))


LISTS = ['star', 'sign', 'ordered_numeric', 'ordered_alpha', 'ordered_roman', None]


@R.harness(kind=LISTS, key=['', '+', '++', '+++', '-', '--', '---'])
def lists(h, kind, key):
    D = tree(h)
    d = dict([(k, None) for k in LISTS if k])
    if kind:
        d[kind] = 'x'
    e = h.new(D.ListElement, None, **d)
    o, c = h.call(e.open), h.call(e.close)
    h.check('a list is closed as it was opened',
            o.ok and c.ok and balanced(h, o.value, c.value, ['ol' if (kind or '').startswith('ord') else 'ul']))
    st = h.call(e.get_style)
    h.check('style', st.ok)
    it = h.new(D.ItemizeElement, None, style=st.value, minus=key if key.startswith('-') else None,
               plus=key if key.startswith('+') else None)
    if st.value is not None and not key:
        return
    o, c = h.call(it.open), h.call(it.close)
    h.check('an item is closed as it was opened', o.ok and c.ok and balanced(h, o.value, c.value, ['li']))


@R.harness()
def text_node(h):
    D = tree(h)
    t, u = h.word('text', 'abc'), h.word('more', 'def')
    h.assume(h.Not(h.eq(t, '')))
    e = h.new(D.Text, None, t)
    o, c = h.call(e.open), h.call(e.close)
    h.check('a text is written as it is', h.And(o.ok, c.ok, h.eq(o.value, t), h.eq(c.value, '\n')))
    r = h.call(e.append_text, u)
    h.check('and extended at its end', h.And(r.ok, h.eq(h.call(e.open).value, h.join('', [t, u]))))


# ---- editing: one step from an arbitrary state
REAL = [n for n, t in PLAIN if n not in ('BgWikiElementRoot', 'BgWikiElementNode')] + ['ListElement', 'ItemizeElement', 'LineElement',
                                                                                        'BoxElement', 'HeadingElement', 'Text']


def two_kinds(h, other):
    """the kind asked for and another: two made up ones, or a real one and the real one before it, neither a kind of the other"""
    D = tree(h)
    if other == 'made up':
        return [h.subclass(D.BgWikiElementNode, 'KindA'), h.subclass(D.BgWikiElementNode, 'KindB')]
    i = REAL.index(other)
    for k in range(1, len(REAL)):
        a = REAL[i - k]
        if not h.isinst(h.new(getattr(D, a), None), getattr(D, other)) and not h.isinst(h.new(getattr(D, other), None), getattr(D, a)):
            return [getattr(D, a), getattr(D, other)]


def chain(h, depth, extra=0, other='made up'):
    """an editor at a node with depth enclosing nodes; every node has any acceptance and any kind, and children"""
    D = tree(h)
    kinds = two_kinds(h, other)
    ed = h.new(D.Editor)
    nodes, accepts, iskind = [], [], []
    root = h.new(h.subclass(D.BgWikiElementRoot, 'TheRoot', {'is_acceptable': lambda n: True}))
    h.call(ed.start, root)
    nodes.append(root)
    accepts.append(True)
    iskind.append(False)
    for i in range(depth):
        a = h.bool('accepts%d' % i)
        k = h.side('kind%d' % i)

        def acceptable(node, a=a):
            return a
        n = h.new(h.subclass(kinds[k], 'Node%d' % i, {'is_acceptable': acceptable}), nodes[-1])
        nodes[-1].children.append(n)
        nodes.append(n)
        accepts.append(a)
        iskind.append(k == 0)
    for i in range(extra):
        nodes[-1].children.append(h.new(D.BoldElement, nodes[-1]))
    ed.current = nodes[-1]
    return ed, nodes, accepts, iskind, kinds[0]


def kids(h, n):
    return h.list(n.children)


def unchanged(h, nodes, before, but=None):
    for n, b in zip(nodes, before):
        if but is not None and h.same(n, but):
            continue
        k = kids(h, n)
        if len(k) != len(b) or not all([h.same(x, y) for x, y in zip(k, b)]):
            return False
    return True


def parents_kept(h, nodes):
    return nodes[0].parent is None and all([h.same(nodes[i].parent, nodes[i - 1]) for i in range(1, len(nodes))])


@R.harness(depth=[2, 3], op=['append', 'leave', 'ancestor'], other=REAL, _quick=lambda depth, op, other: depth == 2)
def real_kinds(h, depth, op, other):
    """as below, between nodes of every kind there is"""
    if op == 'append':
        add(h, depth, 'append', other)
    else:
        (leave if op == 'leave' else queries)(h, depth, *([False] if op == 'leave' else []), other=other)


@R.harness(depth=[0, 1, 2, 3, 4], op=['append', 'enter'])
def add(h, depth, op, other='made up'):
    h.bounded('%d enclosing nodes' % depth)
    D = tree(h)
    ed, nodes, accepts, iskind, kind = chain(h, depth, 1, other)
    before = [kids(h, n) for n in nodes]
    r = h.call(getattr(ed, op), D.SpanElement, **{'class': 'x'})
    h.check('accepted by some enclosing node', r.ok)
    node = r.value
    h.check('a new node of the asked class with its attributes',
            h.isinst(node, D.SpanElement) and node.attrs['class'] == 'x' and len(node.children) == 0)
    hit = False
    for i in range(depth, -1, -1):
        k = kids(h, nodes[i])
        here = h.And(accepts[i], h.And([True] + [h.Not(accepts[j]) for j in range(i + 1, depth + 1)]))
        got = len(k) == len(before[i]) + 1 and h.same(k[-1], node)
        h.check('it becomes the last child of the nearest enclosing node that accepts it', h.Iff(got, here))
        h.check('children are never lost', all([h.same(x, y) for x, y in zip(k, before[i])]) and
                len(k) == len(before[i]) + (1 if got else 0))
        if got:
            hit = True
            h.check('the position moves there', h.same(ed.current, nodes[i] if op == 'append' else node))
    h.check('added somewhere', hit)
    h.check('the new node is enclosed by the former position', h.same(node.parent, nodes[-1]))
    h.check('the other nodes keep their place', parents_kept(h, nodes))
    h.check('the root stays', h.same(ed.root, nodes[0]))


@R.harness(depth=[0, 1, 2, 3, 4], many=[False, True])
def leave(h, depth, many, other='made up'):
    h.bounded('%d enclosing nodes' % depth)
    D = tree(h)
    ed, nodes, accepts, iskind, kind = chain(h, depth, 1, other)
    before = [kids(h, n) for n in nodes]
    r = h.call(ed.leave, (kind, D.HtmlEditor) if many else kind)
    h.check('never fails', r.ok)
    want = nodes[-1]
    for i in range(depth, 0, -1):
        if iskind[i]:
            want = nodes[i - 1]
            break
    h.check('to the parent of the nearest enclosing node of the kind, or nowhere', h.same(ed.current, want))
    h.check('the tree is not touched', unchanged(h, nodes, before) and parents_kept(h, nodes))
    h.check('the root stays', h.same(ed.root, nodes[0]))


@R.harness(depth=[0, 1, 2, 3, 4])
def queries(h, depth, other='made up'):
    h.bounded('%d enclosing nodes' % depth)
    D = tree(h)
    ed, nodes, accepts, iskind, kind = chain(h, depth, 1, other)
    before = [kids(h, n) for n in nodes]
    r = h.call(ed.ancestor, kind)
    want = None
    for i in range(depth, 0, -1):
        if iskind[i]:
            want = nodes[i]
            break
    h.check('the nearest enclosing node of the kind', r.ok and h.same(r.value, want))
    r = h.call(ed.count_nesting, kind)
    h.check('how many enclosing nodes are of the kind', r.ok and r.value == len([k for k in iskind if k]))
    h.check('asking changes nothing', unchanged(h, nodes, before) and h.same(ed.current, nodes[-1]))
    r = h.call(ed.done)
    h.check('the finished document', r.ok and h.same(r.value, nodes[0]) and unchanged(h, nodes, before))
    h.check('from its root', h.same(ed.current, nodes[0]))


@R.harness(depth=[0, 1, 2], last=['none', 'text', 'element', 'text element', 'element text'])
def add_text(h, depth, last):
    h.bounded('%d enclosing nodes' % depth)
    D = tree(h)
    ed, nodes, accepts, iskind, kind = chain(h, depth)
    cur = nodes[-1]
    texts = []
    for w in ([] if last == 'none' else last.split()):
        t = h.word('old', 'abc') if w == 'text' else None
        if t is not None:
            h.assume(h.Not(h.eq(t, '')))
        texts.append(t)
        cur.children.append(h.new(D.Text, cur, t) if w == 'text' else h.new(D.BoldElement, cur))
    before = [kids(h, n) for n in nodes]
    more = h.word('more', 'def')
    h.assume(h.Not(h.eq(more, '')))
    r = h.call(ed.append_text, more)
    h.check('accepted', r.ok)
    now = kids(h, cur)
    if texts and texts[-1] is not None:
        h.check('merged into a directly preceding text',
                len(now) == len(before[-1]) and h.eq(now[-1].text, h.join('', [texts[-1], more])))
    else:
        h.check('a new text at the end', len(now) == len(before[-1]) + 1 and h.isinst(now[-1], D.Text) and
                h.same(now[-1].parent, cur))
        h.check('with the text', h.eq(now[-1].text, more) if len(now) else False)
    h.check('no other child is touched', all([h.same(a, b) for a, b in zip(now, before[-1])]))
    for k, t in list(zip(now, texts))[:-1]:
        if t is not None:
            h.check('no other text is touched', h.eq(k.text, t))
    h.check('no other node is touched', unchanged(h, nodes, before, cur))
    h.check('the position stays', h.same(ed.current, cur))


@R.harness(n=[1, 2, 3], i=[0, 1, 2])
def take_out(h, n, i):
    h.bounded('%d children' % n)
    if i >= n:
        h.check('nothing to do', True)
        return
    D = tree(h)
    ed, nodes, accepts, iskind, kind = chain(h, 1)
    cur = nodes[-1]
    ks = [h.new(D.BoldElement, cur) for k in range(n)]
    for k in ks:
        cur.children.append(k)
    r = h.call(ed.remove, ks[i])
    now = kids(h, cur)
    rest = ks[:i] + ks[i + 1:]
    h.check('exactly that child is taken out', r.ok and len(now) == n - 1 and
            all([h.same(a, b) for a, b in zip(now, rest)]))
    h.check('the position stays', h.same(ed.current, cur))


SHAPES = ['', '()', '()()', '(())', '(()())', '((()))()', '(()(())())', '(((())))', '()(()())(())()()']


@R.harness(shape=list(range(len(SHAPES))))
def whole_tree(h, shape):
    """whole trees of real nodes"""
    h.bounded('sample tree shapes')
    D = tree(h)
    classes = [D.DivElement, D.BoldElement, D.SpanElement, D.BlockQuoteElement, D.TableElement, D.BRElement, D.Text]
    root = h.new(D.BgWikiElementRoot)
    cur, k, want, stack, order = root, 0, [], [], [root]
    for c in SHAPES[shape]:
        if c == '(':
            n = h.new(classes[k % len(classes)], cur)
            k += 1
            h.call(cur.append, n)
            order.append(n)
            want.append(h.call(n.open).value)
            stack.append(cur)
            cur = n
        else:
            want.append(h.call(cur.close).value)
            cur = stack.pop()
    w = h.new(D.HtmlWriter)
    r = h.call(root.accept, w)
    h.check('written', r.ok and h.call(w.html).value == ''.join(want))
    log = []
    h.call(root.accept, recorder(h, log))
    ent = [x[1] for x in log if x[0] == 'enter']
    h.check('every node once in document order', len(ent) == len(order) and all([h.same(a, b) for a, b in zip(ent, order)]))
    h.check('every node left once', len(log) == 2 * len(order))


# ---- any number of enclosing nodes, each with any acceptance, any kind and any number of children
class AnyChain(object):
    """an editor somewhere in a tree; height 0 is the position, height n the root; the node at each height is made when the
    code reaches it, so the nodes in `made` are all that can have been touched"""
    def __init__(self, h, other='made up'):
        self.h = h
        D = tree(h)
        self.n = h.int('n', 0)
        self.kinds = two_kinds(h, other)
        self.made = []
        self.hops = 0
        self.ed = h.new(D.Editor)
        h.set(self.ed, 'root', None)
        self.position = self.node(h.int('zero', 0, 0))
        h.set(self.ed, 'current', self.position)
        h.check('the position is kept', h.same(h.get(self.ed, 'current'), self.position))

    def accepts(self, k):
        return self.h.Or(k == self.n, self.h.uf('accepts', k) == 1)

    def is_kind(self, k):
        return self.h.And(k < self.n, self.h.uf('kind', k) == 1)

    def node(self, k):
        """the node at height k, None above the root"""
        h = self.h
        D = tree(h)
        for x in self.made:
            if h.identical(x['k'], k) or h.split(k == x['k']):
                return x['node']
        if h.split(k > self.n):
            return None
        root = h.split(k == self.n)
        x = {'k': k}

        def missing(name):
            if name != 'parent':
                h.throw('AttributeError', name)
            self.hops += 1
            if self.hops > 8:
                h.undecided('a walk towards the root without a loop contract')
            return self.node(k + 1)
        if root:
            base = D.BgWikiElementRoot
        else:
            base = self.kinds[0] if h.split(h.uf('kind', k) == 1) else self.kinds[1]
        m = {'is_acceptable': lambda n: self.accepts(k)}
        if not root:
            m['__getattr__'] = missing
        x['node'] = o = h.new(h.subclass(base, 'Any', m), *([] if root else [None]))
        if not root:
            if not h.hasattr(o, 'parent'):
                h.undecided('where a node keeps its parent')
            h.delete(o, 'parent')
        x['size'] = h.uf('children', k)
        h.assume(x['size'] >= 0)

        def child(i):
            h.undecided('a child of an enclosing node is looked at')
        x['kids'] = h.seq(x['size'], child)
        if not h.hasattr(o, 'children') or h.length(h.get(o, 'children')) != 0:
            h.undecided('where a node keeps its children')
        h.set(o, 'children', x['kids'])
        self.made.append(x)
        return o

    def height(self, o):
        """None if this is not one of the nodes"""
        if o is None:
            return self.n + 1
        for x in self.made:
            if self.h.same(x['node'], o):
                return x['k']
        return None

    def steps(self, g, inv):
        """contract of a loop that walks from the position towards the root; inv(k, loc) once it has got to height k"""
        h = self.h
        box = {}

        def walker(loc):
            return sorted([v for v in loc if loc[v] is not None and self.height(loc[v]) is not None])

        def where(loc):
            k = self.height(loc[box['name']]) if box['name'] in loc else None
            if k is None:
                h.undecided('another walk towards the root')
            return k

        def holds(i, loc):
            if i == 0:
                w = walker(loc)
                if len(w) != 1:
                    h.undecided('another walk towards the root')
                box['name'], box['last'] = w[0], None
            k = where(loc)
            out = [('on the way from the position to the root', h.And(k >= 0, k <= self.n + 1))] + inv(k, loc)
            if box['last'] is not None:
                out.append(('it gets on', k > box['last']))
            return out

        def state(i, loc):
            k = h.havoc_int('height', 0)
            h.assume(k <= self.n + 1)
            self.hops = 0
            now = dict(loc)
            now[box['name']] = self.node(k)
            now.update(g(k, loc) if g else {})
            for label, c in inv(k, now):
                h.assume(c)
            box['last'] = k
            return dict((v, now[v]) for v in [box['name']] + (sorted(g(k, loc)) if g else []))
        loop = h.loop(holds, state)

        def pick(loc):
            return loop if walker(loc) else None
        h.default_while = pick

    def kept(self, but=None):
        """no child of a node is touched, save the one"""
        h = self.h
        return all([h.same(h.get(x['node'], 'children'), x['kids']) and
                    (x is but or (x['kids'].n is x['size'])) for x in self.made])


ANY = dict(_abstract=True, _replay=False, _random=False, _merge=False)


@R.harness(other=['made up'] + REAL, op=['append', 'enter'], **ANY)
def add_any(h, op, other):
    """an editing step with any number of enclosing nodes; one of them, anywhere, is watched"""
    D = tree(h)
    t = AnyChain(h, other)
    j = h.int('watched', 0)
    h.assume(j <= t.n)

    def inv(k, loc):
        return [('no nearer node accepts it', h.And(k <= t.n, h.Implies(j < k, h.Not(t.accepts(j)))))]
    # the root is watched as well: it accepts everything, so the walk ends there at the latest
    t.steps(None, inv)
    r = h.call(getattr(t.ed, op), D.SpanElement, **{'class': 'x'})
    h.check('accepted by some enclosing node', r.ok)
    node = r.value
    h.check('a new node of the asked class with its attributes',
            h.isinst(node, D.SpanElement) and node.attrs['class'] == 'x' and h.length(node.children) == 0)
    hit = [x for x in t.made if not x['kids'].n is x['size']]
    h.check('one node gets it', len(hit) == 1)
    x = hit[0]
    h.check('it becomes the last child', x['kids'].n == x['size'] + 1 and h.same(h.item(x['kids'], x['size']), node))
    h.check('of a node that accepts it', t.accepts(x['k']))
    h.check('the nearest such', h.Implies(j < x['k'], h.Not(t.accepts(j))))
    h.check('the position moves there', h.same(t.ed.current, x['node'] if op == 'append' else node))
    h.check('the new node is enclosed by the former position', h.same(node.parent, t.position))
    h.check('no other node is touched', t.kept(x))


@R.harness(other=['made up'] + REAL, **ANY)
def leave_any(h, other):
    t = AnyChain(h, other)
    j = h.int('watched', 0)
    h.assume(j <= t.n)

    def inv(k, loc):
        return [('no nearer node is of the kind', h.Implies(j < k, h.Not(t.is_kind(j)))), ('not left yet', h.same(t.ed.current, t.position))]
    t.steps(None, inv)
    r = h.call(t.ed.leave, t.kinds[0])
    h.check('never fails', r.ok)
    k = t.height(t.ed.current)
    h.check('to one of the enclosing nodes', k is not None and h.And(k >= 0, k <= t.n))
    if h.same(t.ed.current, t.position):
        h.check('nowhere if none is of the kind', h.Not(t.is_kind(j)))
    else:
        h.check('to the parent of a node of the kind', t.is_kind(k - 1))
        h.check('the nearest such', h.Implies(j < k - 1, h.Not(t.is_kind(j))))
    h.check('no node is touched', t.kept())


@R.harness(other=['made up'] + REAL, **ANY)
def ancestor_any(h, other):
    t = AnyChain(h, other)
    j = h.int('watched', 0)
    h.assume(j <= t.n)

    def inv(k, loc):
        return [('no nearer node is of the kind', h.Implies(j < k, h.Not(t.is_kind(j))))]
    t.steps(None, inv)
    r = h.call(t.ed.ancestor, t.kinds[0])
    h.check('never fails', r.ok)
    if r.value is None:
        h.check('none only if none is of the kind', h.Not(t.is_kind(j)))
    else:
        k = t.height(r.value)
        h.check('one of the enclosing nodes', k is not None)
        h.check('of the kind', t.is_kind(k))
        h.check('the nearest such', h.Implies(j < k, h.Not(t.is_kind(j))))
    h.check('asking changes nothing', t.kept() and h.same(t.ed.current, t.position))


@R.harness(other=['made up'] + REAL, **ANY)
def nesting_any(h, other):
    t = AnyChain(h, other)

    def upto(k):
        """how many of the nodes below this height are of the kind: by its defining equations, as far as needed"""
        return h.uf('count', k)

    def unfold(k):
        h.assume(h.And(upto(0) == 0, upto(k + 1) == upto(k) + h.Ite(t.is_kind(k), 1, 0)))
    unfold(t.n)
    box = {}

    def counter(loc):
        if 'name' not in box:
            box['name'] = [v for v in sorted(loc) if h.isint(loc[v]) and h.identical(loc[v], 0)]
        if len(box['name']) != 1:
            h.undecided('another way to count')
        return box['name'][0]

    def carried(k, loc):
        unfold(k)
        return {counter(loc): upto(k)}

    def inv(k, loc):
        c = counter(loc)
        if c not in loc:
            h.undecided('another way to count')
        return [('counted so far', loc[c] == upto(k))]
    t.steps(carried, inv)
    r = h.call(t.ed.count_nesting, t.kinds[0])
    h.check('how many enclosing nodes are of the kind', r.ok and r.value == upto(t.n + 1))
    h.check('asking changes nothing', t.kept() and h.same(t.ed.current, t.position))


@R.harness(**ANY)
def visit_any(h):
    """a node with any number of children"""
    D = tree(h)
    n = h.int('n', 0)
    g = {'entered': 0, 'left': 0, 'next': 0}
    node = h.new(D.Node, None)

    def enter(x):
        h.check('the node is entered, first and once', h.same(x, node) and g['entered'] == 0)
        g['entered'] = 1

    def leave(x):
        h.check('the node is left, last and once', h.same(x, node) and g['left'] == 0 and g['entered'] == 1)
        g['left'] = 1
        g['at the end'] = g['next']
    v = h.new(h.subclass(D.Visitor, 'Recorder', {'enter': enter, 'leave': leave}))

    def elem(i):
        def accept(visitor):
            h.check('the children in order, each once, inside the node', h.And(g['next'] == i, g['entered'] == 1, g['left'] == 0))
            h.check('the visitor is handed on', h.same(visitor, v))
            g['next'] = i + 1
        return h.new(h.subclass(D.Node, 'Child', {'accept': accept}), None)

    def holds(i, loc):
        return [('as many children as passed', g['next'] == i), ('inside the node', g['entered'] == 1 and g['left'] == 0)]

    def state(i, loc):
        g['next'] = i
    if not h.hasattr(node, 'children') or h.length(h.get(node, 'children')) != 0:
        h.undecided('where a node keeps its children')
    kids = h.seq(n, elem, h.loop(holds, state))
    h.set(node, 'children', kids)
    r = h.call(node.accept, v)
    h.check('visits', r.ok)
    h.check('entered and left', g['entered'] == 1 and g['left'] == 1)
    h.check('left after its last child', g['at the end'] == n)
    h.check('the children stay', h.same(node.children, kids) and kids.n == n)


@R.harness(last=['none', 'text', 'element'], **ANY)
def add_text_any(h, last):
    """text added at a position with any number of children"""
    D = tree(h)
    t = AnyChain(h)
    x = t.made[0]
    old, more = h.word('old', 'abc'), h.word('more', 'def')
    h.assume(h.Not(h.eq(more, '')))
    h.assume(x['size'] >= 1 if last != 'none' else x['size'] == 0)
    cur = t.position
    end = None if last == 'none' else h.new(D.Text, cur, 'x') if last == 'text' else h.new(D.BoldElement, cur)
    if last == 'text':
        h.call(end.set_text, old)

    def child(i):
        if not h.split(i == x['size'] - 1):
            h.undecided('another child is looked at')
        return end
    x['kids'].elem = child
    r = h.call(t.ed.append_text, more)
    h.check('accepted', r.ok)
    if last == 'text':
        h.check('merged into a directly preceding text', x['kids'].n == x['size'] and
                h.eq(h.call(end.open).value, h.join('', [old, more])))
    else:
        h.check('a new child', x['kids'].n == x['size'] + 1)
        new = h.item(x['kids'], x['size'])
        h.check('a text at the end', h.isinst(new, D.Text) and h.same(new.parent, cur))
        h.check('with the text', h.eq(h.call(new.open).value, more))
    h.check('no other node is touched', t.kept(x))
    h.check('the position stays', h.same(t.ed.current, cur))


@R.harness(**ANY)
def take_out_any(h):
    """one of any number of children is taken out"""
    D = tree(h)
    t = AnyChain(h)
    x = t.made[0]
    i, j = h.int('which', 0), h.int('watched', 0)
    h.assume(h.And(i < x['size'], j < x['size'], i != j))
    it, other = h.new(D.BoldElement, t.position), h.new(D.BoldElement, t.position)

    def child(k):
        if h.split(k == i):
            return it
        if h.split(k == j):
            return other
        return h.new(D.SpanElement, t.position)
    x['kids'].elem = child
    x['kids'].find = lambda v: i if h.same(v, it) else j if h.same(v, other) else None
    r = h.call(t.ed.remove, it)
    h.check('taken out', r.ok and x['kids'].n == x['size'] - 1)
    h.check('the others stay, in order', h.same(h.item(x['kids'], h.Ite(j < i, j, j - 1)), other))
    h.check('no other node is touched', t.kept(x))
    h.check('the position stays', h.same(t.ed.current, t.position))


@R.harness()
def root_accepts(h):
    D = tree(h)
    for k in ['SpanElement', 'TableCellElement', 'ItemizeElement', 'Text', 'DivElement', 'BgWikiElementMacroNode']:
        r = h.call(h.new(D.BgWikiElementRoot).is_acceptable, h.new(getattr(D, k), None))
        h.check('the root of a document accepts everything', r.ok and h.istrue(r.value))
