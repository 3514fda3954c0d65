"""C21: escaped text and element attributes can never break out of HTML."""
from dv.spec import Registry
R = Registry()
HARNESSES, TASKS = R.harnesses, R.tasks
MODULES = ['bglib.doc', 'bglib.doc.html', 'bglib.doc.doctree']
SAMPLES = ['', 'a', '<', '>', '&', '?', '"', '&lt;', '<<>>', 'a&b', '<a href="x">', "'", '&amp;', '\n<\n', '\xff<', '\\1<']


def esc(h, c):
    """what one character becomes"""
    n = h.ord(c)
    if h.split(n == 60):
        return '&lt;'
    if h.split(n == 62):
        return '&gt;'
    if h.split(n == 38):
        return '&amp;'
    return c


def attr_esc(h, c):
    """in an attribute value the quote that ends it is written as its entity, too"""
    return '&quot;' if h.split(h.ord(c) == 34) else esc(h, c)


def html(h):
    return h.mod('bglib.doc.html')


@R.harness()
def escape(h):
    """texts of any length"""
    t = h.text('text')
    r = h.call(html(h).escape, t)
    h.check('answers', r.ok)
    h.check('every character is replaced by its entity or kept, in order', h.filled(r.value, [(t, esc)]))


@R.harness(n=[0, 1, 2, 3, 4], _merge=False)
def escape_short(h, n):
    """every text of up to four characters, whatever the implementation does"""
    h.bounded('texts of %d characters' % n)
    t = h.chars('text', n, 0, 255)
    cs = h.list(t)
    r = h.call(html(h).escape, t)
    h.check('answers', r.ok)
    h.check('every character is replaced by its entity or kept, in order',
            h.eq(r.value, h.join('', [esc(h, c) for c in cs])))


@R.harness(i=list(range(len(SAMPLES))))
def escape_samples(h, i):
    h.bounded('a sample text')
    r = h.call(html(h).escape, SAMPLES[i])
    h.check('escaped', h.And(r.ok, h.eq(r.value, ''.join([esc(h, c) for c in SAMPLES[i]]))))


@R.harness()
def injective(h):
    """the entity map is decodable: the first character of the image of a character tells the characters apart, and no
    image is a proper prefix of another, so different texts give different results"""
    a, b = h.char('a', 0, 255), h.char('b', 0, 255)
    h.assume(h.ord(a) != h.ord(b))
    x, y = h.call(html(h).escape, a), h.call(html(h).escape, b)
    h.check('answers', h.And(x.ok, y.ok))
    h.check('different characters have different images', h.Not(h.eq(x.value, y.value)))
    i, j = h.pick(h.length(x.value)), h.pick(h.length(y.value))
    k = min(i, j)
    h.check('not empty', k > 0)
    h.check('no image begins another', h.Not(h.eq(x.value[:k], y.value[:k])))


NAMES = ['BgWikiElementNode', 'SpanElement', 'DivElement', 'ImgElement', 'AnchorElement', 'TableCellElement', 'H1Element']


@R.harness(cls=NAMES, n=[1, 2], used=[False, True])
def attributes(h, cls, n, used):
    """used: the element was opened before with other values"""
    D = h.mod('bglib.doc.doctree')
    texts = [h.text('value%d' % i) for i in range(n)]
    keys = ['class', 'title'][:n]
    C = getattr(D, cls)
    if cls == 'BgWikiElementNode':
        C = h.subclass(C, 'Custom', {}, {'html_element': 'custom'})
    if used:
        e = h.new(C, None, **dict([(k, 'earlier') for k in keys]))
        h.check('opens', h.call(e.open).ok)
        if not h.hasattr(e, 'attrs'):
            h.undecided('the attributes are kept elsewhere')
        for k, t in zip(keys, texts):
            h.call(h.get(e.attrs, '__setitem__'), k, t)
    else:
        e = h.new(C, None, **dict(zip(keys, texts)))
    r = h.call(e.open)
    h.check('opens', r.ok)
    start = '<' + {'BgWikiElementNode': 'custom', 'SpanElement': 'span', 'DivElement': 'div', 'ImgElement': 'img',
                   'AnchorElement': 'a', 'TableCellElement': 'td', 'H1Element': 'h1'}[cls] + ' '
    end = ' />\n' if cls == 'ImgElement' else '>\n'
    orders = [keys] if n == 1 else [keys, keys[::-1]]
    forms = []
    for ks in orders:
        parts = [start]
        for i, k in enumerate(ks):
            parts += [(' ' if i else '') + k + '="', (texts[keys.index(k)], attr_esc), '"']
        forms.append(h.filled(r.value, parts + [end]))
    h.check('the values are written escaped', h.Or(forms))


@R.harness(used=[False, True])
def link(h, used):
    D = h.mod('bglib.doc.doctree')
    t = h.text('url')
    e = h.new(D.AnchorElement, None)
    if used:
        h.call(e.set_url, 'http://earlier/')
        h.call(e.open)
    h.call(e.set_url, t)
    r = h.call(e.open)
    h.check('the address is written escaped',
            h.And(r.ok, h.filled(r.value, ['<a href="', (t, attr_esc), '">\n'])))
