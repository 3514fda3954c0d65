"""C29: any wiki text is turned into balanced HTML without failing."""
from dv.spec import Registry
R = Registry()
HARNESSES, TASKS = R.harnesses, R.tasks
MODULES = ['bglib.doc', 'bglib.doc.html', 'bglib.doc.doctree', 'bglib.doc.macro', 'bglib.doc.bgwiki']
RANDOM = 60
LEVEL = 'other'
EXPLANATION = ('deductive verification of the real tokenizer, handlers, editor and writer over arbitrary characters: every '
               'text of up to three printable characters at the start of a document, and one line of every kind of markup '
               'from every position that satisfies the invariant (preserved by every line, so over all histories); '
               'bounded in the length of the free text and the number of enclosing nodes')
NOTE = 'every short text; every kind of line from any position with up to four enclosing nodes'
TRUSTED = ['docutils and the analysis database are outside; re.LOCALE is read as the C locale (ASCII texts)']
VOID = ('br', 'img')
SAFE = 'nopqrstuwxyz.;"/()@$%\\'          # characters that are never part of markup here
ESC = {'<': '&lt;', '>': '&gt;', '&': '&amp;'}


def W(h):
    return h.mod('bglib.doc.bgwiki')


def D(h):
    return h.mod('bglib.doc.doctree')


def fresh(h):
    return h.new(W(h).Formatter, None)


def read(h, html):
    """-> (problem, characters outside tags, conditions on unknown characters)"""
    stack, text, conds, tag = [], [], [], None
    for x in h.list(html):
        if not isinstance(x, (str, type(u''))):
            conds.append(h.And(h.Not(h.eq(x, '<')), h.Not(h.eq(x, '>'))))
            if tag is not None:
                conds.append(h.Not(h.eq(x, '"')))
                tag.append('\0')
            else:
                conds.append(h.Not(h.eq(x, '&')))
                text.append(x)
        elif x == '<':
            if tag is not None:
                return 'a tag in a tag', text, conds
            tag = []
        elif x == '>':
            if tag is None:
                return 'a stray >', text, conds
            t = ''.join(tag)
            tag = None
            if t[:1] == '/':
                if not stack or stack[-1] != t[1:]:
                    return 'closes ' + t + ' in ' + '/'.join(stack), text, conds
                stack.pop()
            elif t[-1:] != '/':
                stack.append(t.split(' ')[0])
            elif t.split(' ')[0] not in VOID:
                return 'empty element ' + t, text, conds
        elif tag is not None:
            tag.append(x)
        else:
            text.append(x)
    return 'left open ' + '/'.join(stack) if stack else '' if tag is None else 'an open tag', text, conds


def finish(h, f, what=''):
    """-> the text outside tags of the finished document"""
    r = h.call(f.make_html)
    h.check(what + 'the document is written', r.ok)
    if not r.ok:
        return None
    problem, text, conds = read(h, r.value)
    h.check(what + 'every element is closed in order', problem == '')
    h.check(what + 'text cannot be taken for a tag', h.And(*conds))
    return [x for x in text if not (isinstance(x, (str, type(u''))) and x == '\n')]


def take(text, marks):
    """text without the marks, each of which must be there once -> (rest, all there once)"""
    ok = True
    for m in marks:
        at = [i for i in range(len(text) - len(m) + 1) if all([isinstance(x, (str, type(u''))) for x in text[i:i + len(m)]]) and
              ''.join(text[i:i + len(m)]) == m]
        ok = ok and len(at) == 1
        if at:
            text = text[:at[0]] + text[at[0] + len(m):]
    return text, ok


RANGES = [(32, 38), (39, 47), (48, 61), (62, 91), (92, 96), (97, 109), (110, 126)]


@R.harness(n=[1, 2, 3], first=list(range(len(RANGES))), _merge=False, _weight=lambda n, first: 10 ** n,
           _quick=lambda n, first: n < 3)
def anything(h, n, first):
    """every text of n printable characters"""
    h.bounded('%d characters' % n)
    f = fresh(h)
    t = h.chars('a', 1, *RANGES[first]) + (h.chars('c', n - 1, 32, 126) if n > 1 else '')
    r = h.call(f.parse, t)
    h.check('the text is read', r.ok)
    text = finish(h, f)


@R.harness(n=[1, 2, 3, 4], end=['', '\n', '\nx', '\n\nx', '\n\n'], _merge=False,
           _quick=lambda n, end: n < 3)
def plain(h, n, end):
    """text without markup appears escaped, in order"""
    h.bounded('%d characters' % n)
    f = fresh(h)
    want, t = [], ''
    for i in range(n):
        x = h.char('c%d' % i, 32, 126)
        k = h.choice('k%d' % i, [0, 1, 2, 3])
        if k == 0:
            h.assume(h.Or(*[h.eq(x, c) for c in SAFE]))
            t = t + x
            want.append(x)
        else:
            c = '<&>'[k - 1]
            if c == '>' and i == 0:
                h.assume(False)
            t = t + c
            want.extend(ESC[c])
    r = h.call(f.parse, t + end)
    h.check('the text is read', r.ok)
    if 'x' in end:
        want.append('x')
    text = finish(h, f)
    h.check('the text appears escaped, in order', text is not None and len(text) == len(want) and
            h.And(*[h.eq(a, b) for a, b in zip(text, want)]))


def letters(h, name, n, lo='n', hi='z'):
    return h.chars(name, n, ord(lo), ord(hi))


# a line of markup: name, maker -> (line, visible text)
def lines(h, k):
    a = lambda n=2: letters(h, 'a', n)
    num = lambda: h.chars('d', 2, 48, 57)
    if k in TOGGLES:
        return TOGGLES[k], ''
    if k[:1] == '!' and k[1:] in TOGGLES:
        return '!' + TOGGLES[k[1:]], TOGGLES[k[1:]]
    if k[:2] == 'x ' and k[2:] in TOGGLES:
        x = a(1)
        return x + TOGGLES[k[2:]] + x, x + x
    if k in ITEMS:
        x = a()
        return ITEMS[k] + x, x
    x = a()
    if k == 'text':
        return x, x
    if k == 'empty':
        return '', ''
    if k == 'unsafe':
        return x + '<&>' + x, x + '&lt;&amp;&gt;' + x
    if k == 'mark':
        return '!' + x, '!' + x
    if k == 'definition':
        return x + '::', x
    if k == 'cells':
        return '||' + x + '||' + x + '||', x + x
    if k == 'cell':
        return '||' + x, x
    if k == 'row end':
        return x + '||  ', x
    if k == 'entry':
        n = num()
        return '#' + n, '#' + n
    if k == 'entry:':
        n = num()
        return 'entry:' + n, 'entry:' + n
    if k == '!entry':
        n = num()
        return '!#' + n, '#' + n
    if k == 'query':
        n = num()
        return 'query:' + n + '{' + n + '}', 'query:' + n + '{' + n + '}'
    if k == 'match':
        n = num()
        return 'm' + n + '[' + n + ']match:' + n, 'm' + n + '[' + n + ']match:' + n
    if k == 'url':
        return 'http://' + x + '.' + x, 'http://' + x + '.' + x
    if k == '!url':
        return '!http://' + x, 'http://' + x
    if k == 'url&':
        return 'https://' + x + '?a=1&b', 'https://' + x + '?a=1&amp;b'
    if k == 'scheme':
        return '[http://' + x + ']', 'http://' + x
    if k == 'scheme text':
        return '[http://' + x + ' ' + x + ' <b>"]', x + ' &lt;b&gt;"'
    if k == '!scheme text':
        return '![http://' + x + ' ' + x + ' <b>&"]', '[http://' + x + ' ' + x + ' &lt;b&gt;&amp;"]'
    if k == '!scheme':
        return '![http://' + x + '?a&b]', '[http://' + x + '?a&amp;b]'
    if k == '!wiki':
        return '![wiki:' + x + ']', '[wiki:' + x + ']'
    if k == '!query':
        n = num()
        return '!query:' + n + '!{' + n + '}', 'query:' + n + '{' + n + '}'
    if k == '!match':
        n = num()
        return '!m' + n + '![' + n + ']!match:' + n, 'm' + n + '[' + n + ']match:' + n
    if k == '!url&':
        return '!https://' + x + '?a=1&b', 'https://' + x + '?a=1&amp;b'
    if k == '!cell':
        return '!||' + x + '!||', '||' + x + '||'
    if k == 'wiki':
        return '[wiki:' + x + ']', x
    if k == 'camel':
        return 'A' + x + 'B' + x, 'A' + x + 'B' + x
    if k == '!camel':
        return '!A' + x + 'B' + x, 'A' + x + 'B' + x
    if k == 'br':
        return x + '[[BR]]' + x, x + x
    if k == 'toc':
        return '[[TableOfContent]]', None
    if k == 'position':
        return '[[Position(cNcxAxCY54YBBg:cAn7ADAAIAAA)]]', ''
    if k == 'bad position':
        return '[[Position(' + x + ')]]', 'Bad args "' + x + '" for Position'
    if k == 'no position':
        return '[[Position]]', 'Bad args "None" for Position'
    if k == 'unknown macro':
        return '[[N' + x + '(' + x + ')]]', 'No such macro "N' + x + '" with argument "' + x + '"'
    if k == 'no arguments':
        return '[[N' + x + ']]', 'No such macro "N' + x + '" with argument "None"'
    raise ValueError(k)


TOGGLES = {'bold': "'''", 'italic': "''", 'bolditalic': "'''''", 'underline': '__', 'strike': '~~', 'sub': ',,', 'sup': '^',
           'mono': '`', 'mono start': '{{{', 'mono end': '}}}', 'h3': '===', 'h2': '==', 'h1': '='}
ITEMS = {'item': ' * ', 'item2': '  * ', 'item3': '   * ', 'plus': ' + ', 'minus': ' --- ', 'minus2': '  - ', 'number': ' 1. ',
         'alpha': '  a ', 'roman': ' iv. ', 'quote': '   ', 'cite': '> ', 'cite2': '>> ', 'cite3': '>>> '}
KINDS = sorted(TOGGLES) + ['!' + k for k in sorted(TOGGLES)] + sorted(ITEMS) + [
    'text', 'empty', 'unsafe', 'mark', 'definition', 'cells', 'cell', 'row end', 'entry', 'entry:', '!entry', 'query', 'match', 'url', '!url',
    'url&', 'scheme', 'scheme text', 'wiki', 'camel', '!camel', 'br', 'toc', 'position', 'bad position', 'no position',
    '!scheme text', '!scheme', '!wiki', '!query', '!match', '!url&', '!cell',
    'unknown macro', 'no arguments', 'x bold', 'x mono', 'x h1', 'x mono end']
# enclosing nodes of interest to a kind of line; the others stand for any other node
OTHERS = ['DivElement', 'H1Element', 'BoldElement']
NEAR = {'bold': [], 'bolditalic': ['ItalicElement'], 'italic': ['ItalicElement'], 'mono': ['MonospaceElement'],
        'cell': ['TableElement', 'TableRowElement', 'TableCellElement'], 'row end': ['TableElement', 'TableRowElement', 'TableCellElement'],
        'cells': ['TableElement', 'TableRowElement', 'TableCellElement'],
        'cite': ['CitationElement', 'CitationContentElement'], 'quote': ['DefinitionListElement', 'DefinitionBodyElement', 'BlockQuoteElement'],
        'definition': ['DefinitionListElement', 'DefinitionBodyElement', 'DefinitionHeaderElement'],
        'item': ['ListElement', 'ItemizeElement'], 'position': ['SpanElement', 'ImgElement'], 'toc': ['H2Element', 'H3Element', 'AnchorElement']}
ALLKINDS = ['DivElement', 'H1Element', 'BoldElement', 'ItalicElement', 'MonospaceElement', 'TableElement', 'TableRowElement',
            'TableCellElement', 'CitationElement', 'CitationContentElement', 'DefinitionListElement', 'DefinitionBodyElement',
            'DefinitionHeaderElement', 'BlockQuoteElement', 'ItemizeElement', 'SpanElement', 'AnchorElement']
LISTS = [dict(star='*'), dict(sign='+', plus='+'), dict(ordered_numeric='1.')]


def near(k):
    for p in ('x ', '!'):
        if k[:len(p)] == p:
            k = k[len(p):]
    if k in ITEMS:
        k = 'quote' if k == 'quote' else 'cite' if k[:4] == 'cite' else 'item'
    if k[:4] == 'mono':
        k = 'mono'
    return OTHERS + NEAR.get(k, [])


def position(h, f, kinds):
    """walk into nodes of these kinds with the real editor; -> texts left on the way, or None when no history does that"""
    ed = h.get(f, 'editor')
    marks = []
    for i, k in enumerate(kinds):
        prev = kinds[i - 1] if i else None
        if (k == 'ItemizeElement') != (prev == 'ListElement') and not (k == 'ListElement' and prev == 'ListElement'):
            return None
        d = {}
        if k == 'ListElement':
            d = dict(star=None, sign=None, plus=None, minus=None, ordered_numeric=None, ordered_alpha=None, ordered_roman=None)
            d.update(h.choice('list%d' % i, LISTS))
        if k == 'ItemizeElement':
            d = {'style': h.call(h.get(ed, 'current').get_style).value}
        h.call(ed.enter, getattr(D(h), k), **d)
        if k != 'ListElement' and h.choice('mark%d' % i, [0, 1] if i == len(kinds) - 1 else [1]):
            marks.append('Q%d;' % i)
            h.call(ed.append_text, marks[-1])
    if kinds and kinds[-1] == 'ListElement':
        return None
    return marks


def invariant(h, f):
    """how list elements enclose each other"""
    ed = h.get(f, 'editor')
    node, below, ok = h.get(ed, 'current'), None, True
    for i in range(30):
        if node is None:
            return ok and h.same(ed.root, last)
        name = h.clsname(node)
        if name == 'ListElement':
            ok = ok and below in ('ListElement', 'ItemizeElement')
        if below == 'ItemizeElement':
            ok = ok and name == 'ListElement'
        below, last = name, node
        node = h.get(node, 'parent')
    return False


@R.harness(kind=KINDS, depth=[0, 1, 2, 3, 4], _merge=False, _weight=lambda kind, depth: len(near(kind)) ** depth,
           _quick=lambda kind, depth: depth < 3 and (depth < 2 or len(near(kind)) > 3))
def step(h, kind, depth):
    """one line of a kind from any position between the nodes it is concerned with"""
    if depth == 4 and len(near(kind)) > 5 or depth == 3 and len(near(kind)) == 3:
        return
    walk(h, kind, [h.choice('n%d' % i, near(kind)) for i in range(depth)])


@R.harness(kind=KINDS, under=ALLKINDS, _merge=False,
           _quick=lambda kind, under: (KINDS.index(kind) + ALLKINDS.index(under)) % 3 == 0)
def under(h, kind, under):
    """one line of a kind from within any node"""
    walk(h, kind, (['ListElement'] if under == 'ItemizeElement' else []) + [under])


def walk(h, kind, kinds):
    h.bounded('up to four enclosing nodes')
    f = fresh(h)
    marks = position(h, f, kinds)
    if marks is None:
        return
    h.check('a position to start from', invariant(h, f))
    line, visible = lines(h, kind)
    r = h.call(f.line_formatter.parse, line) if h.hasattr(f, 'line_formatter') else h.call(f.parse, line)
    h.check('the line is read', r.ok)
    h.check('lists enclose items', invariant(h, f))
    text = finish(h, f)
    if text is None:
        return
    if visible is not None:
        text, once = take(text, marks)
        want = [x for x in h.list(visible)]
        h.check('the texts before stay once', once)
        h.check('the new text appears once, in order', len(text) == len(want) and h.And(*[h.eq(a, b) for a, b in zip(text, want)]))


@R.harness(inner=[0, 1, 2], how=['', '#!preformat', '#!nosuch'], closed=[0, 1], before=['', 'Qa;', "'''Qa;", ' * Qa;'], _merge=False,
           _quick=lambda inner, how, closed, before: inner < 2 or (how, before, closed) == ('', '', 1))
def preformatted(h, inner, how, closed, before):
    """lines between the marks of preformatted text"""
    h.bounded('two lines of two characters')
    f = fresh(h)
    lines, want = [], []
    for i in range(inner):
        if h.choice('empty%d' % i, [0, 1]):
            lines.append('')
            continue
        a = h.char('a%d' % i, 32, 126)
        b = h.choice('b%d' % i, ['<', '&', '=', "'''", '}', '{{{', '||', '>', '\\', 'AxBx'])
        h.assume(h.And(*[h.Not(h.eq(a, c)) for c in '#<>&']))
        lines.append(a + b)
        want.extend([a] + [x for c in b for x in ESC.get(c, c)])
    t = '\n'.join(([before] if before else []) + ['{{{'] + ([how] if how else []))
    for x in lines:
        t = t + '\n' + x
    r = h.call(f.parse, t + ('\n}}}\nQy;' if closed else ''))
    h.check('the text is read', r.ok)
    text = finish(h, f)
    if text is not None:
        want = (list('Qa;') if before else []) + want + (list('Qy;') if closed else [])
        around = (['Qa;'] if before else []) + (['Qy;'] if closed else [])
        text, want = take(text, around), take(want, around)
        h.check('the text around it appears once', text[1])
        text, want = text[0], want[0]
        h.check('the text appears escaped, in order', len(text) == len(want) and h.And(*[h.eq(a, b) for a, b in zip(text, want)]))


@R.harness(a=KINDS, b=KINDS, _merge=False, _quick=lambda a, b: (KINDS.index(a) * 7 + KINDS.index(b)) % 20 == 0)
def pair(h, a, b):
    """two lines of any kinds, in one paragraph or two"""
    h.bounded('two lines')
    f = fresh(h)
    one = lines(h, a)[0]
    h.check('the first line is read', h.call(f.parse, one).ok)
    if h.choice('paragraph', [0, 1]):
        h.call(f.parse, '\n')
    two = lines(Renamed(h), b)[0]
    h.check('the second line is read', h.call(f.parse, two).ok)
    finish(h, f)


class Renamed(object):
    def __init__(self, h):
        self.h = h

    def chars(self, name, *a):
        return self.h.chars(name + "'", *a)
