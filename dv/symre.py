"""Python 2 regular expressions over texts with symbolic characters: a backtracking matcher over the parse tree of
the standard library's own parser; every character test on a symbolic character is a case split."""
import re as _re
import z3
try:
    from re import _parser, _constants as C
except ImportError:          # before 3.11
    import sre_parse as _parser, sre_constants as C
from .sym import *
from .objs import *

ALL = frozenset(range(256))
DIGIT = frozenset(range(48, 58))
SPACE = frozenset([9, 10, 11, 12, 13, 32])
WORD = frozenset(list(range(48, 58)) + list(range(65, 91)) + list(range(97, 123)) + [95])
CATS = {C.CATEGORY_DIGIT: DIGIT, C.CATEGORY_NOT_DIGIT: ALL - DIGIT, C.CATEGORY_SPACE: SPACE,
        C.CATEGORY_NOT_SPACE: ALL - SPACE, C.CATEGORY_WORD: WORD, C.CATEGORY_NOT_WORD: ALL - WORD}


def fold(s):
    out = set(s)
    for c in s:
        if 65 <= c <= 90:
            out.add(c + 32)
        elif 97 <= c <= 122:
            out.add(c - 32)
    return frozenset(out)


def charset(op, av, flags):
    if op is C.LITERAL:
        s = frozenset([av])
    elif op is C.NOT_LITERAL:
        s = frozenset([av])
        if flags & _re.I:
            s = fold(s)
        return ALL - s
    elif op is C.ANY:
        return ALL if flags & _re.S else ALL - frozenset([10])
    elif op is C.IN:
        neg, s = False, set()
        for o, a in av:
            if o is C.NEGATE:
                neg = True
            elif o is C.LITERAL:
                s.add(a)
            elif o is C.RANGE:
                s.update(range(a[0], a[1] + 1))
            elif o is C.CATEGORY:
                s.update(CATS[a])
            else:
                raise Unsupported('regex set item %s' % o)
        if flags & _re.I:
            s = fold(s)
        return ALL - frozenset(s) if neg else frozenset(s)
    else:
        return None
    return fold(s) if flags & _re.I else s


SETC = {}


def setof(op, av, flags):
    if op is not C.IN:
        return charset(op, av, flags) if op in (C.LITERAL, C.NOT_LITERAL, C.ANY) else None
    k = (id(av), flags & (_re.I | _re.S))
    r = SETC.get(k)
    if r is None or r[1] is not av:
        r = (charset(op, av, flags), av)
        SETC[k] = r
    return r[0]


def in_set(I, memo, unit, s):
    if unit[0] == 'lit':
        return ord(unit[1]) in s
    e = ie(unit[1])
    k = (e.get_id(), s)
    r = memo.get(k)
    if r is None:
        xs = sorted(s)
        parts, i = [], 0
        while i < len(xs):
            j = i
            while j + 1 < len(xs) and xs[j + 1] == xs[j] + 1:
                j += 1
            lo, hi = xs[i], xs[j]
            parts.append(e == lo if lo == hi else z3.And(e >= lo, e <= hi) if lo > 0 and hi < 255 else
                         e <= hi if lo == 0 and hi < 255 else e >= lo if lo > 0 else z3.BoolVal(True))
            i = j + 1
        r = I.engine.branch(z3.Or(parts) if parts else z3.BoolVal(False))
        memo[k] = r
        memo.setdefault('keep', []).append(e)
    return r


class Matcher(object):
    def __init__(self, I, units, flags, memo):
        self.I, self.u, self.n, self.memo = I, units, len(units), memo

    def test(self, s, pos):
        return pos < self.n and in_set(self.I, self.memo, self.u[pos], s)

    def isword(self, pos):
        return 0 <= pos < self.n and in_set(self.I, self.memo, self.u[pos], WORD)

    def run(self, items, flags, i, pos, caps, k):
        if i == len(items):
            return k(pos, caps)
        op, av = items[i]
        nxt = lambda p, c: self.run(items, flags, i + 1, p, c, k)
        s = setof(op, av, flags)
        if s is not None:
            return nxt(pos + 1, caps) if self.test(s, pos) else None
        if op is C.BRANCH:
            for alt in av[1]:
                r = self.run(alt, flags, 0, pos, caps, nxt)
                if r is not None:
                    return r
            return None
        if op is C.SUBPATTERN:
            g, add, rem, p = av
            fl = (flags | add) & ~rem

            def close(q, c):
                if g is not None:
                    c = dict(c)
                    c[g] = (pos, q)
                    c['last'] = g
                return nxt(q, c)
            return self.run(p, fl, 0, pos, caps, close)
        if op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, p = av
            hi = self.n + 1 if hi is C.MAXREPEAT else hi
            one = setof(p[0][0], p[0][1], flags) if len(p) == 1 else None
            if one is not None:
                if op is C.MAX_REPEAT:
                    q = pos
                    while q - pos < hi and self.test(one, q):
                        q += 1
                    while q - pos >= lo:
                        r = nxt(q, caps)
                        if r is not None:
                            return r
                        q -= 1
                    return None
                q = pos
                while True:
                    if q - pos >= lo:
                        r = nxt(q, caps)
                        if r is not None:
                            return r
                    if q - pos >= hi or not self.test(one, q):
                        return None
                    q += 1

            def rep(n, q, c):
                def again(q2, c2):
                    if q2 == q and n >= lo:
                        return None
                    return rep(n + 1, q2, c2)
                if op is C.MIN_REPEAT:
                    if n >= lo:
                        r = nxt(q, c)
                        if r is not None:
                            return r
                    return self.run(p, flags, 0, q, c, again) if n < hi else None
                if n < hi:
                    r = self.run(p, flags, 0, q, c, again)
                    if r is not None:
                        return r
                return nxt(q, c) if n >= lo else None
            return rep(0, pos, caps)
        if op is C.AT:
            if av is C.AT_BEGINNING:
                ok = pos == 0 or bool(flags & _re.M) and self.test(frozenset([10]), pos - 1)
            elif av is C.AT_BEGINNING_STRING:
                ok = pos == 0
            elif av is C.AT_END:
                ok = pos == self.n or (pos == self.n - 1 or bool(flags & _re.M)) and self.test(frozenset([10]), pos)
            elif av is C.AT_END_STRING:
                ok = pos == self.n
            elif av is C.AT_BOUNDARY:
                ok = self.isword(pos - 1) != self.isword(pos)
            elif av is C.AT_NON_BOUNDARY:
                ok = self.isword(pos - 1) == self.isword(pos)
            else:
                raise Unsupported('regex position %s' % av)
            return nxt(pos, caps) if ok else None
        if op is C.GROUPREF:
            if av not in caps:
                return None
            a, b = caps[av]
            B = self.I.B
            for j in range(b - a):
                if pos + j >= self.n or not self.I.truth(B.unit_eq(self.u[a + j], self.u[pos + j])):
                    return None
            return nxt(pos + b - a, caps)
        if op in (C.ASSERT, C.ASSERT_NOT):
            d, p = av
            if d < 0:
                w = p.getwidth()
                if w[0] != w[1]:
                    raise Unsupported('look-behind')
                st = pos - w[0]
                r = None if st < 0 else self.run(p, flags, 0, st, caps, lambda q, c: (q, c))
            else:
                r = self.run(p, flags, 0, pos, caps, lambda q, c: (q, c))
            if op is C.ASSERT:
                return nxt(pos, r[1]) if r is not None else None
            return nxt(pos, caps) if r is None else None
        if op is C.GROUPREF_EXISTS:
            g, yes, no = av
            p = yes if g in caps else no
            return nxt(pos, caps) if p is None else self.run(p, flags, 0, pos, caps, nxt)
        raise Unsupported('regex operator %s' % op)


class ReMatch(object):
    def __init__(self, I, pat, s, units, spans):
        self._I, self.re, self.string, self._u, self._sp = I, pat, s, units, spans

    def _key(self, g):
        if isinstance(g, str):
            if g not in self.re.groupindex:
                self._I.throw('IndexError', 'no such group')
            return self.re.groupindex[g]
        if not 0 <= g <= self.re.groups:
            self._I.throw('IndexError', 'no such group')
        return g

    def _text(self, g, default=None):
        sp = self._sp.get(g)
        return default if sp is None else SStr.make(self._u[sp[0]:sp[1]])

    def group(self, *gs):
        if not gs:
            return self._text(0)
        r = [self._text(self._key(g)) for g in gs]
        return r[0] if len(r) == 1 else tuple(r)

    def groups(self, default=None):
        return tuple(self._text(g, default) for g in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return self._I.engine.fresh_container(
            dict((k, self._text(v, default)) for k, v in self.re.groupindex.items()))

    def start(self, g=0):
        return self._sp.get(self._key(g), (-1, -1))[0]

    def end(self, g=0):
        return self._sp.get(self._key(g), (-1, -1))[1]

    def span(self, g=0):
        return self._sp.get(self._key(g), (-1, -1))

    @property
    def lastindex(self):
        return self._sp.get('last')

    @property
    def lastgroup(self):
        for k, v in self.re.groupindex.items():
            if v == self._sp.get('last'):
                return k
        return None


class RePat(object):
    """a compiled pattern"""
    def __init__(self, I, pattern, flags=0):
        flags = int(flags) & ~(_re.U | _re.L)
        self.nat = _re.compile(pattern, flags | _re.ASCII)
        self.pattern, self.flags = pattern, flags
        self.tree = _parser.parse(pattern, flags | _re.ASCII)
        self.fl = self.tree.state.flags
        self.groups = self.nat.groups
        self.groupindex = dict(self.nat.groupindex)
        self.width = self.tree.getwidth()

    def at(self, I, u, pos, memo):
        m = Matcher(I, u, self.fl, memo)
        r = m.run(self.tree, self.fl, 0, pos, {}, lambda q, c: (q, c))
        if r is None:
            return None
        sp = dict(r[1])
        sp[0] = (pos, r[0])
        return sp

    def scan(self, I, s, u, memo, pos=0):
        while pos <= len(u):
            sp = None
            for st in range(pos, len(u) + 1):
                sp = self.at(I, u, st, memo)
                if sp is not None:
                    break
            if sp is None:
                return
            yield ReMatch(I, self, s, u, sp)
            a, b = sp[0]
            pos = b + 1 if a == b else b

    def do(self, I, name, a, k):
        a = list(a)
        if name in ('sub', 'subn'):
            names = ['repl', 'string', 'count']
        elif name == 'split':
            names = ['string', 'maxsplit']
        else:
            names = ['string', 'pos', 'endpos']
        for x in names[len(a):]:
            if x in k:
                a.append(k[x])
        si = 1 if name in ('sub', 'subn') else 0
        s = a[si]
        if ishom(s):
            if name != 'sub' or len(a) > 2 or self.width != (1, 1) or has_context(self.tree):
                raise Unsupported('regular expression on arbitrary text: not character-wise')
            return charwise(s, lambda t: self.do(I, 'sub', [a[0], t], {}))
        if not isinstance(s, (str, SStr)):
            I.throw('TypeError', 'expected string or buffer')
        if len(a) > si + 1 and (name not in ('sub', 'split') or a[si + 1]):
            raise Unsupported('regular expression with bounds')
        fn = name in ('sub', 'subn') and not isinstance(a[0], (str, SStr))
        if isinstance(s, str) and not fn and (self.width[0] > 0 or name in ('match', 'search')) \
                and not (si and isinstance(a[0], SStr)):
            try:
                r = getattr(self.nat, name)(*a)
            except (IndexError, _re.error) as x:
                I.native_exc(x)
            if name == 'finditer':
                r = list(r)
            return I.engine.fresh_container(r) if isinstance(r, list) else r
        u = SStr.of(s).units()
        if u is None:
            r = self.opaque(I, name, s)
            if r is not NotImplemented:
                return r
            u = I.B.expand(I, SStr.of(s))
        memo = {}
        if name == 'match':
            sp = self.at(I, u, 0, memo)
            return ReMatch(I, self, s, u, sp) if sp is not None else None
        if name == 'search':
            for m in self.scan(I, s, u, memo):
                return m
            return None
        if name == 'finditer':
            return list(self.scan(I, s, u, memo))
        if name == 'findall':
            out = []
            for m in self.scan(I, s, u, memo):
                out.append(m.group() if not self.groups else m._text(1, '') if self.groups == 1 else m.groups(''))
            return I.engine.fresh_container(out)
        if name == 'split':
            out, last = [], 0
            for m in self.scan(I, s, u, memo):
                b, e = m._sp[0]
                if b == e:
                    continue
                out.append(SStr.make(u[last:b]))
                out.extend(m.groups())
                last = e
            out.append(SStr.make(u[last:]))
            return I.engine.fresh_container(out)
        if name in ('sub', 'subn'):
            parts, last, n = [], 0, 0
            for m in self.scan(I, s, u, memo):
                b, e = m._sp[0]
                if b == e == last and n > 0:
                    continue
                parts.extend(u[last:b])
                r = I.call(a[0], [m], {}) if fn else template(I, a[0], m)
                if not isinstance(r, (str, SStr)):
                    I.throw('TypeError', 'expected string')
                parts.extend(SStr.of(r).parts)
                last, n = e, n + 1
            parts.extend(u[last:])
            r = SStr.make(parts)
            return r if name == 'sub' else (r, n)
        raise Unsupported('regular expression method ' + name)

    def opaque(self, I, name, s):
        """match of an unknown text: an unknown but fixed answer"""
        if name in ('match', 'search') and len(s.parts) == 1 and s.parts[0][0] == 'opq':
            p = s.parts[0]
            h = getattr(I, 're_opaque', None)
            if h is not None:
                return h(I, self, name, s)
        return NotImplemented


def template(I, t, m):
    if isinstance(t, SStr):
        raise Unsupported('symbolic template')
    if '\\' not in t:
        return t
    out, i = [], 0
    while i < len(t):
        c = t[i]
        if c != '\\':
            out.append(c)
            i += 1
            continue
        q = _re.match(r'\\(?:(\d{1,2})|g<(\w+)>|([nrt\\]))', t[i:])
        if not q:
            raise Unsupported('template ' + t)
        if q.group(3):
            out.append({'n': '\n', 'r': '\r', 't': '\t', '\\': '\\'}[q.group(3)])
        else:
            g = q.group(1) or q.group(2)
            v = m.group(int(g) if g.isdigit() else g)
            if v is None:
                I.throw('ReError', 'unmatched group')
            out.append(v)
        i += q.end()
    return I.B.add_all(out) if out else ''


def attr(I, o, name):
    if isinstance(o, RePat):
        if name in ('match', 'search', 'findall', 'finditer', 'sub', 'subn', 'split'):
            return Native(name, lambda I, a, k: o.do(I, name, a, k))
        if name in ('pattern', 'flags', 'groups', 'groupindex'):
            return getattr(o, name)
        I.throw('AttributeError', name)
    if name.startswith('_') or not hasattr(type(o), name) and name not in ('re', 'string'):
        I.throw('AttributeError', name)
    v = getattr(o, name)
    return Native(name, lambda I, a, k: v(*a, **k)) if callable(v) and not isinstance(v, RePat) else v


class Hom(object):
    """arbitrary text of any length with character-wise replacements applied: the kind of rope part ('hom', Hom).
    Only operations that act on the characters one by one are supported."""
    def __init__(self, base, steps=()):
        self.base, self.steps = base, tuple(steps)

    def image(self, I, unit):
        """the text that one character becomes"""
        cur = SStr.make([unit])
        for st in self.steps:
            cur = st(cur)
        return cur

    def nonempty(self, I):
        if self.steps:
            raise Unsupported('length of arbitrary text')
        return z3.Bool('nonempty_%s' % self.base)


def ishom(s):
    return isinstance(s, SStr) and any(p[0] == 'hom' for p in s.parts)


def charwise(s, step):
    """apply a character-wise replacement to every part"""
    out = []
    for p in s.parts:
        if p[0] == 'hom':
            out.append(('hom', Hom(p[1].base, p[1].steps + (step,))))
        else:
            out.extend(SStr.of(step(SStr.make([p]))).parts)
    return SStr.make(out)


def hom_method(I, s, name, a, k):
    if name == 'replace' and len(a) == 2 and isinstance(a[0], str) and len(a[0]) == 1:
        return charwise(s, lambda t: I.B.str_method(I, t, 'replace', a, k))
    if name in ('upper', 'lower'):
        return charwise(s, lambda t: I.B.str_method(I, t, name, a, k))
    raise Unsupported('str.%s of arbitrary text' % name)


def has_context(tree):
    """anything that looks beyond the characters matched"""
    for op, av in tree:
        if op in (C.AT, C.ASSERT, C.ASSERT_NOT, C.GROUPREF, C.GROUPREF_EXISTS):
            return True
        if op is C.SUBPATTERN and has_context(av[3]):
            return True
        if op is C.BRANCH and any(has_context(x) for x in av[1]):
            return True
        if op in (C.MAX_REPEAT, C.MIN_REPEAT) and has_context(av[2]):
            return True
    return False
