"""Run-time objects of the interpreted program."""
from .sym import *


class PyExc(Exception):
    """An exception of the interpreted program."""
    def __init__(self, value, where=None):
        self.value = value
        self.where = where

    @property
    def cname(self):
        return self.value.cls.name

    def __str__(self):
        return '%s%r at %s' % (self.cname, tuple(self.value.d.get('args', ())), self.where)


INTERP = [None]


class PModule(object):
    def __init__(self, name):
        self.name = name
        self.d = {'__name__': name, '__doc__': None}

    def __getattr__(self, k):
        if k.startswith('__') and k not in ('__all__',):
            raise AttributeError(k)
        return INTERP[0].getattr_(self, k)

    def __repr__(self):
        return '<module %s>' % self.name


class PClass(object):
    def __init__(self, name, bases, d, native=None, ctor=None):
        self.name = name
        self.bases = tuple(bases)
        self.d = d
        self.native = native
        self.ctor = ctor
        self.mro = self._mro()

    def _mro(self):
        seqs = [list(b.mro) for b in self.bases] + [list(self.bases)]
        out = [self]
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                return out
            for s in seqs:
                c = s[0]
                if not any(c in t[1:] for t in seqs):
                    break
            else:
                raise Unsupported('inconsistent MRO ' + self.name)
            out.append(c)
            for s in seqs:
                if s[0] is c:
                    del s[0]

    def lookup(self, name):
        for c in self.mro:
            if name in c.d:
                return c.d[name], c
        return None, None

    def issub(self, other):
        return other in self.mro

    def __call__(self, *a, **k):
        return INTERP[0].call(self, list(a), k)

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        return INTERP[0].getattr_(self, k)

    def __repr__(self):
        return '<class %s>' % self.name


class PInst(object):
    """Instance of an interpreted class; attribute access from Python code goes through the interpreter."""
    def __init__(self, cls, d=None):
        object.__setattr__(self, 'cls', cls)
        object.__setattr__(self, 'd', {} if d is None else d)

    def __getattr__(self, k):
        if k.startswith('__') or k == '_nat':
            raise AttributeError(k)
        return INTERP[0].getattr_(self, k)

    def __setattr__(self, k, v):
        INTERP[0].setattr_(self, k, v)

    def __call__(self, *a, **k):
        return INTERP[0].call(self, list(a), k)

    def __len__(self):
        return INTERP[0].b_len(self)

    def __bool__(self):
        return INTERP[0].truth(self)

    def __iter__(self):
        return INTERP[0].iterate(self)

    def __contains__(self, x):
        return INTERP[0].truth(INTERP[0].contains(self, x))

    def __getitem__(self, x):
        return INTERP[0].getitem(self, x)

    def __setitem__(self, x, v):
        return INTERP[0].setitem(self, x, v)

    __hash__ = object.__hash__

    def __eq__(self, o):
        r = INTERP[0].eq(self, o)
        return r

    def __ne__(self, o):
        return INTERP[0].ne(self, o)

    def __repr__(self):
        return '<%s instance>' % self.cls.name


class PFunc(object):
    __slots__ = ('name', 'node', 'module', 'closure', 'defaults', 'params', 'vararg', 'kwarg', 'isgen',
                 'localset', 'qual', 'attrs', 'cls')

    def __call__(self, *a, **k):
        return INTERP[0].call(self, list(a), k)

    def __repr__(self):
        return '<function %s>' % self.qual


class PBound(object):
    __slots__ = ('fn', 'self_', 'cls')

    def __init__(self, fn, self_, cls=None):
        self.fn = fn
        self.self_ = self_
        self.cls = cls

    def __call__(self, *a, **k):
        return INTERP[0].call(self, list(a), k)

    def __eq__(self, o):
        return isinstance(o, PBound) and self.fn is o.fn and self.self_ is o.self_

    def __hash__(self):
        return hash((id(self.fn), id(self.self_)))

    def __repr__(self):
        return '<bound %r>' % (self.fn,)


class PUnbound(object):
    __slots__ = ('fn', 'cls')

    def __init__(self, fn, cls):
        self.fn = fn
        self.cls = cls

    def __call__(self, *a, **k):
        return INTERP[0].call(self, list(a), k)


class PStatic(object):
    def __init__(self, f):
        self.f = f


class PClassM(object):
    def __init__(self, f):
        self.f = f


class PProp(object):
    def __init__(self, fget=None, fset=None):
        self.fget, self.fset = fget, fset


class PSuper(object):
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class Native(object):
    """Builtin function. fn(interp, args, kwargs)"""
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __call__(self, *a, **k):
        return self.fn(INTERP[0], list(a), k)

    def __repr__(self):
        return '<native %s>' % self.name


class NMethod(object):
    """Method of a native value."""
    __slots__ = ('obj', 'name')

    def __init__(self, obj, name):
        self.obj, self.name = obj, name

    def __call__(self, *a, **k):
        return INTERP[0].call(self, list(a), k)

    def __eq__(self, o):
        return isinstance(o, NMethod) and self.obj is o.obj and self.name == o.name

    def __hash__(self):
        return hash((id(self.obj), self.name))


class AbsSeq(object):
    """a sequence of any length: n elements, elem(i) the one at a possibly symbolic place, loop: contract of loops over it
    (way: -1 if it runs through the sequence the contract speaks of backwards)"""
    def __init__(self, n, elem, loop=None, way=1, kind='list'):
        self.n, self.elem, self.loop, self.way, self.kind = n, elem, loop, way, kind
        self.src = self
        self.find = None            # the first place of a value, None if it is not there
        self.any_order = False      # the order is arbitrary: it may stand for the one drawn

    def __snapshot__(self):
        return (self.n, self.elem, self.loop, self.way)

    def __restore__(self, s):
        self.n, self.elem, self.loop, self.way = s


class AbsMap(object):
    """a dictionary of any size: n entries; has(key), get(key), put(key, value), drop(key), and keys() in any order"""
    def __init__(self, n, has, get, put, drop, keys):
        self.n, self.has, self.get, self.put, self.drop, self.keys = n, has, get, put, drop, keys


class Loop(object):
    """contract of a loop: holds -> [(label, condition)] after i iterations, state establishes an arbitrary state in which it
    holds (and returns the values of loop-carried locals, chosen from their names and values at the start)"""
    def __init__(self, holds, state, modifies=(), begin=None, stream=False):
        self.holds_, self.state_, self.modifies_, self.begin_, self.stream = holds, state, modifies, begin, stream
        self.way = 1

    def holds(self, h, i, loc):
        return self.holds_(i, loc)

    def state(self, h, i, loc):
        return self.state_(i, loc)

    def modifies(self, h):
        return self.modifies_() if callable(self.modifies_) else self.modifies_

    def begin(self, h, loc):
        if self.begin_ is not None:
            self.begin_(loc)


class PGen(object):
    def __init__(self, it, level):
        self.it, self.level = it, level

    def __iter__(self):
        return self

    def __next__(self):
        if len(eng().explorers) > self.level:
            raise AbortMerge('generator advanced in inner region')
        return next(self.it)


class NatMod(object):
    """A standard library module available natively."""
    def __init__(self, name, d, py=None):
        self.name, self.d, self.py = name, d, py

    def __repr__(self):
        return '<natmod %s>' % self.name


class SStr(object):
    """Symbolic string: a rope of parts
       ('lit', text) | ('ch', Int code 0..255) | ('num', Int) decimal text | ('opq', uid, info) unknown text."""
    __slots__ = ('parts',)

    def __init__(self, parts):
        out = []
        for p in parts:
            if p[0] == 'lit':
                if not p[1]:
                    continue
                if out and out[-1][0] == 'lit':
                    out[-1] = ('lit', out[-1][1] + p[1])
                    continue
            out.append(p)
        self.parts = tuple(out)

    @staticmethod
    def make(parts):
        s = SStr(parts)
        if not s.parts:
            return ''
        if len(s.parts) == 1 and s.parts[0][0] == 'lit':
            return s.parts[0][1]
        return s

    @staticmethod
    def of(x):
        if isinstance(x, SStr):
            return x
        if isinstance(x, str):
            return SStr([('lit', x)])
        raise Unsupported('not a string: %r' % (x,))

    def units(self):
        """list of single-character parts, or None when some part has unknown length"""
        out = []
        for p in self.parts:
            if p[0] == 'lit':
                out.extend(('lit', c) for c in p[1])
            elif p[0] == 'ch':
                out.append(p)
            else:
                return None
        return out

    def __repr__(self):
        return 'SStr%r' % (self.parts,)

    __hash__ = object.__hash__

    def __add__(self, o):
        return SStr.make(self.parts + SStr.of(o).parts)

    def __radd__(self, o):
        return SStr.make(SStr.of(o).parts + self.parts)

    def __getitem__(self, i):
        B = INTERP[0].B
        return B.str_slice(INTERP[0], self, i.start, i.stop, i.step) if isinstance(i, slice) else B.str_index(INTERP[0], self, i)

    def __eq__(self, o):
        return INTERP[0].streq(self, o)

    def __ne__(self, o):
        return Not(INTERP[0].streq(self, o))

    def __merge__(self, c, other):
        if not isinstance(other, (str, SStr)):
            raise CantMerge('str')
        a, b = self.units(), SStr.of(other).units()
        if a is None or b is None:
            o = SStr.of(other)
            if [p[0] for p in self.parts] == [p[0] for p in o.parts]:
                out = []
                for x, y in zip(self.parts, o.parts):
                    if x[0] == 'lit':
                        if x[1] != y[1]:
                            raise CantMerge('str')
                        out.append(x)
                    elif x[0] in ('ch', 'num'):
                        out.append((x[0], mkint(z3.If(c, ie(x[1]), ie(y[1])))))
                    elif x == y:
                        out.append(x)
                    else:
                        raise CantMerge('str')
                return SStr.make(out)
            raise CantMerge('str')
        if len(a) != len(b):
            raise CantMerge('strlen')
        return SStr.make([mkch(mkint(z3.If(c, ie(code(x)), ie(code(y))))) for x, y in zip(a, b)])


def code(u):
    """ordinal of a unit"""
    return ord(u[1]) if u[0] == 'lit' else u[1]


def mkch(o):
    return ('lit', chr(o)) if isinstance(o, int) else ('ch', o)
