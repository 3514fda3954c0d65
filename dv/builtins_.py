"""Builtins, native types, strings and the native standard library for the evaluator."""
import re as _re, math as _math, string as _string, os.path as _osp, base64 as _b64, struct as _struct
import difflib as _difflib, io as _io, itertools as _itertools, binascii as _binascii
from .sym import *
from .objs import *
from . import symre

REC = {}          # compiled patterns

EXC = {}


def make_exc():
    EXC.clear()
    obj = OBJECT

    def mk(name, *bases):
        EXC[name] = PClass(name, [EXC[b] for b in bases] or [obj], {'__module__': 'exceptions'})
    mk('BaseException')
    mk('Exception', 'BaseException')
    mk('StandardError', 'Exception')
    for n in ('ArithmeticError', 'LookupError', 'ValueError', 'TypeError', 'AttributeError', 'AssertionError',
              'NameError', 'RuntimeError', 'EnvironmentError', 'SyntaxError', 'ImportError', 'EOFError', 'MemoryError',
              'SystemError', 'ReferenceError', 'BufferError'):
        mk(n, 'StandardError')
    mk('ZeroDivisionError', 'ArithmeticError')
    mk('OverflowError', 'ArithmeticError')
    mk('FloatingPointError', 'ArithmeticError')
    mk('IndexError', 'LookupError')
    mk('KeyError', 'LookupError')
    mk('UnicodeError', 'ValueError')
    mk('UnicodeDecodeError', 'UnicodeError')
    mk('UnicodeEncodeError', 'UnicodeError')
    mk('UnboundLocalError', 'NameError')
    mk('NotImplementedError', 'RuntimeError')
    mk('IOError', 'EnvironmentError')
    mk('OSError', 'EnvironmentError')
    mk('StopIteration', 'Exception')
    mk('Warning', 'Exception')
    mk('DeprecationWarning', 'Warning')
    mk('KeyboardInterrupt', 'BaseException')
    mk('SystemExit', 'BaseException')
    mk('GeneratorExit', 'BaseException')
    mk('ReError', 'Exception')
    mk('SocketError', 'IOError')


OBJECT = PClass('object', [], {'__module__': '__builtin__'})


def _obj_setattr(I, a, k):
    I.raw_setattr(a[0], a[1], a[2])


def _obj_getattribute(I, a, k):
    o, name = a
    if isinstance(o, PInst):
        if name in o.d:
            return o.d[name]
        v, c = o.cls.lookup(name)
        if c is not None:
            return I.bind(v, o, c)
    I.throw('AttributeError', name)


def _obj_new(I, a, k):
    return I.new_inst(a[0])


def _obj_init(I, a, k):
    return None


def _m(name, fn):
    n = Native(name, fn)
    n.method = True
    return n


OBJECT.d.update({'__setattr__': _m('__setattr__', _obj_setattr),
                 '__getattribute_': None,
                 '__new__': Native('__new__', _obj_new),
                 '__init__': _m('__init__', _obj_init)})
del OBJECT.d['__getattribute_']
OBJECT.ctor = None


def deep_concrete(v, depth=0):
    if isinstance(v, (Sym, SStr)):
        return False
    if isinstance(v, (list, tuple, set)):
        return all(deep_concrete(x, depth + 1) for x in v)
    if isinstance(v, dict):
        return all(deep_concrete(x, depth + 1) for x in v.values())
    return True


def typeof(I, v):
    b = I.builtins
    if isinstance(v, PInst):
        return v.cls
    if isinstance(v, (bool, SBool)):
        return b['bool']
    if isinstance(v, (int, SInt)):
        return b['int']
    if isinstance(v, (float, SReal)):
        return b['float']
    if isinstance(v, (str, SStr)):
        return b['str']
    if isinstance(v, tuple):
        return b['tuple']
    if isinstance(v, list):
        return b['list']
    if type(v) is AbsMap:
        return b['dict']
    if type(v) is AbsSeq:
        return b[v.kind] if v.kind != 'iterator' else I.GENTYPE
    if isinstance(v, dict):
        return b['dict']
    if isinstance(v, set):
        return b['set']
    if v is None:
        return I.NONETYPE
    if isinstance(v, PClass):
        return b['type']
    if isinstance(v, (PFunc,)):
        return I.FUNCTYPE
    if isinstance(v, PGen):
        return I.GENTYPE
    raise Unsupported('type of %r' % (v,))


def isinstance_(I, v, c):
    if isinstance(c, tuple):
        for x in c:
            if isinstance_(I, v, x):
                return True
        return False
    if not isinstance(c, PClass):
        I.throw('TypeError', 'isinstance() arg 2 must be a class, type, or tuple of classes and types')
    b = I.builtins
    if c is b['object']:
        return True
    if isinstance(v, PInst):
        return v.cls.issub(c)
    if c is b['basestring']:
        return isinstance(v, (str, SStr))
    if c is b['unicode'] or c is b['long']:
        return False
    if isinstance(v, (PModule, Native, PBound, NMethod, PUnbound, NatMod)):
        return False
    try:
        t = typeof(I, v)
    except Unsupported:
        return False
    return t.issub(c)


# ---------------------------------------------------------------------------- numbers
def power(I, a, b):
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        if isinstance(a, int) and isinstance(b, int) and b < 0:
            return float(a) ** b
        return a ** b
    if isinstance(b, int) and not isinstance(b, bool) and 0 <= b <= 8 and not isinstance(a, (float, SReal)):
        r = 1
        for _ in range(b):
            r = r * a
        return r
    if a == 2 and isinstance(a, int) and intlike(b):
        # 2**n, n symbolic: exact table on the feasible range
        e = ie(b)
        if I.engine.branch(z3.And(e >= 0, e <= 64)):
            I.engine.assume_nocheck(pow2_axiom(e))
            return mkint(POW2(e))
        raise Unsupported('2**n outside 0..64')
    if isinstance(a, (float, SReal)) or isinstance(b, (float, SReal)) or (intlike(a) and intlike(b)):
        h = I.real_pow
        if h is not None:
            return h(I, a, b)
    raise Unsupported('power')


def pow2_axiom(e):
    r = z3.IntVal(1 << 64)
    for k in range(63, -1, -1):
        r = z3.If(e == k, z3.IntVal(1 << k), r)
    return POW2(e) == r


def bitop(I, op, a, b):
    x, y = ie(a), ie(b)
    if op == 'LShift' and isinstance(b, int):
        return mkint(x * (1 << b))
    if op == 'RShift' and isinstance(b, int):
        return mkint(floordiv_e(x, z3.IntVal(1 << b)))
    if op == 'BitAnd':
        for p, q in ((a, b), (b, a)):
            if isinstance(q, int) and q >= 0:
                # select the bits of the mask one by one
                if q == 0:
                    return 0
                if (q & (q + 1)) == 0:
                    return mkint(mod_e(ie(p), z3.IntVal(q + 1)))
                r = z3.IntVal(0)
                for k in range(q.bit_length()):
                    if q >> k & 1:
                        r = r + mod_e(floordiv_e(ie(p), z3.IntVal(1 << k)), z3.IntVal(2)) * (1 << k)
                return mkint(r)
    if op == 'BitOr':
        for p, q in ((a, b), (b, a)):
            if isinstance(q, int) and 0 <= q < 1 << 16:
                # set the bits of the mask one by one
                r = ie(p)
                for k in range(q.bit_length()):
                    if q >> k & 1:
                        r = r + (1 - mod_e(floordiv_e(ie(p), z3.IntVal(1 << k)), z3.IntVal(2))) * (1 << k)
                return mkint(r)
    if isinstance(b, (SInt, SBool)) and op in ('LShift', 'RShift'):
        k = int(b)
        return bitop(I, op, a, k) if isinstance(a, Sym) else (a << k if op == 'LShift' else a >> k)
    if op in ('BitAnd', 'BitOr', 'BitXor'):
        # exact for values in [0, 2^32)
        if I.engine.branch(z3.And(x >= 0, x < 2**32, y >= 0, y < 2**32)):
            p, q = z3.Int2BV(x, 32), z3.Int2BV(y, 32)
            r = {'BitAnd': lambda: p & q, 'BitOr': lambda: p | q, 'BitXor': lambda: p ^ q}[op]()
            return mkint(z3.BV2Int(r))
    raise Unsupported('bit operation %s' % op)


def to_int(I, v, base=None):
    if isinstance(v, (int,)) and not isinstance(v, bool):
        return v
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, SBool):
        return mkint(ie(v))
    if isinstance(v, SInt):
        return v
    if isinstance(v, float):
        try:
            return int(v)
        except (ValueError, OverflowError) as e:
            I.native_exc(e)
    if isinstance(v, SReal):
        fl = z3.ToInt(v.e)
        return mkint(z3.If(z3.Or(v.e >= 0, z3.ToReal(fl) == v.e), fl, fl + 1))
    if isinstance(v, str):
        try:
            if base is not None:
                return int(v, base)
            if '_' in v:
                raise ValueError('invalid literal for int() with base 10: ' + v)
            return int(v)
        except ValueError as e:
            I.native_exc(e)
    if isinstance(v, SStr):
        return str_to_int(I, v)
    if isinstance(v, PInst):
        m, c = v.cls.lookup('__int__')
        if m is not None:
            return I.call(I.getattr_(v, '__int__'), [], {})
    I.throw('TypeError', 'int() argument must be a string or a number')


def str_to_int(I, s):
    ps = s.parts
    if len(ps) == 1 and ps[0][0] == 'num':
        return SInt(ps[0][1].e) if isinstance(ps[0][1], SInt) else ps[0][1]
    if len(ps) == 1 and ps[0][0] == 'opq':
        # text of unknown contents: either not a numeral, or a numeral of unknown value
        uid, info = ps[0][1], ps[0][2]
        isn = z3.Bool('isnum_%s' % uid)
        if info.get('nonnum'):
            I.throw('ValueError', 'invalid literal for int()')
        if not I.engine.branch(isn):
            I.throw('ValueError', 'invalid literal for int()')
        return SInt(z3.Int('intval_%s' % uid))
    u = s.units()
    if u is not None:
        return units_to_int(I, u)
    if any(p[0] == 'num' for p in ps):
        if len(ps) == 2 and ps[0] == ('lit', '-') and ps[1][0] == 'num':
            e = ie(ps[1][1])
            if I.engine.branch(e < 0):
                I.throw('ValueError', 'invalid literal for int()')
            return mkint(-e)
        raise Unsupported('int of compound text')
    raise Unsupported('int of symbolic text')


WS = [9, 10, 11, 12, 13, 32]


def units_to_int(I, u):
    """decimal text over symbolic characters (fixed length)"""
    def isc(c, codes):
        o = code(c)
        return Or([s_cmp('==', o, k) for k in codes])
    i, j = 0, len(u)
    while i < j and I.truth(isc(u[i], WS)):
        i += 1
    while j > i and I.truth(isc(u[j - 1], WS)):
        j -= 1
    sign = 1
    if i < j and I.truth(isc(u[i], [45])):
        sign = -1
        i += 1
    elif i < j and I.truth(isc(u[i], [43])):
        i += 1
    if i == j:
        I.throw('ValueError', 'invalid literal for int()')
    if j - i > 1 and I.truth(isc(u[j - 1], [76, 108])):
        raise Unsupported('long literal')
    acc = 0
    ok = And([And(s_cmp('>=', code(c), 48), s_cmp('<=', code(c), 57)) for c in u[i:j]])
    if not I.truth(ok):
        I.throw('ValueError', 'invalid literal for int()')
    for c in u[i:j]:
        acc = acc * 10 + (code(c) - 48)
    return acc * sign if sign < 0 else acc


# ---------------------------------------------------------------------------- strings
def new_opq(I, tag='s', **info):
    uid = I.engine.fresh_name(tag)
    return SStr([('opq', uid, Info(info))])


class Info(dict):
    __hash__ = dict.__hash__ if False else (lambda s: id(s))

    def __eq__(self, o):
        return self is o


def opq_len(I, p):
    if p[0] == 'hom':
        raise Unsupported('length of arbitrary text')
    e = z3.Int('len_%s' % p[1])
    I.engine.assume_nocheck(e >= 0)
    return e


def opq_nonempty(I, s):
    if symre.ishom(s):
        return mkbool(z3.Or([p[1].nonempty(I) for p in s.parts if p[0] == 'hom']))
    return mkbool(z3.Or([opq_len(I, p) > 0 for p in s.parts]))


def num_len(I, x):
    """length of the decimal text of x"""
    e = ie(x)
    a = z3.If(e < 0, -e, e)
    r = z3.IntVal(20)
    if not I.engine.branch(a < 10**18):
        raise Unsupported('huge number text')
    for k in range(18, 0, -1):
        r = z3.If(a < 10**k, z3.IntVal(k), r)
    return r + z3.If(e < 0, 1, 0)


def str_len(I, s):
    r = z3.IntVal(0)
    for p in s.parts:
        if p[0] == 'lit':
            r = r + len(p[1])
        elif p[0] == 'ch':
            r = r + 1
        elif p[0] == 'num':
            r = r + num_len(I, p[1])
        else:
            r = r + opq_len(I, p)
    return mkint(r)


def num_to_units(I, p):
    """expand ('num', n) into characters by splitting on sign and number of digits"""
    e = ie(p[1])
    neg = I.engine.branch(e < 0)
    a = -e if neg else e
    n = 1
    while n < 19 and not I.engine.branch(a < 10**n):
        n += 1
    if n >= 19:
        raise Unsupported('huge number text')
    out = [('lit', '-')] if neg else []
    for k in range(n - 1, -1, -1):
        out.append(mkch(mkint(mod_e(a / (10**k), z3.IntVal(10)) + 48)))
    return out


def expand(I, s):
    u = s.units()
    if u is not None:
        return u
    out = []
    for p in s.parts:
        if p[0] == 'lit':
            out.extend(('lit', c) for c in p[1])
        elif p[0] == 'ch':
            out.append(p)
        elif p[0] == 'num':
            out.extend(num_to_units(I, p))
        else:
            raise Unsupported('characters of unknown text')
    return out


def str_chars(I, s):
    return [SStr.make([u]) for u in expand(I, s)]


def str_index(I, s, i):
    u = expand(I, s)
    return I.getitem([SStr.make([x]) for x in u], i)


def str_slice(I, s, lo, hi, st):
    if s.units() is None and st in (None, 1) and lo in (None, 0) and isinstance(hi, int) and hi < 0:
        # characters known one by one are cut off the end, whatever comes before them
        parts, left = list(s.parts), -hi
        while left and parts and parts[-1][0] in ('lit', 'ch'):
            p = parts.pop()
            if p[0] == 'lit' and len(p[1]) > left:
                parts.append(('lit', p[1][:len(p[1]) - left]))
                left = 0
            else:
                left -= len(p[1]) if p[0] == 'lit' else 1
        if not left:
            return SStr.make(parts)
    u = expand(I, s)
    lo, hi, st = [None if x is None else int(x) for x in (lo, hi, st)]
    return SStr.make(u[lo:hi:st])


def unit_eq(a, b):
    return s_cmp('==', code(a), code(b)) if not (a[0] == 'lit' and b[0] == 'lit') else a[1] == b[1]


def streq(I, a, b):
    pa, pb = a.parts, b.parts
    if pa == pb:
        return True
    ua, ub = a.units(), b.units()
    if ua is not None and ub is not None:
        if len(ua) != len(ub):
            return False
        return And([unit_eq(x, y) for x, y in zip(ua, ub)])
    # strip common literal prefix/suffix structure: compare part lists positionally when aligned
    if len(pa) == len(pb) and all(x[0] == y[0] for x, y in zip(pa, pb)):
        ok = True
        res = []
        for x, y in zip(pa, pb):
            if x[0] == 'lit' and x[1] != y[1]:
                ok = False
                break
            if x[0] == 'num':
                res.append(s_cmp('==', x[1], y[1]))
            elif x[0] == 'ch':
                res.append(unit_eq(x, y))
            elif x[0] in ('opq', 'hom') and x[1] != y[1]:
                ok = None
                break
        if ok and separable(pa):
            return And(res)
    # number text against literal
    for x, y in ((pa, pb), (pb, pa)):
        if len(x) == 1 and x[0][0] == 'num' and len(y) <= 1 and (not y or y[0][0] == 'lit'):
            t = y[0][1] if y else ''
            if _re.match(r'^(0|-?[1-9][0-9]*)$', t):
                return s_cmp('==', x[0][1], int(t))
            return False
    for x, y in ((pa, pb), (pb, pa)):
        if len(x) == 1 and x[0][0] == 'opq' and all(q[0] == 'lit' for q in y):
            return opq_eq_lit(I, x[0], y[0][1] if y else '')
    return fallback_eq(I, a, b)


def opq_eq_lit(I, p, t):
    info = p[2]
    if info.get('distinct') and t in info['distinct']:
        return False
    if info.get('nonnum') and _re.match(r'^\s*[-+]?[0-9]+\s*$', t):
        return False
    if t == '':
        return mkbool(opq_len(I, p) == 0)
    b = z3.Bool('eq_%s_%s' % (p[1], t))
    m = info.setdefault('eqs', {})
    for t2, b2 in m.items():
        if t2 != t:
            I.engine.assume_nocheck(z3.Not(z3.And(b, b2)))
    m[t] = b
    I.engine.assume_nocheck(z3.Implies(b, opq_len(I, p) == len(t)))
    if not _re.match(r'^\s*[-+]?[0-9]+\s*$', t):
        I.engine.assume_nocheck(z3.Implies(b, z3.Not(z3.Bool('isnum_%s' % p[1]))))
    else:
        I.engine.assume_nocheck(z3.Implies(b, z3.And(z3.Bool('isnum_%s' % p[1]), z3.Int('intval_%s' % p[1]) == int(t))))
    return mkbool(b)


def separable(parts):
    """every num part is delimited by literals that cannot be part of a number"""
    for i, p in enumerate(parts):
        if p[0] in ('num', 'opq'):
            for q in (parts[i - 1] if i else None, parts[i + 1] if i + 1 < len(parts) else None):
                if q is None:
                    continue
                if q[0] != 'lit' or p[0] == 'opq':
                    return False
                if q is (parts[i - 1] if i else None):
                    if q[1][-1] in '-0123456789':
                        return False
                elif q[1][0] in '0123456789':
                    return False
    return True


def fallback_eq(I, a, b):
    if symre.ishom(a) or symre.ishom(b):
        raise Unsupported('comparing arbitrary texts')
    if any(p[0] == 'opq' for p in a.parts + b.parts):
        raise Unsupported('comparison of unknown text %r %r' % (a, b))
    ua, ub = expand(I, a), expand(I, b)
    if len(ua) != len(ub):
        return False
    return And([unit_eq(x, y) for x, y in zip(ua, ub)])


def str_contains(I, c, x):
    if isinstance(c, str) and isinstance(x, str):
        return x in c
    c, x = SStr.of(c), SStr.of(x)
    ux = x.units()
    if ux is None:
        raise Unsupported('substring test with unknown text')
    if not ux:
        return True
    if len(ux) == 1 and ux[0][0] == 'lit':
        ch = ux[0][1]
        res = []
        for p in c.parts:
            if p[0] == 'lit':
                res.append(ch in p[1])
            elif p[0] == 'ch':
                res.append(s_cmp('==', p[1], ord(ch)))
            elif p[0] == 'num':
                if ch in '0123456789':
                    res.append(Or([unit_eq(u, ux[0]) for u in num_to_units(I, p)]))
                elif ch == '-':
                    res.append(s_cmp('<', p[1], 0))
                else:
                    res.append(False)
            elif p[0] == 'hom':
                raise Unsupported('substring test on arbitrary text')
            else:
                if p[2].get('without') and ch in p[2]['without']:
                    res.append(False)
                else:
                    res.append(mkbool(z3.Bool('has_%s_%d' % (p[1], ord(ch)))))
        return Or([False] + res)
    uc = expand(I, c)
    n = len(ux)
    return Or([False] + [And([unit_eq(p, q) for p, q in zip(uc[i:i + n], ux)]) for i in range(len(uc) - n + 1)])


def to_str(I, v):
    if isinstance(v, (str, SStr)):
        return v
    if isinstance(v, bool) or v is None:
        return str(v)
    if isinstance(v, int):
        return str(v)
    if isinstance(v, SBool):
        return 'True' if I.engine.branch(v.e) else 'False'
    if isinstance(v, SInt):
        return SStr([('num', v)])
    if isinstance(v, float):
        return py2_float_str(v)
    if isinstance(v, SReal):
        return new_opq(I, 'realtext')
    if isinstance(v, PInst):
        m, c = v.cls.lookup('__str__')
        if m is not None:
            return I.call(I.getattr_(v, '__str__'), [], {})
        m, c = v.cls.lookup('__repr__')
        if m is not None:
            return I.call(I.getattr_(v, '__repr__'), [], {})
        if v.cls.issub(EXC['BaseException']):
            a = v.d.get('args', ())
            if len(a) == 0:
                return ''
            if len(a) == 1:
                return to_str(I, a[0])
            return to_repr(I, a)
        return new_opq(I, 'objtext')
    return to_repr(I, v)


def py2_float_str(v):
    s = '%.12g' % v
    if _re.match(r'^-?[0-9]+$', s):
        s += '.0'
    return s


def to_repr(I, v):
    if isinstance(v, str):
        return repr(v) if all(ord(c) < 127 for c in v) else repr(v.encode('latin-1'))[1:]
    if isinstance(v, float):
        return repr(v)
    if isinstance(v, (SInt, SBool, bool, int)) or v is None:
        return to_str(I, v)
    if isinstance(v, PInst):
        m, c = v.cls.lookup('__repr__')
        if m is not None:
            return I.call(I.getattr_(v, '__repr__'), [], {})
        if v.cls.issub(EXC['BaseException']):
            return add_all([v.cls.name, to_repr(I, tuple(v.d.get('args', ())))])
        return new_opq(I, 'objtext')
    if isinstance(v, list):
        I.norm(v)
        return add_all(['['] + sep([to_repr(I, x) for x in v]) + [']'])
    if isinstance(v, tuple):
        if len(v) == 1:
            return add_all(['(', to_repr(I, v[0]), ',)'])
        return add_all(['('] + sep([to_repr(I, x) for x in v]) + [')'])
    if isinstance(v, dict):
        return add_all(['{'] + sep([add_all([to_repr(I, k), ': ', to_repr(I, x)]) for k, x in v.items()]) + ['}'])
    return new_opq(I, 'objtext')


def sep(xs):
    out = []
    for i, x in enumerate(xs):
        if i:
            out.append(', ')
        out.append(x)
    return out


def add_all(xs):
    ps = []
    for x in xs:
        ps.extend(SStr.of(x).parts)
    return SStr.make(ps)


FMT = _re.compile(r'%(?:\((?P<key>[^)]*)\))?(?P<flags>[-+ #0]*)(?P<width>\*|\d+)?(?:\.(?P<prec>\*|\d+))?(?P<conv>[a-zA-Z%])')


def str_format(I, s, arg):
    if isinstance(s, SStr):
        raise Unsupported('symbolic format string')
    out = []
    pos = 0
    idx = 0
    is_tuple = isinstance(arg, tuple)
    args = arg if is_tuple else (arg,)
    usedkey = False
    for m in FMT.finditer(s):
        if m.start() < pos:
            continue
        lit = s[pos:m.start()]
        if '%' in lit:
            I.throw('ValueError', 'unsupported format character')
        out.append(lit)
        pos = m.end()
        conv = m.group('conv')
        if conv == '%':
            out.append('%')
            continue
        if m.group('key') is not None:
            v = I.getitem(arg, m.group('key'))
            usedkey = True
        else:
            if idx >= len(args):
                I.throw('TypeError', 'not enough arguments for format string')
            v = args[idx]
            idx += 1
        plainf = not m.group('flags') and not m.group('width') and not m.group('prec')
        if conv in 'di' + 'u':
            if isinstance(v, (str, SStr)) or v is None or isinstance(v, (tuple, list, dict)):
                I.throw('TypeError', '%d format: a number is required')
            if isinstance(v, PInst):
                I.throw('TypeError', '%d format: a number is required')
            if isinstance(v, SBool):
                v = mkint(ie(v))
            if isinstance(v, (SInt, SReal)):
                if isinstance(v, SReal) or not plainf:
                    out.append(new_opq(I, 'fmt'))
                else:
                    out.append(SStr([('num', v)]))
                continue
            spec = '%' + m.group('flags') + (m.group('width') or '') + \
                ('.' + m.group('prec') if m.group('prec') else '') + 'd'
            out.append(spec % int(v))
        elif conv in 'sr':
            t = to_str(I, v) if conv == 's' else to_repr(I, v)
            if not plainf:
                if isinstance(t, SStr):
                    t = new_opq(I, 'fmt')
                else:
                    t = ('%' + m.group('flags') + (m.group('width') or '') +
                         ('.' + m.group('prec') if m.group('prec') else '') + 's') % t
            out.append(t)
        elif conv in 'feEgGxXoc':
            if isinstance(v, Sym):
                if conv == 'c':
                    raise Unsupported('%c')
                out.append(new_opq(I, 'fmt'))
                continue
            if isinstance(v, (PInst, SStr)) or v is None or (isinstance(v, str) and conv != 'c'):
                I.throw('TypeError', 'number required')
            try:
                out.append(('%' + m.group('flags') + (m.group('width') or '') +
                            ('.' + m.group('prec') if m.group('prec') else '') + conv) % v)
            except (TypeError, ValueError, OverflowError) as e:
                I.native_exc(e)
        else:
            I.throw('ValueError', 'unsupported format character')
    lit = s[pos:]
    if '%' in lit:
        I.throw('ValueError', 'incomplete format')
    out.append(lit)
    if not usedkey and idx < len(args) and not (not is_tuple and isinstance(arg, (dict, list, PInst))
                                                and idx == 0 and isinstance(arg, dict)):
        I.throw('TypeError', 'not all arguments converted during string formatting')
    return add_all(out)


# ---------------------------------------------------------------------------- methods of native values
LIST_MUT = {'append', 'extend', 'insert', 'pop', 'remove', 'reverse', 'sort'}
DICT_MUT = {'update', 'pop', 'setdefault', 'clear', 'popitem'}
SET_MUT = {'add', 'remove', 'discard', 'update', 'clear', 'pop', 'difference_update', 'intersection_update'}


STR_METHODS = set(dir('')) - {'isidentifier', 'casefold', 'maketrans', 'format_map', 'isprintable', 'isdecimal', 'isnumeric', 'removeprefix', 'removesuffix', 'isascii'} | {'decode'}
LIST_METHODS = set(dir([])) - {'copy', 'clear'}
DICT_METHODS = (set(dir({}))) | {'has_key', 'iteritems', 'itervalues', 'iterkeys', 'viewkeys'}
SET_METHODS = set(dir(set()))


def native_attr(I, o, name):
    if type(o).__name__ == 'PSlice' and name in ('start', 'stop', 'step'):
        return {'start': o.lo, 'stop': o.hi, 'step': o.st}[name]
    if isinstance(o, (str, SStr)):
        if name in STR_METHODS:
            return NMethod(o, name)
    elif isinstance(o, list) or type(o) is AbsSeq and o.kind == 'list':
        if name in LIST_METHODS:
            return NMethod(o, name)
    elif isinstance(o, dict) or type(o) is AbsMap:
        if name in DICT_METHODS:
            return NMethod(o, name)
    elif isinstance(o, tuple):
        if name in ('index', 'count', '__len__', '__iter__'):
            return NMethod(o, name)
    elif isinstance(o, set):
        if name in SET_METHODS:
            return NMethod(o, name)
    elif is_num(o) or o is None:
        if name in ('real', 'imag') and is_num(o):
            return o if name == 'real' else 0
    elif isinstance(o, (Native, NMethod)) or type(o).__name__ == 'SRange':
        pass
    elif isinstance(o, (symre.RePat, symre.ReMatch)):
        return symre.attr(I, o, name)
    else:
        try:
            v = getattr(o, name)
        except AttributeError:
            I.throw('AttributeError', "'%s' object has no attribute '%s'" % (type(o).__name__, name))
        return wrap_native(I, v, name)
    try:
        tn = typeof(I, o).name
    except Unsupported:
        tn = type(o).__name__
    I.throw('AttributeError', "'%s' object has no attribute '%s'" % (tn, name))


def wrap_native(I, v, name):
    if callable(v) and not isinstance(v, (PClass, Native, PFunc)):
        def f(I, a, k):
            return call_pyobj(I, v, a, k)
        return Native(name, f)
    return from_py(v)


def from_py(v):
    if isinstance(v, (bytes, bytearray)):
        return bytes(v).decode('latin-1')
    if isinstance(v, (map, filter, zip)):
        return list(v)
    if type(v).__name__ in ('dict_keys', 'dict_values', 'dict_items'):
        return list(v)
    return v


def to_py(I, v):
    """pass a value to native code"""
    if isinstance(v, (Sym, SStr)):
        raise Unsupported('symbolic value passed to native code')
    if isinstance(v, (PFunc, PBound, PUnbound, Native, NMethod)) or (isinstance(v, PClass) and v.native is None):
        return lambda *a, **k: to_py(I, I.call(v, [from_py(x) for x in a], k))
    if isinstance(v, PClass):
        return v.native
    if isinstance(v, PInst):
        if '_nat' in v.d:
            return v.d['_nat']
        raise Unsupported('instance passed to native code')
    if isinstance(v, (list, tuple, set)):
        if isinstance(v, list):
            I.norm(v)
        return type(v)(to_py(I, x) for x in v)
    if isinstance(v, dict):
        return {k: to_py(I, x) for k, x in v.items()}
    if isinstance(v, PGen):
        return [to_py(I, x) for x in v]
    return v


def call_pyobj(I, fn, a, k):
    args = [to_py(I, x) for x in a]
    kw = {kk: to_py(I, x) for kk, x in k.items()}
    try:
        r = fn(*args, **kw)
    except (PyExc, Unsupported, Infeasible, AbortMerge):
        raise
    except Exception as e:
        I.native_exc(e)
    r = from_py(r)
    if isinstance(r, (list, dict, set)):
        I.engine.fresh_container(r)
    return r


def base_level(I, o=None):
    if o is not None and o.kind != 'list':
        raise Unsupported('change of a ' + o.kind)
    if len(I.engine.explorers) > 1:
        raise AbortMerge('sequence of any length in an inner region')


def abs_copy(I, o, kind='list'):
    return I.engine.fresh_container(AbsSeq(*(o.__snapshot__() + (kind,))))


def abs_slice(I, o, lo, hi):
    n, elem = ie(o.n), o.elem

    def clamp(x):
        x = ie(x)
        x = z3.If(x < 0, x + n, x)
        return z3.If(x < 0, z3.IntVal(0), z3.If(x > n, n, x))
    a = z3.IntVal(0) if lo is None else z3.simplify(clamp(lo))
    b = n if hi is None else clamp(hi)
    start = a.eq(z3.IntVal(0))
    # loops over a beginning of the sequence go through the same places; over another part they have no contract
    return I.engine.fresh_container(AbsSeq(mkint(z3.If(b > a, b - a, z3.IntVal(0))), lambda i: elem(mkint(ie(i) + a)),
                                           o.loop if start else None, o.way if start else 1, o.kind))


def abs_concat(I, a, b):
    parts = []
    for x in (a, b):
        if type(x) is AbsSeq:
            parts.append((x.n, x.elem))
        else:
            parts.append((len(x), lambda i, x=list(x): x[i] if isinstance(i, int) else I.getitem(x, i)))
    (n, e0), (m, e1) = parts

    def elem(i):
        return e0(i) if I.engine.branch(ie(i) < ie(n)) else e1(mkint(z3.simplify(ie(i) - ie(n))))
    return I.engine.fresh_container(AbsSeq(mkint(ie(n) + ie(m)), elem, None, 1, (a if type(a) is AbsSeq else b).kind))


def abs_reversed(I, o):
    n, elem = o.n, o.elem
    r = I.engine.fresh_container(AbsSeq(n, lambda i: elem(n - 1 - i), o.loop, -o.way, 'iterator'))
    r.src = o.src
    return r


def abs_enumerate(I, o):
    elem = o.elem
    r = I.engine.fresh_container(AbsSeq(o.n, lambda i: (i, elem(i)), o.loop, o.way, 'iterator'))
    r.src = o.src
    return r


def abs_range(I, lo, hi, st, kind):
    """the places of a sequence of any length, forwards or backwards"""
    if isinstance(lo, int) and lo == 0 and isinstance(st, int) and st == 1:
        return I.engine.fresh_container(AbsSeq(mkint(z3.If(ie(hi) > 0, ie(hi), z3.IntVal(0))), lambda i: i, I.h.default_loop, 1, kind))
    if isinstance(hi, int) and hi == -1 and isinstance(st, int) and st == -1:
        return I.engine.fresh_container(AbsSeq(mkint(z3.If(ie(lo) > -1, ie(lo) + 1, z3.IntVal(0))), lambda i: lo - i,
                                               I.h.default_loop, -1, kind))
    raise Unsupported('range of any length')


def abs_del(I, o, i):
    """the element at this place is gone, the ones after it move up"""
    base_level(I, o)
    I.engine.touch(o)
    old, o.find = o.elem, None
    o.elem = lambda j: old(SInt(z3.If(ie(j) < ie(i), ie(j), ie(j) + 1)))
    o.n = o.n - 1


def abs_insert(I, o, i, v):
    base_level(I, o)
    I.engine.touch(o)
    old, o.find = o.elem, None
    o.elem = lambda j: v if I.engine.branch(ie(j) == ie(i)) else old(SInt(z3.If(ie(j) < ie(i), ie(j), ie(j) - 1)))
    o.n = o.n + 1


def abs_call(I, o, name, a, k):
    if name == 'append':
        return abs_insert(I, o, o.n, a[0])
    if name == 'insert' and intlike(a[0]) and I.truth(I.order('>=', a[0], 0)) and I.truth(I.order('<=', a[0], o.n)):
        return abs_insert(I, o, a[0], a[1])
    if name == 'pop':
        if not I.truth(o):
            I.throw('IndexError', 'pop from empty list')
        i = I.place(o, a[0] if a else -1, 'pop index')
        r = o.elem(i)
        abs_del(I, o, i)
        return r
    if name in ('extend', '__iadd__') and isinstance(a[0], (list, tuple)):
        for x in list(a[0]):
            abs_insert(I, o, o.n, x)
        return None
    if name == 'reverse':
        base_level(I, o)
        I.engine.touch(o)
        r = abs_reversed(I, o)
        o.elem, o.way, o.find = r.elem, r.way, None
        return None
    if name in ('remove', 'index') and o.find is not None:
        i = o.find(a[0])
        if i is None:
            I.throw('ValueError', 'list.%s(x): x not in list' % name)
        return i if name == 'index' else abs_del(I, o, i)
    if name == '__len__':
        return o.n
    if name == '__getitem__':
        return I.getitem(o, a[0])
    raise Unsupported('list.%s of a sequence of any length' % name)


def map_call(I, o, name, a, k):
    if name in ('keys', 'iterkeys', '__iter__'):
        r = o.keys()
        if name != 'keys':
            r.kind = 'iterator'
        return r
    if name in ('values', 'itervalues', 'items', 'iteritems'):
        s = o.keys()
        s.kind = 'iterator' if name[:4] == 'iter' else 'list'
        keys = s.elem
        s.elem = (lambda i: o.get(keys(i))) if 'values' in name else (lambda i: (keys(i), o.get(keys(i))))
        return s
    if name in ('has_key', '__contains__'):
        return I.contains(o, a[0])
    if name == '__len__':
        return o.n
    if name in ('pop', 'get', 'setdefault'):
        if not I.truth(o.has(a[0])):
            if name == 'setdefault':
                base_level(I)
                o.put(a[0], a[1] if len(a) > 1 else None)
            elif len(a) < 2 and name == 'pop':
                I.throw('KeyError', a[0])
            return a[1] if len(a) > 1 else None
        r = o.get(a[0])
        if name == 'pop':
            base_level(I)
            o.drop(a[0])
        return r
    if name == 'update' and not k and len(a) == 1 and isinstance(a[0], dict):
        base_level(I)
        for x, v in list(a[0].items()):
            o.put(x, v)
        return None
    if name == '__getitem__':
        return I.getitem(o, a[0])
    raise Unsupported('dict.%s of a dictionary of any size' % name)


def native_call(I, o, name, a, k):
    E = I.engine
    if type(o) is AbsMap:
        return map_call(I, o, name, a, k)
    if type(o) is AbsSeq:
        return abs_call(I, o, name, a, k)
    if isinstance(o, list):
        I.norm(o)
        if name in LIST_MUT:
            E.touch(o)
        if name == 'append':
            o.append(a[0])
            return None
        if name == 'extend' or name == '__iadd__':
            o.extend(list(I.iterate(a[0])))
            return None
        if name == 'insert':
            o.insert(int(a[0]), a[1])
            return None
        if name == 'pop':
            if not o:
                I.throw('IndexError', 'pop from empty list')
            i = int(a[0]) if a else -1
            if not -len(o) <= i < len(o):
                I.throw('IndexError', 'pop index out of range')
            return o.pop(i)
        if name in ('remove', 'index', 'count'):
            n = 0
            for i, x in enumerate(list(o)):
                if x is a[0] or I.truth(I.eq(x, a[0])):
                    if name == 'remove':
                        del o[i]
                        return None
                    if name == 'index':
                        return i
                    n += 1
            if name == 'count':
                return n
            I.throw('ValueError', 'list.%s(x): x not in list' % name)
        if name == 'reverse':
            o.reverse()
            return None
        if name == 'sort':
            o[:] = sorted_(I, o, *a, **k)
            return None
        if name == '__len__':
            return len(o)
        if name == '__getitem__':
            return I.getitem(o, a[0])
        if name == '__contains__':
            return I.contains(o, a[0])
        if name == '__iter__':
            return PGen(I.iterate(o), len(E.explorers))
        raise Unsupported('list.' + name)
    if isinstance(o, dict):
        if name in DICT_MUT:
            E.touch(o)
        if name in ('get', 'setdefault', 'pop', 'has_key', '__contains__', '__getitem__'):
            key = a[0]
            if isinstance(key, (SInt, SBool, SStr)) and name not in ('setdefault', 'pop') and not I.bykey(o, key):
                if name == '__getitem__':
                    return I.getitem(o, key)
                has = I.contains(o, key)
                if name in ('has_key', '__contains__'):
                    return has
                if name == 'get':
                    dflt = a[1] if len(a) > 1 else None
                    if isinstance(has, bool) and not has:
                        return dflt
                    if not isinstance(has, bool):
                        try:
                            r = dflt
                            for kk, v in o.items():
                                if isinstance(kk, str) == isinstance(key, SStr):
                                    c = I.truth_expr(I.eq(key, kk))
                                    if c is not False:
                                        r = ite_val(be(c), v, r)
                            return r
                        except CantMerge:
                            pass
                    if not I.truth(has):
                        return dflt
                    return I.getitem(o, key)
                if isinstance(key, SStr):
                    raise Unsupported('dict.%s with symbolic text' % name)
                key = int(key)
            key = I.slot(o, key)
            if name in ('has_key', '__contains__'):
                return key in o
            if key in o:
                if name == 'pop':
                    return o.pop(key)
                return o[key]
            if name == 'get':
                return a[1] if len(a) > 1 else None
            if name == 'setdefault':
                o[key] = a[1] if len(a) > 1 else None
                return o[key]
            if len(a) > 1:
                return a[1]
            I.throw('KeyError', key)
        if name in ('keys', 'iterkeys', 'values', 'itervalues', 'items', 'iteritems'):
            r = {'k': I.keys_of(o), 'v': list(o.values()), 'i': list(zip(I.keys_of(o), o.values()))}[name.replace('iter', '')[0]]
            E.fresh_container(r)
            return r
        if name == 'update':
            if a:
                src = a[0]
                if isinstance(src, dict):
                    o.update(src)
                else:
                    for kv in I.iterate(src):
                        x, y = list(I.iterate(kv))
                        o[I.slot(o, x)] = y
            o.update(k)
            return None
        if name == 'copy':
            return E.fresh_container(dict(o))
        if name == 'clear':
            o.clear()
            return None
        if name == '__len__':
            return len(o)
        if name == '__iter__':
            return PGen(iter(I.keys_of(o)), len(E.explorers))
        if name == 'popitem':
            raise Unsupported('popitem')
        if name == '__setitem__':
            I.setitem(o, a[0], a[1])
            return None
        raise Unsupported('dict.' + name)
    if isinstance(o, (str, SStr)):
        return str_method(I, o, name, a, k)
    if isinstance(o, tuple):
        if name in ('index', 'count'):
            return native_call(I, list(o), name, a, k)
        if name == '__len__':
            return len(o)
        if name == '__iter__':
            return PGen(iter(o), len(E.explorers))
    if isinstance(o, set):
        if name in SET_MUT:
            E.touch(o)
        if name in ('add', 'discard', 'remove'):
            x = I.slot(o, a[0])
            if name == 'remove' and x not in o:
                I.throw('KeyError', x)
            (o.add if name == 'add' else o.discard)(x)
            return None
        args = [set(I.key(y) for y in I.iterate(x)) for x in a]
        r = getattr(o, name)(*args)
        return E.fresh_container(r) if isinstance(r, set) else r
    raise Unsupported('method %s of %r' % (name, type(o)))


def native_unbound(I, fn, a, k):
    c, name = fn.cls, fn.name
    if name == '__init__' or name == '__setattr__':
        raise Unsupported('native %s.%s' % (c.name, name))
    if c.name == 'dict' and name == 'fromkeys':
        return I.engine.fresh_container({I.key(x): (a[1] if len(a) > 1 else None) for x in I.iterate(a[0])})
    return native_call(I, a[0], name, a[1:], k)


def sorted_(I, xs, cmp=None, key=None, reverse=False):
    xs = list(I.iterate(xs))
    import functools
    keyed = [(I.call(key, [x], {}) if key is not None else x, x) for x in xs]
    if cmp is not None:
        f = lambda p, q: int(I.call(cmp, [p[0], q[0]], {}))
    else:
        def f(p, q):
            if I.truth(I.eq(p[0], q[0])):
                return 0
            return -1 if I.truth(I.order('<', p[0], q[0])) else 1
    return [x for _, x in sorted(keyed, key=functools.cmp_to_key(f), reverse=bool(reverse))]


def splitlines(I, s, a):
    if a and I.truth(a[0]):
        raise Unsupported('splitlines(True)')
    out, line, u, i = [], [], expand(I, s), 0

    def is_(x, c):
        r = unit_eq(x, ('lit', c))
        return r if isinstance(r, bool) else I.truth(r)
    while i < len(u):
        cr = is_(u[i], '\r')
        if cr or is_(u[i], '\n'):
            out.append(SStr.make(line))
            line = []
            if cr and i + 1 < len(u) and is_(u[i + 1], '\n'):
                i += 1
        else:
            line.append(u[i])
        i += 1
    if line:
        out.append(SStr.make(line))
    return I.engine.fresh_container(out)


def str_method(I, s, name, a, k):
    if isinstance(s, str) and deep_concrete(a):
        if name == 'join':
            xs = list(I.iterate(a[0]))
            for x in xs:
                if not isinstance(x, (str, SStr)):
                    I.throw('TypeError', 'sequence item: expected string')
            if all(isinstance(x, str) for x in xs):
                return s.join(xs)
            return join(s, xs)
        if name == 'decode' or name == 'encode':
            return s
        if name == 'format':
            return s.format(*[to_str(I, x) if isinstance(x, PInst) else x for x in a], **k)
        if name == '__len__':
            return len(s)
        if name in ('isdigit', 'isalpha', 'isalnum', 'isspace', 'upper', 'lower', 'title', 'capitalize') and any(ord(c) > 127 for c in s):
            return call_pyobj(I, getattr(s.encode('latin-1'), name), a, k)
        if name == 'splitlines':
            return splitlines(I, SStr.of(s), a)
        args = [to_py(I, x) for x in a]
        try:
            r = getattr(s, name)(*args, **k)
        except (TypeError, ValueError, LookupError) as e:
            I.native_exc(e)
        return I.engine.fresh_container(r) if isinstance(r, list) else r
    if name == 'join':
        return join(s, list(I.iterate(a[0])), I)
    s = SStr.of(s)
    if symre.ishom(s) and name not in ('split', 'startswith', 'endswith', 'decode', 'encode'):
        return symre.hom_method(I, s, name, a, k)
    if name == 'split' and a and isinstance(a[0], str) and len(a[0]) == 1:
        return I.engine.fresh_container(split(I, s, a[0], a[1] if len(a) > 1 else -1))
    if name == 'splitlines':
        return splitlines(I, s, a)
    if name in ('startswith', 'endswith') and isinstance(a[0], str):
        u = ends_units(s, len(a[0]), name == 'startswith')
        if u is False:
            return False
        if u is not None:
            return And([True] + [unit_eq(x, ('lit', y)) for x, y in zip(u, a[0])])
        u = expand(I, s)
        if len(u) < len(a[0]):
            return False
        u = u[:len(a[0])] if name == 'startswith' else u[len(u) - len(a[0]):]
        return And([True] + [unit_eq(x, ('lit', y)) for x, y in zip(u, a[0])])
    if name in ('decode', 'encode'):
        return SStr.make(s.parts)
    if name in ('rstrip', 'lstrip', 'strip') and (not a or isinstance(a[0], str)):
        chars = a[0] if a and a[0] is not None else ' \t\n\r\x0b\x0c'
        if s.units() is None:
            # number texts at the ends are not affected by stripping non-numeric characters
            lo, hi = s.parts[0], s.parts[-1]
            if (name == 'rstrip' or lo[0] == 'num') and (name == 'lstrip' or hi[0] == 'num') \
                    and not set(chars) & set('-0123456789'):
                return SStr.make(s.parts)
        u = list(expand(I, s))
        isin = lambda x: I.truth(Or([False] + [unit_eq(x, ('lit', c)) for c in chars]))
        if name in ('rstrip', 'strip'):
            while u and isin(u[-1]):
                u.pop()
        if name in ('lstrip', 'strip'):
            while u and isin(u[0]):
                u.pop(0)
        return SStr.make(u)
    if name in ('find', 'index', 'count', 'replace', 'upper', 'lower', 'isdigit', 'isalpha'):
        u = expand(I, s)
        if name == 'isdigit':
            return And([bool(u)] + [And(s_cmp('>=', code(x), 48), s_cmp('<=', code(x), 57)) for x in u])
        if name == 'replace' and isinstance(a[0], str) and len(a[0]) == 1:
            out = []
            for x in u:
                if I.truth(unit_eq(x, ('lit', a[0]))):
                    out.extend(SStr.of(a[1]).parts)
                else:
                    out.append(x)
            return SStr.make(out)
        if name in ('upper', 'lower'):
            lo, hi, d = (97, 122, -32) if name == 'upper' else (65, 90, 32)
            return SStr.make([mkch(Ite(And(s_cmp('>=', code(x), lo), s_cmp('<=', code(x), hi)), code(x) + d, code(x))) for x in u])
    raise Unsupported('str.%s on symbolic text' % name)


def ends_units(s, n, front):
    """first/last n units if they are of known extent; False if the text is certainly shorter"""
    out = []
    ps = s.parts if front else s.parts[::-1]
    for p in ps:
        if len(out) >= n:
            break
        if p[0] == 'lit':
            cs = p[1] if front else p[1][::-1]
            out.extend(('lit', c) for c in cs)
        elif p[0] == 'ch':
            out.append(p)
        else:
            return None
    if len(out) < n:
        return False
    out = out[:n]
    return out if front else out[::-1]


def join(s, xs, I=None):
    out = []
    for i, x in enumerate(xs):
        if i:
            out.extend(SStr.of(s).parts)
        if not isinstance(x, (str, SStr)):
            INTERP[0].throw('TypeError', 'sequence item: expected string')
        out.extend(SStr.of(x).parts)
    return SStr.make(out)


def split(I, s, d, maxsplit=-1):
    cur, out = [], []
    for p in s.parts:
        if p[0] == 'lit':
            bits = p[1].split(d)
            for i, b in enumerate(bits):
                if i and (maxsplit < 0 or len(out) < maxsplit):
                    out.append(SStr.make(cur))
                    cur = []
                elif i:
                    cur.append(('lit', d))
                if b:
                    cur.append(('lit', b))
        elif p[0] == 'ch':
            if (maxsplit < 0 or len(out) < maxsplit) and I.truth(s_cmp('==', p[1], ord(d))):
                out.append(SStr.make(cur))
                cur = []
            else:
                cur.append(p)
        elif p[0] == 'num':
            if d in '-0123456789':
                raise Unsupported('split at digits')
            cur.append(p)
        else:
            if not (p[2].get('without') and d in p[2]['without']):
                raise Unsupported('split of unknown text')
            cur.append(p)
    out.append(SStr.make(cur))
    return out


# ---------------------------------------------------------------------------- builtins
def make(I):
    make_exc()
    b = {}

    def reg(name, fn):
        b[name] = Native(name, fn)
        return b[name]

    def typ(name, native, ctor, bases=None):
        c = PClass(name, bases or [OBJECT], {'__module__': '__builtin__'}, native, ctor)
        b[name] = c
        return c
    b['object'] = OBJECT
    OBJECT.ctor = None
    b.update(EXC)
    b.pop('ReError')
    b.pop('SocketError')
    b['None'], b['True'], b['False'] = None, True, False
    b['NotImplemented'] = PInst(PClass('NotImplementedType', [OBJECT], {}))
    b['Ellipsis'] = PInst(PClass('ellipsis', [OBJECT], {}))
    b['__debug__'] = True
    fc = I.engine.fresh_container
    typ('type', type, lambda I, c, a, k: typeof(I, a[0]) if len(a) == 1 else PClass(a[0], list(a[1]) or [OBJECT], dict(a[2])))
    I_int = typ('int', int, lambda I, c, a, k: to_int(I, *a) if a else 0)
    typ('bool', bool, lambda I, c, a, k: (I.truth_expr(a[0]) if a else False), [I_int])
    typ('long', None, lambda I, c, a, k: to_int(I, *a) if a else 0)

    def ctor_float(I, c, a, k):
        v = a[0] if a else 0.0
        if isinstance(v, SReal):
            return v
        if intlike(v) and isinstance(v, Sym):
            return SReal(z3.ToReal(ie(v)))
        if isinstance(v, (SStr, PInst)):
            raise Unsupported('float of %r' % type(v))
        if v is None or isinstance(v, (list, tuple, dict)):
            I.throw('TypeError', 'float() argument must be a string or a number')
        try:
            return float(v)
        except ValueError as e:
            I.native_exc(e)
    typ('float', float, ctor_float)
    bs = typ('basestring', None, None)
    typ('str', str, lambda I, c, a, k: to_str(I, a[0]) if a else '', [bs])
    typ('unicode', None, lambda I, c, a, k: to_str(I, a[0]) if a else '', [bs])
    def ctor_list(I, c, a, k):
        x = I.elements(a[0]) if a else ()
        return abs_copy(I, x) if type(x) is AbsSeq else fc(list(I.iterate(x)))

    def ctor_tuple(I, c, a, k):
        x = I.elements(a[0]) if a else ()
        return abs_copy(I, x, 'tuple') if type(x) is AbsSeq else tuple(I.iterate(x))
    typ('list', list, ctor_list)
    typ('tuple', tuple, ctor_tuple)

    def ctor_dict(I, c, a, k):
        d = fc({})
        native_call(I, d, 'update', a, k)
        return d
    typ('dict', dict, ctor_dict)
    typ('set', set, lambda I, c, a, k: fc(set(I.key(x) for x in I.iterate(a[0])) if a else set()))
    typ('frozenset', None, lambda I, c, a, k: fc(set(I.key(x) for x in I.iterate(a[0])) if a else set()))
    typ('staticmethod', None, lambda I, c, a, k: PStatic(a[0]))
    typ('classmethod', None, lambda I, c, a, k: PClassM(a[0]))
    typ('property', None, lambda I, c, a, k: PProp(*a, **k))

    def ctor_super(I, c, a, k):
        if len(a) < 2:
            raise Unsupported('unbound super')
        ok = isinstance(a[1], PInst) and a[1].cls.issub(a[0]) or isinstance(a[1], PClass) and a[1].issub(a[0])
        if not ok:
            I.throw('TypeError', 'super(type, obj): obj must be an instance or subtype of type')
        return PSuper(a[0], a[1])
    typ('super', None, ctor_super)

    def ctor_file(I, c, a, k):
        raise Unsupported('file access')
    typ('file', None, ctor_file)
    b['open'] = b['file']
    I.NONETYPE = PClass('NoneType', [OBJECT], {})
    I.FUNCTYPE = PClass('function', [OBJECT], {})
    I.GENTYPE = PClass('generator', [OBJECT], {})
    I.real_pow = None

    def range_(I, a, k):
        a = [x if not isinstance(x, SBool) else mkint(ie(x)) for x in a]
        for x in a:
            if not intlike(x):
                I.throw('TypeError', 'range() integer argument expected')
        lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
        if isinstance(st, Sym):
            st = int(st)
        if st == 0:
            I.throw('ValueError', 'range() arg 3 must not be zero')
        if not isinstance(lo, Sym) and not isinstance(hi, Sym):
            return fc(list(range(lo, hi, st)))
        if I.h is not None and I.h.default_loop is not None:
            return abs_range(I, lo, hi, st, 'list')
        if st > 0:
            cnt = mkint(z3.If(ie(hi) > ie(lo), (ie(hi) - ie(lo) + (st - 1)) / st, z3.IntVal(0)))
        else:
            cnt = mkint(z3.If(ie(hi) < ie(lo), (ie(lo) - ie(hi) + (-st - 1)) / (-st), z3.IntVal(0)))
        n = int(cnt)
        return fc([lo + st * i for i in range(n)])
    reg('range', range_)

    def xrange_(I, a, k):
        lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
        from .interp import SRange
        if I.h is not None and I.h.default_loop is not None and (isinstance(lo, Sym) or isinstance(hi, Sym)):
            return abs_range(I, lo, hi, st, 'iterator')
        return SRange(lo, hi, int(st))
    reg('xrange', xrange_)
    reg('len', lambda I, a, k: I.b_len(a[0]))
    reg('isinstance', lambda I, a, k: isinstance_(I, a[0], a[1]))

    def issub(I, a, k):
        if not isinstance(a[0], PClass):
            I.throw('TypeError', 'issubclass() arg 1 must be a class')
        cs = a[1] if isinstance(a[1], tuple) else (a[1],)
        return any(a[0].issub(c) for c in cs)
    reg('issubclass', issub)
    reg('callable', lambda I, a, k: isinstance(a[0], (PFunc, PBound, PClass, Native, NMethod, PUnbound)) or
        isinstance(a[0], PInst) and a[0].cls.lookup('__call__')[0] is not None)

    def getattr_b(I, a, k):
        try:
            return I.getattr_(a[0], a[1])
        except PyExc as e:
            if len(a) > 2 and e.value.cls.issub(EXC['AttributeError']):
                return a[2]
            raise
    reg('getattr', getattr_b)
    reg('setattr', lambda I, a, k: I.setattr_(a[0], a[1], a[2]))
    reg('delattr', lambda I, a, k: I.delattr_(a[0], a[1]))
    reg('hasattr', lambda I, a, k: I.hasattr_(a[0], a[1]))
    reg('id', lambda I, a, k: id(a[0]))

    def hash_(I, a, k):
        v = a[0]
        if isinstance(v, PInst):
            m, c = v.cls.lookup('__hash__')
            if m is not None:
                r = I.call(I.getattr_(v, '__hash__'), [], {})
                if not intlike(r):
                    I.throw('TypeError', '__hash__() should return an int')
                return r
            return id(v)
        return hash(I.key(v))
    reg('hash', hash_)
    reg('repr', lambda I, a, k: to_repr(I, a[0]))
    reg('abs', lambda I, a, k: abs(a[0]) if is_num(a[0]) else I.throw('TypeError', 'bad operand type for abs()'))
    reg('chr', lambda I, a, k: chr_(I, a[0]))
    reg('ord', lambda I, a, k: ord_(I, a[0]))
    reg('unichr', lambda I, a, k: chr(int(a[0])))
    reg('iter', lambda I, a, k: PGen(I.iterate(a[0]), len(I.engine.explorers)))

    def next_(I, a, k):
        if isinstance(a[0], PGen):
            try:
                return next(a[0])
            except StopIteration:
                if len(a) > 1:
                    return a[1]
                I.throw('StopIteration')
        return I.call(I.getattr_(a[0], 'next'), [], {})
    n_ = reg('next', next_)
    n_.strict = True

    def minmax(op):
        def f(I, a, k):
            xs = list(I.iterate(a[0])) if len(a) == 1 else list(a)
            if not xs:
                I.throw('ValueError', 'arg is an empty sequence')
            key = k.get('key')
            best = xs[0]
            kb = I.call(key, [best], {}) if key else best
            for x in xs[1:]:
                kx = I.call(key, [x], {}) if key else x
                c = I.truth_expr(I.order(op, kx, kb))
                if isinstance(c, bool):
                    if c:
                        best, kb = x, kx
                else:
                    try:
                        nb, nk = ite_val(c.e, x, best), ite_val(c.e, kx, kb)
                        best, kb = nb, nk
                    except CantMerge:
                        if I.engine.branch(c.e):
                            best, kb = x, kx
            return best
        return f
    reg('min', minmax('<'))
    reg('max', minmax('>'))

    def sum_(I, a, k):
        r = a[1] if len(a) > 1 else 0
        for x in I.iterate(a[0]):
            r = I.binop('Add', r, x)
        return r
    reg('sum', sum_)

    def all_(I, a, k):
        acc = []
        for x in I.iterate(a[0]):
            t = I.truth_expr(x)
            if t is False:
                return False if not acc else And(acc + [False])
            if t is not True:
                acc.append(t)
        return And(acc) if acc else True

    def any_(I, a, k):
        acc = []
        for x in I.iterate(a[0]):
            t = I.truth_expr(x)
            if t is True:
                return True
            if t is not False:
                acc.append(t)
        return Or(acc) if acc else False
    # short-circuit evaluation of generators matters when later elements raise: force order by forking then
    def lazy(f, stop):
        def g(I, a, k):
            if isinstance(a[0], PGen):
                for x in a[0]:
                    if I.truth(x) == stop:
                        return stop
                return not stop
            return f(I, a, k)
        return g
    reg('all', lazy(all_, False))
    reg('any', lazy(any_, True))
    reg('sorted', lambda I, a, k: fc(sorted_(I, *a, **k)))
    reg('reversed', lambda I, a, k: abs_reversed(I, a[0]) if type(a[0]) is AbsSeq else PGen(iter((str_chars(I, a[0]) if isinstance(a[0], SStr) else list(I.iterate(a[0])))[::-1]), len(I.engine.explorers)))
    reg('enumerate', lambda I, a, k: abs_enumerate(I, a[0]) if type(a[0]) is AbsSeq and len(a) == 1 else PGen(((i, x) for i, x in enumerate(I.iterate(a[0]), *(int(y) for y in a[1:]))), len(I.engine.explorers)))
    reg('zip', lambda I, a, k: fc([tuple(t) for t in zip(*[list(I.iterate(x)) for x in a])]))

    def map_(I, a, k):
        seqs = [list(I.iterate(x)) for x in a[1:]]
        n = max(len(s) for s in seqs)
        seqs = [s + [None] * (n - len(s)) for s in seqs]
        if a[0] is None:
            return fc([t[0] if len(t) == 1 else t for t in zip(*seqs)])
        return fc([I.call(a[0], list(t), {}) for t in zip(*seqs)])
    reg('map', map_)

    def filter_(I, a, k):
        r = [x for x in I.iterate(a[1]) if I.truth(x if a[0] is None else I.call(a[0], [x], {}))]
        if isinstance(a[1], tuple):
            return tuple(r)
        if isinstance(a[1], (str, SStr)):
            return join('', r)
        return fc(r)
    reg('filter', filter_)

    def reduce_(I, a, k):
        xs = list(I.iterate(a[1]))
        if len(a) > 2:
            r = a[2]
        else:
            if not xs:
                I.throw('TypeError', 'reduce() of empty sequence with no initial value')
            r = xs.pop(0)
        for x in xs:
            r = I.call(a[0], [r, x], {})
        return r
    reg('reduce', reduce_)

    def pow_(I, a, k):
        if len(a) == 3:
            return pow(*[int(x) for x in a])
        return power(I, a[0], a[1])
    reg('pow', pow_)

    def divmod_(I, a, k):
        return (I.arith('Div', a[0], a[1]), I.arith('Mod', a[0], a[1]))
    reg('divmod', divmod_)

    def cmp_(I, a, k):
        if I.truth(I.eq(a[0], a[1])):
            return 0
        return -1 if I.truth(I.order('<', a[0], a[1])) else 1
    reg('cmp', cmp_)

    def round_(I, a, k):
        if isinstance(a[0], Sym):
            raise Unsupported('round')
        return float(_math.floor(abs(a[0]) * 10**(a[1] if len(a) > 1 else 0) + 0.5) / 10**(a[1] if len(a) > 1 else 0)) * (1 if a[0] >= 0 else -1)
    reg('round', round_)

    def hasloc(I, a, k, f):
        return f.locals
    for nm in ('locals', 'vars'):
        n = reg(nm, hasloc)
        n.needs_frame = True
    n = reg('globals', lambda I, a, k, f: f.globals)
    n.needs_frame = True
    reg('dir', lambda I, a, k: sorted(set(x for c in typeof(I, a[0]).mro for x in c.d) | set(getattr(a[0], 'd', {}))))
    reg('hex', lambda I, a, k: hex(a[0]))
    reg('raw_input', lambda I, a, k: I.throw('EOFError'))

    def imp(I, a, k):
        m = I.import_module(a[0])
        return m if len(a) > 3 and a[3] else I.import_module(a[0].split('.')[0])
    reg('__import__', imp)
    b['__name__'] = '__builtin__'
    return b


def chr_(I, n):
    if isinstance(n, (SInt, SBool)):
        e = ie(n)
        if not I.engine.branch(z3.And(e >= 0, e < 256)):
            I.throw('ValueError', 'chr() arg not in range(256)')
        return SStr.make([mkch(mkint(e))])
    if not isinstance(n, int):
        I.throw('TypeError', 'an integer is required')
    if not 0 <= n < 256:
        I.throw('ValueError', 'chr() arg not in range(256)')
    return chr(n)


def ord_(I, s):
    if isinstance(s, SStr):
        u = expand(I, s)
        if len(u) != 1:
            I.throw('TypeError', 'ord() expected a character')
        return code(u[0])
    if not isinstance(s, str) or len(s) != 1:
        I.throw('TypeError', 'ord() expected a character')
    return ord(s)


# ---------------------------------------------------------------------------- standard library
class Stub(object):
    """Accepts any call and attribute and does nothing (logging, threading of no interest)."""
    def __init__(self, name):
        self._name = name

    def __repr__(self):
        return '<stub %s>' % self._name


def natmods(I):
    m = {}

    def mod(name, d=None, py=None):
        x = NatMod(name, d or {}, py)
        m[name] = x
        return x

    def nat(name, fn):
        return Native(name, fn)

    def re_call(fname):
        def f(I, a, k):
            a = list(a)
            if fname == 'escape':
                return _re.escape(a[0])
            flags = 0
            nfl = {'compile': 1, 'match': 2, 'search': 2, 'findall': 2, 'finditer': 2, 'sub': 4, 'subn': 4, 'split': 3}[fname]
            if len(a) > nfl:
                flags = a.pop(nfl)
            k = dict(k)
            flags = k.pop('flags', flags)
            flags = int(flags) & ~int(_re.LOCALE)   # the C locale
            pat = a[0]
            if isinstance(pat, SStr):
                raise Unsupported('symbolic pattern')
            if not isinstance(pat, symre.RePat):
                if not isinstance(pat, str):
                    I.throw('TypeError', 'first argument must be string or compiled pattern')
                key = (pat, flags)
                pat = REC.get(key)
                if pat is None:
                    try:
                        pat = REC[key] = symre.RePat(I, a[0], flags)
                    except (_re.error, OverflowError) as e:
                        I.native_exc(e)
            return pat if fname == 'compile' else pat.do(I, fname, a[1:], k)
        return nat('re.' + fname, f)
    mod('re', dict([(x, re_call(x)) for x in ('compile', 'match', 'search', 'sub', 'subn', 'split', 'findall', 'finditer', 'escape')] +
                   [(x, int(getattr(_re, x))) for x in ('VERBOSE', 'X', 'M', 'MULTILINE', 'S', 'DOTALL', 'I', 'IGNORECASE', 'U', 'UNICODE', 'L', 'LOCALE')] +
                   [('error', EXC['ReError'])]))

    def noop(name):
        return nat(name, lambda I, a, k: None)
    mod('logging', dict((x, noop(x)) for x in ('debug', 'info', 'warning', 'error', 'exception', 'critical', 'basicConfig', 'warn')))

    def realfn(name):
        def f(I, a, k):
            if any(isinstance(x, Sym) for x in a):
                h = getattr(I, 'real_' + name, None)
                if h is None:
                    raise Unsupported('math.%s of symbolic value' % name)
                return h(I, *a)
            try:
                return getattr(_math, name)(*a)
            except (ValueError, OverflowError, TypeError) as e:
                I.native_exc(e)
        return nat(name, f)
    I.real_sqrt = I.real_exp = I.real_log = I.real_floor = I.real_ceil = None
    mod('math', dict([(x, realfn(x)) for x in ('sqrt', 'exp', 'log', 'floor', 'ceil', 'log10', 'fabs', 'pow')] + [('pi', _math.pi), ('e', _math.e)]))

    def rnd(I, a, k):
        h = getattr(I, 'random_hook', None)
        if h is None:
            raise Unsupported('random')
        return h(I, 'random', a)

    def rnd2(name):
        def f(I, a, k):
            h = getattr(I, 'random_hook', None)
            if h is None:
                raise Unsupported('random.' + name)
            return h(I, name, a)
        return nat(name, f)
    mod('random', dict((x, rnd2(x)) for x in ('random', 'shuffle', 'randint', 'choice', 'randrange', 'seed', 'sample', 'uniform')))
    mod('string', {}, _string)
    m['string'].d['join'] = nat('join', lambda I, a, k: join(a[1] if len(a) > 1 else ' ', list(I.iterate(a[0]))))
    m['string'].d['letters'] = _string.ascii_lowercase + _string.ascii_uppercase
    def template_init(I, a, k):
        a[0].d['template'] = a[1]

    def template_subst(safe):
        def f(I, a, k):
            t, d = a[0].d['template'], dict(k)
            if len(a) > 1:
                for kv in I.iterate(native_call(I, a[1], 'items', [], {})):
                    d.setdefault(*kv)
            if not isinstance(t, str):
                raise Unsupported('symbolic template')
            out, pos = [], 0
            for mo in _string.Template.pattern.finditer(t):
                out.append(t[pos:mo.start()])
                pos = mo.end()
                name = mo.group('named') or mo.group('braced')
                if mo.group('escaped') is not None:
                    out.append('$')
                elif name is None or name not in d:
                    if not safe:
                        I.throw('ValueError' if name is None else 'KeyError', name or 'Invalid placeholder')
                    out.append(mo.group(0))
                else:
                    out.append(to_str(I, d[name]))
            return join('', out + [t[pos:]], I)
        x = nat('safe_substitute' if safe else 'substitute', f)
        x.method = True
        return x
    ti = nat('__init__', template_init)
    ti.method = True
    m['string'].d['Template'] = PClass('Template', [OBJECT], {'__module__': 'string', '__init__': ti, 'substitute': template_subst(False),
                                                              'safe_substitute': template_subst(True)})
    mod('os', {'path': None, 'sep': '/', 'linesep': '\n'})
    mod('os.path', {}, _osp)
    m['os'].d['path'] = m['os.path']

    def b64(fn):
        def f(I, a, k):
            h = getattr(I, 'b64_hook', None)
            if h is not None and any(isinstance(x, SStr) for x in a):
                return h(I, fn, a)
            try:
                return getattr(_b64, fn)(to_py(I, a[0]).encode('latin-1')).decode('latin-1')
            except _binascii.Error as e:
                I.throw('TypeError', 'Incorrect padding')
        return nat(fn, f)
    mod('base64', dict((x, b64(x)) for x in ('standard_b64encode', 'standard_b64decode', 'b64encode', 'b64decode')))

    def sp(I, a, k):
        fmt = a[0]
        if len(a) == 2 and fmt in ('<B', 'B', '>B') and isinstance(a[1], Sym):
            e = ie(a[1])
            if not I.engine.branch(z3.And(e >= 0, e < 256)):
                I.throw('StructError')
            return SStr.make([mkch(mkint(e))])
        try:
            return _struct.pack(fmt, *[to_py(I, x) for x in a[1:]]).decode('latin-1')
        except _struct.error as e:
            I.throw('ValueError', str(e))

    def su(I, a, k):
        fmt, s = a
        if fmt in ('<B', 'B', '>B') and isinstance(s, SStr):
            u = expand(I, s)
            if len(u) != 1:
                I.throw('ValueError', 'unpack')
            return (code(u[0]),)
        try:
            return _struct.unpack(fmt, to_py(I, s).encode('latin-1'))
        except _struct.error as e:
            I.throw('ValueError', str(e))
    mod('struct', {'pack': nat('pack', sp), 'unpack': nat('unpack', su)})
    mod('difflib', {}, _difflib)
    mod('pprint', {'pprint': noop('pprint'), 'pformat': nat('pformat', lambda I, a, k: to_repr(I, a[0]))})
    mod('StringIO', {'StringIO': nat('StringIO', lambda I, a, k: _io.StringIO(*a))})
    mod('cStringIO', dict(m['StringIO'].d))
    import urllib.parse as _up
    mod('urllib', {'quote': nat('quote', lambda I, a, k: call_pyobj(I, _up.quote, a, k)),
                   'urlencode': nat('urlencode', lambda I, a, k: call_pyobj(I, _up.urlencode, a, k)),
                   'unquote': nat('unquote', lambda I, a, k: call_pyobj(I, _up.unquote, a, k))})
    mod('urllib2', {'urlopen': nat('urlopen', lambda I, a, k: I.throw('IOError', 'no network'))})
    mod('time', {'time': nat('time', lambda I, a, k: 0.0), 'sleep': noop('sleep')})
    mod('types', {'FunctionType': I.FUNCTYPE})
    mod('exceptions', dict(EXC))
    mod('sys', {'maxint': 9223372036854775807, 'argv': ['x'], 'modules': {}, 'path': []})
    mod('socket', {'error': EXC['SocketError']})
    mod('traceback', {'print_exc': noop('print_exc')})
    stamp = PClass('datetime', [OBJECT], {'__module__': 'datetime'})
    stamp.d['isoformat'] = nat('isoformat', lambda I, a, k: '2008-01-01T00:00:00')
    stamp.d['isoformat'].method = True
    stamp.d['now'] = nat('now', lambda I, a, k: PInst(stamp))
    mod('datetime', {'datetime': stamp})
    def cls(name, *methods):
        d = {'__module__': 'stub'}
        for x in methods:
            d[x] = nat(x, lambda I, a, k: None)
            d[x].method = True
        return PClass(name, [OBJECT], d)
    mod('sha', {'new': nat('new', lambda I, a, k: PInst(digest))})
    digest = cls('sha', 'update', 'hexdigest', 'digest')

    def decorate(I, a, k):
        caller, fn = a
        f = nat(getattr(fn, 'name', 'decorated'), lambda I, a, k: I.call(caller, [fn] + list(a), k))
        f.method = True
        return f
    mod('decorator', {'decorator': nat('decorator', decorate)})
    mod('docutils', {'core': mod('docutils.core', {'publish_parts': nat('publish_parts', lambda I, a, k: (_ for _ in ()).throw(Unsupported('docutils')))}),
                     'io': mod('docutils.io', {})})
    mod('unittest', {'TestCase': PClass('TestCase', [OBJECT], {})})
    mod('xml', {})
    mod('xml.parsers', {})
    mod('xml.parsers.expat', {'ParserCreate': nat('ParserCreate', lambda I, a, k: (_ for _ in ()).throw(Unsupported('expat')))})
    m['xml'].d['parsers'] = m['xml.parsers']
    m['xml.parsers'].d['expat'] = m['xml.parsers.expat']
    mod('thread', {'start_new_thread': noop('start_new_thread'),
                   'exit': nat('exit', lambda I, a, k: I.throw('SystemExit'))})
    lock = ('__init__', 'acquire', 'release', '__enter__', '__exit__')
    mod('threading', {'RLock': cls('RLock', *lock), 'Lock': cls('Lock', *lock),
                      'Condition': cls('Condition', 'wait', 'notify', 'notifyAll', *lock),
                      'Event': cls('Event', '__init__', 'set', 'clear', 'wait', 'isSet', 'is_set')})
    mod('telnetlib', {'Telnet': cls('Telnet', '__init__', 'open', 'close', 'write', 'expect', 'set_debuglevel')})
    return m
