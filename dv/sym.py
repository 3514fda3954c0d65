"""Symbolic values and the path explorer of the VC generator."""
import z3

ENGINE = [None]


class Unsupported(Exception):
    """The engine cannot evaluate this construct: the obligation is undecided (never a violation)."""


class Infeasible(Exception):
    """Current path condition is unsatisfiable (after an assume)."""


class Restart(BaseException):
    """explore again from the start (a function was found that cannot be merged)"""


class AbortMerge(Exception):
    """A region cannot be summarised; the caller re-runs it with real forks."""


class CantMerge(Exception):
    pass


def eng():
    return ENGINE[0]


class Sym(object):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    __hash__ = object.__hash__

    def __repr__(self):
        return '<%s %s>' % (self.__class__.__name__, z3.simplify(self.e))


def is_num(x):
    return isinstance(x, (int, float, SInt, SBool, SReal)) or isinstance(x, bool)


def ie(x):
    """z3 Int expression of an int-like value"""
    if isinstance(x, SInt):
        return x.e
    if isinstance(x, SBool):
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    raise Unsupported('not an int: %r' % (x,))


def re_(x):
    if isinstance(x, SReal):
        return x.e
    if isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')):
            raise Unsupported('non-finite float')
        from fractions import Fraction
        fr = Fraction(repr(x))
        return z3.Q(fr.numerator, fr.denominator)
    return z3.ToReal(ie(x))


def be(x):
    """z3 Bool expression of a truth value"""
    if isinstance(x, SBool):
        return x.e
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, SInt):
        return x.e != 0
    if isinstance(x, SReal):
        return x.e != 0
    if isinstance(x, (int, float)):
        return z3.BoolVal(x != 0)
    if x is None:
        return z3.BoolVal(False)
    if isinstance(x, z3.BoolRef):
        return x
    raise Unsupported('no truth expression for %r' % (x,))


def intlike(x):
    return isinstance(x, (int, SInt, SBool))


def mkint(e):
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    return SInt(e)


def mkbool(e):
    if isinstance(e, bool):
        return e
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SBool(e)


def _arith(op):
    def f(a, b):
        if isinstance(a, (float, SReal)) or isinstance(b, (float, SReal)):
            return SReal(op(re_(a), re_(b)))
        return mkint(op(ie(a), ie(b)))
    return f


s_add = _arith(lambda a, b: a + b)
s_sub = _arith(lambda a, b: a - b)
s_mul = _arith(lambda a, b: a * b)


def floordiv_e(a, b):
    # SMT-LIB div: remainder is non-negative; Python: floor
    if z3.is_int_value(b) and b.as_long() > 0:
        return a / b
    q = a / b
    return z3.If(z3.And(b < 0, a % b != 0), q - 1, q)


def mod_e(a, b):
    if z3.is_int_value(b) and b.as_long() > 0:
        return a % b
    r = a % b
    return z3.If(z3.And(b < 0, r != 0), r + b, r)


def s_cmp(op, a, b):
    if isinstance(a, (float, SReal)) or isinstance(b, (float, SReal)):
        x, y = re_(a), re_(b)
    else:
        x, y = ie(a), ie(b)
    return mkbool({'<': lambda: x < y, '<=': lambda: x <= y, '>': lambda: x > y, '>=': lambda: x >= y,
                   '==': lambda: x == y, '!=': lambda: x != y}[op]())


POW2 = z3.Function('pow2', z3.IntSort(), z3.IntSort())


class SNum(Sym):
    __slots__ = ()

    def _bin(self, op, o, swap=False):
        if not is_num(o):
            return NotImplemented
        return op(o, self) if swap else op(self, o)

    def __add__(self, o): return self._bin(s_add, o)
    def __radd__(self, o): return self._bin(s_add, o, True)
    def __sub__(self, o): return self._bin(s_sub, o)
    def __rsub__(self, o): return self._bin(s_sub, o, True)
    def __mul__(self, o): return self._bin(s_mul, o)
    def __rmul__(self, o): return self._bin(s_mul, o, True)
    def __neg__(self): return s_sub(0, self)
    def __pos__(self): return self
    def __abs__(self):
        if isinstance(self, SReal):
            return SReal(z3.If(self.e >= 0, self.e, -self.e))
        x = ie(self)
        return mkint(z3.If(x >= 0, x, -x))
    def __floordiv__(self, o): return eng().floordiv(self, o)
    def __rfloordiv__(self, o): return eng().floordiv(o, self)
    def __mod__(self, o): return eng().mod(self, o)
    def __rmod__(self, o): return eng().mod(o, self)
    def __truediv__(self, o): return eng().truediv(self, o)
    def __rtruediv__(self, o): return eng().truediv(o, self)
    def __lt__(self, o): return s_cmp('<', self, o)
    def __le__(self, o): return s_cmp('<=', self, o)
    def __gt__(self, o): return s_cmp('>', self, o)
    def __ge__(self, o): return s_cmp('>=', self, o)

    def __eq__(self, o):
        if not is_num(o):
            return False
        return s_cmp('==', self, o)

    def __ne__(self, o):
        if not is_num(o):
            return True
        return s_cmp('!=', self, o)

    def __bool__(self):
        return eng().branch(be(self))

    __hash__ = None


class SInt(SNum):
    __slots__ = ()

    def __index__(self):
        return eng().concretize(self.e)

    __int__ = __index__

    def __hash__(self):
        # reached when native code uses a symbolic int as a key: resolve it by forking
        return hash(eng().concretize(self.e))


class SBool(SNum):
    __slots__ = ()

    def __and__(self, o): return And(self, o)
    def __or__(self, o): return Or(self, o)

    def __index__(self):
        return int(bool(self))

    def __hash__(self):
        return hash(bool(self))


class SReal(SNum):
    __slots__ = ()

    def __hash__(self):
        raise Unsupported('hash of symbolic real')


def And(*xs):
    if len(xs) == 1 and isinstance(xs[0], (list, tuple)):
        xs = xs[0]
    if all(isinstance(x, bool) for x in xs):
        return all(xs)
    return mkbool(z3.And([be(x) for x in xs]))


def Or(*xs):
    if len(xs) == 1 and isinstance(xs[0], (list, tuple)):
        xs = xs[0]
    if all(isinstance(x, bool) for x in xs):
        return any(xs)
    return mkbool(z3.Or([be(x) for x in xs]))


def Not(x):
    if isinstance(x, (bool, int)) or x is None:
        return not x
    return mkbool(z3.Not(be(x)))


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    if isinstance(a, (bool, int)) and isinstance(b, (bool, int)):
        return bool(a) == bool(b)
    return mkbool(be(a) == be(b))


def Ite(c, a, b):
    if isinstance(c, (bool, int)) or c is None:
        return a if c else b
    return ite_val(be(c), a, b)


def ite_val(c, a, b):
    """value-level if-then-else; raises CantMerge when the values have no common symbolic shape"""
    if a is b:
        return a
    if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
        return mkbool(z3.If(c, be(a), be(b)))
    if intlike(a) and intlike(b):
        return mkint(z3.If(c, ie(a), ie(b)))
    if is_num(a) and is_num(b):
        return SReal(z3.If(c, re_(a), re_(b)))
    if isinstance(a, str) and isinstance(b, str) and a == b:
        return a
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(ite_val(c, x, y) for x, y in zip(a, b))
    m = getattr(a, '__merge__', None)
    if m is not None:
        return m(c, b)
    m = getattr(b, '__merge__', None)
    if m is not None:
        return m(z3.Not(c), a)
    raise CantMerge('%r / %r' % (type(a), type(b)))


class Explorer(object):
    """Depth-first enumeration of decision sequences by re-execution."""
    def __init__(self):
        self.trace = []      # [taken, has_alternative]
        self.pos = 0
        self.conds = []      # z3 conditions decided in this run
        self.assumes = []    # (nconds, z3 cond) facts assumed in this run
        self.early = None    # (frame, f): a return from that frame completes this region with value f(r)
        self.noearly = 0     # inside try/with of that frame
        self.outs = None
        self.cache = []      # summaries of effect-free regions met on the current prefix of decisions
        self.seq = 0

    def start(self):
        self.seq = 0
        self.noearly = 0
        self.pushed = False
        self.pos = 0
        self.conds = []
        self.assumes = []

    def advance(self):
        while self.trace and not self.trace[-1][1]:
            self.trace.pop()
        if not self.trace:
            return False
        t = self.trace[-1]
        t[0] = not t[0]
        t[1] = False
        k = len(self.trace) - 1
        while self.cache and self.cache[-1][0] > k:
            self.cache.pop()
        return True


class Engine(object):
    def __init__(self, rlimit=30000000, max_paths=20000):
        self.rlimit = rlimit
        self.solver = z3.Solver()
        self.solver.set('rlimit', rlimit)
        self.explorers = []
        self.model = None
        self.counter = 0
        self.logs = []
        self.at_end = None         # called at the end of every top-level path, with the log of what it changed
        self.fresh_ids = []
        self.keep = []
        self.stats = {'checks': 0, 'paths': 0, 'local_paths': 0, 'unknown': 0, 'merges': 0}
        self.inputs = {}
        self.max_paths = max_paths
        self.max_local = 800
        self.deadline = None
        self.nomerge = set()
        self.steps = 0
        ENGINE[0] = self

    # ---- solver -------------------------------------------------------
    def add(self, c):
        if self.explorers and not self.explorers[-1].pushed:
            # scopes are opened only when a constraint is added
            for ex in self.explorers:
                if not ex.pushed:
                    self.solver.push()
                    ex.pushed = True
        self.solver.add(c)

    guesses = ()

    def guess(self, *extra):
        """try configured input values: a model found this way is a model"""
        for g in self.guesses:
            eqs = [v.e == g[k] for k, v in self.inputs.items() if k in g and hasattr(v, 'e')]
            self.solver.set('rlimit', 3000000)
            if self.solver.check(*(list(extra) + eqs)) == z3.sat:
                return True
        return False

    def sat(self, *extra):
        self.stats['checks'] += 1
        if self.guesses and self.guess(*extra):
            return z3.sat
        if self.deadline is not None:
            import time
            if time.time() > self.deadline:
                raise Unsupported('time budget of the harness exhausted')
        self.solver.set('rlimit', self.rlimit)
        r = self.solver.check(*extra)
        if r == z3.unknown:
            self.stats['unknown'] += 1
        return r

    def branch(self, c):
        """decide a z3 Bool on this path"""
        raw = c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if not self.explorers:
            raise Unsupported('symbolic branch outside exploration')
        ex = self.explorers[-1]
        if ex.pos < len(ex.trace):
            t = ex.trace[ex.pos]
            if not t[2].eq(raw) and self.sat(t[2] != raw) != z3.unsat:
                raise Unsupported('re-execution took another way')
            d = t[0]
            ex.pos += 1
            self._add_decision(ex, c if d else z3.Not(c))
            return d
        t = f = None
        nc = z3.Not(c)
        if self.model is not None:
            v = self.model.eval(c, model_completion=True)
            if z3.is_true(v):
                t = z3.sat
            elif z3.is_false(v):
                f = z3.sat
        mt = mf = self.model
        if t is None:
            t = self.sat(c)
            if t == z3.sat:
                mt = self.solver.model()
        if f is None:
            f = self.sat(nc)
            if f == z3.sat:
                mf = self.solver.model()
        if t == z3.unsat and f == z3.unsat:
            raise Infeasible()
        if t == z3.unsat:
            d, alt = False, False
        elif f == z3.unsat:
            d, alt = True, False
        else:
            d, alt = True, True
        ex.trace.append([d, alt, raw])
        ex.pos += 1
        self.model = mt if d else mf
        if (t if d else f) == z3.unknown:
            self.model = None
        self._add_decision(ex, c if d else nc)
        return d

    def _add_decision(self, ex, c):
        ex.conds.append(c)
        self.add(c)
        if self.model is not None and not z3.is_true(self.model.eval(c, model_completion=True)):
            self.model = None

    def assume(self, c):
        c = z3.simplify(be(c))
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise Infeasible()
        self.add(c)
        if self.explorers:
            ex = self.explorers[-1]
            ex.assumes.append((len(ex.conds), c))
        if self.model is not None and z3.is_true(self.model.eval(c, model_completion=True)):
            return
        r = self.sat()
        if r == z3.unsat:
            raise Infeasible()
        self.model = self.solver.model() if r == z3.sat else None

    def assume_nocheck(self, c):
        c = z3.simplify(be(c))
        if z3.is_true(c):
            return
        self.add(c)
        if self.explorers:
            ex = self.explorers[-1]
            ex.assumes.append((len(ex.conds), c))
        if self.model is not None and not z3.is_true(self.model.eval(c, model_completion=True)):
            self.model = None

    def concretize(self, e, cap=300):
        e = z3.simplify(e)
        for _ in range(cap):
            if z3.is_int_value(e):
                return e.as_long()
            ex = self.explorers[-1] if self.explorers else None
            if ex is None:
                raise Unsupported('symbolic int outside exploration')
            if self.model is None:
                r = self.sat()
                if r == z3.unsat:
                    raise Infeasible()
                if r != z3.sat:
                    raise Unsupported('cannot concretize')
                self.model = self.solver.model()
            # the candidate value must be the same on re-execution: store it in the trace
            if ex.pos < len(ex.trace):
                v = ex.trace[ex.pos][3]
            else:
                v = self.model.eval(e, model_completion=True).as_long()
            n0 = ex.pos
            if self._branch_val(ex, e, v):
                return v
        raise Unsupported('too many values to concretize')

    def _branch_val(self, ex, e, v):
        c = e == v
        if ex.pos < len(ex.trace):
            if not ex.trace[ex.pos][2].eq(c):
                raise Unsupported('re-execution took another way')
            d = ex.trace[ex.pos][0]
            ex.pos += 1
            self._add_decision(ex, c if d else z3.Not(c))
            if self.model is None and not d:
                pass
            return d
        f = self.sat(z3.Not(c))
        ex.trace.append([True, f != z3.unsat, c, v])
        ex.pos += 1
        self._add_decision(ex, c)
        return True

    def fresh_name(self, base):
        self.counter += 1
        return '%s!%d' % (base, self.counter)

    def fresh_int(self, base='i'):
        return SInt(z3.Int(self.fresh_name(base)))

    def fresh_bool(self, base='b'):
        return SBool(z3.Bool(self.fresh_name(base)))

    def fresh_real(self, base='x'):
        return SReal(z3.Real(self.fresh_name(base)))

    # ---- arithmetic that may raise ---------------------------------------
    def floordiv(self, a, b):
        if isinstance(a, (float, SReal)) or isinstance(b, (float, SReal)):
            raise Unsupported('real floor division')
        if self.branch(ie(b) == 0):
            raise ZeroDivisionError('integer division or modulo by zero')
        return mkint(floordiv_e(ie(a), ie(b)))

    def truediv(self, a, b):
        if self.branch(re_(b) == 0):
            raise ZeroDivisionError('float division')
        return SReal(re_(a) / re_(b))

    def mod(self, a, b):
        if isinstance(a, (float, SReal)) or isinstance(b, (float, SReal)):
            raise Unsupported('real modulo')
        if self.branch(ie(b) == 0):
            raise ZeroDivisionError('integer division or modulo by zero')
        return mkint(mod_e(ie(a), ie(b)))

    # ---- undo log -----------------------------------------------------------
    def touch(self, c):
        """must be called before mutating container c"""
        if self.logs:
            log = self.logs[-1]
            k = id(c)
            if k not in log and k not in self.fresh_ids[-1]:
                log[k] = (c, snapshot(c))

    def fresh_container(self, c):
        if self.fresh_ids:
            self.fresh_ids[-1].add(id(c))
            self.keep.append(c)
        return c

    def rollback(self, log):
        for c, s in log.values():
            restore(c, s)

    # ---- exploration ----------------------------------------------------------
    def explore(self, thunk):
        """top level: run thunk on every path; modules' state is restored between paths"""
        ex = Explorer()
        while True:
            ex.start()
            self.counter = 0
            self.inputs = {}
            self.model = None
            log = {}
            self.logs.append(log)
            self.fresh_ids.append(set())
            self.explorers.append(ex)
            self.stats['paths'] += 1
            if self.stats['paths'] > self.max_paths:
                raise Unsupported('too many paths')
            try:
                try:
                    yield_ = thunk()
                    if self.at_end is not None:
                        self.at_end(log)
                except Infeasible:
                    pass
            finally:
                self.explorers.pop()
                self.logs.pop()
                self.fresh_ids.pop()
                self.rollback(log)
                self.keep = []
                if ex.pushed:
                    self.solver.pop()
            if not ex.advance():
                return

    def emit_early(self, ex, c, kind, val, delta):
        """complete the current region on condition c with this outcome, without forking"""
        cur = [(x, snapshot(x)) for x, s, n in delta.values()]
        for k, (x, s, n) in delta.items():
            self.touch(x)
            restore(x, n)
        fr = self.fresh_ids[-1]
        d = {k: (x, s, snapshot(x)) for k, (x, s) in self.logs[-1].items() if k not in fr}
        for x, s in cur:
            restore(x, s)
        # (facts assumed so far are kept by the path that goes on)
        ex.outs.append((list(ex.conds) + [c], [], kind, val, d))

    def follow(self, c):
        """go on under c (the other cases have been completed early)"""
        self._add_decision(self.explorers[-1], c)

    def region(self, thunk, excs, early=None):
        """Run thunk on all its local paths; returns list of (conds, assumes, kind, value, delta)."""
        ex = Explorer()
        ex.early = early
        outs = ex.outs = []
        saved_model = self.model
        self.stats['merges'] += 1
        base = top = self.counter
        while True:
            ex.start()
            self.counter = base
            self.model = saved_model
            log = {}
            self.logs.append(log)
            fr = set()
            self.fresh_ids.append(fr)
            self.explorers.append(ex)
            self.stats['local_paths'] += 1
            out = None
            try:
                try:
                    v = thunk()
                    out = ('ok', v)
                except excs as e:
                    out = ('exc', e)
                except Infeasible:
                    out = None
                if out is not None:
                    delta = {k: (c, s, snapshot(c)) for k, (c, s) in log.items() if k not in fr}
                    outs.append((list(ex.conds), list(ex.assumes), out[0], out[1], delta))
            finally:
                self.explorers.pop()
                self.logs.pop()
                self.fresh_ids.pop()
                if self.fresh_ids:
                    self.fresh_ids[-1].update(fr)
                self.rollback(log)
                if ex.pushed:
                    self.solver.pop()
                self.model = saved_model
                top = max(top, self.counter)
                self.counter = top
            if not ex.advance():
                break
            if len(outs) > self.max_local:
                self.model = saved_model
                raise AbortMerge('too many local paths')
        self.model = saved_model
        return outs


def snapshot(c):
    if isinstance(c, list):
        return list(c)
    if isinstance(c, dict):
        return dict(c)
    if isinstance(c, set):
        return set(c)
    return c.__snapshot__()


def restore(c, s):
    if isinstance(c, list):
        c[:] = s
    elif isinstance(c, dict):
        c.clear()
        c.update(s)
    elif isinstance(c, set):
        c.clear()
        c.update(s)
    else:
        c.__restore__(s)
