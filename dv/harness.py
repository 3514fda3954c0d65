"""Harness API, proving side.  A harness is a function h -> None written in the common subset of Python 2 and 3:
here it runs on symbolic inputs; dv/jyrun.py runs the same function on concrete inputs against the real code."""
import time
import z3
from . import sym, objs, interp, stubs, reals, symre
from .sym import *
from .objs import *


class Outcome(object):
    def __init__(self, value, exc):
        self.value, self.exc = value, exc
        self.ok = exc is None

    def __repr__(self):
        return 'raise %s' % self.exc if self.exc else 'ok %r' % (self.value,)


class Stop(Exception):
    pass


class Contract(object):
    """Modular contract of a real function. apply() replaces the call; its harness verifies the real body against it."""
    active = None

    def __init__(self, qual, apply_):
        self.qual = qual
        self.apply_ = apply_

    def apply(self, I, fn, args, kw):
        loc = I.bind_args(fn, args, kw)
        return self.apply_(I.h, *[loc[p] for p in fn.params])


class ProveH(object):
    proving = True

    def __init__(self, I, task):
        self.I = I
        I.h = self
        self.e = I.engine
        self.task = task
        self.labels = {}          # label -> dict(count, discharged, refuted, unknown)
        self.refuted = []
        self.witness = {}
        self.assumed = set()
        self.known = {}
        self.active_known = set()
        self.max_ref = 2
        self.smt_time = 0.0
        self.backends = {}
        self.native = {}
        self.first = None         # inputs of an earlier run of the harness on the same path
        self.silent = False

    # ---- inputs -----------------------------------------------------------
    def nm(self, name):
        return 'first.' + name if self.silent else name

    def again(self):
        """end of the earlier run: from here on the inputs are those of the run under check"""
        self.first, self.e.inputs, self.silent = self.e.inputs, {}, False

    def _in(self, name, v):
        if name in self.e.inputs:
            raise RuntimeError('input name reused: ' + name)
        self.e.inputs[name] = v
        return v

    def int(self, name, lo=None, hi=None):
        if lo is not None and lo == hi:
            return lo
        v = self._in(name, SInt(z3.Int(self.nm(name))))
        if lo is not None:
            self.e.assume_nocheck(v.e >= ie(lo))
        if hi is not None:
            self.e.assume_nocheck(v.e <= ie(hi))
        return v

    def bool(self, name):
        return self._in(name, SBool(z3.Bool(self.nm(name))))

    def real(self, name, lo=None, hi=None, special=None):
        v = self._in(name, SReal(z3.Real(self.nm(name))))
        if lo is not None:
            self.e.assume_nocheck(v.e >= re_(lo))
        if hi is not None:
            self.e.assume_nocheck(v.e <= re_(hi))
        return v

    def ints(self, name, n, lo=0, hi=None):
        return [self.int('%s.%d' % (name, i), lo, hi) for i in range(n)]

    def choice(self, name, seq):
        """one of seq, by case split"""
        i = self.int(name, 0, len(seq) - 1)
        return seq[self.pick(i)]

    def pick(self, i):
        """resolve a symbolic int to a concrete one by case split"""
        return i if isinstance(i, int) else i.__index__()

    def side(self, name='side'):
        return self.choice(name, [0, 1])

    def dist(self, name, total=None, lo=0, n=25):
        v = self.ints(name, n, lo)
        if total is not None:
            s = sum(v[1:], v[0])
            self.e.assume_nocheck(be(s <= total))
        return tuple(v)

    def char(self, name, lo=0, hi=127, likely=None):
        c = self._in(name, SInt(z3.Int(self.nm(name))))
        self.e.assume_nocheck(z3.And(c.e >= lo, c.e <= hi))
        return SStr.make([('ch', c)])

    def chars(self, name, n, lo=0, hi=127):
        r = []
        for i in range(n):
            c = self._in('%s.%d' % (name, i), SInt(z3.Int(self.nm('%s.%d' % (name, i)))))
            self.e.assume_nocheck(z3.And(c.e >= lo, c.e <= hi))
            r.append(('ch', c))
        return SStr.make(r)

    def digits(self, v):
        """decimal text of an int"""
        return str(v) if isinstance(v, int) else SStr.make([('num', v)])

    def ord(self, s):
        u = SStr.of(s).units()
        return code(u[0])

    def chr(self, n):
        return SStr.make([mkch(n)])

    def join(self, sep, parts):
        out = []
        for i, p in enumerate(parts):
            if i and sep:
                out.append(('lit', sep))
            out.extend(SStr.of(p).parts)
        return SStr.make(out)

    def word(self, name, sample='abc', without=''):
        """arbitrary text (opaque) without the given characters"""
        return self.I.B.new_opq(self.I, name, without=without)

    def text(self, name):
        """arbitrary text of any length; only character-wise operations can be applied to it"""
        return SStr([('hom', symre.Hom(self.nm(name)))])

    def filled(self, got, parts):
        """got is the concatenation of the parts: a text, or a pair of an arbitrary text and the character map
        applied to it (a function of this object and a character)"""
        if not isinstance(got, (str, SStr)):
            return False
        want = []
        for p in parts:
            want.extend([('map',) + tuple(p)] if isinstance(p, tuple) else SStr.of(p).parts)
        want = [p for p in want if p[0] == 'map' or p[0] != 'lit' or p[1]]
        have = list(SStr.of(got).parts)
        a = [('map', p[1], p[2]) if p[0] == 'map' else p for p in want]
        conds, seg_a, seg_b = [], [], []
        ia = ib = 0

        def flush():
            conds.append(self.I.eq(SStr.make(seg_a), SStr.make(seg_b)))
            del seg_a[:], seg_b[:]
        while True:
            while ia < len(a) and a[ia][0] != 'map':
                seg_a.append(a[ia])
                ia += 1
            while ib < len(have) and have[ib][0] != 'hom':
                seg_b.append(have[ib])
                ib += 1
            flush()
            if ia == len(a) or ib == len(have):
                return self.And(conds) if ia == len(a) and ib == len(have) else False
            base, f, hom = a[ia][1].parts[0][1].base, a[ia][2], have[ib][1]
            if base != hom.base:
                return False
            c = self.char(base + '.c', 0, 255) if base + '.c' not in self.e.inputs else \
                SStr.make([('ch', self.e.inputs[base + '.c'])])
            conds.append(self.I.eq(hom.image(self.I, SStr.of(c).parts[0]), f(self, c)))
            ia += 1
            ib += 1

    def isnumeral(self, t):
        """opaque text reads as a number"""
        return mkbool(z3.Bool('isnum_%s' % t.parts[0][1]))

    def length(self, t):
        return self.I.b_len(t)

    def token(self, name):
        """an arbitrary value identified only by its identity"""
        return self.obj(name)

    # reals: exact here; the concrete side allows for rounding
    def close(self, a, b):
        return self.eq(a, b)

    def le(self, a, b):
        return a <= b

    def lt(self, a, b):
        return a < b

    def power(self, a, n):
        return self.I.B.power(self.I, a, n)

    # ---- logic ----------------------------------------------------------------
    And = staticmethod(And)
    Or = staticmethod(Or)
    Not = staticmethod(Not)
    Implies = staticmethod(Implies)
    Iff = staticmethod(Iff)

    def Ite(self, c, a, b):
        return Ite(c, a, b)

    def eq(self, a, b):
        return self.I.eq(a, b)

    def sum(self, xs):
        r = 0
        for x in xs:
            r = r + x
        return r

    def truth(self, v):
        """truth value of a value of the program, as a formula"""
        return self.I.truth_expr(v)

    def isnone(self, v):
        return v is None

    def istrue(self, v):
        return self.And(self.isbool(v), v) if self.isbool(v) else False

    def isbool(self, v):
        return isinstance(v, (bool, SBool))

    def clsname(self, v):
        return v.cls.name if isinstance(v, PInst) else type(v).__name__

    def isinst(self, v, c):
        return self.I.B.isinstance_(self.I, v, c)

    def same(self, a, b):
        return a is b

    def split(self, c):
        """case split on a condition; returns a native bool"""
        return bool(c)

    def at(self, seq, i):
        """seq[i] for a possibly symbolic i within range"""
        if isinstance(i, int):
            return seq[i]
        r = seq[-1]
        for k in range(len(seq) - 2, -1, -1):
            r = Ite(i == k, seq[k], r)
        return r

    def upd(self, seq, i, f):
        """copy of seq with f applied at a possibly symbolic index"""
        return [f(x) if i is k else Ite(i == k, f(x), x) for k, x in enumerate(seq)]

    def pow2(self, k):
        return self.I.B.power(self.I, 2, k)

    # ---- running the real code ----------------------------------------------------
    def mod(self, name):
        return self.I.import_module(name)

    def call(self, fn, *a, **k):
        try:
            return Outcome(self.I.call(fn, list(a), k), None)
        except PyExc as e:
            o = Outcome(None, e.cname)
            o.where = e.where
            o.err = e.value
            return o

    def do(self, thunk):
        try:
            return Outcome(thunk(), None)
        except PyExc as e:
            o = Outcome(None, e.cname)
            o.err = e.value
            return o

    def callm(self, fn, *a, **k):
        """call with all its paths merged into one summary"""
        I = self.I
        key = ('callm', (fn.fn if type(fn) is objs.PBound else fn).qual if type(fn) in (objs.PBound, objs.PFunc) else 0)
        if key in I.engine.nomerge:
            return self.call(fn, *a, **k)
        try:
            I.depth += 1
            try:
                return Outcome(I.merge_region(lambda: I.call(fn, list(a), k)), None)
            finally:
                I.depth -= 1
        except PyExc as e:
            o = Outcome(None, e.cname)
            o.err = e.value
            return o
        except AbortMerge:
            I.engine.nomerge.add(key)
            raise Restart()

    def exc_is(self, out, *names):
        """the call raised one of these (or a subclass)"""
        if out.ok:
            return False
        c = out.err.cls
        return any(b.name in names for b in c.mro)

    def get(self, o, name):
        return self.I.getattr_(o, name)

    def set(self, o, name, v):
        self.I.setattr_(o, name, v)

    def delete(self, o, name):
        self.I.delattr_(o, name)

    def item(self, o, i):
        return self.I.getitem(o, i)

    def hasattr(self, o, name):
        return self.I.hasattr_(o, name)

    def instdict(self, o):
        return o.d

    def list(self, v):
        return list(self.I.iterate(v))

    def new(self, cls, *a, **k):
        return self.I.call(cls, list(a), k)

    def obj(self, name, methods=None, attrs=None):
        """a stand-in object written in the harness: methods are native functions (self-less)"""
        c = PClass(name, [self.I.B.OBJECT], {'__module__': 'harness'})
        for k, f in (methods or {}).items():
            c.d[k] = native_method(k, f)
        o = PInst(c)
        o.d.update(attrs or {})
        return o

    def subclass(self, base, name, methods=None, d=None):
        c = PClass(name, [base], {'__module__': 'harness'})
        for k, f in (methods or {}).items():
            c.d[k] = native_method(k, f)
        c.d.update(d or {})
        return c

    def fn(self, f):
        """harness function usable as a callback of the program"""
        return Native(getattr(f, '__name__', 'callback'), lambda I, a, k: f(*a, **k))

    def throw(self, cname, *args):
        self.I.throw(cname, *args)

    def lst(self, xs):
        return list(xs)

    def stub(self, modname, d):
        pass

    def control_random(self, prefix='draw'):
        """every draw of the random module is an arbitrary one"""
        self.I.random_hook = lambda I, name, a: draw(self, st, prefix, name, a)
        st = [0]

    def abstract_base64(self):
        """contract of base64 for one text: letters without '=', padding to a multiple of four; only that leads back"""
        table = []

        def hook(I, fn, a):
            s = SStr.of(a[0])
            if fn.endswith('encode'):
                n = len(s.units())
                letters = [('ch', self.e.fresh_int('letter')) for i in range((n * 8 + 5) // 6)]
                for x in letters:
                    self.e.assume_nocheck(z3.And(x[1].e > 42, x[1].e < 123, x[1].e != ord('=')))
                r = SStr.make(letters + ([('lit', '=' * (-len(letters) % 4))] if len(letters) % 4 else []))
                table.append((r, a[0]))
                return r
            for r, v in table:
                have, full = s.units(), r.units()
                if len(have) == len(full) and I.truth(I.eq(s, r)):
                    return v
                if len(have) < len(full) and I.truth(I.eq(s, SStr.make(full[:len(have)]))):
                    I.throw('TypeError', 'Incorrect padding')
            raise Unsupported('base64 of another text')
        self.I.b64_hook = hook

    # ---- sequences of any length (prover only) -----------------------------------------------
    def seq(self, n, elem, loop=None):
        return objs.AbsSeq(n, elem, loop)

    def isseq(self, v):
        return type(v) is objs.AbsSeq

    def isint(self, v):
        return isinstance(v, (int, SInt)) and not isinstance(v, bool)

    def identical(self, a, b):
        """the same number, as far as can be seen without a proof"""
        return z3.simplify(ie(a) - ie(b)).eq(z3.IntVal(0))

    def map(self, *a):
        return objs.AbsMap(*a)

    def seq_is(self, s, n, elem):
        """the sequence is changed to these elements"""
        self.e.touch(s)
        s.n, s.elem = n, elem

    default_loop = None             # contract of loops over the places of a sequence of any length

    default_while = None            # the locals of a while loop -> its contract, None to unroll it

    def loop(self, *a, **k):
        return objs.Loop(*a, **k)

    def undecided(self, why):
        raise Unsupported(why)

    def stream(self, gen):
        """the values of a generator, one at a time"""
        return self.I.iterate(gen)

    # ---- contracts --------------------------------------------------------------------
    def contract(self, qual, apply_, skip=0):
        """skip: that many calls run the real body (the body being verified against its own contract)"""
        c = Contract(qual, apply_)
        if skip:
            left = [skip]

            def active(I, fn, args, kw):
                left[0] -= 1
                return left[0] < 0
            c.active = active
        return c

    def use(self, *contracts):
        for c in contracts:
            self.I.contracts[c.qual] = c

    def uf(self, name, *args):
        """an integer that depends on these numbers only (for contracts)"""
        es = [re_(a) if isinstance(a, (float, SReal)) else ie(a) for a in args]
        return SInt(z3.Function(name, *([e.sort() for e in es] + [z3.IntSort()]))(*es))

    def havoc_int(self, base='r', lo=None, hi=None):
        v = self.e.fresh_int(base)
        if lo is not None:
            self.e.assume_nocheck(v.e >= ie(lo))
        if hi is not None:
            self.e.assume_nocheck(v.e <= ie(hi))
        return v

    def havoc_bool(self, base='b'):
        return self.e.fresh_bool(base)

    def havoc_real(self, base='x', lo=None, hi=None):
        v = self.e.fresh_real(base)
        if lo is not None:
            self.e.assume_nocheck(v.e >= re_(lo))
        if hi is not None:
            self.e.assume_nocheck(v.e <= re_(hi))
        return v

    def assumption(self, text):
        self.assumed.add(text)

    def bounded(self, text):
        self.assumed.add('BOUNDED: ' + text)
        self.is_bounded = True

    def assume(self, c):
        self.e.assume(c)

    # ---- obligations ------------------------------------------------------------------
    def each(self, seq, fn):
        """fn(x) for every x on its own: the cases distinguished inside do not multiply"""
        for x in seq:
            before = dict(self.e.inputs)

            def thunk(x=x):
                self.e.inputs = dict(before)
                fn(x)
            for o in self.e.region(thunk, PyExc):
                if o[2] == 'exc':
                    raise o[3]
            self.e.inputs = before

    def check(self, label, cond, known=None):
        if self.silent:
            return
        st = self.labels.setdefault(label, {'n': 0, 'ok': 0, 'ref': 0, 'unk': 0})
        st['n'] += 1
        if label not in self.witness:
            m = self.e.model
            if m is None:
                if self.e.sat() == z3.sat:
                    m = self.e.solver.model()
                    self.e.model = m
            if m is not None:
                self.witness[label] = self.values(m)
        c = be(cond) if not isinstance(cond, z3.BoolRef) else cond
        neg = z3.simplify(z3.Not(c))
        t0 = time.time()
        if z3.is_false(neg):
            r = z3.unsat
            self.backends['trivial'] = self.backends.get('trivial', 0) + 1
        else:
            extra = [neg]
            if known is not None and known[0] in self.active_known:
                kp = be(known[1])
                if self.e.sat(neg, kp) == z3.sat:
                    self.known.setdefault(known[0], self.values(self.e.solver.model()))
                extra.append(z3.Not(kp))
            r = self.e.sat(*extra)
            be_ = 'z3'
            if r == z3.unknown:
                r = self.cvc5(extra)
                be_ = 'cvc5'
            self.backends[be_] = self.backends.get(be_, 0) + 1
        self.smt_time += time.time() - t0
        if r == z3.unsat:
            st['ok'] += 1
        elif r == z3.sat:
            st['ref'] += 1
            if st['ref'] <= self.max_ref:
                first = None
                try:
                    m = self.e.solver.model()
                    vals = self.values(m)
                    if self.first is not None:
                        first = [(self.task, self.first_params, self.values(m, self.first))]
                except z3.Z3Exception:
                    vals = None
                self.refuted.append({'label': label, 'inputs': vals, 'history': first})
        else:
            st['unk'] += 1

    def uncaught(self, what):
        """the harness itself stopped with an error: counts as refuted only when it does so on the real code too"""
        if self.silent:
            raise Infeasible
        st = self.labels.setdefault('uncaught', {'n': 0, 'ok': 0, 'ref': 0, 'unk': 0})
        st['n'] += 1
        st['ref'] += 1
        if st['ref'] <= self.max_ref:
            import traceback
            vals = self.values(self.e.solver.model()) if self.e.sat() == z3.sat else None
            self.refuted.append({'label': 'uncaught', 'inputs': vals, 'what': what,
                                 'trace': traceback.format_exc()[-1500:]})

    def cvc5(self, extra):
        import subprocess, tempfile, os
        s = z3.Solver()
        s.add(*self.e.solver.assertions())
        s.add(*extra)
        fd, p = tempfile.mkstemp(suffix='.smt2')
        try:
            with os.fdopen(fd, 'w') as f:
                f.write('(set-logic ALL)\n' + s.to_smt2())
            out = subprocess.run(['cvc5', '--tlimit=20000', p], capture_output=True, text=True).stdout
        except OSError:
            out = ''
        finally:
            os.unlink(p)
        # a model is only taken from z3: anything but unsat stays undecided
        return z3.unsat if out.strip().startswith('unsat') else z3.unknown

    def values(self, m, inputs=None):
        out = {}
        for k, v in (self.e.inputs if inputs is None else inputs).items():
            x = m.eval(v.e, model_completion=True)
            if z3.is_int_value(x):
                out[k] = x.as_long()
            elif z3.is_true(x) or z3.is_false(x):
                out[k] = z3.is_true(x)
            elif z3.is_rational_value(x):
                out[k] = float(x.as_fraction())
            elif z3.is_algebraic_value(x):
                out[k] = float(x.approx(20).as_fraction())
            else:
                out[k] = None
        return out


def draw(h, st, prefix, name, a):
    """one call of random.<name>(*a): st counts the calls"""
    st[0] += 1
    p = '%s%d' % (prefix, st[0])
    if name == 'random':
        r = h.real(p, 0, 1)
        h.assume(r < 1)
        return r
    if name == 'uniform':
        r = h.real(p, 0, 1)
        return a[0] + (a[1] - a[0]) * r
    if name == 'seed':
        return None
    if name == 'randint':
        return h.int(p, a[0], a[1])
    if name == 'randrange':
        lo, hi = (0, a[0]) if len(a) == 1 else (a[0], a[1])
        return h.int(p, lo, hi - 1)
    if name == 'shuffle' and type(a[0]) is objs.AbsSeq:
        if not a[0].any_order:
            raise Unsupported('shuffle of a sequence of any length')
        a[0].any_order = False
        return None
    xs = h.list(a[0])
    if name == 'choice':
        return xs[h.pick(h.int(p, 0, len(xs) - 1))]
    if name in ('shuffle', 'sample'):
        n = len(xs) if name == 'shuffle' else a[1]
        out = []
        for i in range(n):
            out.append(xs.pop(h.pick(h.int('%s.%d' % (p, i), 0, len(xs) - 1))))
        if name == 'sample':
            return h.lst(out)
        a[0][:] = out
        return None
    raise NotImplementedError(name)


def native_method(name, f):
    n = Native(name, lambda I, a, k: f(*a[1:], **k))
    n.method = True
    return n


def run_task(spec, hname, params, known, budget, rlimit):
    """prove one harness instance; returns a plain dict"""
    t0 = time.time()
    e = Engine(rlimit=rlimit, max_paths=params.get('_max_paths', 60000) if params else 60000)
    e.deadline = t0 + budget
    I = interp.Interp(e)
    stubs.install(I)
    reals.install(I)
    h = ProveH(I, hname)
    fn = spec.HARNESSES[hname]
    opts = getattr(fn, 'opts', {})
    I.merge_ifs = opts.get('merge_ifs', False)
    I.merge_depth = opts.get('merge_depth', 1)
    I.merge = opts.get('merge', True)
    e.guesses = opts.get('guess', ())
    I.rounding = opts.get('rounding', False)
    res = {'harness': hname, 'params': params, 'error': None}
    written = {}
    try:
        for m in opts.get('modules', getattr(spec, 'MODULES', [])):
            I.import_module(m)
        base = dict(I.contracts)
        shared = interp.shared_state(I)

        def at_end(log):
            for k, (c, s) in log.items():
                if k in shared and k not in written:
                    now = sym.snapshot(c)
                    if type(now) is dict:
                        ks = [x for x in list(now) + [x for x in s if x not in now]
                              if (x in now) != (x in s) or now[x] is not s[x]]
                        ks = [x for x in ks if not isinstance(now.get(x), PModule)]
                        if not ks:
                            continue
                        written[k] = '%s (%s)' % (shared[k][1], ', '.join(sorted([str(x) for x in ks]))[:80])
                    elif len(now) != len(s) or any(x is not y for x, y in zip(now, s)):
                        written[k] = shared[k][1]
        e.at_end = at_end

        def run(p=params):
            I.contracts = dict(base)
            I.depth = 0
            try:
                fn(h, **p)
            except PyExc as x:
                h.uncaught(str(x))
            except (AttributeError, TypeError, KeyError, IndexError, ValueError, ZeroDivisionError) as x:
                h.uncaught('%s: %s' % (type(x).__name__, x))

        def after(earlier):
            # the run under check comes after another one in the same process
            def both():
                h.silent, h.first, h.first_params = True, None, earlier
                run(earlier)
                h.again()
                run()
            return both

        def explore(h0, thunk):
            nonlocal h
            while True:
                h = h0
                h.active_known = set(known)
                try:
                    e.explore(thunk)
                    return
                except Restart:
                    e.stats['restarts'] = e.stats.get('restarts', 0) + 1
                    h0 = ProveH(I, hname)
        explore(h, run)
        told = set(getattr(spec, 'SHARED', ()))
        written = {k: v for k, v in written.items() if not any(v.startswith(t) for t in told)}
        frame = h.labels
        if not written:
            frame.setdefault('frame: leaves no state behind that a later call could see', {'n': 1, 'ok': 1, 'ref': 0, 'unk': 0})
        elif not opts.get('abstract'):
            h1 = h
            e.at_end = None
            near = [p for n, p in spec.TASKS if n == hname and sum([p[k] != params[k] for k in p]) == 1]
            for earlier in [params] + near[:3]:
                e.deadline = time.time() + min(budget, 40)
                try:
                    explore(ProveH(I, hname), after(earlier))
                    for k, v in h.labels.items():
                        l = h1.labels.setdefault('after an earlier run: ' + k, {'n': 0, 'ok': 0, 'ref': 0, 'unk': 0})
                        for x in l:
                            l[x] += v[x]
                    h1.refuted += [dict(x, label='after an earlier run: ' + x['label']) for x in h.refuted]
                    h1.smt_time += h.smt_time
                    if h.refuted:
                        break
                except (Unsupported, AbortMerge, CantMerge, RecursionError) as x:
                    res['error'] = 'writes state shared between calls (%s); two runs in a row: %s' % (
                        '; '.join(sorted(written.values()))[:200], x)
            h = h1
    except (Unsupported, AbortMerge, CantMerge) as x:
        import traceback
        res['error'] = '%s: %s at line %s' % (type(x).__name__, x, getattr(I, 'cur', None))
        res['trace'] = traceback.format_exc()[-3000:]
    except PyExc as x:
        res['error'] = 'uncaught program exception in harness: %s' % x
    except RecursionError as x:
        res['error'] = 'recursion limit of the evaluator'
    except Exception as x:
        import traceback
        res['error'] = 'internal: %s: %s' % (type(x).__name__, x)
        res['trace'] = traceback.format_exc()[-3000:]
    res.update(labels=h.labels, refuted=h.refuted, witness=h.witness, assumed=sorted(h.assumed),
               bounded=getattr(h, 'is_bounded', False),
               known=h.known, smt_time=h.smt_time, backends=h.backends, stats=e.stats,
               written=sorted(written.values()), funcs=sorted(I.funcs_entered), contracts=sorted(I.contracts_used), wall=time.time() - t0)
    return res
