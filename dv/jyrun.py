"""Concrete side of the harnesses: runs under Jython against the real code (replay of counterexamples and
witnesses, and bounded random search).   usage: jy jyrun.py REQUEST.json RESULT.json"""
import sys, os, json, random, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))


class Discard(Exception):
    pass


class Null(object):
    def write(self, s):
        pass

    def flush(self):
        pass


class Outcome(object):
    def __init__(self, value, exc, err=None):
        self.value, self.exc, self.err = value, exc, err
        self.ok = exc is None


class Obj(object):
    pass


def number(v):
    return isinstance(v, (int, long)) and not isinstance(v, bool)


class ConcreteH(object):
    proving = False

    def __init__(self, inputs, rng, known, near=None):
        self.given = inputs
        self.rng = rng
        self.near = near          # inputs of an earlier run: this one differs from it in a few places only
        self.keep = rng.choice([1, 0.97, 0.9, 0.7]) if rng else 0
        self.inputs = {}
        self.failed = []
        self.passed = {}
        self.knownhits = []
        self.active_known = known
        self.style = rng.random() if rng else 0

    # ---- inputs
    def again(self, name, ok):
        return self.near is not None and name in self.near and self.rng.random() < self.keep and ok(self.near[name])

    def _get(self, name, gen, ok=lambda v: True):
        if self.given is not None:
            if name in self.given and self.given[name] is not None:
                v = self.given[name]
            else:
                v = gen(random.Random(0))
        elif self.again(name, ok):
            v = self.near[name]
        else:
            v = gen(self.rng)
        if isinstance(v, (int, long)) and not isinstance(v, bool):
            v = int(v)
        self.inputs[name] = v
        return v

    def int(self, name, lo=None, hi=None):
        if lo is not None and lo == hi:
            return lo

        def gen(r):
            a = lo if lo is not None else (-4 if hi is None else hi - 60)
            b = hi if hi is not None else a + r.choice([3, 6, 25, 100, 1000])
            if r.random() < 0.3:
                return r.choice([a, b, min(a + 1, b), max(b - 1, a)])
            return r.randint(a, b)
        return self._get(name, gen, lambda v: number(v) and (lo is None or v >= lo) and (hi is None or v <= hi))

    def bool(self, name):
        return bool(self._get(name, lambda r: r.random() < 0.5, lambda v: isinstance(v, bool)))

    def real(self, name, lo=None, hi=None, special=None):
        def gen(r):
            if special and r.random() < 0.2:
                return r.choice(special)
            a = lo if lo is not None else -3000.0
            b = hi if hi is not None else a + 6000.0
            return a + (b - a) * r.random()
        return float(self._get(name, gen, lambda v: (number(v) or isinstance(v, float)) and (lo is None or v >= lo) and (hi is None or v <= hi)))

    def ints(self, name, n, lo=0, hi=None):
        return [self.int('%s.%d' % (name, i), lo, hi) for i in range(n)]

    def choice(self, name, seq):
        return seq[self._get(name, lambda r: r.randrange(len(seq)), lambda v: number(v) and v < len(seq))]

    def pick(self, i):
        return i

    def side(self, name='side'):
        return self.choice(name, [0, 1])

    def dist(self, name, total=None, lo=0, n=25):
        if self.given is not None:
            return tuple([self._get('%s.%d' % (name, i), lambda r: 0) for i in range(n)])
        r = self.rng
        v = [0] * n
        if self.near is not None and min([number(self.near.get('%s.%d' % (name, i))) for i in range(n)]) and r.random() < max(0.8, self.keep):
            v = [self.near['%s.%d' % (name, i)] for i in range(n)]
            if r.random() >= self.keep:
                i, j = r.randrange(n), r.randrange(n)
                if v[i] > 0:
                    v[i] -= 1
                    if r.random() < 0.9:
                        v[j] += 1
            if total is None or sum(v) <= total:
                for i in range(n):
                    self.inputs['%s.%d' % (name, i)] = v[i]
                return tuple(v)
            v = [0] * n
        mode = r.random()
        cap = 15 if total is None else total
        k = r.choice([0, 1, 2, 3, 5, 10, 15, 15])
        k = min(k, cap)
        top = n if mode < 0.5 or n < 25 else (6 if mode < 0.8 else 24)
        left = k
        while left > 0:
            c = min(left, r.choice([1, 1, 1, 2, 2, 3, 5]))
            v[r.randrange(top)] += c
            left -= c
        for i in range(n):
            self.inputs['%s.%d' % (name, i)] = v[i]
        return tuple(v)

    def char(self, name, lo=0, hi=127, likely=None):
        """likely: the only characters tried in the search"""
        special = [ord(c) for c in '<>&"\'*-/:;= \n0aZ' if lo <= ord(c) <= hi]

        def gen(r):
            if likely:
                return ord(r.choice(likely))
            if special and r.random() < 0.6:
                return r.choice(special)
            return r.randint(lo, hi)
        return chr(self._get(name, gen, lambda v: number(v) and lo <= v <= hi))

    def chars(self, name, n, lo=0, hi=127):
        return ''.join([self.char('%s.%d' % (name, i), lo, hi) for i in range(n)])

    def digits(self, v):
        return str(v)

    def ord(self, s):
        return ord(s)

    def chr(self, n):
        return chr(n)

    def join(self, sep, parts):
        return sep.join(parts)

    def word(self, name, sample='abc', without=''):
        return sample

    def text(self, name):
        if self.given is not None:
            c = self.given.get(name + '.c')
            return 'a%sb' % chr(c) if c is not None else ''.join([chr(x) for x in self.given.get(name) or [97, 60, 98]])
        if self.again(name, lambda v: isinstance(v, list)):
            self.inputs[name] = self.near[name]
            return ''.join([chr(x) for x in self.near[name]])
        n = self.rng.choice([0, 1, 2, 5, 20, 60])
        t = ''.join([self.rng.choice('<>&"?;#ab %s' + chr(39) + chr(10) + chr(92)) if self.rng.random() < 0.7 else
                     chr(self.rng.randint(1, 255)) for i in range(n)])
        self.inputs[name] = [ord(x) for x in t]
        return t

    def filled(self, got, parts):
        return got == ''.join([''.join([p[1](self, c) for c in p[0]]) if isinstance(p, tuple) else p for p in parts])

    def isnumeral(self, t):
        try:
            int(t)
        except ValueError:
            return False
        return True

    def close(self, a, b):
        return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))

    def le(self, a, b):
        return a <= b or self.close(a, b)

    def lt(self, a, b):
        return self.le(a, b)

    def power(self, a, n):
        return a ** n

    def length(self, t):
        return len(t)

    def token(self, name):
        return self.obj(name)

    # ---- logic
    def And(self, *xs):
        if len(xs) == 1 and isinstance(xs[0], (list, tuple)):
            xs = xs[0]
        return all([bool(x) for x in xs])

    def Or(self, *xs):
        if len(xs) == 1 and isinstance(xs[0], (list, tuple)):
            xs = xs[0]
        return any([bool(x) for x in xs])

    def Not(self, x):
        return not x

    def Implies(self, a, b):
        return (not a) or bool(b)

    def Iff(self, a, b):
        return bool(a) == bool(b)

    def Ite(self, c, a, b):
        return a if c else b

    def eq(self, a, b):
        return a == b

    def sum(self, xs):
        r = 0
        for x in xs:
            r = r + x
        return r

    def truth(self, v):
        return bool(v)

    def isnone(self, v):
        return v is None

    def isbool(self, v):
        return isinstance(v, bool)

    def istrue(self, v):
        return v is True

    def clsname(self, v):
        return v.__class__.__name__

    def isinst(self, v, c):
        return isinstance(v, c)

    def same(self, a, b):
        return a is b

    def split(self, c):
        return bool(c)

    def at(self, seq, i):
        return seq[i]

    def upd(self, seq, i, f):
        return [f(x) if k == i else x for k, x in enumerate(seq)]

    def pow2(self, k):
        return 2 ** k

    # ---- the real code
    def mod(self, name):
        try:
            __import__(name)
        except ImportError:
            # a directory of the same name can hide a module from Jython
            import imp
            pack, _, last = name.rpartition('.')
            f = pack and os.path.join(os.path.dirname(os.path.abspath(self.mod(pack).__file__)), last + '.py')
            if name in sys.modules or not f or not os.path.exists(f) or not os.path.isdir(f[:-3]):
                raise
            setattr(sys.modules[pack], last, imp.load_source(name, f))
        return sys.modules[name]

    def do(self, thunk):
        try:
            return Outcome(thunk(), None)
        except Discard:
            raise
        except:
            # bare: also catches Java exceptions raised inside the runtime
            t, e, tb = sys.exc_info()
            self.last_tb = traceback.format_exc()
            return Outcome(None, t.__name__, e)

    def call(self, fn, *a, **k):
        return self.do(lambda: fn(*a, **k))

    callm = call

    def exc_is(self, out, *names):
        if out.ok:
            return False
        return any([c.__name__ in names for c in out.err.__class__.__mro__])

    def get(self, o, name):
        return getattr(o, name)

    def set(self, o, name, v):
        setattr(o, name, v)

    def delete(self, o, name):
        delattr(o, name)

    def item(self, o, i):
        return o[i]

    def hasattr(self, o, name):
        return hasattr(o, name)

    def instdict(self, o):
        return o.__dict__

    def list(self, v):
        return list(v)

    def new(self, cls, *a, **k):
        return cls(*a, **k)

    def obj(self, name, methods=None, attrs=None):
        d = {}
        for k, f in (methods or {}).items():
            d[k] = unself(f)
        o = type(name, (object,), d)()
        for k, v in (attrs or {}).items():
            setattr(o, k, v)
        return o

    def subclass(self, base, name, methods=None, d=None):
        dd = dict(d or {})
        for k, f in (methods or {}).items():
            dd[k] = unself(f)
        return type(base)(name, (base,), dd)

    def fn(self, f):
        return f

    def throw(self, cname, *args):
        import exceptions
        raise getattr(exceptions, cname)(*args)

    def lst(self, xs):
        return list(xs)

    def control_random(self, prefix='draw'):
        st = [0]

        def bind(name):
            return lambda *a: draw(self, st, prefix, name, a)
        for n in DRAWS:
            if n not in ORIGINAL:
                ORIGINAL[n] = getattr(random, n)
            setattr(random, n, bind(n))

    def abstract_base64(self):
        pass

    def contract(self, qual, apply_, skip=0):
        return None

    def use(self, *contracts):
        pass

    def assumption(self, text):
        pass

    def bounded(self, text):
        pass

    def assume(self, c):
        if not c:
            raise Discard()

    def each(self, seq, fn):
        for x in seq:
            fn(x)

    def check(self, label, cond, known=None):
        if cond:
            self.passed[label] = self.passed.get(label, 0) + 1
        elif known is not None and known[0] in self.active_known and known[1]:
            self.knownhits.append(known[0])
        else:
            self.failed.append(label)


def unself(f):
    def m(self, *a, **k):
        return f(*a, **k)
    return m


DRAWS = ('random', 'shuffle', 'randint', 'choice', 'randrange', 'seed', 'sample', 'uniform')
ORIGINAL = {}


def draw(h, st, prefix, name, a):
    """one call of random.<name>(*a): st counts the calls"""
    st[0] += 1
    p = '%s%d' % (prefix, st[0])
    if name == 'random':
        r = h.real(p, 0, 1)
        h.assume(r < 1)
        return r
    if name == 'uniform':
        r = h.real(p, 0, 1)
        return a[0] + (a[1] - a[0]) * r
    if name == 'seed':
        return None
    if name == 'randint':
        return h.int(p, a[0], a[1])
    if name == 'randrange':
        lo, hi = (0, a[0]) if len(a) == 1 else (a[0], a[1])
        return h.int(p, lo, hi - 1)
    xs = h.list(a[0])
    if name == 'choice':
        return xs[h.pick(h.int(p, 0, len(xs) - 1))]
    if name in ('shuffle', 'sample'):
        n = len(xs) if name == 'shuffle' else a[1]
        out = []
        for i in range(n):
            out.append(xs.pop(h.pick(h.int('%s.%d' % (p, i), 0, len(xs) - 1))))
        if name == 'sample':
            return h.lst(out)
        a[0][:] = out
        return None
    raise NotImplementedError(name)


def native(v):
    if isinstance(v, list):
        return [native(x) for x in v]
    return str(v) if isinstance(v, type(u'')) else v


CURRENT = []            # the run under way: harness object, parameters
LIMIT = 45              # seconds after which a single run counts as one that does not end


def watchdog(out, emit):
    """ends the process when one run does not end, after telling which"""
    from java.lang import Thread, Runtime
    seen, ticks = None, 0
    while True:
        Thread.sleep(1000)
        now = CURRENT[:]
        if not now or now[0] is not seen:
            seen, ticks = now[0] if now else None, 0
            continue
        ticks += 1              # counted, not timed: the whole machine may have been asleep
        if ticks > LIMIT:
            h = now[0]
            t = out[0]
            emit({'status': 'hang', 'error': 'no answer within %d s' % LIMIT, 'failed': [], 'passed': [], 'known': [],
                  'hang': {'harness': t['harness'], 'params': now[1] if t['mode'] == 'random' else t.get('params') or {},
                           'inputs': h.inputs}, 'lost': True,
                  'runs': 0, 'discard': 0, 'errors': 0, 'evals': 0, 'fail': None, 'distinct': 0})
            Runtime.getRuntime().halt(3)


def run_one(fn, params, inputs, rng, known, near=None):
    h = ConcreteH(inputs, rng, known, near)
    status, err = 'ok', None
    CURRENT[:] = [h, params]
    try:
        fn(h, **params)
    except Discard:
        status = 'discard'
    except:
        status, err = 'error', traceback.format_exc()[-1500:]
        t, e, tb = sys.exc_info()
        while tb.tb_next is not None:
            tb = tb.tb_next
        inrepo = os.sep + 'bglib' + os.sep in tb.tb_frame.f_code.co_filename
        if inrepo or t not in (AttributeError, ImportError):
            h.failed.append('uncaught')
            h.last_tb = err
    for n, f in ORIGINAL.items():
        setattr(random, n, f)
    return h, status, err


def main():
    with open(sys.argv[1]) as f:
        req = json.load(f)
    real = sys.stdout
    sys.stdout = Null()
    if req.get('stubs'):
        sys.path.insert(0, os.path.join(HERE, 'jystubs'))
    f = open(sys.argv[2], 'w')

    def emit(x):
        f.write(json.dumps(x) + '\n')
        f.flush()
        del CURRENT[:]
    at = [None]
    import threading
    w = threading.Thread(target=watchdog, args=(at, emit))
    w.setDaemon(True)
    w.start()
    try:
        spec = __import__('specs.' + req['spec'], None, None, ['HARNESSES'])
        known = set(req.get('known', []))
        past = []                 # the runs this process has made, latest last
        for t in req['tasks']:
            fn = spec.HARNESSES[t['harness']]
            at[0] = t
            params = dict([(str(k), native(v)) for k, v in (t.get('params') or {}).items()])
            if t['mode'] == 'replay':
                for n, p, i in t.get('history') or []:
                    run_one(spec.HARNESSES[n], dict([(str(k), native(v)) for k, v in p.items()]), i, None, known)
                h, status, err = run_one(fn, params, t['inputs'], None, known)
                emit({'status': status, 'error': err, 'failed': h.failed, 'passed': sorted(h.passed),
                            'known': h.knownhits, 'tb': getattr(h, 'last_tb', None) if h.failed else None,
                            'history': past[-60:] if h.failed else None})
                past.append((t['harness'], t.get('params') or {}, t['inputs']))
            else:
                rng = random.Random(t['seed'])
                res = {'runs': 0, 'discard': 0, 'errors': 0, 'evals': 0, 'fail': None, 'error': None, 'known': {}}
                end = time.time() + t.get('seconds', 10)
                sigs = set()
                near = None
                while res['runs'] < t['n'] and time.time() < end:
                    res['runs'] += 1
                    # now and then the same inputs with other parameters of the harness, in between
                    ps, pj = params, t.get('params') or {}
                    if t.get('siblings') and near is not None and rng.random() < 0.25:
                        pj = rng.choice(t['siblings'])
                        ps = dict([(str(k), native(v)) for k, v in pj.items()])
                    h, status, err = run_one(fn, ps, None, rng, known, near if rng.random() < 0.6 else None)
                    for k in h.knownhits:
                        res['known'].setdefault(k, h.inputs)
                    if status == 'discard':
                        res['discard'] += 1
                        continue
                    if status == 'error':
                        res['errors'] += 1
                        res['error'] = err
                        if not h.failed:
                            continue
                    res['evals'] += sum(h.passed.values())
                    if len(sigs) < 100000:
                        sigs.add(hash(json.dumps(h.inputs, sort_keys=True)))
                    if h.failed and res['fail'] is None:
                        res['fail'] = {'label': h.failed[0], 'inputs': h.inputs, 'params': pj,
                                       'tb': getattr(h, 'last_tb', None), 'history': past[-60:]}
                        break
                    near = h.inputs
                    past.append((t['harness'], pj, h.inputs))
                    del past[:-60]
                res['distinct'] = len(sigs)
                emit(res)
    finally:
        sys.stdout = real
        f.close()


if __name__ == '__main__':
    main()
