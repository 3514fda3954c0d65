"""Symbolic evaluator for the Python 2 subset bglib is written in.

Concrete values are native Python values; symbolic leaves are sym.SInt/SBool/SReal/objs.SStr.
A construct outside the subset raises Unsupported (the obligation becomes undecided, never a violation)."""
import os, sys
from .sym import *
from .objs import *
from . import astload

sys.setrecursionlimit(20000)
MISSING = object()


def fast_stub(m, path):
    """run the functions of a stand-in module directly when their arguments are known numbers or lists of them"""
    d = {}
    with open(path) as f:
        exec(compile(f.read(), path, 'exec'), d)

    def known(v):
        return type(v) is int or type(v) in (list, tuple) and all(type(x) is int for x in v)

    def wrap(name, py, slow):
        def f(I, a, k):
            if k or not all(known(x) for x in a):
                return I.call(slow, a, k)
            try:
                r = py(*a)
            except AssertionError:
                I.throw('AssertionError')
            return I.engine.fresh_container(r) if type(r) is list else r
        return Native(name, f)
    for n, v in list(m.d.items()):
        if type(v) is PFunc:
            m.d[n] = wrap(n, d[n], v)


POISON = type('Poison', (), {'__repr__': lambda self: '<carried round a loop>'})()


class LoopIteration(object):
    """one arbitrary iteration of a loop over a sequence of any length"""
    def __init__(self, waiting, I, L, f, names, i, elem, src):
        self.waiting = dict((id(g.locals), ns) for g, ns in waiting)
        self.src = src
        self.I, self.L, self.f, self.names, self.i, self.elem, self.way = I, L, f, names, i, elem, L.way

    def __enter__(self):
        e = self.I.engine
        self.log, self.fresh = {}, set()
        e.logs.append(self.log)
        e.fresh_ids.append(self.fresh)

    def __exit__(self, *a):
        e = self.I.engine
        e.logs.remove(self.log) if False else e.logs.pop()
        e.fresh_ids.pop()
        for k, v in self.log.items():
            if k not in e.logs[-1] and k not in e.fresh_ids[-1]:
                e.logs[-1][k] = v
        e.fresh_ids[-1].update(self.fresh)

    def end(self):
        """the iteration ends normally: only what the contract covers may have changed, and it holds again"""
        I, L = self.I, self.L
        may, keys = set(), {}
        for c in L.modifies(I.h):
            if isinstance(c, tuple):
                # these attributes of an object, wherever it keeps them
                for d in [c[0].d] + [x for x in c[0].d.values() if isinstance(x, dict)]:
                    keys[id(d)] = c[1:]
            else:
                may.add(id(c.d if isinstance(c, PInst) else c))
        for k, (c, old) in self.log.items():
            if k in self.fresh or k in may:
                continue
            now = snapshot(c)
            if c is self.f.locals or k in self.waiting:
                ns = self.names if c is self.f.locals else self.waiting[k]
                bad = [x for x in set(now) | set(old) if x not in ns and now.get(x, POISON) is not old.get(x, POISON)]
            elif isinstance(now, dict):
                bad = [x for x in set(now) | set(old) if (x not in now or x not in old or now[x] is not old[x]) and x not in keys.get(k, ())]
            elif isinstance(now, tuple) and type(c) is AbsSeq:
                bad = any(x is not y for x, y in zip(now, old))
            elif isinstance(now, list):
                bad = len(now) != len(old) or any(x is not y for x, y in zip(now, old))
            else:
                bad = True
            if bad:
                raise Unsupported('a loop changes %r, which its contract does not cover' % (c,))
        loc = {k: v for k, v in self.f.locals.items() if k in self.names and v is not POISON}
        if id(self.src) in self.log and any(x is not y for x, y in zip(snapshot(self.src), self.log[id(self.src)][1])):
            raise Unsupported('a sequence of any length is changed by the loop that goes through it')
        L.way = self.way
        for lab, c in L.holds(I.h, None if self.i is None else self.i + 1, loc):
            I.h.check('loop invariant kept: ' + lab, c)
        raise Infeasible()


class Frame(object):
    __slots__ = ('locals', 'globals', 'func', 'parent', 'localset', 'isclass', 'exc', 'merge_ok')

    def __init__(self, locals_, globals_, func=None, parent=None, localset=None, isclass=False):
        self.locals = locals_
        self.globals = globals_
        self.func = func
        self.parent = parent
        self.localset = localset
        self.isclass = isclass
        self.exc = None


def assigned_names(body, params):
    """names bound in a function body (its local variables)"""
    names, globs = set(params), set()

    def tgt(n):
        if n.t == 'Name':
            names.add(n.id)
        elif n.t in ('Tuple', 'List'):
            for x in n.elts:
                tgt(x)

    def expr(n):
        # list comprehensions leak their targets in Python 2
        if isinstance(n, list):
            for x in n:
                expr(x)
        elif isinstance(n, astload.Node):
            if n.t in ('Lambda', 'GeneratorExp', 'FunctionDef', 'ClassDef'):
                return
            if n.t == 'ListComp':
                for g in n.generators:
                    tgt(g.target)
            for k, v in n.__dict__.items():
                if isinstance(v, (list, astload.Node)):
                    expr(v)

    def st(n):
        t = n.t
        if t in ('FunctionDef', 'ClassDef'):
            names.add(n.name)
            return
        if t == 'Global':
            globs.update(n.names)
        elif t == 'Assign':
            for x in n.targets:
                tgt(x)
        elif t == 'AugAssign':
            tgt(n.target)
        elif t == 'For':
            tgt(n.target)
        elif t in ('Import', 'ImportFrom'):
            for a in n.names:
                if a.name != '*':
                    names.add(a.asname or a.name.split('.')[0])
        elif t == 'With':
            if n.optional_vars:
                tgt(n.optional_vars)
        elif t == 'ExceptHandler':
            if n.name is not None and isinstance(n.name, astload.Node):
                tgt(n.name)
            elif isinstance(n.name, str):
                names.add(n.name)
        elif t == 'Delete':
            for x in n.targets:
                tgt(x)
        for k in ('body', 'orelse', 'finalbody', 'handlers'):
            v = getattr(n, k, None)
            if isinstance(v, list):
                for x in v:
                    st(x)
        for k, v in n.__dict__.items():
            if k not in ('body', 'orelse', 'finalbody', 'handlers') and isinstance(v, (list, astload.Node)):
                expr(v)
    for s in body:
        st(s)
    return names - globs


def has_yield(n):
    if isinstance(n, list):
        return any(has_yield(x) for x in n)
    if isinstance(n, astload.Node):
        if n.t == 'Yield':
            return True
        if n.t in ('FunctionDef', 'Lambda', 'ClassDef', 'GeneratorExp'):
            return False
        c = n.__dict__.get('_hy')
        if c is None:
            c = any(has_yield(v) for k, v in n.__dict__.items() if isinstance(v, (list, astload.Node)))
            n._hy = c
        return c
    return False


def ret_value(r):
    return r[1]


def same_value(r):
    return r


def immutable(v):
    return v is None or isinstance(v, (bool, int, float, str, Sym)) or \
        (type(v) is tuple and all(immutable(x) for x in v))


STUBROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'jystubs')
STUBPKGS = ('tonic',)


class Interp(object):
    def __init__(self, engine, repo=None):
        self.engine = engine
        self.symkeys = False        # some dictionary has a symbolic key
        INTERP[0] = self
        self.h = None
        self.gen_loops = []
        self.repo = repo or astload.REPO
        self.modules = {}
        self.contracts = {}        # qualname -> Contract
        self.verifying = None
        self.stubs = {}
        self.merge = True
        self.depth = 0
        self.merge_depth = 1
        self.funcs_entered = set()
        self.contracts_used = set()
        self.on_obligation = None
        self.stdout_effects = 0
        from . import builtins_ as B
        self.B = B
        self.builtins = B.make(self)
        self.exc = B.EXC
        self.natmods = B.natmods(self)
        self.asts = {}
        self.ex_handlers = {
            'Num': lambda n, f: n.n, 'Str': lambda n, f: n.s, 'Name': self.x_Name,
            'Attribute': lambda n, f: self.getattr_(self.ev(n.value, f), n.attr),
            'Tuple': lambda n, f: tuple([self.ev(x, f) for x in n.elts]),
            'List': lambda n, f: self.engine.fresh_container([self.ev(x, f) for x in n.elts]),
            'Dict': self.x_Dict, 'Call': self.x_Call, 'BinOp': self.x_BinOp, 'UnaryOp': self.x_UnaryOp,
            'BoolOp': self.x_BoolOp, 'Compare': self.x_Compare, 'Subscript': self.x_Subscript,
            'IfExp': self.x_IfExp, 'Lambda': self.x_Lambda, 'ListComp': self.x_ListComp,
            'GeneratorExp': self.x_GenExp, 'Repr': lambda n, f: self.repr_(self.ev(n.value, f)),
            'Set': self.x_Set, 'SetComp': self.x_SetComp, 'DictComp': self.x_DictComp,
        }
        self.st_handlers = {k[2:]: getattr(self, k) for k in dir(self) if k.startswith('s_')}

    # ------------------------------------------------------------------ errors
    def throw(self, cname, *args):
        cls = self.exc[cname]
        raise PyExc(PInst(cls, {'args': tuple(args), 'message': args[0] if args else ''}), self.where())

    def where(self):
        return getattr(self, 'cur', None)

    def native_exc(self, e):
        """convert a Python exception of a native operation"""
        n = e.__class__.__name__
        m = {'error': 'ReError', 'PatternError': 'ReError', 'ModuleNotFoundError': 'ImportError',
             'RecursionError': 'RuntimeError', 'UnicodeDecodeError': 'UnicodeDecodeError', 'Error': 'ValueError',
             'FileNotFoundError': 'IOError', 'PermissionError': 'IOError', 'OSError': 'IOError'}
        n = m.get(n, n)
        if n not in self.exc:
            raise Unsupported('native exception %r' % e)
        self.throw(n, *[str(a) if not isinstance(a, (str, int)) else a for a in e.args])

    # ------------------------------------------------------------------ modules
    def path_of(self, name):
        base = os.path.join(STUBROOT if name.split('.')[0] in STUBPKGS else self.repo, *name.split('.'))
        if os.path.isfile(os.path.join(base, '__init__.py')):
            return os.path.join(base, '__init__.py'), True
        if os.path.isfile(base + '.py'):
            return base + '.py', False
        return None, False

    def preload(self, files):
        self.asts.update(astload.load([f for f in files if f not in self.asts]))

    def import_module(self, name):
        """import dotted absolute name; returns the leaf module"""
        if name in self.stubs:
            return self.stubs[name]
        if name in self.modules:
            return self.modules[name]
        if name in self.natmods:
            return self.natmods[name]
        if '.' in name:
            parent = self.import_module(name.rsplit('.', 1)[0])
        else:
            parent = None
        path, ispkg = self.path_of(name)
        if path is None or name.split('.')[0] != 'bglib' and not path.startswith(STUBROOT):
            self.throw('ImportError', 'No module named ' + name)
        if path not in self.asts:
            d = os.path.dirname(path)
            self.preload([os.path.join(d, x) for x in sorted(os.listdir(d))
                          if x.endswith('.py') and not x.endswith('_test.py')] if False else [path])
        tree = self.asts[path]
        if isinstance(tree, tuple):
            self.throw('SyntaxError', tree[1])
        m = PModule(name)
        m.d['__file__'] = path
        m.ispkg = ispkg
        m.d['__builtins__'] = None
        self.modules[name] = m
        try:
            self.exec_block(tree.body, Frame(m.d, m.d))
        except PyExc:
            del self.modules[name]
            raise
        if m.d.get('FAST') and path.startswith(STUBROOT):
            fast_stub(m, path)
        if parent is not None:
            self.engine.touch(parent.d)
            parent.d[name.rsplit('.', 1)[1]] = m
        return m

    def resolve_import(self, name, frame, level):
        """py2 implicit relative import: try sibling first"""
        cur = frame.globals.get('__name__')
        mod = self.modules.get(cur)
        if mod is not None and level in (0, -1, None):
            pkg = cur if mod.ispkg else cur.rpartition('.')[0]
            if pkg:
                cand = pkg + '.' + name
                head = pkg + '.' + name.split('.')[0]
                if head in self.modules or head in self.stubs or self.path_of(head)[0]:
                    if cand in self.modules or cand in self.stubs or self.path_of(cand)[0]:
                        return cand
        if level and level > 0:
            pkg = cur if mod.ispkg else cur.rpartition('.')[0]
            for _ in range(level - 1):
                pkg = pkg.rpartition('.')[0]
            return pkg + ('.' + name if name else '')
        return name

    def s_Import(self, n, f):
        for a in n.names:
            full = self.resolve_import(a.name, f, 0)
            m = self.import_module(full)
            if a.asname:
                self.setname(f, a.asname, m)
            else:
                top = a.name.split('.')[0]
                tfull = full[:len(full) - len(a.name)] + top
                self.setname(f, top, self.import_module(tfull))

    def s_ImportFrom(self, n, f):
        full = self.resolve_import(n.module or '', f, n.level)
        m = self.import_module(full)
        for a in n.names:
            if a.name == '*':
                d = m.d
                names = d.get('__all__')
                if names is None:
                    names = [k for k in d if not k.startswith('_')]
                for k in names:
                    self.setname(f, k, self.getattr_(m, k))
            else:
                if isinstance(m, PModule) and a.name not in m.d:
                    sub = full + '.' + a.name
                    if self.path_of(sub)[0] or sub in self.stubs:
                        v = self.import_module(sub)
                    else:
                        self.throw('ImportError', 'cannot import name ' + a.name)
                else:
                    try:
                        v = self.getattr_(m, a.name)
                    except PyExc:
                        self.throw('ImportError', 'cannot import name ' + a.name)
                self.setname(f, a.asname or a.name, v)

    # ------------------------------------------------------------------ names
    def setname(self, f, name, v):
        if f.localset is not None and name not in f.localset:
            self.engine.touch(f.globals)
            f.globals[name] = v
        else:
            self.engine.touch(f.locals)
            f.locals[name] = v

    def x_Name(self, n, f):
        name = n.id
        loc = f.locals
        if name in loc and (f.localset is None or name in f.localset):
            v = loc[name]
            if type(v) is Guarded:
                v = self.resolve_guarded(loc, name, v)
            elif v is POISON:
                raise Unsupported('local %s is carried round a loop without a contract for it' % name)
            return v
        if f.localset is not None and name in f.localset:
            self.throw('UnboundLocalError', "local variable '%s' referenced before assignment" % name)
        p = f.parent
        while p is not None:
            if not p.isclass and name in p.locals:
                v = p.locals[name]
                if type(v) is Guarded:
                    v = self.resolve_guarded(p.locals, name, v)
                elif v is POISON:
                    raise Unsupported('local %s is carried round a loop without a contract for it' % name)
                return v
            p = p.parent
        g = f.globals
        if name in g:
            return g[name]
        b = self.builtins
        if name in b:
            return b[name]
        self.throw('NameError', "name '%s' is not defined" % name)

    def resolve_guarded(self, d, name, v):
        while type(v) is Guarded:
            for c, x in v.alts[:-1]:
                if self.engine.branch(c):
                    break
            else:
                x = v.alts[-1][1]
            v = x
        self.engine.touch(d)
        if x is MISSING:
            del d[name]
            self.throw('UnboundLocalError', name)
        d[name] = x
        return x

    # ------------------------------------------------------------------ expressions
    def ev(self, n, f):
        return self.ex_handlers[n.t](n, f)

    def x_Dict(self, n, f):
        d = {}
        for k, v in zip(n.keys, n.values):
            kk = self.ev(k, f)
            d[self.key(kk)] = self.ev(v, f)
        return self.engine.fresh_container(d)

    def x_Set(self, n, f):
        return self.engine.fresh_container(set(self.key(self.ev(x, f)) for x in n.elts))

    def slot(self, d, k, new=True):
        """the key that stands for k in the dictionary or set d: one there that equals it (by case split), or a new one;
        False for the latter if not new"""
        if not self.symkeys and not symbolic(k):
            return self.key(k)
        if not symbolic(k):
            k = self.key(k)
            if k in d:
                return k
            there = [x for x in d if type(x) is SymKey]
        else:
            there = list(d)
        for x in there:
            v = x.value if type(x) is SymKey else x
            if v is k:
                return x
            c = self.truth_expr(self.eq(k, v))
            if c is True or c is not False and self.truth(c):
                return x
        if not new:
            return False
        if not symbolic(k):
            return k
        self.symkeys = True
        return SymKey(k)

    def key(self, k):
        """a usable native dict key"""
        if isinstance(k, (SInt, SBool)):
            return int(k)
        if isinstance(k, SStr):
            raise Unsupported('symbolic string as key')
        if isinstance(k, tuple):
            return tuple(self.key(x) for x in k)
        if isinstance(k, (list, dict, set)) or type(k) in (AbsSeq, AbsMap):
            self.throw('TypeError', 'unhashable type')
        if isinstance(k, PInst):
            h, c = k.cls.lookup('__hash__')
            if h is not None and not isinstance(h, Native):
                r = self.call(self.getattr_(k, '__hash__'), [], {})
                if not intlike(r):
                    self.throw('TypeError', '__hash__ must return an integer')
                raise Unsupported('user-defined hash')
        return k

    def bykey(self, d, k):
        """k has to be compared with the keys of d one by one"""
        if isinstance(k, (tuple, SReal)):
            return symbolic(k) or self.symkeys and any([type(x) is SymKey for x in d])
        return self.symkeys and any([type(x) is SymKey for x in d])

    def keys_of(self, d):
        return [x.value if type(x) is SymKey else x for x in d] if self.symkeys else list(d)

    def x_IfExp(self, n, f):
        c = self.ev(n.test, f)
        cb = self.truth_expr(c)
        if isinstance(cb, bool):
            return self.ev(n.body if cb else n.orelse, f)
        v = self.try_ite(cb, n.body, n.orelse, f)
        if v is not MISSING:
            return v
        return self.ev(n.body if self.engine.branch(cb.e) else n.orelse, f)

    def simple(self, n):
        """expression that cannot raise, fork or have effects when its operands are scalars"""
        r = n.__dict__.get('_simple')
        if r is None:
            t = n.t
            if t in ('Num', 'Str', 'Name'):
                r = True
            elif t == 'UnaryOp':
                r = self.simple(n.operand)
            elif t == 'BinOp':
                r = n.op.t in ('Add', 'Sub', 'Mult') and self.simple(n.left) and self.simple(n.right)
            elif t == 'Compare':
                r = all(o.t in ('Lt', 'LtE', 'Gt', 'GtE', 'Eq', 'NotEq', 'Is', 'IsNot') for o in n.ops) and \
                    self.simple(n.left) and all(self.simple(x) for x in n.comparators)
            elif t == 'BoolOp':
                r = all(self.simple(x) for x in n.values)
            elif t == 'IfExp':
                r = self.simple(n.test) and self.simple(n.body) and self.simple(n.orelse)
            elif t == 'Tuple':
                r = all(self.simple(x) for x in n.elts)
            elif t == 'Attribute':
                r = self.simple(n.value)
            else:
                r = False
            n._simple = r
        return r

    def pure_eval(self, n, f):
        """evaluate n only if it provably does not raise or fork here; else MISSING"""
        if not self.simple(n):
            return MISSING
        if n.t == 'Name':
            loc = f.locals
            if n.id in loc:
                v = loc[n.id]
                return MISSING if type(v) is Guarded else v
            if f.localset is not None and n.id in f.localset:
                return MISSING
            try:
                return self.x_Name(n, f)
            except PyExc:
                return MISSING
        if n.t == 'Attribute':
            v = self.pure_eval(n.value, f)
            if isinstance(v, (PModule, PClass)) or (isinstance(v, PInst) and n.attr in v.d
                                                    and not isinstance(v.cls.lookup(n.attr)[0], PProp)):
                try:
                    return self.getattr_(v, n.attr)
                except PyExc:
                    return MISSING
            return MISSING
        if n.t in ('Num', 'Str'):
            return self.ev(n, f)
        if n.t == 'UnaryOp':
            v = self.pure_eval(n.operand, f)
            if v is MISSING or not (is_num(v)):
                return MISSING
            return self.unary(n.op.t, v)
        if n.t == 'BinOp':
            a, b = self.pure_eval(n.left, f), self.pure_eval(n.right, f)
            if a is MISSING or b is MISSING or not is_num(a) or not is_num(b):
                return MISSING
            return self.binop(n.op.t, a, b)
        if n.t == 'Tuple':
            xs = [self.pure_eval(x, f) for x in n.elts]
            return MISSING if any(x is MISSING for x in xs) else tuple(xs)
        if n.t == 'Compare':
            l = self.pure_eval(n.left, f)
            if l is MISSING:
                return MISSING
            res = []
            for o, c in zip(n.ops, n.comparators):
                r = self.pure_eval(c, f)
                if r is MISSING:
                    return MISSING
                ok = (is_num(l) and is_num(r)) or o.t in ('Is', 'IsNot')
                if not ok and o.t in ('Eq', 'NotEq'):
                    ok = plain(l) and plain(r)
                if not ok:
                    return MISSING
                res.append(self.compare(o.t, l, r))
                l = r
            return And(res) if len(res) > 1 else res[0]
        if n.t in ('BoolOp', 'IfExp'):
            if n.t == 'IfExp':
                c = self.pure_eval(n.test, f)
                if c is MISSING:
                    return MISSING
                cb = self.truth_expr(c) if (is_num(c) or c is None) else MISSING
                if cb is MISSING:
                    return MISSING
                if isinstance(cb, bool):
                    return self.pure_eval(n.body if cb else n.orelse, f)
                return self.try_ite(cb, n.body, n.orelse, f)
            return self.boolop_pure(n.op.t, n.values, f)
        return MISSING

    def try_ite(self, cb, a, b, f):
        va = self.pure_eval(a, f)
        if va is MISSING:
            return MISSING
        vb = self.pure_eval(b, f)
        if vb is MISSING:
            return MISSING
        try:
            return ite_val(cb.e, va, vb)
        except CantMerge:
            return MISSING

    def boolop_pure(self, op, nodes, f):
        """a and b and ... without forking; MISSING if not possible"""
        v = self.pure_eval(nodes[0], f)
        if v is MISSING or len(nodes) == 1:
            return v
        return self.boolop_rest(op, v, nodes[1:], f)

    def boolop_rest(self, op, v, rest, f):
        if not (is_num(v) or v is None or isinstance(v, str)):
            return MISSING
        t = self.truth_expr(v)
        if isinstance(t, bool):
            if t == (op == 'Or'):
                return v
            return self.boolop_pure(op, rest, f)
        w = self.boolop_pure(op, rest, f)
        if w is MISSING:
            return MISSING
        try:
            if op == 'And':
                return ite_val(t.e, w, v)
            return ite_val(t.e, v, w)
        except CantMerge:
            return MISSING

    def x_BoolOp(self, n, f):
        op = n.op.t
        vals = n.values
        v = self.ev(vals[0], f)
        for i in range(1, len(vals)):
            t = self.truth_expr(v)
            if not isinstance(t, bool):
                r = self.boolop_rest(op, v, vals[i:], f)
                if r is not MISSING:
                    return r
                t = self.engine.branch(t.e)
                if is_num(v):
                    # the value is only needed if it decides the operator
                    if t == (op == 'Or'):
                        return v if t else (False if isinstance(v, SBool) else 0 if isinstance(v, SInt) else v)
                    v = self.ev(vals[i], f)
                    continue
            if t == (op == 'Or'):
                return v
            v = self.ev(vals[i], f)
        return v

    def x_UnaryOp(self, n, f):
        return self.unary(n.op.t, self.ev(n.operand, f))

    def unary(self, op, v):
        if op == 'Not':
            t = self.truth_expr(v)
            return (not t) if isinstance(t, bool) else mkbool(z3.Not(t.e))
        if is_num(v):
            if op == 'USub':
                return -v
            if op == 'UAdd':
                return +v
            if op == 'Invert':
                return -v - 1
        if isinstance(v, PInst):
            return self.call(self.getattr_(v, {'USub': '__neg__', 'UAdd': '__pos__', 'Invert': '__invert__'}[op]), [], {})
        self.throw('TypeError', 'bad operand type for unary')

    def x_BinOp(self, n, f):
        a = self.ev(n.left, f)
        b = self.ev(n.right, f)
        self.cur = n.l
        return self.binop(n.op.t, a, b)

    OPM = {'Add': ('__add__', '__radd__'), 'Sub': ('__sub__', '__rsub__'), 'Mult': ('__mul__', '__rmul__'),
           'Div': ('__div__', '__rdiv__'), 'FloorDiv': ('__floordiv__', '__rfloordiv__'),
           'Mod': ('__mod__', '__rmod__'), 'Pow': ('__pow__', '__rpow__'), 'LShift': ('__lshift__', '__rlshift__'),
           'RShift': ('__rshift__', '__rrshift__'), 'BitAnd': ('__and__', '__rand__'),
           'BitOr': ('__or__', '__ror__'), 'BitXor': ('__xor__', '__rxor__')}

    def binop(self, op, a, b):
        if (type(a) in (AbsSeq, AbsMap) or type(b) in (AbsSeq, AbsMap)) and not isinstance(a, (str, SStr)):
            kind = [x.kind if type(x) is AbsSeq else 'list' if isinstance(x, list) else 'tuple' if isinstance(x, tuple) else None for x in (a, b)]
            if op != 'Add' or kind[0] != kind[1] or kind[0] not in ('list', 'tuple'):
                raise Unsupported('binop %s on a sequence of any length' % op)
            return self.B.abs_concat(self, a, b)
        if isinstance(a, PInst) or isinstance(b, PInst):
            l, r = self.OPM[op]
            if isinstance(a, PInst) and a.cls.lookup(l)[0] is not None:
                return self.call(self.getattr_(a, l), [b], {})
            if isinstance(b, PInst) and b.cls.lookup(r)[0] is not None:
                return self.call(self.getattr_(b, r), [a], {})
            if not (op == 'Mod' and isinstance(a, (str, SStr))):
                self.throw('TypeError', 'unsupported operand type(s)')
        if op == 'Mod' and isinstance(a, (str, SStr)):
            return self.B.str_format(self, a, b)
        if isinstance(a, (str, SStr)) or isinstance(b, (str, SStr)):
            if op == 'Add':
                if not isinstance(a, (str, SStr)) or not isinstance(b, (str, SStr)):
                    self.throw('TypeError', 'cannot concatenate')
                if isinstance(a, str) and isinstance(b, str):
                    return a + b
                return SStr.make(SStr.of(a).parts + SStr.of(b).parts)
            if op == 'Mult':
                s, k = (a, b) if isinstance(a, (str, SStr)) else (b, a)
                if not intlike(k):
                    self.throw('TypeError', "can't multiply sequence by non-int")
                k = int(k)
                if isinstance(s, str):
                    return s * k
                return SStr.make(s.parts * max(0, k))
            self.throw('TypeError', 'unsupported operand type(s) for string')
        if is_num(a) and is_num(b):
            return self.arith(op, a, b)
        if op == 'Add':
            if isinstance(a, (list, tuple)) and type(a) is type(b):
                self.norm(a), self.norm(b)
                r = a + b
                return self.engine.fresh_container(r) if isinstance(r, list) else r
        if op == 'Mult':
            s, k = (a, b) if isinstance(a, (list, tuple)) else (b, a)
            if isinstance(s, (list, tuple)) and intlike(k):
                r = s * int(k)
                return self.engine.fresh_container(r) if isinstance(r, list) else r
        if isinstance(a, set) and isinstance(b, set):
            import operator
            return self.engine.fresh_container({'Sub': operator.sub, 'BitAnd': operator.and_, 'BitOr': operator.or_,
                                                'BitXor': operator.xor}[op](a, b))
        if a is None or b is None or isinstance(a, (list, tuple, dict)) or isinstance(b, (list, tuple, dict)):
            self.throw('TypeError', 'unsupported operand type(s) for %s' % op)
        raise Unsupported('binop %s on %r, %r' % (op, type(a), type(b)))

    rounding = False

    def arith(self, op, a, b):
        r = self.arith0(op, a, b)
        if self.rounding and isinstance(r, SReal) and op in ('Add', 'Sub', 'Mult', 'Div'):
            return self.real_round(self, r)
        return r

    def arith0(self, op, a, b):
        sym_ = isinstance(a, Sym) or isinstance(b, Sym)
        fl = isinstance(a, (float, SReal)) or isinstance(b, (float, SReal))
        try:
            if op == 'Add':
                return a + b
            if op == 'Sub':
                return a - b
            if op == 'Mult':
                return a * b
            if op == 'Div':
                if fl:
                    return self.engine.truediv(a, b) if sym_ else a / b
                return self.engine.floordiv(a, b) if sym_ else a // b
            if op == 'FloorDiv':
                return self.engine.floordiv(a, b) if sym_ else a // b
            if op == 'Mod':
                return self.engine.mod(a, b) if sym_ else a % b
            if op == 'Pow':
                return self.B.power(self, a, b)
            if not sym_ and not fl:
                if op == 'LShift':
                    return a << b
                if op == 'RShift':
                    return a >> b
                if op == 'BitAnd':
                    return a & b
                if op == 'BitOr':
                    return a | b
                if op == 'BitXor':
                    return a ^ b
            elif not fl:
                return self.B.bitop(self, op, a, b)
        except (ZeroDivisionError, OverflowError, ValueError) as e:
            self.native_exc(e)
        self.throw('TypeError', 'unsupported operand type(s) for %s' % op)

    def x_Compare(self, n, f):
        l = self.ev(n.left, f)
        self.cur = n.l
        if len(n.ops) == 1:
            return self.compare(n.ops[0].t, l, self.ev(n.comparators[0], f))
        acc = None
        for i, (o, c) in enumerate(zip(n.ops, n.comparators)):
            if acc is not None:
                t = self.truth_expr(acc)
                if isinstance(t, bool):
                    if not t:
                        return acc
                else:
                    r = self.pure_eval(c, f)
                    if r is not MISSING and is_num(l) and is_num(r):
                        acc = And(t, self.compare(o.t, l, r))
                        l = r
                        continue
                    if not self.engine.branch(t.e):
                        return False
                    acc = None
            r = self.ev(c, f)
            v = self.compare(o.t, l, r)
            acc = v if acc is None or acc is True else And(self.truth_expr(acc), self.truth_expr(v))
            l = r
        return acc

    def compare(self, op, a, b):
        if op == 'Is':
            return self.is_(a, b)
        if op == 'IsNot':
            r = self.is_(a, b)
            return Not(r)
        if op == 'Eq':
            return self.eq(a, b)
        if op == 'NotEq':
            return self.ne(a, b)
        if op == 'In':
            return self.contains(b, a)
        if op == 'NotIn':
            t = self.truth_expr(self.contains(b, a))
            return (not t) if isinstance(t, bool) else mkbool(z3.Not(t.e))
        sym = {'Lt': '<', 'LtE': '<=', 'Gt': '>', 'GtE': '>='}[op]
        return self.order(sym, a, b)

    def order(self, sym, a, b):
        if is_num(a) and is_num(b):
            if isinstance(a, Sym) or isinstance(b, Sym):
                return s_cmp(sym, a, b)
            return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[sym]
        if isinstance(a, PInst) or isinstance(b, PInst):
            nm = {'<': '__lt__', '<=': '__le__', '>': '__gt__', '>=': '__ge__'}[sym]
            if isinstance(a, PInst) and a.cls.lookup(nm)[0] is not None:
                return self.call(self.getattr_(a, nm), [b], {})
            if isinstance(a, PInst) and a.cls.lookup('__cmp__')[0] is not None:
                return self.order(sym, self.call(self.getattr_(a, '__cmp__'), [b], {}), 0)
            raise Unsupported('ordering of instances')
        if isinstance(a, str) and isinstance(b, str):
            return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[sym]
        if (a is None) != (b is None):
            lt = a is None        # None sorts before everything in Python 2
            return lt if sym in ('<', '<=') else not lt
        if isinstance(a, (SStr, str)) and isinstance(b, (SStr, str)):
            ua, ub = SStr.of(a).units(), SStr.of(b).units()
            if ua is not None and ub is not None and len(ua) == len(ub) == 1:
                return self.order(sym, code(ua[0]), code(ub[0]))
        if type(a) is type(b) and isinstance(a, (tuple, list)):
            strict = sym[0]
            for x, y in zip(a, b):
                if not self.truth(self.eq(x, y)):
                    return self.order(strict, x, y)
            return self.order(sym, len(a), len(b))
        raise Unsupported('ordering of %r and %r' % (type(a), type(b)))

    def is_(self, a, b):
        if a is b:
            return True
        if isinstance(a, Sym) or isinstance(b, Sym):
            if a is None or b is None:
                return False
            if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
                return self.eq(a, b)
            if isinstance(a, (bool, SBool)) != isinstance(b, (bool, SBool)):
                raise Unsupported('identity of symbolic int and bool')
            if is_num(a) and is_num(b):
                raise Unsupported('identity of symbolic numbers')
            return False
        if isinstance(a, (int, str)) and isinstance(b, (int, str)) and type(a) is type(b):
            if isinstance(a, int) and -128 <= a < 128:
                return a == b
            if isinstance(a, str) and a == b:
                return True
            return False
        return False

    def eq(self, a, b):
        if a is b and not isinstance(a, (float, PInst)):
            return True
        if is_num(a) and is_num(b):
            if isinstance(a, Sym) or isinstance(b, Sym):
                return s_cmp('==', a, b)
            return a == b
        if isinstance(a, SStr) or isinstance(b, SStr):
            if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
                return self.streq(a, b)
            return False
        if isinstance(a, PInst) or isinstance(b, PInst):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, PInst):
                    m, c = x.cls.lookup('__eq__')
                    if m is not None and not isinstance(m, Native):
                        return self.call(self.getattr_(x, '__eq__'), [y], {})
                    m, c = x.cls.lookup('__cmp__')
                    if m is not None:
                        return self.eq(self.call(self.getattr_(x, '__cmp__'), [y], {}), 0)
            return a is b
        if type(a) in (AbsSeq, AbsMap) or type(b) in (AbsSeq, AbsMap):
            if type(b) not in (AbsSeq, AbsMap):
                a, b = b, a
            if isinstance(a, (list, tuple)) and type(b) is AbsSeq:
                if b.kind != ('list' if isinstance(a, list) else 'tuple'):
                    return False
                if not a:
                    return s_cmp('==', b.n, 0)
            elif isinstance(a, dict) and type(b) is AbsMap and not a:
                return s_cmp('==', b.n, 0)
            elif a is None or is_num(a) or isinstance(a, (str, SStr)):
                return False
            raise Unsupported('comparison of a sequence of any length')
        if isinstance(a, (tuple, list)) and type(a) is type(b):
            self.norm(a), self.norm(b)
            if len(a) != len(b):
                return False
            rs = []
            for x, y in zip(a, b):
                r = self.truth_expr(self.eq(x, y))
                if r is False:
                    return False
                if r is not True:
                    rs.append(r)
            return And(rs) if rs else True
        if isinstance(a, dict) and isinstance(b, dict):
            if set(a) != set(b):
                return False
            return And([True] + [self.truth_expr(self.eq(a[k], b[k])) for k in a])
        if isinstance(a, Sym) or isinstance(b, Sym):
            return False
        if type(a) is not type(b) and not (isinstance(a, (int, float, str)) and isinstance(b, (int, float, str))):
            return False
        return a == b

    def ne(self, a, b):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, PInst):
                m, c = x.cls.lookup('__ne__')
                if m is not None and not isinstance(m, Native):
                    return self.call(self.getattr_(x, '__ne__'), [y], {})
                m, c = x.cls.lookup('__cmp__')
                if m is not None:
                    return self.ne(self.call(self.getattr_(x, '__cmp__'), [y], {}), 0)
                # Python 2: without __ne__, != is identity even if __eq__ exists
                return a is not b
        r = self.truth_expr(self.eq(a, b))
        return (not r) if isinstance(r, bool) else mkbool(z3.Not(r.e))

    def streq(self, a, b):
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        if not isinstance(a, (str, SStr)) or not isinstance(b, (str, SStr)):
            return False
        return self.B.streq(self, SStr.of(a), SStr.of(b))

    def contains(self, c, x):
        if isinstance(c, PInst):
            m, k = c.cls.lookup('__contains__')
            if m is not None:
                r = self.truth_expr(self.call(self.getattr_(c, '__contains__'), [x], {}))
                return r
            m, k = c.cls.lookup('__iter__')
            c = list(self.iterate(c))
        if isinstance(c, (str, SStr)):
            if not isinstance(x, (str, SStr)):
                self.throw('TypeError', "'in <string>' requires string as left operand")
            return self.B.str_contains(self, c, x)
        if type(c) is AbsMap:
            return self.truth_expr(c.has(x))
        if type(c) is AbsSeq:
            if c.find is None:
                raise Unsupported('membership in a sequence of any length')
            return c.find(x) is not None
        if isinstance(c, (dict, set)):
            if self.bykey(c, x):
                return self.slot(c, x, False) is not False
            if isinstance(x, (SInt, SBool)):
                ks = [k for k in c if is_num(k)]
                return Or([False] + [s_cmp('==', x, k) for k in ks])
            if isinstance(x, SStr):
                return Or([False] + [self.streq(x, k) for k in c if isinstance(k, (str, SStr))])
            return self.key(x) in c
        if isinstance(c, SRange):
            if c.step == 1 and intlike(x):
                return And(s_cmp('>=', x, c.lo), s_cmp('<', x, c.hi))
            c = list(c)
        if isinstance(c, (list, tuple, PGen)):
            if isinstance(c, list):
                self.norm(c)
            if isinstance(x, SInt) and len(c) > 2 and all(type(y) is int for y in c) and \
                    list(c) == list(range(c[0], c[0] + len(c))):
                return And(x >= c[0], x < c[0] + len(c))
            acc = []
            for y in c:
                r = self.truth_expr(self.eq(x, y)) if y is not x else True
                if r is True:
                    if not acc:
                        return True
                    acc.append(True)
                    break
                if r is not False:
                    acc.append(r)
            return Or(acc) if acc else False
        if c is None or is_num(c):
            self.throw('TypeError', 'argument is not iterable')
        try:
            return x in c
        except TypeError as e:
            self.native_exc(e)

    # ---- truth
    def truth_expr(self, v):
        """bool or SBool"""
        if isinstance(v, bool):
            return v
        if isinstance(v, SBool):
            return v
        if isinstance(v, SNum):
            return mkbool(be(v))
        if v is None:
            return False
        if isinstance(v, (int, float, str, tuple, dict, set)):
            return bool(v)
        if type(v) in (AbsSeq, AbsMap):
            return v.n > 0
        if isinstance(v, list):
            self.norm(v)
            return bool(v)
        if isinstance(v, SStr):
            if any(p[0] in ('lit', 'ch', 'num') for p in v.parts):
                return True
            return self.B.opq_nonempty(self, v)
        if isinstance(v, PInst):
            m, c = v.cls.lookup('__nonzero__')
            if m is not None:
                return self.truth_expr(self.call(self.getattr_(v, '__nonzero__'), [], {}))
            m, c = v.cls.lookup('__len__')
            if m is not None:
                return self.truth_expr(self.call(self.getattr_(v, '__len__'), [], {}))
            return True
        if isinstance(v, SRange):
            return self.truth_expr(s_cmp('<', v.lo, v.hi)) if v.step == 1 else bool(list(v))
        if isinstance(v, (PFunc, PBound, PClass, PModule, Native, NMethod, PUnbound, PGen, NatMod)):
            return True
        return bool(v)

    def truth(self, v):
        t = self.truth_expr(v)
        if isinstance(t, bool):
            return t
        return self.engine.branch(t.e)

    # ---- subscripts
    def x_Subscript(self, n, f):
        o = self.ev(n.value, f)
        s = n.slice
        if s.t == 'Index':
            i = self.ev(s.value, f)
            self.cur = n.l
            return self.getitem(o, i)
        if s.t == 'Slice':
            lo = self.ev(s.lower, f) if s.lower else None
            hi = self.ev(s.upper, f) if s.upper else None
            st = self.ev(s.step, f) if getattr(s, 'step', None) else None
            self.cur = n.l
            return self.getslice(o, lo, hi, st)
        raise Unsupported('slice ' + s.t)

    def place(self, o, i, what='index'):
        """the non-negative place in a sequence of any length"""
        if o.kind == 'iterator':
            raise Unsupported('element of an iterator')
        if not intlike(i):
            raise Unsupported('index of a sequence of any length')
        if self.engine.branch(z3.Or(ie(i) >= ie(o.n), ie(i) < -ie(o.n))):
            self.throw('IndexError', what + ' out of range')
        return i if self.engine.branch(ie(i) >= 0) else o.n + i

    def getslice(self, o, lo, hi, st):
        if type(o) is AbsSeq:
            if lo is None and hi is None and st in (None, 1):
                return self.B.abs_copy(self, o)
            if lo is None and hi is None and isinstance(st, int) and st == -1:
                return self.B.abs_reversed(self, o)
            if st not in (None, 1) or not all(x is None or intlike(x) for x in (lo, hi)) or o.kind == 'iterator':
                raise Unsupported('slice of a sequence of any length')
            return self.B.abs_slice(self, o, lo, hi)
        if isinstance(o, PInst):
            m, c = o.cls.lookup('__getslice__')
            if m is not None and st is None:
                return self.call(self.getattr_(o, '__getslice__'),
                                 [0 if lo is None else lo, 9223372036854775807 if hi is None else hi], {})
            return self.getitem(o, PSlice(lo, hi, st))
        if isinstance(o, SStr):
            return self.B.str_slice(self, o, lo, hi, st)
        if isinstance(o, (list, tuple, str)):
            if isinstance(o, list):
                self.norm(o)
            lo, hi, st = [None if x is None else int(x) if isinstance(x, (SInt, SBool)) else x for x in (lo, hi, st)]
            try:
                r = o[lo:hi:st]
            except (TypeError, ValueError) as e:
                self.native_exc(e)
            return self.engine.fresh_container(r) if isinstance(r, list) else r
        if o is None or is_num(o):
            self.throw('TypeError', 'object is unsubscriptable')
        raise Unsupported('slice of %r' % type(o))

    def getitem(self, o, i):
        if type(o) is AbsSeq:
            return o.elem(self.place(o, i))
        if type(o) is AbsMap:
            if not self.truth(o.has(i)):
                self.throw('KeyError', i)
            return o.get(i)
        if isinstance(o, PInst):
            m, c = o.cls.lookup('__getitem__')
            if m is None:
                self.throw('TypeError', 'object is unsubscriptable')
            return self.call(self.getattr_(o, '__getitem__'), [i], {})
        if isinstance(o, (list, tuple)):
            if isinstance(o, list):
                self.norm(o)
            if isinstance(i, (SInt, SBool)):
                return self.sym_index(o, i)
            if isinstance(i, int):
                if -len(o) <= i < len(o):
                    return o[i]
                self.throw('IndexError', 'index out of range: %d' % i)
            self.throw('TypeError', 'indices must be integers')
        if isinstance(o, dict):
            if self.bykey(o, i):
                k = self.slot(o, i, False)
                if k is False:
                    self.throw('KeyError', i)
                return o[k]
            if isinstance(i, (SInt, SBool)):
                return self.sym_dict_get(o, i)
            if isinstance(i, SStr):
                return self.symstr_dict_get(o, i)
            k = self.key(i)
            if k in o:
                return o[k]
            self.throw('KeyError', k)
        if isinstance(o, str):
            if isinstance(i, (SInt, SBool)):
                return self.sym_index([c for c in o], i)
            if isinstance(i, int):
                if -len(o) <= i < len(o):
                    return o[i]
                self.throw('IndexError', 'string index out of range')
            self.throw('TypeError', 'string indices must be integers')
        if isinstance(o, SStr):
            return self.B.str_index(self, o, i)
        if o is None or is_num(o):
            self.throw('TypeError', "object has no attribute '__getitem__'")
        if isinstance(o, SRange):
            return self.getitem(list(o), i)
        try:
            return o[i]
        except (TypeError, KeyError, IndexError) as e:
            self.native_exc(e)

    def sym_index(self, o, i):
        e = ie(i)
        n = len(o)
        if not self.engine.branch(z3.And(e >= -n, e < n)):
            self.throw('IndexError', 'index out of range (symbolic)')
        if n == 1:
            return o[0]
        nonneg = self.engine.branch(e >= 0)
        items = list(o) if nonneg else list(o)
        off = 0 if nonneg else -n
        try:
            r = items[n - 1]
            for k in range(n - 2, -1, -1):
                r = ite_val(e == k + off, items[k], r)
            return r
        except CantMerge:
            k = self.engine.concretize(e)
            return o[k]

    def sym_dict_get(self, d, i):
        e = ie(i)
        ks = [k for k in d if isinstance(k, int)]
        if not ks or not self.engine.branch(z3.Or([e == int(k) for k in ks])):
            self.throw('KeyError', i)
        try:
            r = d[ks[-1]]
            for k in ks[-2::-1]:
                r = ite_val(e == int(k), d[k], r)
            return r
        except CantMerge:
            for k in ks[:-1]:
                if self.engine.branch(e == int(k)):
                    return d[k]
            return d[ks[-1]]

    def symstr_dict_get(self, d, s):
        ks = [k for k in d if isinstance(k, str)]
        cond = [self.truth_expr(self.streq(s, k)) for k in ks]
        live = [(c, k) for c, k in zip(cond, ks) if c is not False]
        if not live or not self.truth(Or([c for c, k in live])):
            self.throw('KeyError', s)
        try:
            r = d[live[-1][1]]
            for c, k in live[-2::-1]:
                r = ite_val(be(c), d[k], r)
            return r
        except CantMerge:
            for c, k in live[:-1]:
                if self.truth(c):
                    return d[k]
            return d[live[-1][1]]

    def setitem(self, o, i, v):
        if type(o) is AbsSeq:
            i, old, o.find = self.place(o, i, 'list assignment index'), o.elem, None
            self.B.base_level(self, o)
            self.engine.touch(o)
            o.elem = lambda j: v if self.engine.branch(ie(j) == ie(i)) else old(j)
            return
        if type(o) is AbsMap:
            self.B.base_level(self)
            o.put(i, v)
            return
        if isinstance(o, PInst):
            self.call(self.getattr_(o, '__setitem__'), [i, v], {})
            return
        if isinstance(o, list):
            self.norm(o)
            self.engine.touch(o)
            if isinstance(i, PSlice):
                if i.st is not None:
                    raise Unsupported('extended slice assignment')
                lo, hi = [None if x is None else int(x) for x in (i.lo, i.hi)]
                o[lo:hi] = list(self.iterate(v))
                return
            if isinstance(i, (SInt, SBool)):
                e = ie(i)
                n = len(o)
                if not self.engine.branch(z3.And(e >= -n, e < n)):
                    self.throw('IndexError', 'list assignment index out of range')
                off = 0 if self.engine.branch(e >= 0) else -n
                try:
                    new = [ite_val(e == k + off, v, o[k]) for k in range(n)]
                    o[:] = new
                except CantMerge:
                    o[self.engine.concretize(e)] = v
                return
            if not isinstance(i, int):
                self.throw('TypeError', 'list indices must be integers')
            if -len(o) <= i < len(o):
                o[i] = v
                return
            self.throw('IndexError', 'list assignment index out of range')
        if isinstance(o, dict):
            self.engine.touch(o)
            if isinstance(i, (SInt, SBool)):
                e = ie(i)
                ks = [k for k in o if isinstance(k, int)]
                if ks and self.engine.branch(z3.Or([e == int(k) for k in ks])):
                    try:
                        new = {k: ite_val(e == int(k), v, o[k]) for k in ks}
                        o.update(new)
                        return
                    except CantMerge:
                        pass
                o[self.slot(o, i)] = v
                return
            o[self.slot(o, i)] = v
            return
        if isinstance(o, (tuple, str, SStr)) or o is None or is_num(o):
            self.throw('TypeError', 'object does not support item assignment')
        raise Unsupported('setitem on %r' % type(o))

    def delitem(self, o, i):
        if type(o) is AbsSeq:
            self.B.abs_del(self, o, self.place(o, i, 'list assignment index'))
            return
        if type(o) is AbsMap:
            if not self.truth(o.has(i)):
                self.throw('KeyError', i)
            self.B.base_level(self)
            o.drop(i)
            return
        if isinstance(o, PInst):
            self.call(self.getattr_(o, '__delitem__'), [i], {})
            return
        if isinstance(o, dict):
            k = self.slot(o, i)
            if k not in o:
                self.throw('KeyError', i)
            self.engine.touch(o)
            del o[k]
            return
        if isinstance(o, list):
            self.norm(o)
            self.engine.touch(o)
            if isinstance(i, PSlice):
                del o[slice(*[None if x is None else int(x) for x in (i.lo, i.hi, i.st)])]
                return
            i = int(i)
            if not -len(o) <= i < len(o):
                self.throw('IndexError', 'list assignment index out of range')
            del o[i]
            return
        self.throw('TypeError', "object doesn't support item deletion")

    # ---- guarded lists
    def norm(self, l):
        """resolve guarded elements of a list by forking"""
        if type(l) is list and any(type(x) is GElem for x in l):
            self.engine.touch(l)
            l[:] = [x.v if type(x) is GElem else x for x in l if type(x) is not GElem or self.engine.branch(x.c)]

    # ---- comprehensions
    def comp(self, gens, i, f, emit):
        if i == len(gens):
            emit()
            return
        g = gens[i]
        for x in self.iterate(self.ev(g.iter, f)):
            self.assign(g.target, x, f)
            if all(self.truth(self.ev(c, f)) for c in g.ifs):
                self.comp(gens, i + 1, f, emit)

    def x_ListComp(self, n, f):
        out = self.engine.fresh_container([])
        self.comp(n.generators, 0, f, lambda: out.append(self.ev(n.elt, f)))
        return out

    def x_SetComp(self, n, f):
        out = self.engine.fresh_container(set())
        g = Frame({}, f.globals, f.func, f, None)
        self.comp(n.generators, 0, g, lambda: out.add(self.key(self.ev(n.elt, g))))
        return out

    def x_DictComp(self, n, f):
        out = self.engine.fresh_container({})
        g = Frame({}, f.globals, f.func, f, None)
        def emit():
            out[self.key(self.ev(n.key, g))] = self.ev(n.value, g)
        self.comp(n.generators, 0, g, emit)
        return out

    def x_GenExp(self, n, f):
        g = Frame({}, f.globals, f.func, f, None)
        first = self.iterate(self.ev(n.generators[0].iter, f))

        def rec(i):
            if i == len(n.generators):
                yield self.ev(n.elt, g)
                return
            gg = n.generators[i]
            it = first if i == 0 else self.iterate(self.ev(gg.iter, g))
            for x in it:
                self.assign(gg.target, x, g)
                if all(self.truth(self.ev(c, g)) for c in gg.ifs):
                    for y in rec(i + 1):
                        yield y
        return PGen(rec(0), len(self.engine.explorers))

    def iterate(self, v):
        if isinstance(v, list):
            self.norm(v)
            return iter(v)
        if isinstance(v, (tuple, str, PGen, SRange)):
            return iter(v)
        if isinstance(v, (dict, set)):
            return iter(self.keys_of(v))
        if isinstance(v, SStr):
            return iter(self.B.str_chars(self, v))
        if isinstance(v, PInst):
            m, c = v.cls.lookup('__iter__')
            if m is not None:
                return self.iterate(self.call(self.getattr_(v, '__iter__'), [], {}))
            m, c = v.cls.lookup('next')
            if m is not None:
                return self._iter_next(v)
            m, c = v.cls.lookup('__getitem__')
            if m is not None:
                return self._iter_getitem(v)
            self.throw('TypeError', 'object is not iterable')
        if v is None or is_num(v) or isinstance(v, (PFunc, PClass, PModule, PBound)):
            self.throw('TypeError', 'object is not iterable')
        it = getattr(v, '__iter__', None)
        if it is not None:
            return iter(v)
        raise Unsupported('iteration over %r' % type(v))

    def _iter_next(self, v):
        while True:
            try:
                x = self.call(self.getattr_(v, 'next'), [], {})
            except PyExc as e:
                if e.cname == 'StopIteration':
                    return
                raise
            yield x

    def _iter_getitem(self, v):
        i = 0
        while True:
            try:
                x = self.getitem(v, i)
            except PyExc as e:
                if e.value.cls.issub(self.exc['IndexError']):
                    return
                raise
            yield x
            i += 1

    def b_len(self, v):
        if type(v) in (AbsSeq, AbsMap):
            return v.n
        if isinstance(v, list):
            self.norm(v)
            return len(v)
        if isinstance(v, (str, tuple, dict, set)):
            return len(v)
        if isinstance(v, SStr):
            return self.B.str_len(self, v)
        if isinstance(v, SRange):
            return len(list(v))
        if isinstance(v, PInst):
            m, c = v.cls.lookup('__len__')
            if m is None:
                self.throw('TypeError', 'object has no len()')
            r = self.call(self.getattr_(v, '__len__'), [], {})
            return r
        try:
            return len(v)
        except TypeError as e:
            self.native_exc(e)

    # ------------------------------------------------------------------ attributes
    def getattr_(self, o, name):
        if isinstance(o, PInst):
            return self.inst_getattr(o, name)
        if isinstance(o, PModule):
            if name in o.d:
                return o.d[name]
            if name == '__dict__':
                return o.d
            self.throw('AttributeError', "'module' object has no attribute '%s'" % name)
        if isinstance(o, NatMod):
            if name in o.d:
                return o.d[name]
            sub = o.name + '.' + name
            if sub in self.natmods:
                return self.natmods[sub]
            if o.py is not None and hasattr(o.py, name):
                v = getattr(o.py, name)
                return self.B.wrap_native(self, v, o.name + '.' + name)
            self.throw('AttributeError', "'module' object has no attribute '%s'" % name)
        if isinstance(o, PClass):
            return self.class_getattr(o, name)
        if isinstance(o, PSuper):
            mro = o.obj.cls.mro if isinstance(o.obj, PInst) else o.obj.mro
            i = mro.index(o.cls)
            for c in mro[i + 1:]:
                if name in c.d:
                    return self.bind(c.d[name], o.obj, c)
            self.throw('AttributeError', "'super' object has no attribute '%s'" % name)
        if isinstance(o, PFunc):
            if name in ('__name__', 'func_name'):
                return o.name
            if name == '__doc__':
                return None
            if name in ('__dict__', 'func_dict'):
                return o.attrs
            if name == '__module__':
                return o.module
            if name in o.attrs:
                return o.attrs[name]
            self.throw('AttributeError', name)
        if isinstance(o, PBound):
            if name in ('im_self', '__self__'):
                return o.self_
            if name in ('im_func', '__func__'):
                return o.fn
            if name == 'im_class':
                return o.cls
            return self.getattr_(o.fn, name)
        if isinstance(o, PUnbound):
            if name in ('im_func', '__func__'):
                return o.fn
            return self.getattr_(o.fn, name)
        if isinstance(o, PGen):
            if name == 'next':
                return Native('next', lambda I, a, k: I.gen_next(o))
            raise Unsupported('generator attribute ' + name)
        if name == '__class__':
            return self.B.typeof(self, o)
        if isinstance(o, Native) and name == '__name__':
            return o.name
        return self.B.native_attr(self, o, name)

    def gen_next(self, g):
        try:
            return next(g)
        except StopIteration:
            self.throw('StopIteration')

    def class_getattr(self, o, name):
        v, c = o.lookup(name)
        if v is not None or c is not None:
            if isinstance(v, PClassM):
                return PBound(v.f, o, o)
            if isinstance(v, PStatic):
                return v.f
            if isinstance(v, PFunc):
                return PUnbound(v, o)
            if isinstance(v, PInst) and v.cls.lookup('__get__')[0] is not None:
                raise Unsupported('descriptor')
            return v
        if name == '__name__':
            return o.name
        if name == '__dict__':
            return o.d
        if name == '__bases__':
            return o.bases
        if name == '__mro__':
            return tuple(o.mro)
        if name == '__module__':
            return o.d.get('__module__', '__builtin__')
        if name == '__doc__':
            return o.d.get('__doc__')
        if o.native is not None:
            return NUnbound(o, name)
        self.throw('AttributeError', "type object '%s' has no attribute '%s'" % (o.name, name))

    def bind(self, v, o, c):
        if isinstance(v, PFunc):
            return PBound(v, o, c)
        if isinstance(v, Native):
            return PBound(v, o, c) if getattr(v, 'method', False) else v
        if isinstance(v, PClassM):
            return PBound(v.f, o.cls if isinstance(o, PInst) else o, c)
        if isinstance(v, PStatic):
            return v.f
        if isinstance(v, PProp):
            if v.fget is None:
                self.throw('AttributeError', 'unreadable attribute')
            return self.call(v.fget, [o], {})
        return v

    def inst_getattr(self, o, name):
        cls = o.cls
        ga, gc = cls.lookup('__getattribute__')
        if ga is not None:
            raise Unsupported('__getattribute__')
        v, c = cls.lookup(name)
        if isinstance(v, PProp):
            return self.bind(v, o, c)
        d = o.d
        if name in d:
            r = d[name]
            if type(r) is Guarded:
                r = self.resolve_guarded(d, name, r)
            return r
        if c is not None:
            return self.bind(v, o, c)
        if name == '__class__':
            return cls
        if name == '__dict__':
            return d
        if name == '__doc__':
            return None
        m, c = cls.lookup('__getattr__')
        if m is not None:
            return self.call(PBound(m, o, c) if isinstance(m, PFunc) else m,
                             [o, name] if getattr(m, 'method', False) else [name], {})
        nat = d.get('_nat')
        if nat is not None:
            return self.getattr_(nat, name)
        self.throw('AttributeError', "'%s' object has no attribute '%s'" % (cls.name, name))

    def setattr_(self, o, name, v):
        if isinstance(o, PInst):
            m, c = o.cls.lookup('__setattr__')
            if m is not None and isinstance(m, PFunc):
                self.call(PBound(m, o, c), [name, v], {})
                return
            self.raw_setattr(o, name, v)
            return
        if isinstance(o, (PModule, PClass)):
            self.engine.touch(o.d)
            o.d[name] = v
            return
        if isinstance(o, PFunc):
            self.engine.touch(o.attrs)
            o.attrs[name] = v
            return
        if isinstance(o, (list, dict, tuple, str, SStr, set)) or is_num(o) or o is None:
            self.throw('AttributeError', "object has no attribute '%s'" % name)
        raise Unsupported('setattr on %r' % type(o))

    def raw_setattr(self, o, name, v):
        p, c = o.cls.lookup(name)
        if isinstance(p, PProp):
            if p.fset is None:
                self.throw('AttributeError', "can't set attribute")
            self.call(p.fset, [o, v], {})
            return
        self.check_slots(o, name)
        self.engine.touch(o.d)
        o.d[name] = v

    def check_slots(self, o, name):
        allowed = set()
        for c in o.cls.mro:
            if c is self.builtins['object'] or c.native is not None:
                continue
            sl = c.d.get('__slots__')
            if sl is None:
                return
            allowed.update([sl] if isinstance(sl, str) else sl)
        if name not in allowed:
            self.throw('AttributeError', "'%s' object has no attribute '%s'" % (o.cls.name, name))

    def delattr_(self, o, name):
        if isinstance(o, PInst):
            m, c = o.cls.lookup('__delattr__')
            if m is not None and isinstance(m, PFunc):
                self.call(PBound(m, o, c), [name], {})
                return
        if isinstance(o, (PInst, PModule, PClass)):
            if name not in o.d:
                self.throw('AttributeError', name)
            self.engine.touch(o.d)
            del o.d[name]
            return
        raise Unsupported('delattr')

    def hasattr_(self, o, name):
        try:
            self.getattr_(o, name)
            return True
        except PyExc:
            return False     # Python 2 hasattr swallows every Exception

    # ------------------------------------------------------------------ calls
    def x_Call(self, n, f):
        fn = self.ev(n.func, f)
        args = [self.ev(a, f) for a in n.args]
        if n.starargs is not None:
            args.extend(self.iterate(self.ev(n.starargs, f)))
        kw = {}
        for k in n.keywords:
            kw[k.arg] = self.ev(k.value, f)
        if n.kwargs is not None:
            kk = self.ev(n.kwargs, f)
            for k in kk:
                if k in kw:
                    self.throw('TypeError', 'multiple values for keyword')
                kw[k] = kk[k]
        self.cur = n.l
        if isinstance(fn, Native) and getattr(fn, 'needs_frame', False):
            return fn.fn(self, args, kw, f)
        return self.call(fn, args, kw)

    def call(self, fn, args, kw=None):
        kw = kw or {}
        if isinstance(fn, PBound):
            return self.call(fn.fn, [fn.self_] + list(args), kw)
        if isinstance(fn, PUnbound):
            if not args or not (isinstance(args[0], PInst) and args[0].cls.issub(fn.cls)):
                self.throw('TypeError', 'unbound method %s() must be called with %s instance as first argument'
                           % (fn.fn.name, fn.cls.name))
            return self.call(fn.fn, args, kw)
        if isinstance(fn, PFunc):
            return self.call_func(fn, list(args), kw)
        if isinstance(fn, PClass):
            return self.instantiate(fn, list(args), kw)
        if isinstance(fn, Native):
            try:
                return fn.fn(self, list(args), kw)
            except (PyExc, Unsupported, Infeasible, AbortMerge, CantMerge):
                raise
            except (TypeError, ValueError, KeyError, IndexError, ZeroDivisionError, OverflowError, AttributeError) as e:
                if getattr(fn, 'strict', False):
                    raise
                self.native_exc(e)
        if isinstance(fn, NMethod):
            return self.B.native_call(self, fn.obj, fn.name, list(args), kw)
        if isinstance(fn, NUnbound):
            return self.B.native_unbound(self, fn, list(args), kw)
        if isinstance(fn, PInst):
            m, c = fn.cls.lookup('__call__')
            if m is None:
                self.throw('TypeError', "'%s' object is not callable" % fn.cls.name)
            return self.call(self.getattr_(fn, '__call__'), args, kw)
        if callable(fn) and not isinstance(fn, Sym):
            return self.B.call_pyobj(self, fn, list(args), kw)
        self.throw('TypeError', 'object is not callable')

    def instantiate(self, cls, args, kw):
        if cls.ctor is not None:
            return cls.ctor(self, cls, args, kw)
        new, nc = cls.lookup('__new__')
        if new is not None and not isinstance(new, Native):
            fn = new.f if isinstance(new, PStatic) else new
            o = self.call(fn, [cls] + args, kw)
            if not (isinstance(o, PInst) and o.cls.issub(cls)):
                return o
        else:
            o = self.new_inst(cls)
            nat = next((c for c in cls.mro if c.native is not None), None)
            if nat is not None and nat.native is not BaseException:
                raise Unsupported('subclass of native type ' + nat.name)
            if cls.issub(self.exc['BaseException']):
                o.d['args'] = tuple(args)
                o.d['message'] = args[0] if len(args) == 1 else ''
        init, ic = cls.lookup('__init__')
        if init is not None and (not isinstance(init, Native) or getattr(init, 'method', False)):
            r = self.call(PBound(init, o, ic), args, kw)
            if r is not None:
                self.throw('TypeError', '__init__() should return None')
        elif (args or kw) and not cls.issub(self.exc['BaseException']) and (new is None or isinstance(new, Native)):
            self.throw('TypeError', 'this constructor takes no arguments')
        return o

    def new_inst(self, cls):
        o = PInst(cls)
        self.engine.fresh_container(o.d)
        if self.engine.fresh_ids:
            self.engine.fresh_ids[-1].add(id(o))
            self.engine.keep.append(o)
        return o

    def bind_args(self, fn, args, kw):
        loc = {}
        params = fn.params
        np_ = len(params)
        if len(args) > np_ and fn.vararg is None:
            self.throw('TypeError', '%s() takes at most %d arguments (%d given)' % (fn.name, np_, len(args)))
        for i, p in enumerate(params):
            if i < len(args):
                self.bindp(loc, p, args[i])
        extra = {}
        names = [p if isinstance(p, str) else None for p in params]
        for k, v in kw.items():
            if k in names:
                if k in loc:
                    self.throw('TypeError', "%s() got multiple values for keyword argument '%s'" % (fn.name, k))
                loc[k] = v
            elif fn.kwarg is not None:
                extra[k] = v
            else:
                self.throw('TypeError', "%s() got an unexpected keyword argument '%s'" % (fn.name, k))
        nd = len(fn.defaults)
        for i in range(len(args), np_):
            p = params[i]
            if isinstance(p, str) and p in loc:
                continue
            j = i - (np_ - nd)
            if j < 0:
                self.throw('TypeError', '%s() takes at least %d arguments' % (fn.name, np_ - nd))
            self.bindp(loc, p, fn.defaults[j])
        if fn.vararg is not None:
            loc[fn.vararg] = tuple(args[np_:])
        if fn.kwarg is not None:
            loc[fn.kwarg] = self.engine.fresh_container(extra)
        return loc

    def bindp(self, loc, p, v):
        if isinstance(p, str):
            loc[p] = v
        else:
            vs = list(self.iterate(v))
            if len(vs) != len(p.elts):
                self.throw('ValueError', 'unpack')
            for x, y in zip(p.elts, vs):
                self.bindp(loc, x.id if x.t == 'Name' else x, y)

    def call_func(self, fn, args, kw):
        q = fn.qual
        self.funcs_entered.add(q)
        con = self.contracts.get(q)
        if con is not None and not (con.active is not None and con.active(self, fn, args, kw) is False):
            if q == self.verifying and self.depth == self.verify_depth:
                pass          # the outermost call is the body under verification
            else:
                self.contracts_used.add(q)
                return con.apply(self, fn, args, kw)
        loc = self.engine.fresh_container(self.bind_args(fn, args, kw))
        fr = Frame(loc, fn.module, fn, fn.closure, fn.localset)
        if fn.isgen:
            return PGen(self.run_gen(fn, fr), len(self.engine.explorers))
        if self.depth > 250:
            raise Unsupported('recursion too deep')
        if self.merge and self.depth >= self.merge_depth and q not in self.engine.nomerge \
                and self.engine.explorers:
            return self.merged_call(fn, fr)
        return self.run_body(fn, fr)

    def run_body(self, fn, fr):
        self.depth += 1
        try:
            r = self.exec_block(fn.node.body, fr) if fn.node.t == 'FunctionDef' else \
                ('ret', self.ev(fn.node.body, fr))
            return r[1] if type(r) is tuple and r[0] == 'ret' else None
        finally:
            self.depth -= 1

    def merged_call(self, fn, fr):
        loc0 = dict(fr.locals)

        def thunk():
            fr.locals = self.engine.fresh_container(dict(loc0))
            return self.run_body(fn, fr)
        try:
            return self.merge_region(thunk, early=(fr, ret_value))
        except AbortMerge:
            self.engine.nomerge.add(fn.qual)
            raise Restart()

    def merge_region(self, thunk, early=None, frame=None):
        eng_ = self.engine
        outer = eng_.explorers[-1] if eng_.explorers else None
        if outer is not None:
            seq, pos = outer.seq, outer.pos
            outer.seq += 1
            if seq < len(outer.cache):
                # the same prefix of decisions led here before: reuse the summary
                cpos, outs, counter = outer.cache[seq]
                if cpos == pos and outs is not None:
                    eng_.counter = counter
                    return self.apply_outs(outs, frame)
        d0 = self.depth
        try:
            outs = eng_.region(thunk, PyExc, early)
        finally:
            self.depth = d0
        if outer is not None and seq == len(outer.cache):
            pure = all(o[2] == 'ok' and not o[4] and immutable(o[3]) for o in outs)
            outer.cache.append((pos, outs if pure else None, eng_.counter))
        return self.apply_outs(outs, frame)

    def apply_outs(self, outs, frame=None):
        eng_ = self.engine
        if not outs:
            raise Infeasible()
        seen = set()
        for conds, assumes, kind, val, delta in outs:
            for n, c in assumes:
                # re-executed prefixes repeat their facts
                k = (c.get_id(),) + tuple(x.get_id() for x in conds[:n])
                if k not in seen:
                    seen.add(k)
                    eng_.assume_nocheck(z3.Implies(z3.And(conds[:n]), c) if n else c)
        if len(outs) == 1:
            conds, assumes, kind, val, delta = outs[0]
            self.apply_delta(delta)
            if kind == 'exc':
                raise val
            return val
        fresh = eng_.fresh_ids[-1] if eng_.fresh_ids else set()
        groups, order = {}, []
        for o in outs:
            k = ('exc', o[3].value.cls) if o[2] == 'exc' else ('ok', self.shape(o[3], fresh))
            if k not in groups:
                groups[k] = []
                order.append(k)
            groups[k].append(o)
        merged = []
        for k in order:
            g = groups[k]
            cs = [z3.And(o[0]) if len(o[0]) != 1 else o[0][0] for o in g]
            try:
                val = g[-1][3]
                if k[0] == 'ok':
                    for o, c in zip(g[-2::-1], cs[-2::-1]):
                        val = self.merge_val(c, o[3], val, fresh)
                delta = self.merge_deltas(g, cs)
            except CantMerge as e:
                raise AbortMerge(str(e))
            merged.append((z3.Or(cs) if len(cs) > 1 else cs[0], k[0], val, delta))
        ex = eng_.explorers[-1]
        if frame is not None and len(merged) > 1 and ex.early is not None and ex.early[0] is frame \
                and not ex.noearly:
            rest = [m for m in merged if m[1] == 'ok' and not (type(m[2]) is tuple and m[2][0] == 'ret')]
            done = [m for m in merged if m not in rest]
            if not rest:
                rest = [done.pop()]
            if done:
                if ex.pos == len(ex.trace):
                    for c, kind, val, delta in done:
                        eng_.emit_early(ex, c, kind, ex.early[1](val) if kind == 'ok' else val, delta)
                merged = rest
                eng_.follow(z3.Not(z3.Or([m[0] for m in done]) if len(done) > 1 else done[0][0]))
        if len(merged) == 1:
            self.apply_delta(merged[0][3])
            if merged[0][1] == 'exc':
                raise merged[0][2]
            return merged[0][2]
        for c, kind, val, delta in merged[:-1]:
            if eng_.branch(c):
                break
        else:
            c, kind, val, delta = merged[-1]
            if len(merged) > 1:
                eng_.assume_nocheck(c)
        self.apply_delta(delta)
        if kind == 'exc':
            raise val
        return val

    def apply_delta(self, delta):
        for k, (c, old, new) in delta.items():
            self.engine.touch(c)
            restore(c, new)

    def merge_deltas(self, g, cs):
        keys = {}
        for o in g:
            for k, (c, old, new) in o[4].items():
                keys.setdefault(k, (c, old))
        out = {}
        for k, (c, old) in keys.items():
            vals = [o[4][k][2] if k in o[4] else old for o in g]
            out[k] = (c, old, self.merge_contents(vals, cs))
        return out

    def merge_contents(self, vals, cs):
        first = vals[0]
        if isinstance(first, list):
            n = min(len(v) for v in vals)
            out = []
            for i in range(n):
                try:
                    out.append(self.merge_slot([v[i] for v in vals], cs, False))
                except CantMerge:
                    n = i
                    break
            if any(len(v) > n for v in vals):
                # appended elements: guarded presence (resolved by forking when the list is next used)
                for v, c in zip(vals, cs):
                    for x in v[n:]:
                        if type(x) is GElem:
                            out.append(GElem(z3.And(c, x.c), x.v))
                        else:
                            out.append(GElem(c, x))
            return out
        if isinstance(first, dict):
            ks = []
            for v in vals:
                for k in v:
                    if k not in ks:
                        ks.append(k)
            out = {}
            for k in ks:
                xs = [v.get(k, MISSING) for v in vals]
                out[k] = self.merge_slot(xs, cs, all(isinstance(kk, str) for kk in ks))
            return out
        if all(v == first for v in vals):
            return first
        raise CantMerge('container')

    def merge_slot(self, xs, cs, lazy):
        if all(x is xs[0] for x in xs):
            return xs[0]
        if any(type(x) is GElem for x in xs):
            raise CantMerge('guarded')
        try:
            if any(x is MISSING or type(x) is Guarded for x in xs):
                raise CantMerge('missing')
            val = xs[-1]
            for x, c in zip(xs[-2::-1], cs[-2::-1]):
                val = ite_val(c, x, val)
            return val
        except CantMerge:
            if not lazy:
                raise
            alts = []
            for x, c in zip(xs, cs):
                for a in alts:
                    if a[1] is x:
                        a[0].append(c)
                        break
                else:
                    alts.append(([c], x))
            return Guarded([(z3.Or(a) if len(a) > 1 else a[0], x) for a, x in alts])

    def shape(self, v, fresh, depth=0):
        if v is None:
            return 'none'
        if isinstance(v, (bool, SBool)) or intlike(v):
            return 'int'
        if isinstance(v, (float, SReal)):
            return 'real'
        if isinstance(v, str):
            return ('str', v) if len(v) != 1 else ('str1',)
        if isinstance(v, SStr):
            u = v.units()
            if u is not None and len(u) == 1:
                return ('str1',)
            return ('sstr', tuple((p[0], p[1] if p[0] in ('lit', 'opq') else None) for p in v.parts))
        if isinstance(v, tuple):
            return ('tuple', tuple(self.shape(x, fresh, depth + 1) for x in v))
        if isinstance(v, PInst) and id(v) in fresh and depth < 3:
            return ('inst', id(v.cls), tuple((k, self.shape(v.d[k], fresh, depth + 1)) for k in sorted(v.d)))
        return ('id', id(v))

    def merge_val(self, c, a, b, fresh):
        if isinstance(a, PInst) and isinstance(b, PInst) and a is not b:
            r = self.new_inst(a.cls)
            for k in a.d:
                r.d[k] = self.merge_val(c, a.d[k], b.d[k], fresh)
            return r
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.merge_val(c, x, y, fresh) for x, y in zip(a, b))
        return ite_val(c, a, b)

    def run_gen(self, fn, fr):
        for x in self.gexec_block(fn.node.body, fr):
            if type(x) is Sig:
                return
            yield x

    # ------------------------------------------------------------------ functions, classes
    def make_func(self, n, f, name):
        fn = PFunc()
        fn.name = name
        fn.node = n
        fn.module = f.globals
        fn.closure = f if f.func is not None or f.isclass or f.localset is not None else None
        if f.isclass:
            fn.closure = f.parent
        elif f.locals is f.globals:
            fn.closure = None
        else:
            fn.closure = f
        a = n.args
        fn.params = [x.id if x.t == 'Name' else x for x in a.args]
        fn.vararg, fn.kwarg = a.vararg, a.kwarg
        fn.defaults = [self.ev(x, f) for x in a.defaults]
        body = n.body if n.t == 'FunctionDef' else []
        fn.isgen = has_yield(body)
        ls = n.__dict__.get('_localset')
        if ls is None:
            ps = []

            def addp(x):
                if x.t == 'Name':
                    ps.append(x.id)
                else:
                    for y in x.elts:
                        addp(y)
            for x in a.args:
                addp(x)
            ps += [p for p in (a.vararg, a.kwarg) if p]
            ls = n._localset = assigned_names(body, ps)
        fn.localset = ls
        fn.attrs = {}
        fn.cls = None
        prefix = f.globals.get('__name__', '?') + ':'
        cn = getattr(f, 'func', None)
        if f.isclass:
            prefix += f.locals.get('__qual__', '?') + '.'
        elif cn is not None:
            prefix = cn.qual + '.'
        fn.qual = prefix + name
        return fn

    def x_Lambda(self, n, f):
        return self.make_func(n, f, '<lambda>')

    def s_FunctionDef(self, n, f):
        fn = self.make_func(n, f, n.name)
        v = fn
        for d in reversed(n.decorator_list):
            v = self.call(self.ev(d, f), [v], {})
        self.setname(f, n.name, v)

    def s_ClassDef(self, n, f):
        bases = [self.ev(b, f) for b in n.bases]
        qual = n.name
        if f.isclass:
            qual = f.locals.get('__qual__', '?') + '.' + n.name
        d = {'__module__': f.globals.get('__name__'), '__qual__': qual}
        cf = Frame(d, f.globals, f.func, f if f.locals is not f.globals else None, None, True)
        if f.isclass:
            cf.parent = f.parent
        self.exec_block(n.body, cf)
        for b in bases:
            if not isinstance(b, PClass):
                raise Unsupported('base class %r' % (b,))
        meta = d.get('__metaclass__')
        if meta is not None:
            raise Unsupported('metaclass')
        c = PClass(n.name, bases, d)
        for v in d.values():
            if isinstance(v, PFunc) and v.cls is None:
                v.cls = c
        v = c
        for dec in reversed(getattr(n, 'decorator_list', [])):
            v = self.call(self.ev(dec, f), [v], {})
        self.setname(f, n.name, v)

    # ------------------------------------------------------------------ statements
    def exec_block(self, body, f):
        h = self.st_handlers
        for n in body:
            r = h[n.t](n, f)
            if r is not None:
                return r
        return None

    def s_Expr(self, n, f):
        if n.value.t == 'Str':
            return None
        self.ev(n.value, f)

    def s_Pass(self, n, f):
        return None

    def s_Break(self, n, f):
        return 'break'

    def s_Continue(self, n, f):
        return 'continue'

    def s_Return(self, n, f):
        return ('ret', self.ev(n.value, f) if n.value is not None else None)

    def s_Global(self, n, f):
        return None

    def s_Assign(self, n, f):
        v = self.ev(n.value, f)
        self.cur = n.l
        for t in n.targets:
            self.assign(t, v, f)

    def assign(self, t, v, f):
        k = t.t
        if k == 'Name':
            self.setname(f, t.id, v)
        elif k in ('Tuple', 'List'):
            if isinstance(v, SStr):
                vs = self.B.str_chars(self, v)
            else:
                vs = list(self.iterate(v))
            if len(vs) != len(t.elts):
                self.throw('ValueError', 'need %d values to unpack, got %d' % (len(t.elts), len(vs)))
            for x, y in zip(t.elts, vs):
                self.assign(x, y, f)
        elif k == 'Attribute':
            self.setattr_(self.ev(t.value, f), t.attr, v)
        elif k == 'Subscript':
            o = self.ev(t.value, f)
            self.setitem(o, self.subscript(t.slice, f), v)
        else:
            raise Unsupported('assign to ' + k)

    def subscript(self, s, f):
        if s.t == 'Index':
            return self.ev(s.value, f)
        if s.t == 'Slice':
            return PSlice(self.ev(s.lower, f) if s.lower else None, self.ev(s.upper, f) if s.upper else None,
                          self.ev(s.step, f) if getattr(s, 'step', None) else None)
        raise Unsupported('slice ' + s.t)

    def s_AugAssign(self, n, f):
        t = n.target
        op = n.op.t
        self.cur = n.l
        if t.t == 'Name':
            cur = self.x_Name(t, f)
            self.setname(f, t.id, self.aug(op, cur, self.ev(n.value, f)))
        elif t.t == 'Attribute':
            o = self.ev(t.value, f)
            cur = self.getattr_(o, t.attr)
            self.setattr_(o, t.attr, self.aug(op, cur, self.ev(n.value, f)))
        elif t.t == 'Subscript':
            o = self.ev(t.value, f)
            i = self.subscript(t.slice, f)
            if isinstance(i, PSlice):
                raise Unsupported('augmented slice')
            cur = self.getitem(o, i)
            self.setitem(o, i, self.aug(op, cur, self.ev(n.value, f)))

    def aug(self, op, cur, v):
        if op == 'Add' and isinstance(cur, list):
            self.norm(cur)
            self.engine.touch(cur)
            cur.extend(self.iterate(v))
            return cur
        if op == 'Add' and type(cur) is AbsSeq and cur.kind == 'list':
            self.call(self.getattr_(cur, 'extend'), [v], {})
            return cur
        if op == 'BitAnd' and isinstance(cur, (bool, SBool)) and isinstance(v, (bool, SBool)):
            return And(cur, v)
        if op == 'BitOr' and isinstance(cur, (bool, SBool)) and isinstance(v, (bool, SBool)):
            return Or(cur, v)
        return self.binop(op, cur, v)

    def s_If(self, n, f):
        mi = self.merge_ifs and self.engine.explorers and id(n) not in self.engine.nomerge
        if mi and self.merge_ifs == 'ctrl' and n.test.t in ('BoolOp', 'Compare', 'UnaryOp', 'Call'):
            def thunk():
                c = self.truth_expr(self.ev(n.test, f))
                self.cur = n.l
                if not isinstance(c, bool):
                    c = self.engine.branch(c.e)
                return self.exec_block(n.body if c else n.orelse, f)
            try:
                return self.merge_region(thunk, (f, same_value), f)
            except AbortMerge:
                self.engine.nomerge.add(id(n))
                raise Restart()
        c = self.truth_expr(self.ev(n.test, f))
        self.cur = n.l
        if isinstance(c, bool):
            return self.exec_block(n.body if c else n.orelse, f)
        if mi and (self.merge_ifs == 'ctrl' or not has_ctrl(n)):
            def thunk():
                return self.exec_block(n.body if self.engine.branch(c.e) else n.orelse, f)
            try:
                return self.merge_region(thunk, (f, same_value), f)
            except AbortMerge:
                self.engine.nomerge.add(id(n))
                raise Restart()
        return self.exec_block(n.body if self.engine.branch(c.e) else n.orelse, f)


    merge_ifs = False

    # ---- loops over sequences of any length: cut at the loop head by the contract attached to the sequence
    def cut(self, n, f, seq):
        """-> None: the loop is over, in an arbitrary final state; else a LoopIteration at an arbitrary element"""
        L, e = seq.loop, self.engine
        if L is None:
            raise Unsupported('loop over a sequence of any length without a contract')
        if len(e.explorers) > 1:
            raise AbortMerge('loop contract in an inner region')
        names = assigned_names(n.body, ())
        names |= assigned_names([n], ())
        waiting = [x for x in self.gen_loops if x[0] is not f]
        L.way, src, seq = seq.way, seq.src, AbsSeq(*seq.__snapshot__())
        entry = {k: v for k, v in f.locals.items() if k in names and v is not POISON}
        L.begin(self.h, f.locals)
        for lab, c in L.holds(self.h, 0, entry):
            self.h.check('loop invariant at the start: ' + lab, c)
        again = e.branch(e.fresh_bool('again').e)
        i = seq.n
        if again:
            i = e.fresh_int('at')
            e.assume(z3.And(i.e >= 0, i.e < ie(seq.n)))
        given = L.state(self.h, i, dict(entry)) or {}
        e.touch(f.locals)
        for k in names:
            if k in given:
                f.locals[k] = given[k]
            else:
                f.locals[k] = POISON
        # what the loops that wait for this one's values carry round is not known either
        for g, ns in waiting:
            e.touch(g.locals)
            for k in ns:
                g.locals[k] = POISON
        return LoopIteration(waiting, self, L, f, names, i, seq.elem(i), src) if again else None

    def abs_for(self, n, f, seq):
        it = self.cut(n, f, seq)
        if it is None:
            return self.exec_block(n.orelse, f) if n.orelse else None
        with it:
            self.assign(n.target, it.elem, f)
            r = self.exec_block(n.body, f)
            if r is None or r == 'continue':
                it.end()
        return None if r == 'break' else r

    def waiting_for(self, it, n, f):
        """the values of a generator, noting meanwhile that this loop waits for the next one"""
        me = (f, assigned_names(n.body, ()) | assigned_names([n], ()))
        while True:
            self.gen_loops.append(me)
            try:
                try:
                    x = next(it)
                finally:
                    self.gen_loops.pop()
            except StopIteration:
                return
            yield x

    def elements(self, v):
        """an instance that only hands on the elements of a sequence of any length is that sequence"""
        if isinstance(v, PInst):
            m, c = v.cls.lookup('__iter__')
            b = [x for x in m.node.body if not (x.t == 'Expr' and x.value.t == 'Str')] if isinstance(m, PFunc) and m.isgen else []
            if len(b) == 1 and b[0].t == 'For' and b[0].target.t == 'Name' and len(b[0].body) == 1 and not b[0].orelse:
                y = b[0].body[0]
                if y.t == 'Expr' and y.value.t == 'Yield' and y.value.value is not None and y.value.value.t == 'Name' \
                        and y.value.value.id == b[0].target.id and b[0].iter.t == 'Attribute' and b[0].iter.value.t == 'Name' \
                        and b[0].iter.value.id == m.params[0]:
                    s = self.getattr_(v, b[0].iter.attr)
                    if type(s) is AbsSeq:
                        return s
        if type(v) is AbsMap:
            return v.keys()
        return v

    def s_For(self, n, f):
        it = self.elements(self.ev(n.iter, f))
        if type(it) is AbsSeq:
            return self.abs_for(n, f, it)
        it = self.iterate(it)
        broke = False
        if self.h is not None and self.h.default_loop is not None and type(it) is PGen:
            it = self.waiting_for(it, n, f)
        for x in it:
            self.assign(n.target, x, f)
            r = self.exec_block(n.body, f)
            if r is not None:
                if r == 'break':
                    broke = True
                    break
                if r == 'continue':
                    continue
                return r
        if not broke and n.orelse:
            return self.exec_block(n.orelse, f)

    def abs_while(self, n, f, L):
        """a while loop, cut at its head by the contract"""
        e = self.engine
        if len(e.explorers) > 1:
            raise AbortMerge('loop contract in an inner region')
        names = assigned_names(n.body, ()) | assigned_names([n], ())
        waiting = [x for x in self.gen_loops if x[0] is not f]
        L.way = 1
        entry = {k: v for k, v in f.locals.items() if k in names and v is not POISON}
        L.begin(self.h, f.locals)
        for lab, c in L.holds(self.h, 0, entry):
            self.h.check('loop invariant at the start: ' + lab, c)
        given = L.state(self.h, None, dict(entry)) or {}
        e.touch(f.locals)
        for k in names:
            f.locals[k] = given[k] if k in given else POISON
        for g, ns in waiting:
            e.touch(g.locals)
            for k in ns:
                g.locals[k] = POISON
        it = LoopIteration(waiting, self, L, f, names, None, None, None)
        with it:
            if not self.truth(self.ev(n.test, f)):
                over = True
            else:
                over = False
                r = self.exec_block(n.body, f)
                if r is None or r == 'continue':
                    it.end()
        if over:
            return self.exec_block(n.orelse, f) if n.orelse else None
        return None if r == 'break' else r

    def s_While(self, n, f):
        if self.h is not None and self.h.default_while is not None:
            L = self.h.default_while(f.locals)
            if L is not None:
                return self.abs_while(n, f, L)
        k = 0
        while self.truth(self.ev(n.test, f)):
            k += 1
            if k > (3000 if self.h is None or self.h.default_loop is None else 40):
                raise Unsupported('loop bound')
            r = self.exec_block(n.body, f)
            if r is not None:
                if r == 'break':
                    return None
                if r == 'continue':
                    continue
                return r
        if n.orelse:
            return self.exec_block(n.orelse, f)

    def s_Assert(self, n, f):
        if not self.truth(self.ev(n.test, f)):
            self.cur = n.l
            if n.msg is not None:
                self.throw('AssertionError', self.ev(n.msg, f))
            self.throw('AssertionError')

    def s_Raise(self, n, f):
        if n.type is None:
            e = self.cur_exc(f)
            if e is None:
                self.cur = n.l
                self.throw('TypeError', 'exceptions must be old-style classes or derived from BaseException, not NoneType')
            raise e
        t = self.ev(n.type, f)
        self.cur = n.l
        if isinstance(t, PClass):
            args = []
            if n.inst is not None:
                v = self.ev(n.inst, f)
                args = list(v) if isinstance(v, tuple) else ([] if v is None else [v])
            t = self.instantiate(t, args, {})
        if not isinstance(t, PInst):
            self.throw('TypeError', 'exceptions must be classes or instances')
        raise PyExc(t, n.l)

    def cur_exc(self, f):
        while f is not None:
            if f.exc is not None:
                return f.exc
            f = f.parent
        return None

    def match_handler(self, h, e, f):
        if h.type is None:
            return True
        t = self.ev(h.type, f)
        ts = t if isinstance(t, tuple) else (t,)
        for c in ts:
            if isinstance(c, PClass) and e.value.cls.issub(c):
                return True
        return False

    def s_TryExcept(self, n, f):
        ex = self.engine.explorers[-1] if self.engine.explorers else None
        if ex is None:
            return self.s_TryExcept_(n, f)
        ex.noearly += 1
        try:
            return self.s_TryExcept_(n, f)
        finally:
            ex.noearly -= 1

    def s_TryExcept_(self, n, f):
        try:
            r = self.exec_block(n.body, f)
        except PyExc as e:
            for h in n.handlers:
                if self.match_handler(h, e, f):
                    if h.name is not None:
                        if isinstance(h.name, str):
                            self.setname(f, h.name, e.value)
                        else:
                            self.assign(h.name, e.value, f)
                    old = f.exc
                    f.exc = e
                    try:
                        return self.exec_block(h.body, f)
                    finally:
                        f.exc = old
            raise
        if r is not None:
            return r
        if n.orelse:
            return self.exec_block(n.orelse, f)

    def s_TryFinally(self, n, f):
        ex = self.engine.explorers[-1] if self.engine.explorers else None
        if ex is None:
            return self.s_TryFinally_(n, f)
        ex.noearly += 1
        try:
            return self.s_TryFinally_(n, f)
        finally:
            ex.noearly -= 1

    def s_TryFinally_(self, n, f):
        try:
            r = self.exec_block(n.body, f)
        except PyExc:
            r2 = self.exec_block(n.finalbody, f)
            if r2 is not None:
                return r2
            raise
        r2 = self.exec_block(n.finalbody, f)
        return r2 if r2 is not None else r

    def s_With(self, n, f):
        ex = self.engine.explorers[-1] if self.engine.explorers else None
        if ex is None:
            return self.s_With_(n, f)
        ex.noearly += 1
        try:
            return self.s_With_(n, f)
        finally:
            ex.noearly -= 1

    def s_With_(self, n, f):
        m = self.ev(n.context_expr, f)
        v = self.call(self.getattr_(m, '__enter__'), [], {})
        if n.optional_vars is not None:
            self.assign(n.optional_vars, v, f)
        try:
            r = self.exec_block(n.body, f)
        except PyExc as e:
            if not self.truth(self.call(self.getattr_(m, '__exit__'), [e.value.cls, e.value, None], {})):
                raise
            return None
        self.call(self.getattr_(m, '__exit__'), [None, None, None], {})
        return r

    def s_Print(self, n, f):
        # output is not modelled: the printed expressions are evaluated, their conversion to text is assumed total
        for v in n.values:
            self.ev(v, f)

    def str_for_print(self, x):
        if isinstance(x, PInst):
            self.str_(x)
        elif isinstance(x, (list, tuple)):
            for y in x:
                if isinstance(y, (PInst, list, tuple)):
                    self.repr_(y)

    def s_Delete(self, n, f):
        for t in n.targets:
            if t.t == 'Name':
                self.engine.touch(f.locals)
                if t.id not in f.locals:
                    self.throw('NameError', t.id)
                del f.locals[t.id]
            elif t.t == 'Attribute':
                self.delattr_(self.ev(t.value, f), t.attr)
            elif t.t == 'Subscript':
                self.delitem(self.ev(t.value, f), self.subscript(t.slice, f))

    def s_Exec(self, n, f):
        raise Unsupported('exec')

    # ---- generator bodies
    def gexec_block(self, body, f):
        for n in body:
            if not has_yield(n):
                r = self.st_handlers[n.t](n, f)
                if r is not None:
                    yield Sig(r)
                    return
                continue
            for x in self.gexec(n, f):
                yield x
                if type(x) is Sig:
                    return

    def gexec(self, n, f):
        t = n.t
        if t == 'Expr' and n.value.t == 'Yield':
            v = self.ev(n.value.value, f) if n.value.value is not None else None
            yield v
        elif t == 'If':
            for x in self.gexec_block(n.body if self.truth(self.ev(n.test, f)) else n.orelse, f):
                yield x
        elif t in ('For', 'While'):
            if t == 'For':
                it = self.elements(self.ev(n.iter, f))
                if type(it) is AbsSeq:
                    if not it.loop.stream:
                        raise Unsupported('values yielded from a loop of any length')
                    cut = self.cut(n, f, it)
                    if cut is None:
                        for x in self.gexec_block(n.orelse, f):
                            yield x
                        return
                    sig = None
                    with cut:
                        self.assign(n.target, cut.elem, f)
                        for x in self.gexec_block(n.body, f):
                            if type(x) is Sig:
                                sig = x
                                break
                            yield x
                        if sig is None or sig.v == 'continue':
                            cut.end()
                    if sig.v != 'break':
                        yield sig
                    return
                it = self.iterate(it)
                if self.h is not None and self.h.default_loop is not None and type(it) is PGen:
                    it = self.waiting_for(it, n, f)
            elif self.h is not None and self.h.default_while is not None and self.h.default_while(f.locals) is not None:
                raise Unsupported('a while loop under contract in a generator')
            brk = False
            while True:
                if t == 'For':
                    try:
                        x = next(it)
                    except StopIteration:
                        break
                    self.assign(n.target, x, f)
                elif not self.truth(self.ev(n.test, f)):
                    break
                sig = None
                for x in self.gexec_block(n.body, f):
                    if type(x) is Sig:
                        sig = x
                        break
                    yield x
                if sig is not None:
                    if sig.v == 'break':
                        brk = True
                        break
                    if sig.v == 'continue':
                        continue
                    yield sig
                    return
            if not brk and n.orelse:
                for x in self.gexec_block(n.orelse, f):
                    yield x
        elif t == 'TryFinally':
            try:
                for x in self.gexec_block(n.body, f):
                    if type(x) is Sig:
                        r2 = self.exec_block(n.finalbody, f)
                        yield x if r2 is None else Sig(r2)
                        return
                    yield x
            except PyExc:
                self.exec_block(n.finalbody, f)
                raise
            self.exec_block(n.finalbody, f)
        elif t == 'TryExcept':
            it = self.gexec_block(n.body, f)
            while True:
                try:
                    x = next(it)
                except StopIteration:
                    break
                except PyExc as e:
                    for h in n.handlers:
                        if self.match_handler(h, e, f):
                            if h.name is not None:
                                self.assign(h.name, e.value, f)
                            for y in self.gexec_block(h.body, f):
                                yield y
                            return
                    raise
                yield x
                if type(x) is Sig:
                    return
            for x in self.gexec_block(n.orelse, f):
                yield x
        else:
            raise Unsupported('yield inside ' + t)

    # ------------------------------------------------------------------ str / repr
    def str_(self, v):
        return self.B.to_str(self, v)

    def repr_(self, v):
        return self.B.to_repr(self, v)


def shared_state(I):
    """id -> (container, what it is) for every container that outlives a call: module and class dictionaries, and what is
    reachable from them (defaults of parameters, closures, instances)"""
    out, seen, todo = {}, set(), []
    for name, m in I.modules.items():
        todo.append((m, name))
    while todo:
        o, what = todo.pop()
        if o is None or isinstance(o, (str, int, float, bool)) or id(o) in seen:
            continue
        seen.add(id(o))
        if type(o) in (list, set, dict):
            out[id(o)] = (o, what)
        if isinstance(o, PModule):
            if o.name in I.modules:
                todo.append((o.d, o.name))
        elif isinstance(o, PClass):
            if o.native is None:
                todo.append((o.d, o.name))
                todo += [(b, b.name) for b in o.bases]
        elif isinstance(o, PInst):
            todo += [(o.d, what), (o.cls, o.cls.name)]
        elif isinstance(o, PFunc):
            todo.append((o.defaults, what + ' defaults'))
            todo.append((o.closure, what + ' closure'))
            todo.append((o.attrs, what))
        elif isinstance(o, Frame):
            todo.append((o.locals, what))
            todo.append((getattr(o, 'parent', None), what))
        elif isinstance(o, PBound):
            todo += [(o.fn, what), (o.self_, what)]
        elif isinstance(o, (PStatic, PClassM)):
            todo.append((o.f, what))
        elif isinstance(o, PProp):
            todo += [(o.fget, what), (o.fset, what)]
        elif type(o) is dict:
            for k, v in o.items():
                if k not in ('__builtins__',):
                    todo.append((v, '%s.%s' % (what, k) if isinstance(k, str) else what))
        elif type(o) in (list, tuple, set):
            todo += [(x, what) for x in o]
    return out


class SymKey(object):
    """a key of a dictionary whose value is symbolic"""
    def __init__(self, value):
        self.value = value


def symbolic(k):
    return isinstance(k, (SInt, SBool, SReal, SStr)) or type(k) is tuple and any([symbolic(x) for x in k])


def has_ctrl(n):
    """does the statement contain return/break/continue/raise/yield at this function's level?"""
    c = n.__dict__.get('_ctrl')
    if c is None:
        def walk(x, inloop):
            if isinstance(x, list):
                return any(walk(y, inloop) for y in x)
            if isinstance(x, astload.Node):
                if x.t in ('Return', 'Yield'):
                    return True
                if x.t in ('Break', 'Continue') and not inloop:
                    return True
                if x.t in ('FunctionDef', 'Lambda', 'ClassDef'):
                    return False
                il = inloop or x.t in ('For', 'While')
                return any(walk(v, il) for v in x.__dict__.values() if isinstance(v, (list, astload.Node)))
            return False
        c = n._ctrl = walk(n.body, False) or walk(n.orelse, False)
    return c


def plain(v):
    if isinstance(v, tuple):
        return all(plain(x) for x in v)
    return is_num(v) or v is None or isinstance(v, str)


class Sig(object):
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


class Guarded(object):
    """a slot whose value depends on an unresolved condition (resolved by forking when read)"""
    def __init__(self, alts):
        self.alts = alts


class GElem(object):
    """a list element that is present iff c"""
    def __init__(self, c, v):
        self.c, self.v = c, v


class PSlice(object):
    def __init__(self, lo, hi, st):
        self.lo, self.hi, self.st = lo, hi, st


class NUnbound(object):
    """list.append etc. taken from the type"""
    def __init__(self, cls, name):
        self.cls, self.name = cls, name


class SRange(object):
    """xrange / symbolic range"""
    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = lo, hi, step

    def __iter__(self):
        i = self.lo
        k = 0
        while True:
            c = s_cmp('<', i, self.hi) if isinstance(i, Sym) or isinstance(self.hi, Sym) else \
                (i < self.hi if self.step > 0 else i > self.hi)
            if isinstance(c, SBool):
                if self.step < 0:
                    c = s_cmp('>', i, self.hi)
                c = bool(c)
            elif self.step < 0 and (isinstance(i, Sym) or isinstance(self.hi, Sym)):
                c = bool(s_cmp('>', i, self.hi))
            if not c:
                return
            yield i
            i = i + self.step
            k += 1
            if k > 2000:
                raise Unsupported('symbolic range too long')
