"""Registry of a spec file's harnesses (imported by the prover and by Jython)."""
import itertools


class Registry(object):
    def __init__(self):
        self.harnesses = {}
        self.tasks = []
        self.order = []

    def harness(self, **kw):
        """keyword lists are case splits (one prover task per combination); names starting with _ are options"""
        opts = dict([(k[1:], v) for k, v in kw.items() if k.startswith('_')])
        axes = sorted([k for k in kw if not k.startswith('_')])

        def deco(f):
            name = f.__name__
            assert name not in self.harnesses, name
            f.opts = opts
            self.harnesses[name] = f
            self.order.append(name)
            for combo in itertools.product(*[kw[k] for k in axes]):
                self.tasks.append((name, dict(zip(axes, combo))))
            return f
        return deco
