# Runs under Jython: dump the AST (as the runtime's own parser sees it) of files as JSON.
# usage: jydump.py OUT.json FILE...      OUT: {file: ast | {"error": msg}}
import sys, ast, json


def conv(n):
    if n is None or isinstance(n, (bool, float)):
        return n
    if isinstance(n, (int,)):
        return n
    if isinstance(n, long):
        return {"long": str(n)}
    if isinstance(n, complex):
        return {"complex": str(n)}
    if isinstance(n, unicode):
        return {"u": n}
    if isinstance(n, str):
        return {"s": n.decode('latin-1')}
    if isinstance(n, ast.AST):
        d = {"t": n.__class__.__name__}
        for f in (n._fields or ()):
            v = getattr(n, f, None)
            if f in ('id', 'attr', 'name', 'arg', 'vararg', 'kwarg', 'module', 'asname') and isinstance(v, basestring):
                d[f] = str(v)
            else:
                d[f] = conv(v)
        if hasattr(n, 'lineno'):
            d["l"] = n.lineno
        return d
    try:
        return [conv(x) for x in n]
    except TypeError:
        return {"t": str(n)}


out = {}
for fn in sys.argv[2:]:
    try:
        src = open(fn, 'rb').read()
        tree = compile(src, fn, 'exec', ast.PyCF_ONLY_AST)
        out[fn] = conv(tree)
    except SyntaxError, e:
        out[fn] = {"error": str(e)}
f = open(sys.argv[1], 'wb')
f.write(json.dumps(out))
f.close()
