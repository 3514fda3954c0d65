"""Obtain the AST of /repo's current Python 2 sources from the runtime's own parser (Jython)."""
import hashlib, json, os, subprocess, tempfile

JY = '/opt/jy/jy'
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
CACHE = os.path.join(tempfile.gettempdir(), 'dv-ast-cache-%d' % os.getuid())


class Node(object):
    def __repr__(self):
        return '<%s l=%s>' % (self.t, getattr(self, 'l', None))


def conv(j):
    if isinstance(j, dict):
        if 't' in j:
            n = Node()
            for k, v in j.items():
                if k == 't':
                    n.t = v
                elif k == 'n' and j['t'] == 'Num':
                    n.n = num(v)
                else:
                    setattr(n, k, conv(v))
            return n
        if 's' in j:
            return j['s']
        if 'u' in j:
            return j['u']
        if 'long' in j:
            return int(j['long'])
        raise ValueError(j)
    if isinstance(j, list):
        return [conv(x) for x in j]
    return j


def num(v):
    if isinstance(v, dict):
        return int(v['long']) if 'long' in v else complex(v['complex'])
    return v


def jy_env():
    e = dict(os.environ)
    e['JYTHONPATH'] = '/opt/bgsite:' + REPO
    return e


def load(files):
    """files: list of absolute paths -> {path: Node or SyntaxError-string}. Content-addressed cache in /tmp."""
    os.makedirs(CACHE, exist_ok=True)
    out, todo = {}, {}
    for f in files:
        with open(f, 'rb') as fh:
            src = fh.read()
        with open(os.path.join(HERE, 'jydump.py'), 'rb') as fh:
            key = hashlib.sha256(fh.read() + b'\0' + src).hexdigest()
        p = os.path.join(CACHE, key + '.json')
        try:
            with open(p) as fh:
                out[f] = json.load(fh)
        except (OSError, ValueError):
            todo[f] = p
    if todo:
        fd, tmp = tempfile.mkstemp(suffix='.json')
        os.close(fd)
        try:
            r = subprocess.run([JY, '-B', os.path.join(HERE, 'jydump.py'), tmp] + list(todo),
                               env=jy_env(), stdin=subprocess.DEVNULL, capture_output=True, timeout=300)
            if r.returncode != 0:
                raise RuntimeError('parser failed: ' + r.stderr.decode('utf8', 'replace'))
            with open(tmp) as fh:
                res = json.load(fh)
        finally:
            os.unlink(tmp)
        for f, p in todo.items():
            out[f] = res[f]
            t = '%s.%d' % (p, os.getpid())
            with open(t, 'w') as fh:
                json.dump(res[f], fh)
            os.replace(t, p)
    return {f: (('error', j['error']) if 'error' in j and 't' not in j else conv(j)) for f, j in out.items()}
