"""Development aid: verify planted bugs.  plant.py check NAME...  (in a scratch copy of /repo under /tmp)"""
import json, os, shutil, subprocess, sys

SEEDED = os.environ.get('SEEDDIR') or os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'seeded')


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def check(name, tests=True, prove=True):
    d = os.path.join(SEEDED, name)
    wt = '/tmp/plant_%s_%d' % (name, os.getpid())
    sh('cp -a /repo %s' % wt)
    try:
        demo = open(os.path.join(d, 'demo.sh')).read()
        tmp = wt + '_demo'
        shutil.copytree(d, tmp)
        open(tmp + '/demo.sh', 'w').write(demo.replace('/repo', wt))
        out = []
        r = sh('bash %s/demo.sh' % tmp, cwd=wt)
        out.append('clean=%d' % r.returncode)
        if r.returncode:
            out.append(r.stdout[-300:])
        r = sh('git apply %s/patch.diff' % d, cwd=wt)
        if r.returncode:
            return name + ' DOES NOT APPLY ' + r.stdout
        r = sh('bash %s/demo.sh' % tmp, cwd=wt)
        out.append('patched=%d' % r.returncode)
        if not r.returncode:
            out.append(r.stdout[-300:])
        shutil.rmtree(tmp)
        if tests:
            t = open('/opt/vp/test.sh').read().replace('/repo', wt)
            open(wt + '_t.sh', 'w').write(t)
            sh('bash %s_t.sh %s_o.json' % (wt, wt))
            base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
            got = set(json.load(open(wt + '_o.json'))['passed'])
            out.append('tests lost=%d %s' % (len(base - got), sorted(base - got)[:3]))
            os.remove(wt + '_t.sh'), os.remove(wt + '_o.json')
        if prove:
            p = json.load(open(os.path.join(d, 'meta.json')))['property']
            r = sh('VERIF_REPO=%s VERIF_OUT=%s_ev ./run %s' % (wt, wt, p), cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
            v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            out.append('check=%d %s | %s' % (r.returncode, (v or ['-'])[-1], r.stdout.splitlines()[0][:140]))
            shutil.rmtree(wt + '_ev', ignore_errors=True)
        return name + ': ' + '; '.join(out)
    finally:
        shutil.rmtree(wt, ignore_errors=True)


if __name__ == '__main__':
    for n in sys.argv[2:] or sorted(os.listdir(SEEDED)):
        print(check(n, 'notests' not in sys.argv[1], 'noprove' not in sys.argv[1]), flush=True)
