"""Driver:  python3-vt -m dv.check PROPERTY   (run in /verif; tier from VERIF_TIER, seed from VERIF_SEED)"""
import importlib, json, multiprocessing, os, subprocess, sys, tempfile, threading, time, traceback, zlib

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
from dv import astload, harness  # noqa: E402

CORES = min(8, os.cpu_count() or 4)


def task_id(t):
    n, p = t
    return n + ('[' + ','.join('%s=%s' % (k, p[k]) for k in sorted(p)) + ']' if p else '')


def worker(args):
    specname, t, known, budget, rlimit = args
    try:
        spec = importlib.import_module('specs.' + specname)
        return harness.run_task(spec, t[0], t[1], known, budget, rlimit)
    except BaseException as e:
        return {'harness': t[0], 'params': t[1], 'error': 'internal: ' + repr(e), 'labels': {}, 'refuted': [],
                'witness': {}, 'assumed': [], 'known': {}, 'smt_time': 0, 'backends': {}, 'stats': {}, 'funcs': [],
                'contracts': [], 'wall': 0, 'bounded': False, 'trace': traceback.format_exc()[-2000:]}


def prove_all(specname, tasks, known, budget, rlimit, wall):
    """run every task in its own process, at most CORES at a time, with a hard wall limit"""
    ctx = multiprocessing.get_context('fork')
    todo = list(enumerate(tasks))
    running, res = {}, {}
    end = time.time() + wall
    while todo or running:
        while todo and len(running) < CORES:
            i, t = todo.pop(0)
            rd, wr = ctx.Pipe(False)
            p = ctx.Process(target=lambda wr=wr, t=t: wr.send(worker((specname, t, known, budget, rlimit))))
            p.start()
            wr.close()
            running[i] = (p, rd, time.time(), t)
        time.sleep(0.02)
        for i, (p, rd, t0, t) in list(running.items()):
            got = None
            if rd.poll():
                try:
                    got = rd.recv()
                except EOFError:
                    got = {'error': 'prover process died'}
            elif not p.is_alive():
                got = {'error': 'prover process died'}
            elif time.time() > end or time.time() - t0 > budget * 1.5 + 30:
                p.kill()
                got = {'error': 'time budget exhausted'}
            if got is not None:
                p.join()
                del running[i]
                for k, v in (('harness', t[0]), ('params', t[1]), ('labels', {}), ('refuted', []), ('witness', {}),
                             ('assumed', []), ('known', {}), ('smt_time', 0), ('backends', {}), ('stats', {}),
                             ('funcs', []), ('contracts', []), ('wall', time.time() - t0), ('bounded', False)):
                    got.setdefault(k, v)
                res[i] = got
    return [res[i] for i in range(len(tasks))]


def jython(specname, tasks, known, stubs, timeout):
    """run concrete tasks under Jython, split over a few JVMs"""
    if not tasks:
        return []
    n = min(4, max(1, len(tasks) // 6 + 1))
    chunks = [list(range(k, len(tasks), n)) for k in range(n)]
    out, errs = [None] * len(tasks), []
    end = time.time() + timeout
    d = tempfile.mkdtemp(prefix='dv-jy-')
    env = astload.jy_env()
    env['JDK_JAVA_OPTIONS'] = '-Xss64m -XX:ParallelGCThreads=2 -XX:CICompilerCount=2'

    def run(k):
        c, turn = chunks[k], 0
        while c and time.time() < end and turn < 4:
            turn += 1
            rq, rs = os.path.join(d, 'q%d.%d' % (k, turn)), os.path.join(d, 'r%d.%d' % (k, turn))
            with open(rq, 'w') as f:
                json.dump({'spec': specname, 'tasks': [tasks[i] for i in c], 'known': known, 'stubs': stubs}, f)
            pr = subprocess.Popen([astload.JY, '-B', os.path.join(HERE, 'jyrun.py'), rq, rs], env=env, cwd=d,
                                  stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
            try:
                _, e = pr.communicate(timeout=max(1, end - time.time()))
                errs.append(e.decode('utf8', 'replace')[-800:])
            except subprocess.TimeoutExpired:
                pr.kill()
                pr.communicate()
                errs.append('timeout ')
            got = []
            if os.path.exists(rs):
                with open(rs) as f:
                    for line in f:
                        try:
                            got.append(json.loads(line))
                        except ValueError:
                            break
            for i, r in zip(c, got):
                out[i] = r
            if not got or not got[-1].get('hang'):
                break               # finished, or broken: only a run that does not end is skipped over
            c = c[len(got):]
    try:
        ts = [threading.Thread(target=run, args=(k,)) for k in range(n)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        err = ''.join(errs)
        for i, o in enumerate(out):
            if o is None:
                out[i] = {'status': 'lost', 'error': err, 'failed': [], 'passed': [], 'known': [], 'lost': True,
                          'runs': 0, 'discard': 0, 'errors': 0, 'evals': 0, 'fail': None, 'distinct': 0}
    finally:
        for x in os.listdir(d):
            os.unlink(os.path.join(d, x))
        os.rmdir(d)
    return out


def in_quick(spec, t):
    o = spec.HARNESSES[t[0]].opts
    return o.get('tier', 'quick') == 'quick' and ('quick' not in o or o['quick'](**t[1]))


def weight(spec, name, params):
    w = spec.HARNESSES[name].opts.get('weight', 1)
    return w(**{k: v for k, v in params.items() if k[:1] != '_'}) if callable(w) else w


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    specname = pid.lower()
    spec = importlib.import_module('specs.' + specname)
    known_all = [k for k in json.load(open(os.path.join(ROOT, 'known_findings.json')))['findings']
                 if k['property'] == pid]
    known = [k['id'] for k in known_all]
    stubs = bool(getattr(spec, 'STUBS', False))
    thorough = tier == 'thorough'
    only = os.environ.get('DV_ONLY')
    tasks = [t for t in spec.TASKS if (thorough or in_quick(spec, t))
             and (not only or t[0] in only.split(','))]
    budget = float(os.environ.get('DV_BUDGET', 600 if thorough else 200))
    wall = 5000 if thorough else 480
    # parse everything once before forking
    files = []
    for dp, dn, fn in os.walk(os.path.join(astload.REPO, 'bglib')):
        files += [os.path.join(dp, f) for f in fn if f.endswith('.py') and not f.endswith('_test.py')]
    astload.load(sorted(files))
    order = sorted(range(len(tasks)), key=lambda i: -weight(spec, *tasks[i]))
    ptasks = [tasks[i] for i in order if not spec.HARNESSES[tasks[i][0]].opts.get('concrete_only')]
    results = prove_all(specname, ptasks, known, budget, 60000000 if thorough else 30000000, wall)

    # concrete side: replay counterexamples and one witness per obligation, then a bounded search
    jt, meta = [], []
    for r in results:
        op = spec.HARNESSES[r['harness']].opts
        if op.get('replay', True) is False:
            continue
        for x in r['refuted']:
            if x['inputs'] is not None:
                jt.append({'harness': r['harness'], 'params': r['params'], 'mode': 'replay', 'inputs': x['inputs'],
                           'history': x.get('history')})
                meta.append(('cex', r, x))
        seen = []
        for lab, w in r['witness'].items():
            if w not in seen:
                seen.append(w)
                jt.append({'harness': r['harness'], 'params': r['params'], 'mode': 'replay', 'inputs': w})
                meta.append(('wit', r, {'label': lab, 'inputs': w}))
    nrand = getattr(spec, 'RANDOM', 300) * (20 if thorough else 1)
    secs = (240.0 if thorough else 40.0) / max(1, len(tasks)) * 4
    # where the proof does not reach (undecided, or state carried from call to call), the bounded search goes deeper
    deeper = set(task_id((r['harness'], r['params'])) for r in results if r['error'] or r.get('written'))
    for i, t in enumerate(tasks):
        op = spec.HARNESSES[t[0]].opts
        if op.get('replay', True) is False or op.get('random', True) is False:
            continue
        near = [p for n, p in tasks if n == t[0] and sum([p[k] != t[1][k] for k in p]) == 1][:6]
        more = 10 if task_id(t) in deeper and len(deeper) <= 40 else 1
        jt.append({'harness': t[0], 'params': t[1], 'mode': 'random', 'n': int(nrand * op.get('runs', 1)) * more,
                   'seed': (seed * 1000003 + zlib.crc32(task_id(t).encode())) & 0x7fffffff,
                   'siblings': near, 'seconds': max(1.0, secs) * (3 if more > 1 else 1)})
        meta.append(('rnd', {'harness': t[0], 'params': t[1]}, None))
    jres = jython(specname, jt, known, stubs, 900 if thorough else 240)

    violations, notes, known_hit = [], [], set()
    cex_conf, cex_spurious = [], []
    hangs = []
    runs = evals = distinct = disc = errors = wit_n = lost = 0
    for (kind, r, x), o in zip(meta, jres):
        tid = task_id((r['harness'], r['params']))
        if o.get('hang'):
            hangs.append(dict(o['hang'], mode='replay'))
        if o.get('lost'):
            lost += 1
            if not any(n.startswith('concrete run lost') for n in notes):
                notes.append('concrete run lost: %s %s' % (tid, (o.get('error') or '')[-300:]))
            continue
        if kind == 'rnd':
            if os.environ.get('DV_VERBOSE') and o['discard'] > 0.5 * o['runs']:
                print('  mostly discarded in the search: %s %d/%d' % (tid, o['discard'], o['runs']))
            runs += o['runs']; evals += o['evals']; distinct += o['distinct']; disc += o['discard']
            known_hit.update(o['known'])
            if o['fail']:
                violations.append({'harness': r['harness'], 'params': o['fail']['params'], 'label': o['fail']['label'],
                                   'inputs': o['fail']['inputs'], 'found_by': 'bounded search on the real code',
                                   'history': o['fail'].get('history'),
                                   'detail': o['fail'].get('tb')})
            if o['errors']:
                errors += o['errors']
                notes.append('harness error in bounded search: %s: %s' % (tid, (o['error'] or '')[-600:]))
        else:
            known_hit.update(o['known'])
            bad = o['failed']
            if kind == 'cex':
                if bad:
                    cex_conf.append(id(x))
                    violations.insert(0, {'harness': r['harness'], 'params': r['params'],
                                          'label': x['label'] if x['label'].split('run: ')[-1] in bad else bad[0],
                                          'inputs': x['inputs'], 'history': x.get('history') or o.get('history'),
                                          'found_by': 'verifier counterexample, replayed on the real code',
                                          'detail': o.get('tb') or o.get('error')})
                else:
                    cex_spurious.append((r, x, o))
            else:
                wit_n += 1
                if o['failed']:
                    violations.append({'harness': r['harness'], 'params': r['params'], 'label': o['failed'][0],
                                       'inputs': x['inputs'], 'found_by': 'reachability witness run on the real code',
                                       'history': o.get('history'),
                                       'detail': o.get('tb')})
    # runs that did not end: once more, in a process of their own
    for q in hangs[:1]:
        o = jython(specname, [q], known, stubs, 100)[0]
        if o.get('hang'):
            violations.append({'harness': q['harness'], 'params': q['params'], 'label': 'terminates', 'inputs': q['inputs'],
                               'found_by': 'bounded search on the real code: twice no answer within 45 s', 'detail': None})
    # refuted obligations whose counterexample does not fail on the real code
    unreplayed = []
    for r in results:
        op = spec.HARNESSES[r['harness']].opts
        for x in r['refuted']:
            if id(x) in cex_conf:
                continue
            sp = [o for rr, xx, o in cex_spurious if xx is x]
            # exact harness + exact inputs + real code agree: the evaluator, not the code, is off -> undecided
            exact = op.get('replay', True) is not False and not op.get('abstract') and not r['contracts'] and sp \
                and sp[0]['status'] in ('ok', 'error')
            if exact or x['label'] == 'uncaught':
                notes.append('spurious counterexample (undecided): %s/%s %s' %
                             (task_id((r['harness'], r['params'])), x['label'], x.get('trace', '')[-700:]))
            else:
                unreplayed.append({'harness': r['harness'], 'params': r['params'], 'label': x['label'],
                                   'inputs': x['inputs'], 'found_by': 'verifier, obligation refuted'})

    for kf in known_all:
        if any(kf['id'] in r['known'] for r in results):
            known_hit.add(kf['id'])

    # ---- summary
    ob = ok = unk = ref = bob = bok = 0
    per, funcs, contracts, assumed, be = [], set(), set(), set(), {}
    undecided = []
    smt = 0.0
    vac = []
    for r in results:
        tid = task_id((r['harness'], r['params']))
        n = sum(l['n'] for l in r['labels'].values())
        k = sum(l['ok'] for l in r['labels'].values())
        if r['bounded']:
            bob += n; bok += k
        else:
            ob += n; ok += k
        ref += sum(l['ref'] for l in r['labels'].values())
        unk += sum(l['unk'] for l in r['labels'].values())
        if r['error']:
            undecided.append('%s: %s' % (tid, r['error']))
            if not r['bounded']:
                ob += 1
        elif n == 0:
            vac.append(tid)
        if r['labels'] and not r['witness'] and not r['error']:
            vac.append(tid + ' (no reachable witness)')
        for lab, l in r['labels'].items():
            if l['unk']:
                undecided.append('%s/%s: solver gave no answer on %d of %d' % (tid, lab, l['unk'], l['n']))
        funcs.update(r['funcs']); contracts.update(r['contracts']); assumed.update(r['assumed'])
        for a, b in r['backends'].items():
            be[a] = be.get(a, 0) + b
        smt += r['smt_time']
        per.append({'harness': tid, 'obligations': n, 'discharged': k, 'paths': r['stats'].get('paths'),
                    'wall_s': round(r['wall'], 2), 'error': r['error'], 'bounded': r['bounded'],
                    'writes_shared_state': r.get('written') or [],
                    'labels': {a: [b['ok'], b['n']] for a, b in r['labels'].items()}})
    undecided += [n for n in notes if n.startswith('spurious')]
    if vac:
        undecided += ['vacuous: ' + v for v in vac]
    bfuncs = sorted(f for f in funcs if f.startswith('bglib'))
    cov = {'obligations': ob, 'discharged': ok,
           'bounded_obligations': bob, 'bounded_discharged': bok,
           'checker_cmd': 'python3-vt -m dv.check %s' % pid,
           'trusted_base': ['dv/interp.py + dv/builtins_.py (evaluator of the Python 2 subset; cross-checked by replaying '
                            'a witness of every obligation on the real code)',
                            'Jython 2.7 parser', 'z3 %s' % z3version(), 'cvc5 (fallback)',
                            'specs/%s.py (the contracts)' % specname],
           'functions_verified': bfuncs, 'contracts_used': sorted(contracts),
           'contracts_assumed_unverified': getattr(spec, 'TRUSTED', []),
           'solver': be, 'solver_time_s': round(smt, 2), 'harnesses': per,
           'refuted': ref, 'unknown': unk, 'undecided': undecided,
           'evaluations': runs, 'distinct_nontrivial': distinct, 'discarded': disc,
           'rule': 'bounded cross-check: harnesses on seeded random inputs under Jython on the real code; non-trivial = '
                   'distinct inputs satisfying the preconditions',
           'witnesses_replayed_on_real_code': wit_n, 'harness_errors': errors, 'notes': notes[:40]}
    level = getattr(spec, 'LEVEL', 'proof')
    if level == 'proof' and ob == 0:
        level = 'other'
    if level == 'other':
        cov['explanation'] = getattr(spec, 'EXPLANATION', 'bounded deductive check: see bounded_obligations')
    ev = {'property': pid, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed, 'level': level,
          'coverage': cov,
          'assumptions': sorted(assumed) + list(getattr(spec, 'ASSUMPTIONS', [])) +
          ['machine integers are mathematical integers (Python semantics); printed output is not modelled'],
          'wall_s': round(time.time() - t0, 2), 'violations': len(violations) + len(unreplayed)}
    evdir = os.environ.get('VERIF_OUT', os.path.join(ROOT, 'evidence'))
    os.makedirs(evdir, exist_ok=True)

    code = 0
    lines = []
    for kf in known_all:
        if kf['id'] in known_hit:
            lines.append('KNOWN-FINDING: property=%s %s' % (pid, kf['what']))
    if violations or unreplayed:
        code = 1
        v = violations[0] if violations else unreplayed[0]
        v['property'] = pid
        if violations and v.get('history'):
            # does it fail without the runs made before it in the same process?
            q = {'harness': v['harness'], 'params': v['params'], 'mode': 'replay', 'inputs': v['inputs']}
            if jython(specname, [q], known, stubs, 120)[0].get('failed'):
                v['history'] = None
            else:
                last = v['history'][-1:]
                if jython(specname, [dict(q, history=last)], known, stubs, 120)[0].get('failed'):
                    v['history'] = last
                v['found_by'] += ' (after the runs listed under history, in the same process)'
        v['replay_cmd'] = 'python3-vt -m dv.replay <this file>'
        rp = os.path.join(evdir, '%s.violation.json' % pid)
        if not violations:
            v['verifier_output'] = [p for p in per if p['harness'] == task_id((v['harness'], v['params']))]
        with open(rp, 'w') as f:
            json.dump(v, f, indent=1)
        ob_name = '%s/%s' % (task_id((v['harness'], v['params'])), v['label'])
        lines.append('failed obligation: %s (%s)' % (ob_name, v['found_by']))
        lines.append('VIOLATION property=%s replay=%s%s' % (pid, rp, '' if violations else ' no-failing-input-found'))
    with open(os.path.join(evdir, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s: %d/%d obligations discharged (+%d/%d bounded), %d functions, %d undecided, %d concrete runs, %.1fs'
          % (pid, tier, ok, ob, bok, bob, len(bfuncs), len(undecided), runs, time.time() - t0))
    for u in undecided[:10]:
        print('  undecided: ' + u)
    if os.environ.get('DV_VERBOSE'):
        for n in notes:
            print('  note: ' + n)
        for p in per:
            print('  %-60s %5d/%-5d paths=%s %.1fs %s' % (p['harness'], p['discharged'], p['obligations'], p['paths'],
                                                          p['wall_s'], p['error'] or ''))
        for r in results:
            if r.get('written'):
                print('  writes shared state: %s: %s' % (task_id((r['harness'], r['params'])), '; '.join(r['written'])[:200]))
        for v in violations[:8] + unreplayed[:8]:
            print('  violation: %s/%s %s\n    %s\n    %s' % (task_id((v['harness'], v['params'])), v['label'], v['found_by'],
                                                    json.dumps(dict((a, b) for a, b in (v['inputs'] or {}).items() if b))[:500], (v.get('detail') or '')[-500:]))
    for l in lines:
        print(l)
    sys.stdout.flush()
    sys.exit(code)


def z3version():
    import z3
    return z3.get_version_string()


if __name__ == '__main__':
    main()
