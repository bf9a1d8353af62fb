#!/opt/venv/bin/python
"""run_check.py <ID> [--tier quick|thorough] | run_check.py --replay FILE

Decides one property by symbolic execution of /repo's current source."""
import os, sys
os.environ.setdefault('MPLBACKEND', 'Agg')
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    os.environ.setdefault('MPLCONFIGDIR', os.path.join('/tmp', 'sx-mpl-%d' % os.getuid()))
    os.execv(sys.executable, [sys.executable, '-W', 'ignore'] + sys.argv)
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import faulthandler, importlib, json, multiprocessing as mp, subprocess, time, hashlib, traceback
import warnings
warnings.simplefilter('ignore')
sys.setrecursionlimit(5000)


def load(pid):
    return importlib.import_module('checks.' + pid)


SLOW = mp.get_context('fork').Value('i', 0)       # cases whose full-width exploration took too long


def run_case(a):
    pid, tier, name = a
    from symx import engine, loader
    m = load(pid)
    fn, kw = m.cases(tier)[name]
    t0 = time.time()

    def patience():
        return (60 if SLOW.value < 8 else 10) * (1 if tier == 'quick' else 15)
    try:
        ex = engine.Explorer(fn, **dict(dict(patience=patience), **dict(getattr(m, 'OPTS', {}), **kw))).run()
        if ex.reduced:
            with SLOW.get_lock():
                SLOW.value += 1
    except BaseException:
        return dict(name=name, crash=traceback.format_exc())
    return dict(name=name, stats=ex.stats, violations=ex.violations, unconfirmed=ex.unconfirmed, unknown=ex.unknown,
                incomplete=ex.incomplete, notes=ex.notes, labels=ex.labels, samples=ex.samples, errors=ex.errors,
                funcs=sorted(loader.FUNCS), wall=time.time() - t0)


def replay(path):
    from symx import engine
    d = json.load(open(path))
    m = load(d['property'])
    cs = m.cases('thorough')
    cs.update(m.cases('quick'))
    fn, kw = cs[d['case']]
    r = engine.concrete(fn, d['inputs'])
    if r and r[0] == 'violation':
        print('reproduced: property=%s case=%s label=%s\n  %s\n  inputs=%s' % (d['property'], d['case'], r[1], r[2], d['inputs']))
        return 1
    print('not reproduced: %s' % (r,))
    return 0


def known_findings(pid):
    out = []
    p = os.path.join(HERE, 'known_findings.json')
    if os.path.exists(p):
        for e in json.load(open(p)).get('findings', []):
            if e['property'] == pid:
                out.append(e)
    return out


def main():
    if sys.argv[1] == '--replay':
        return replay(sys.argv[2])
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    only = sys.argv[sys.argv.index('--case') + 1] if '--case' in sys.argv else None
    t0 = time.time()
    m = load(pid)
    cases = m.cases(tier)
    names = [n for n in cases if only is None or only == n]
    # heavy third-party imports happen once, before the workers are forked
    from symx import engine, loader
    loader.begin(symbolic=False)
    for mod in getattr(m, 'PRELOAD', ['problem', 'model', 'connection']):
        with engine.quiet():
            loader.get('src.sloth.' + mod)
    if len(names) > 1 and '--serial' not in sys.argv:
        res = []
        with mp.get_context('fork').Pool(min(8, len(names)), maxtasksperchild=1) as pool:
            it = pool.imap_unordered(run_case, [(pid, tier, n) for n in names], chunksize=1)
            limit = t0 + (780 if tier == 'quick' else 6 * 3600)
            try:
                while len(res) < len(names):
                    r = it.next(timeout=max(0.1, limit - time.time()))
                    res.append(r)
                    if r.get('violations') and limit > time.time() + 20:
                        limit = time.time() + 20      # the answer is known; the remaining cases are only worth a moment
            except mp.TimeoutError:
                pool.terminate()
                done = set(r['name'] for r in res)
                left = [n for n in names if n not in done]
                if not any(r.get('violations') for r in res):
                    res.append(dict(name='*', crash='time limit; cases without an answer: %s' % left[:10]))
        res.sort(key=lambda r: r['name'])
    else:
        res = [run_case((pid, tier, n)) for n in names]
    bad = []          # reasons for "no answer"
    viol = []
    tot = {}
    labels, funcs, notes, incomplete = {}, set(), {}, {}
    samples = []
    for r in res:
        if 'crash' in r:
            bad.append('case %s crashed the engine: %s' % (r['name'], r['crash']))
            continue
        for k, v in r['stats'].items():
            tot[k] = tot.get(k, 0) + v
        for k, v in r['labels'].items():
            labels[k] = labels.get(k, 0) + v
        funcs.update(r['funcs'])
        for k, v in r['notes'].items():
            notes[k] = notes.get(k, 0) + v
        for k, v in r['incomplete'].items():
            incomplete[r['name'] + ': ' + k] = v
        for s in r['samples'][:1]:
            samples.append(dict(case=r['name'], inputs=s))
        for e in r['errors']:
            bad.append('%s: %s' % (r['name'], e))
        for u in r['unknown']:
            bad.append('%s: solver unknown on %s' % (r['name'], u))
        for u in r['unconfirmed']:
            bad.append('%s: counterexample did not reproduce: %s' % (r['name'], u))
        for v in r['violations']:
            viol.append(dict(v, case=r['name']))
        if r['stats']['obligations'] == 0 and not r['violations']:
            bad.append('%s: vacuous (no obligation reached)' % r['name'])
    known = known_findings(pid)
    hit, new = [], []
    for v in viol:
        k = [e for e in known if e['case'] == v['case'] and e['label'] == v['label']]
        (hit if k else new).append(v)
    lines = []
    for v in new:
        if len(lines) >= 3:
            break               # enough confirmed violations to report
        d = dict(property=pid, case=v['case'], label=v['label'], inputs=v['inputs'], detail=str(v['detail']), repo_head='working tree')
        h = hashlib.sha1(json.dumps([pid, v['case'], v['label']]).encode()).hexdigest()[:10]
        rd = os.path.join(HERE, 'evidence', 'replays')
        os.makedirs(rd, exist_ok=True)
        p = os.path.join(rd, '%s-%s.json' % (pid, h))
        json.dump(d, open(p, 'w'), indent=1)
        q = subprocess.run([sys.executable, os.path.abspath(__file__), '--replay', p], cwd=HERE, capture_output=True, text=True)
        if q.returncode == 1 and 'reproduced' in q.stdout:
            lines.append('VIOLATION property=%s replay=%s' % (pid, p))
            print('  case=%s label=%s detail=%s inputs=%s' % (v['case'], v['label'], v['detail'], v['inputs']))
        else:
            bad.append('replay in a fresh process did not reproduce: %s\n%s' % (q.stdout, q.stderr[-2000:]))
    for e in known:
        if any(e['case'] == v['case'] and e['label'] == v['label'] for v in hit):
            print('KNOWN-FINDING: property=%s %s' % (pid, e['what']))
    lp = os.path.join(HERE, 'checks', 'labels.json')
    exp = json.load(open(lp)).get(pid + ':' + tier, []) if os.path.exists(lp) else []
    miss = sorted(set(exp) - set(labels))
    if miss and not viol and not only:
        bad.append('assertions never reached: %s' % miss[:10])
    wall = time.time() - t0
    ev = dict(property=pid, tier=tier, seed=seed, level='model_checking', wall_s=round(wall, 2),
              coverage=dict(states=max(1, int(tot.get('paths', 0))), transitions=int(tot.get('branches', 0) + tot.get('obligations', 0)),
                            traces_validated_against_impl=int(tot.get('witnesses', 0)), samples=samples[:20]),
              meaning='states = complete symbolic paths through the real code; transitions = two-sided solver-decided branches plus assertions decided; traces_validated = concrete runs of the untransformed code on a model of each path',
              bounds=getattr(m, 'BOUNDS', ''), assumptions=getattr(m, 'ASSUMES', []),
              obligations=int(tot.get('obligations', 0)), discharged=int(tot.get('discharged', 0)),
              discharged_by_solver_query=int(tot.get('discharged_by_solver', 0)), queries=int(tot.get('queries', 0)),
              solver='z3', solver_time_s=round(tot.get('solver_s', 0.0), 2), infeasible_paths=int(tot.get('aborted', 0)),
              functions_encoded=sorted(funcs), assertions_reached=labels, cases=len(names),
              incomplete=incomplete, notes=notes, violations=[dict(case=v['case'], label=v['label']) for v in new],
              known_findings=[dict(case=v['case'], label=v['label']) for v in hit], inconclusive=bad)
    if not only:
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1, default=str)
    for l in lines:
        print(l)
    print('%s %s: %d cases, %d paths, %d obligations (%d by solver query), %d queries, %.1fs solver, %d witnesses, %d functions, %d incomplete, %.1fs' % (
        pid, tier, len(names), tot.get('paths', 0), tot.get('obligations', 0), tot.get('discharged_by_solver', 0), tot.get('queries', 0), tot.get('solver_s', 0.0), tot.get('witnesses', 0), len(funcs), len(incomplete), wall))
    for k in sorted(incomplete):
        if 'budget exhausted' in k:
            print('NOT EXPLORED COMPLETELY: ' + k)
    if incomplete and os.environ.get('SX_VERBOSE'):
        print('incomplete:', json.dumps(incomplete, indent=1))
    if notes and os.environ.get('SX_VERBOSE'):
        print('notes:', notes)
    if '--record-labels' in sys.argv and not viol:
        al = json.load(open(lp)) if os.path.exists(lp) else {}
        al[pid + ':' + tier] = sorted(labels)
        json.dump(al, open(lp, 'w'), indent=0, sort_keys=True)
    if lines:
        return 1
    if bad:
        print('INCONCLUSIVE:\n  ' + '\n  '.join(bad))
        return 2
    return 0


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
