"""Plants and confirms bugs.  seed_tool.py add SPEC.py...   creates /verif/seeded/<id>/ from a spec
file (ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO=python text) after confirming it;
seed_tool.py run [ID...] [--all-checks]   applies each bug to /repo, runs its property's check (or all), undoes it."""
import json, os, runpy, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
PRE = '''import os, sys, types, warnings
warnings.simplefilter('ignore')
os.environ['MPLBACKEND'] = 'Agg'
sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())
# assimulo is not installed here: an inert stand-in lets the modules that mention it import
for n in ('assimulo', 'assimulo.solvers', 'assimulo.problem'):
    sys.modules[n] = types.ModuleType(n)
for n in ('IDA', 'Radau5DAE', 'CVode', 'Implicit_Problem', 'Explicit_Problem'):
    for m in ('assimulo.solvers', 'assimulo.problem'):
        setattr(sys.modules[m], n, type(n, (), {}))
'''
SH = '#!/bin/bash\nexec /opt/venv/bin/python -W ignore "$(cd "$(dirname "$0")" && pwd)/demo.py"\n'


def sh(*a, **k):
    return subprocess.run(list(a), capture_output=True, text=True, **k)


def stable():
    f = tempfile.mktemp(suffix='.json')
    r = sh('bash', '/opt/vp/test.sh', f)
    base = json.load(open('/opt/vp/BASELINE.json'))
    got = json.load(open(f))
    os.remove(f)
    sh('git', '-C', REPO, 'checkout', '-q', '--', 'test_plot.png')
    def passed(d):
        for k in ('pass', 'passed', 'stable', 'tests'):
            if k in d:
                v = d[k]
                return set(v if isinstance(v, list) else [n for n, s in v.items() if s in (True, 'pass', 'passed')])
        return set(n for n, s in d.items() if s in (True, 'pass', 'passed'))
    return passed(base), passed(got)


def clean():
    assert not sh('git', '-C', REPO, 'status', '--short').stdout.strip(), 'repo not clean'


def revert():
    sh('git', '-C', REPO, 'checkout', '-q', '--', '.')


def add(path):
    s = runpy.run_path(path)
    clean()
    d = os.path.join(HERE, 'seeded', s['ID'])
    tmp = tempfile.mkdtemp()
    try:
        open(tmp + '/demo.py', 'w').write(PRE + s['DEMO'])
        open(tmp + '/demo.sh', 'w').write(SH)
        r = sh('bash', tmp + '/demo.sh', cwd=REPO)
        if r.returncode != 0:
            return print(s['ID'], 'REFUSED: demo fails on the unchanged tree', r.stdout[-1500:], r.stderr[-1500:])
        base = set(l for f, _, _ in s['EDITS'] for l in sh('git', '-C', REPO, 'show', '6132d8d:' + f).stdout.splitlines())
        for f, old, new in s['EDITS']:
            t = open(os.path.join(REPO, f)).read()
            if t.count(old) != 1:
                return print(s['ID'], 'REFUSED: %d matches in %s of %r' % (t.count(old), f, old))
            open(os.path.join(REPO, f), 'w').write(t.replace(old, new))
        diff = sh('git', '-C', REPO, 'diff').stdout
        for l in diff.splitlines():
            if l.startswith('-') and not l.startswith('---') and l[1:].strip() and l[1:] not in base:
                print(s['ID'], 'note: changes a line that is not in the original:', l)
        b = sh('bash', '/opt/vp/build.sh')
        want, got = stable()
        r = sh('bash', tmp + '/demo.sh', cwd=REPO)
        ok = b.returncode == 0 and want <= got and want and r.returncode != 0
        print(s['ID'], 'build', b.returncode, 'missing tests', want - got, 'demo', r.returncode, (r.stdout + r.stderr).strip().splitlines()[-1:])
        if ok:
            os.makedirs(d, exist_ok=True)
            open(d + '/patch.diff', 'w').write(diff)
            for n in ('demo.py', 'demo.sh'):
                shutil.copy(tmp + '/' + n, d)
            json.dump(dict(property=s['PROPERTY'], needs=s['NEEDS'], what_it_breaks=s['BREAKS']), open(d + '/meta.json', 'w'), indent=1)
        else:
            print(s['ID'], 'REFUSED', b.stderr[-500:])
    finally:
        revert()
        shutil.rmtree(tmp)


def run(ids, allchecks=False):
    root = os.path.join(HERE, 'seeded')
    checks = [c['property'] for c in json.load(open(HERE + '/MANIFEST.json'))['checks']]
    clean()
    for i in ids or sorted(os.listdir(root)):
        meta = json.load(open(os.path.join(root, i, 'meta.json')))
        a = sh('git', '-C', REPO, 'apply', os.path.join(root, i, 'patch.diff'))
        if a.returncode:
            print(i, 'DOES NOT APPLY', a.stderr)
            continue
        try:
            out = []
            for c in checks if allchecks else [meta['property']]:
                r = sh('/opt/venv/bin/python', 'run_check.py', c, cwd=HERE)
                v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
                if allchecks and r.returncode == 0:
                    continue
                out.append('%s rc=%d violations=%d%s' % (c, r.returncode, len(v), '' if r.returncode < 2 else ' ' + r.stdout[-600:]))
            print(i, meta['property'], '; '.join(out), flush=True)
        finally:
            revert()


if __name__ == '__main__':
    if sys.argv[1] == 'add':
        for p in sys.argv[2:]:
            add(p)
    else:
        run([a for a in sys.argv[2:] if not a.startswith('--')], '--all-checks' in sys.argv)
