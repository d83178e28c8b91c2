"""Make and validate a planted bug from a definition file, in a scratch copy.

plant.py DEF.py            write seeded/<id>/, validate in a scratch copy
plant.py DEF.py CHECK...   and run the checks (quick) against the mutant
"""
import json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('REPO', '/repo')
PY = '/opt/venv/bin/python'


def run(cmd, cwd, tree, timeout=900, **env):
    e = dict(os.environ, PYTHONPATH=tree, PYTHONDONTWRITEBYTECODE='1', **env)
    return subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)


def tests(tree):
    work = tempfile.mkdtemp(prefix='plant_t_')
    base = json.load(open('/opt/vp/BASELINE.json'))['stable']
    s = open('/opt/vp/test.sh').read().replace('/repo', tree)
    f = os.path.join(work, 't.sh')
    open(f, 'w').write(s)
    run(['bash', f, os.path.join(work, 'o.json')], tree, tree)
    d = json.load(open(os.path.join(work, 'o.json')))
    passed = set(d['passed']) if isinstance(d['passed'], list) else {k for (k, v) in d['passed'].items() if v}
    shutil.rmtree(work)
    return [t for t in base if t not in passed]


def main():
    ns = {}
    exec(compile(open(sys.argv[1]).read(), sys.argv[1], 'exec'), ns)
    bid = ns['ID']
    tree = '/tmp/pl_%s' % bid
    subprocess.run(['rm', '-rf', tree])
    subprocess.run(['cp', '-a', REPO, tree], check=True)
    try:
        out = os.path.join(ROOT, 'seeded', bid)
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, 'demo.sh'), 'w').write('#!/bin/bash\n# exits 0 when the property holds in the demonstrated case\n'
                                                      'exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(out, 'demo.sh'), 0o755)
        open(os.path.join(out, 'demo.py'), 'w').write(ns['DEMO'].lstrip('\n'))
        json.dump(ns['META'], open(os.path.join(out, 'meta.json'), 'w'), indent=1)
        r = run(['bash', out + '/demo.sh'], tree, tree)
        print('demo, unchanged:', r.returncode, r.stdout[-300:] if r.returncode else '')
        for (f, a, b) in ns['PATCH']:
            p = os.path.join(tree, f)
            s = open(p).read()
            assert s.count(a) == 1, (f, s.count(a), a)
            open(p, 'w').write(s.replace(a, b))
        d = subprocess.run(['git', '-C', tree, 'diff'], stdout=subprocess.PIPE, text=True).stdout
        open(os.path.join(out, 'patch.diff'), 'w').write(d)
        r = run(['bash', out + '/demo.sh'], tree, tree)
        print('demo, planted:', r.returncode, r.stdout.strip().split('\n')[-1][:300])
        if '--notest' not in sys.argv:
            print('tests failing:', tests(tree))
        for c in sys.argv[2:]:
            if c.startswith('--'):
                continue
            r = run(['./run', c, 'quick'], ROOT, tree)
            v = [l for l in r.stdout.split('\n') if 'VIOLATION' in l]
            print(c, 'exit', r.returncode, v[:1], r.stdout.strip().split('\n')[-1][:200])
    finally:
        subprocess.run(['rm', '-rf', tree])
main()
