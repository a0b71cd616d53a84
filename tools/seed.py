"""Plant a bug: seed.py ID PROPERTY SPECFILE
SPECFILE (python): EDITS=[(file, old, new)...], NEEDS, BREAKS, DEMO (python source of the
demonstration). Builds /verif/seeded/ID after confirming everything in a scratch copy."""
import json, os, shutil, subprocess, sys, tempfile
bid, prop, spec = sys.argv[1:4]
ns = {}
exec(open(spec).read(), ns)
d = tempfile.mkdtemp(prefix='seed-')
try:
    w = os.path.join(d, 'repo')
    subprocess.check_call(['cp', '-a', '/repo', w])
    subprocess.check_call(['git', '-C', w, 'checkout', '-q', '--', '.'])
    base = subprocess.check_output(['git', '-C', w, 'log', '--reverse', '--format=%H'], text=True).split()
    for f, a, b in ns['EDITS']:
        p = os.path.join(w, f)
        s = open(p).read()
        assert s.count(a) == 1, (f, s.count(a), a)
        open(p, 'w').write(s.replace(a, b))
    diff = subprocess.check_output(['git', '-C', w, 'diff'], text=True)
    out = os.path.join('/verif/seeded', bid)
    os.makedirs(out, exist_ok=True)
    open(os.path.join(out, 'patch.diff'), 'w').write(diff)
    open(os.path.join(out, 'demo.py'), 'w').write(ns['DEMO'].lstrip('\n'))
    with open(os.path.join(out, 'demo.sh'), 'w') as f:
        f.write('#!/bin/bash\n# exit 0: property holds; nonzero: broken\n'
                'export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONPATH="$PWD"\n'
                'exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    os.chmod(os.path.join(out, 'demo.sh'), 0o755)
    json.dump(dict(property=prop, needs=ns['NEEDS'], what_it_breaks=ns['BREAKS']),
              open(os.path.join(out, 'meta.json'), 'w'), indent=1)
    good = subprocess.run(['bash', os.path.join(out, 'demo.sh')], cwd='/repo', stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    bad = subprocess.run(['bash', os.path.join(out, 'demo.sh')], cwd=w, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    t = subprocess.run(['/opt/venv/bin/python', '-W', 'ignore', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', 'menpofit/transform'], cwd=w,
                       env=dict(os.environ, PYTHONPATH=w, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg'),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    # changed lines belong to the original repository
    print('good', good.returncode, good.stdout[-600:])
    print('bad', bad.returncode, bad.stdout[-400:])
    print('tests', t.stdout.strip().splitlines()[-1])
    ok = good.returncode == 0 and bad.returncode != 0 and ' failed' not in t.stdout
    print('OK' if ok else 'REJECTED')
    if not ok and '--keep' not in sys.argv:
        shutil.rmtree(out)
finally:
    shutil.rmtree(d, ignore_errors=True)
