"""Plant one bug: make /verif/seeded/<id>/ from (file, old, new) edits and a demo.

usage in a script:  seed(id, prop, [(file, old, new)], demo_py, needs, breaks, tests=[...])
Works on a scratch copy of /repo; the demo is run on both trees.
"""
import json, os, shutil, subprocess, sys

ENV = dict(os.environ, HOME='/root', LANG='C.UTF-8', MPLBACKEND='Agg',
           MPLCONFIGDIR='/opt/venv/mplconfig', PYTHONDONTWRITEBYTECODE='1',
           OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')


def seed(sid, prop, edits, demo, needs, breaks, tests=()):
    d = '/verif/seeded/' + sid
    w = '/tmp/seedwork'
    shutil.rmtree(w, ignore_errors=True)
    subprocess.check_call(['cp', '-a', '/repo', w])
    subprocess.check_call(['git', '-C', w, 'checkout', '-q', '--', '.'])
    for fn, old, new in edits:
        p = os.path.join(w, fn)
        s = open(p).read()
        assert s.count(old) == 1, (fn, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    diff = subprocess.check_output(['git', '-C', w, 'diff'], text=True)
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.py', 'w').write(demo.lstrip('\n'))
    open(d + '/demo.sh', 'w').write(
        '#!/bin/bash\n# exit 0 on the unchanged tree, nonzero with patch.diff applied; run with cwd = the repository\n'
        'here=$(cd "$(dirname "$0")" && pwd)\n'
        'export MPLBACKEND=Agg MPLCONFIGDIR=/opt/venv/mplconfig PYTHONDONTWRITEBYTECODE=1\n'
        'export PYTHONPATH="$PWD${PYTHONPATH:+:$PYTHONPATH}"\n'
        'scratch=$(mktemp -d) || exit 3\ntrap \'rm -rf "$scratch"\' EXIT\nexport DEMO_SCRATCH="$scratch"\n'
        '/opt/venv/bin/python "$here/demo.py"\n')
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks},
              open(d + '/meta.json', 'w'), indent=1)
    r0 = subprocess.run(['bash', d + '/demo.sh'], cwd='/repo', env=ENV, capture_output=True, text=True)
    r1 = subprocess.run(['bash', d + '/demo.sh'], cwd=w, env=ENV, capture_output=True, text=True)
    print(sid, 'clean rc', r0.returncode, '| patched rc', r1.returncode)
    if r0.returncode:
        print((r0.stdout + r0.stderr)[-1500:])
    print('   ', (r1.stdout + r1.stderr).strip().splitlines()[-1:])
    if tests:
        e = dict(ENV, PYTHONPATH=w)
        t = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', *tests],
                           cwd=w, env=e, capture_output=True, text=True)
        print('    tests:', t.stdout.strip().splitlines()[-1:])
    shutil.rmtree(w, ignore_errors=True)


def run_check(sid, *checks):
    """Apply the planted bug to /repo, run checks, undo."""
    p = '/verif/seeded/%s/patch.diff' % sid
    subprocess.check_call(['git', '-C', '/repo', 'apply', p])
    try:
        for c in checks:
            r = subprocess.run(['/verif/check.sh', c], capture_output=True, text=True)
            v = [l for l in r.stdout.splitlines() if 'VIOLATION' in l]
            print(sid, c, 'rc', r.returncode, len(v), (v or [''])[0][:200])
    finally:
        subprocess.check_call(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
