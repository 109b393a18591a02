"""Plant a bug: plant.py SPEC.py ... where SPEC defines id, property, edits = [(file, old, new)], demo (Python text), needs, breaks.

Works in a scratch copy of /repo; keeps the bug under /verif/seeded/<id>/ once the copy builds, the stable tests pass with it, and the
demonstration passes without and fails with it."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
STABLE = None


def sh(cmd, cwd, env=None, timeout=300):
    return subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout)


def tests(cwd):
    """The repository's own tests, on the copy."""
    p = sh([PY, '-m', 'pytest', '-q', '-x', '--no-header', '-p', 'no:cacheprovider', 'tests'] if False else [PY, '-m', 'unittest', 'discover', '-s', 'tests'], cwd,
           env=dict(os.environ, PYTHONPATH=os.path.join(cwd, 'src'), PYTHONDONTWRITEBYTECODE='1'))
    return p.stdout + p.stderr


def plant(spec):
    ns = {}
    exec(open(spec).read(), ns)
    for bug in ns['BUGS']:
        one(bug)


def one(b):
    work = tempfile.mkdtemp(prefix='plant_')
    try:
        copy = os.path.join(work, 'repo')
        shutil.copytree('/repo', copy, symlinks=True)
        for f, old, new in b['edits']:
            p = os.path.join(copy, f)
            s = open(p, newline='').read()
            if s.count(old) != 1:
                print(f'{b["id"]}: SKIPPED, text occurs {s.count(old)} times in {f}: {old!r}')
                return
            open(p, 'w', newline='').write(s.replace(old, new))
        diff = sh(['git', 'diff'], copy).stdout
        demo_dir = os.path.join(work, 'demo')
        os.mkdir(demo_dir)
        open(os.path.join(demo_dir, 'demo.py'), 'w').write(b['demo'])
        open(os.path.join(demo_dir, 'demo.sh'), 'w').write(
            '#!/bin/bash\n# run in the repository; exit 0 iff the property holds on the demonstrated input\n'
            'here="$(cd "$(dirname "$0")" && pwd)"\nexport PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1\n'
            'exec /opt/venv/bin/python "$here/demo.py"\n')
        good = sh(['bash', os.path.join(demo_dir, 'demo.sh')], '/repo')
        bad = sh(['bash', os.path.join(demo_dir, 'demo.sh')], copy)
        if good.returncode != 0 or bad.returncode == 0:
            print(f'{b["id"]}: SKIPPED, demo gives {good.returncode} without and {bad.returncode} with the change\n{good.stderr[-600:]}{bad.stdout[-200:]}')
            return
        if b.get('tests', True):
            t0, t1 = base_tests(), failing(tests(copy))
            if t1 != t0:
                print(f'{b["id"]}: SKIPPED, tests differ: {sorted(t1 ^ t0)[:5]}')
                return
        out = os.path.join(V, 'seeded', b['id'])
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        open(os.path.join(out, 'patch.diff'), 'w').write(diff)
        for f in ('demo.py', 'demo.sh'):
            shutil.copy(os.path.join(demo_dir, f), out)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(os.path.join(out, 'meta.json'), 'w'), indent=1)
        print(f'{b["id"]}: kept ({b["property"]}); demo says {bad.stderr.strip().splitlines()[-1:] or bad.stdout.strip()[-100:]}')
    finally:
        shutil.rmtree(work, ignore_errors=True)


def failing(text):
    return {l for l in text.splitlines() if l.startswith(('FAIL:', 'ERROR:'))}


def base_tests():
    global STABLE
    if STABLE is None:
        work = tempfile.mkdtemp(prefix='plant_')
        copy = os.path.join(work, 'repo')
        shutil.copytree('/repo', copy, symlinks=True)
        STABLE = failing(tests(copy))
        shutil.rmtree(work, ignore_errors=True)
    return STABLE


if __name__ == '__main__':
    for s in sys.argv[1:]:
        plant(s)
