"""try.py [bug ...]: run the check of each planted bug's property on a scratch copy of /repo with the bug in it."""
import json, os, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, 'seeded')
args = [a for a in sys.argv[1:] if not a.startswith('-')]
extra = [a[1:] for a in sys.argv[1:] if a.startswith('-C')]
for bug in args or sorted(os.listdir(S)):
    meta = json.load(open(os.path.join(S, bug, 'meta.json')))
    work = tempfile.mkdtemp(prefix='try_')
    try:
        copy = os.path.join(work, 'repo')
        shutil.copytree('/repo', copy, symlinks=True)
        subprocess.run(['git', 'apply', os.path.join(S, bug, 'patch.diff')], cwd=copy, check=True)
        for prop in extra or [meta['property']]:
            t = time.time()
            p = subprocess.run([sys.executable, os.path.join(V, 'harness', 'check.py'), prop], cwd=V, capture_output=True, text=True,
                               env=dict(os.environ, KIUTILS_REPO=copy, VERIF_SEED=os.environ.get('VERIF_SEED', '1'), VERIF_TIER='quick'))
            lines = p.stdout.splitlines()
            first = next((lines[i + 1].strip() for i, l in enumerate(lines) if l.startswith('VIOLATION')), p.stderr[-300:] if p.returncode > 1 else '')
            print(f'{bug:32} {prop} {"caught" if p.returncode == 1 else "MISSED" if p.returncode == 0 else "BROKEN"} {time.time() - t:.0f} s  {first[:150]}', flush=True)
    finally:
        shutil.rmtree(work, ignore_errors=True)
