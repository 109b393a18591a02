"""Running TLC on the specification and collecting what it exports."""
import hashlib, json, os, re, shutil, subprocess, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')


class MachineryError(Exception):
    """The machinery itself failed (never a verdict about the code)."""


class Run:
    def __init__(self, states, generated, depth, exported, log):
        self.states, self.generated, self.depth = states, generated, depth
        self.exported, self.log = exported, log


def run(module, cfg, workers=8, timeout=800, args=(), files=None):
    """Run TLC on spec/<module>.tla with the given config text.

    Every invariant must hold: a violation of the specification's own laws is a failure of the
    machinery, because the specification does not depend on the code under test.
    """
    work = tempfile.mkdtemp(prefix='tlc_')
    try:
        for f in os.listdir(SPEC):
            if f.endswith('.tla'):
                shutil.copy(os.path.join(SPEC, f), work)
        for name, text in (files or {}).items():
            with open(os.path.join(work, name), 'w') as fh:
                fh.write(text)
        with open(os.path.join(work, 'run.cfg'), 'w') as fh:
            fh.write(cfg)
        env = dict(os.environ, JDK_JAVA_OPTIONS='-Xss512m')       # (deep recursion; of all threads, main included)
        cmd = ['tlc', '-workers', str(workers), '-metadir', os.path.join(work, 'meta'),
               '-noGenerateSpecTE', '-config', 'run.cfg', *args, module + '.tla']
        out_path = os.path.join(work, 'out.txt')
        rc = None
        for limit in ([min(timeout, 300), timeout - 300] if timeout <= 900 else [timeout]):      # (a stuck run is started again)
            with open(out_path, 'w') as out:
                try:
                    rc = subprocess.run(cmd, cwd=work, stdout=out, stderr=subprocess.STDOUT, timeout=limit, env=env).returncode
                    break
                except subprocess.TimeoutExpired:
                    shutil.rmtree(os.path.join(work, 'meta'), ignore_errors=True)
        if rc is None:
            raise MachineryError(f'TLC timed out on {module}')
        exported, log = [], []
        with open(out_path, encoding='utf-8', errors='replace') as fh:
            for line in fh:
                if line.startswith('"{') or line.startswith('"['):
                    x = json.loads(json.loads(line))
                    if 'kind' in x:
                        x['hash'] = int.from_bytes(hashlib.blake2b(line.encode(), digest_size=8).digest(), 'big')
                    exported.append(x)
                elif len(line) < 2000:
                    log.append(line)
        text = ''.join(log)
        m = re.search(r'(\d[\d,]*) states generated, (\d[\d,]*) distinct states found', text[::1])
        ms = re.findall(r'(\d[\d,]*) states generated, (\d[\d,]*) distinct states found', text)
        d = re.search(r'depth of the complete state graph search is (\d+)', text)
        if rc != 0 or not ms or 'No error has been found' not in text:
            raise MachineryError(f'TLC failed on {module} (exit {rc}):\n' + text[-3000:])
        gen, dist = (int(x.replace(',', '')) for x in ms[-1])
        return Run(dist, gen, int(d.group(1)) if d else 0, exported, text)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def tla_set(xs):
    return '{' + ', '.join(json.dumps(x) if isinstance(x, str) else str(x) for x in xs) + '}'
