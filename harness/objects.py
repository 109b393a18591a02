"""States of Objects.tla and Docs.tla, and their replay against the library."""
import concurrent.futures, copy, locale, random
import framework, tlc, sx
from conc import Conc, h
import binding
from binding import Binding, CLASSES, parse_sexp

CFG = '''SPECIFICATION {spec}
CONSTANTS
  KindSet {kinds}
  Bases = {bases}
  Seeds = {seeds}
  MaxLevel = {level}
  Depth = {depth}
INVARIANTS LawsExport
CHECK_DEADLOCK FALSE
'''


_POOL = concurrent.futures.ThreadPoolExecutor(3)
_RUNS = {}


class Later:
    """A TLC run in the background; using its results waits for it."""
    def __init__(self, future):
        self._future = future

    def __getattr__(self, name):
        return getattr(self._future.result(), name)


def settle():
    """Wait until nothing runs in the background."""
    for r in list(_RUNS.values()):
        concurrent.futures.wait([r._future])


framework.BEFORE_FORK.append(settle)


def explore(module='Objects', spec='Spec', kinds=None, bases=(0, 1, 2), seeds=(1,), level=2, depth=2, workers=6, timeout=800):
    """Explore a module of the specification (in the background; once for the same bounds)."""
    cfg = CFG.format(spec=spec, kinds='<- TopKinds' if kinds is None else '= ' + tlc.tla_set(kinds),
                     bases=tlc.tla_set(bases), seeds=tlc.tla_set(seeds), level=level, depth=depth)
    if (module, cfg) not in _RUNS:
        _RUNS[module, cfg] = Later(_POOL.submit(_explore, module, cfg, workers, timeout))
    return _RUNS[module, cfg]


def _explore(module, cfg, workers, timeout):
    r = tlc.run(module, cfg, workers=workers, timeout=timeout)
    r.schema = next(x['schema'] for x in r.exported if 'schema' in x)
    r.cases = [x for x in r.exported if 'kind' in x]
    r.cases.sort(key=lambda c: (c['kind'], c['last'], c['hash']))
    return r


class Refused(Exception):
    """The library raised an exception."""


def call(fn, *args, **kw):
    try:
        return fn(*args, **kw)
    except RecursionError:
        raise
    except Exception as e:
        from framework import Timeout
        if isinstance(e, Timeout):
            raise
        raise Refused(f'{type(e).__name__}: {e}') from e


def wrap(kind, text):
    """The text of one expression (design rules are a sequence of expressions)."""
    return f'({text})' if kind == 'DesignRules' else text


def write(kind, o, **kw):
    return wrap(kind, call(o.to_sexpr, **kw))


def read(kind, text):
    return call(CLASSES[kind].from_sexpr, call(parse_sexp, text))


UTF8 = locale.getpreferredencoding(False).lower().replace('-', '') == 'utf8'


def some_encoding(*key):
    """UTF-8, explicitly or (where it is the default) by default."""
    return 'utf-8' if h('encoding', key) % 2 or not UTF8 else None


def state(o):
    """All data of a library object as plain values (to see whether it changed)."""
    if isinstance(o, (list, tuple)):
        return [state(x) for x in o]
    if isinstance(o, dict):
        return [('dict', state(k), state(v)) for k, v in o.items()]
    if hasattr(o, '__dict__'):
        return (type(o).__name__, [(k, state(v)) for k, v in sorted(vars(o).items())])
    return (type(o).__name__, repr(o))


def concs(case, seed, n, **kw):
    for i in range(n):
        salt = (seed, i, case['kind'], case['last']) if i else (seed, case.get('hash') or h(case))
        x = h('collide', salt) % (4 if case.get('lists') else 8)
        yield Conc(salt, collide=x < 2, tiny=x in (1, 2), **kw)
