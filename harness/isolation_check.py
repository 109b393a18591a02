"""C13: histories of Isolation.tla, replayed on objects of every kind."""
import copy, dataclasses, functools, os
import binding, objects, sx, tlc
from binding import Binding, CLASSES, FILE_KINDS, parse_sexp
from conc import Conc, h
from framework import Check, Scratch
from grammar_checks import ASSUME, seeds
from objects import Refused, explore

CFG = '''SPECIFICATION Spec
CONSTANTS
  MaxSteps = {steps}
  MaxObjs = {objs}
  Ways = {ways}
INVARIANTS LawsExport
CHECK_DEADLOCK FALSE
'''
FACTORY = {'Board': (), 'Schematic': (), 'WorkSheet': (), 'DesignRules': (), 'LibTable': ('fp_lib_table',),
           'Footprint': ('Lib:Name', 'val'), 'Symbol': ('Lib:Name', 'R', 'val')}


def histories(c, steps, objs):
    r = tlc.run('Isolation', CFG.format(steps=steps, objs=objs, ways=tlc.tla_set(['ctor', 'expr', 'text', 'file', 'new'])), timeout=3000)
    c.model(f'Isolation: histories of {steps} steps over {objs} objects', r)
    hs = [x['hist'] for x in r.exported if 'hist' in x]
    hs.sort(key=lambda x: h(x))
    return hs


@functools.lru_cache(None)
def fields(cls):
    return {f.name for f in dataclasses.fields(cls)} if dataclasses.is_dataclass(cls) else set()


def names(o):
    return sorted(fields(type(o)) | set(vars(o)))


def is_obj(o):
    return hasattr(o, '__dict__') and not isinstance(o, type) and not callable(o)


def state(o):
    if isinstance(o, (list, tuple)):
        return [type(o).__name__] + [state(x) for x in o]
    if isinstance(o, dict):
        return ['dict'] + [(state(k), state(v)) for k, v in o.items()]
    if isinstance(o, (set, frozenset)):
        return ['set'] + sorted(repr(x) for x in o)
    if is_obj(o):
        return (type(o).__name__, [(k, state(getattr(o, k, None))) for k in names(o)])
    return (type(o).__name__, repr(o))


def first_diff(a, b, path=''):
    if a == b and type(a) is type(b):
        return None
    if type(a) is not type(b):
        return f'{path}: {b!r:.80} instead of {a!r:.80}'
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return f'{path}: {len(b)} instead of {len(a)} parts'
        for i, (x, y) in enumerate(zip(a, b)):
            d = first_diff(x, y, f'{path}/{x[0] if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], str) else i}')
            if d:
                return d
        return None
    return None if a == b else f'{path}: {b!r:.80} instead of {a!r:.80}'


def scramble_value(v, n):
    if isinstance(v, bool):
        return not v
    if isinstance(v, (int, float)):
        return v + 1000 + n
    if isinstance(v, str):
        return v + f'#{n}'
    return v if v is not None else f'#{n}'


def scramble(o, n, own, inner, seen=None, top=True):
    """Change attributes in place: of the object itself (own), of all that is nested inside (inner)."""
    seen = {} if seen is None else seen
    if id(o) in seen:
        return
    seen[id(o)] = o
    if isinstance(o, list):
        for x in list(o):
            scramble(x, n, True, True, seen, False)
        o.insert(0, f'#{n}')
        if len(o) > 2:
            o.pop()
    elif isinstance(o, dict):
        for x in list(o.values()):
            scramble(x, n, True, True, seen, False)
        o[f'#{n}'] = 'x'
    elif isinstance(o, set):
        o.add(f'#{n}')
    elif is_obj(o):
        vs = [(k, getattr(o, k, None)) for k in names(o)]
        if inner or not top:
            for k, v in vs:
                if isinstance(v, (list, dict, set)) or is_obj(v):
                    scramble(v, n, True, True, seen, False)
        if own or not top:
            for k, v in vs:
                if not (isinstance(v, (list, dict, set)) or is_obj(v)):
                    try:
                        setattr(o, k, scramble_value(v, n))
                    except Exception:
                        pass


def scramble_expr(e):
    if isinstance(e, list):
        for x in e:
            scramble_expr(x)
        e.reverse()
        e.append('#gone')


def aliases(o):
    """Two places inside one object that hold the same mutable thing."""
    seen, found = {}, []

    def walk(x, path):
        if not (isinstance(x, (list, dict, set)) or is_obj(x)):
            return
        if id(x) in seen:
            found.append(f'{seen[id(x)]} and {path}')
            return
        seen[id(x)] = path
        if isinstance(x, list):
            for i, y in enumerate(x):
                walk(y, f'{path}[{i}]')
        elif isinstance(x, dict):
            for k, y in x.items():
                walk(y, f'{path}[{k!r}]')
        elif is_obj(x):
            for k in names(x):
                walk(getattr(x, k, None), f'{path}.{k}')
    walk(o, type(o).__name__)
    return found


def make(kind, way, expr, text, tmp):
    cls = CLASSES[kind]
    if way == 'ctor':
        return objects.call(cls)
    if way == 'expr':
        return objects.call(cls.from_sexpr, expr)
    if way == 'text':
        return objects.read(kind, text)
    if way == 'new':
        return objects.call(cls.create_new, *FACTORY[kind])
    path = os.path.join(tmp, 'doc')
    with open(path, 'w', encoding='utf-8', newline='') as fh:
        fh.write(text[1:-1] if kind == 'DesignRules' else text)
    return objects.call(cls.from_file, path, encoding=objects.some_encoding(kind, len(text)))


def possible(kind, hist):
    ways = {s['way'] for s in hist if s['op'] == 'make'}
    return ('file' not in ways or kind in FILE_KINDS) and ('new' not in ways or kind in FACTORY)


def state_of(way, o):
    """A loaded document also remembers its file."""
    if way == 'file' and hasattr(o, 'filePath'):
        s = copy.copy(o)
        s.filePath = None
        return state(s)
    return state(o)


PRISTINE = {}      # what is made before anything is edited


def pristine(kinds):
    for kind in kinds:
        for way in ['ctor'] + (['new'] if kind in FACTORY else []):
            try:
                PRISTINE[way, kind] = state(make(kind, way, None, None, None))
            except Refused:
                pass


PARTS = 4


def c13_case(res, i, item, hs, seed, share):
    """All histories (a share of them) for one expression of one kind."""
    case, part = item
    if case['bad'] or not case['tree']:
        return
    kind = case['kind']
    conc = Conc((seed, h(case)), files=True)
    text = sx.write(conc.node(case['tree'][0]))
    expr0 = parse_sexp(text)
    try:
        if ('ctor', kind) not in PRISTINE:
            raise Refused('cannot be constructed')
        first = make(kind, 'text', None, text, None)
    except Refused as e:
        res.bad((kind, 'raise', str(e)[:40]), f'{kind}: {e}', text=text)
        return
    al = aliases(first)
    if al:
        res.bad((kind, 'alias'), f'{kind}: one and the same object at two places of a parsed object: {al[0]}', text=text)
        return
    ref = {'default': PRISTINE['ctor', kind], 'new': PRISTINE.get(('new', kind)), 'parsed': state(first)}
    for n, hist in enumerate(hs):
        if n % PARTS != part or not possible(kind, hist):
            continue
        more = 1 if not repeats(hist) else 3 if kind not in FILE_KINDS else 5
        if (n // PARTS + i // PARTS) % max(1, share // more):
            continue
        d = run_history(kind, hist, parse_sexp(text), expr0, text, ref)
        res.case((kind, h(text), n), sample={'kind': kind, 'history': steps(hist)} if n % 997 == 0 else None)
        if d:
            res.bad((kind, d[0]), f'{kind}: {d[1]} (history: {steps(hist)})', text=text[:3000], history=hist)
            return


    for (way, k), want in PRISTINE.items():
        d = first_diff(want, state(make(k, way, None, None, None)))
        if d:
            res.bad((k, 'defaults'), f'{k}: after editing objects of kind {kind}, an object made by {way} is not as one made before: {d}', text=text[:3000])
            return


def repeats(hist):
    """Two objects made the same way."""
    ways = [s['way'] for s in hist if s['op'] == 'make']
    return len(set(ways)) < len(ways)


def steps(hist):
    return [f'{s["op"]} {s["way"]} {s["i"] or ""}'.strip() for s in hist]


def run_history(kind, hist, expr, expr0, text, ref):
    objs, ways, last = [], [], []
    seen_expr = expr0
    with Scratch() as tmp:
        for st in hist:
            op, way, i = st['op'], st['way'], st['i'] - 1
            try:
                if op == 'make':
                    o = make(kind, way, expr, text, tmp)
                    objs.append(o)
                    ways.append(way)
                    s = state_of(way, o)
                    last.append(s)
                    want = ref[st['view'][-1][0]]
                    if way == 'file':
                        want = state_without(want)
                        s = state_without(s)
                    d = first_diff(want, s)
                    if d:
                        return ('made', f'an object made by {way} is not as one made before: {d}')
                elif op == 'edit':
                    scramble(objs[i], len(hist), way in ('own', 'all'), way in ('inner', 'all'))
                    last[i] = state_of(ways[i], objs[i])
                elif op == 'expr':
                    scramble_expr(expr)
                    seen_expr = copy.deepcopy(expr)
                elif op == 'save':
                    try:
                        objs[i].to_sexpr()
                    except Exception:
                        pass      # an edited object need not be complete
            except Refused as e:
                return ('raise', f'{op} {way}: {e}')
            for j, o in enumerate(objs):
                if op == 'edit' and j == i:
                    continue
                d = first_diff(last[j], state_of(ways[j], o))
                if d:
                    return ('changed', f'{op} {way} of object {i + 1} changed object {j + 1} (made by {ways[j]}): {d}')
            if expr != seen_expr:
                return ('expr', f'{op} {way} changed the expression the objects were parsed from')
    return None


def state_without(s):
    name, attrs = s
    return (name, [a for a in attrs if a[0] != 'filePath'])


def parts(cases):
    return [(x, k) for x in cases for k in range(PARTS)]


def c13():
    c = Check('C13')
    hs = histories(c, 4, 3)
    pristine(sorted(CLASSES))
    r = c.model('Objects: base objects', explore(level=1))
    c.replay(c13_case, parts(r.cases), (hs, c.seed, c.pick(12, 1)))
    r = c.model('Objects: arbitrary objects', explore(spec='SpecRand', seeds=seeds(c, 8), level=c.pick(60, 400)))
    c.replay(c13_case, parts(r.cases), (hs, c.seed, c.pick(100, 10)))
    r = c.model('Objects: arbitrary documents', explore(spec='SpecRand', seeds=seeds(c, 8), level=c.pick(8, 40), depth=3, kinds=FILE_KINDS))
    c.replay(c13_case, parts(r.cases), (hs, c.seed, c.pick(120, 20)))
    if c.thorough:
        hs = histories(c, 5, 3)
        r = c.model('Objects: base objects', explore(level=1, bases=(1,)))
        c.replay(c13_case, parts(r.cases), (hs, c.seed, 5))
    c.assumptions = ASSUME
    c.finish('histories of Isolation.tla (make objects by constructor, expression, text, file, factory; edit one of them completely in place; '
             'change the expression; save) for every kind and several expressions of it; after each step all other objects and the expression '
             'are compared with what they were, new objects with the ones made before anything was edited')
