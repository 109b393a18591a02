"""Checks decided on Objects.tla and Docs.tla (C01-C04, C07, C14, C16, C17)."""
import json, os, random, subprocess, sys, tempfile
import binding, objects, sx, values
from binding import Binding, CLASSES
from conc import Conc, FLAGWORDS, h
from framework import Check, Scratch
from objects import Refused, concs, explore, read, state, write

ASSUME = ['TLC evaluates the specification correctly', 'the concrete values drawn for abstract leaves represent their classes (data independence)',
          'the harness\' own reader of S-expressions (sx.py) is correct']


def seeds(c, n):
    return [c.seed * 1000 + i for i in range(n)]


def long_runs(c):
    """Objects with one large collection (sizes that the code mentions included), or one of arbitrary items."""
    odd = [n for n in values.sizes() if n not in values.USUAL][:c.pick(6, 20)]
    return (c.model('Objects: large collections', explore(spec='SpecLong', bases=(0, 1) if c.thorough else (0,), seeds=sorted(set(c.pick([9, 18, 41, 130], [7, 12, 18, 41, 65, 130, 300]) + odd)), depth=1, timeout=3000)),
            c.model('Objects: collections of arbitrary items', explore(spec='SpecLists', bases=(0,), seeds=[c.seed * 1000 + i for i in range(c.pick(15, 200))], depth=1, timeout=3000)))


def long_cases(runs):
    return [x for x in runs[0].cases if x['last']] + [dict(x, lists=1) for x in runs[1].cases if x['last']]


def as_documents(cases):
    """Objects as the documents they are written to."""
    return [dict(x, tree=x['tree'][0], read=x['norm'], out=x['tree']) for x in cases if not x['bad'] and x['tree'] and x['again']]


def object_cases(c, quick_rand=400, edits=True, thorough_rand=4000):
    """Bases and single edits of every kind, plus arbitrary objects; thorough: pairs of edits too."""
    runs = [c.model('Objects: one edit from each base', explore(level=2))] if edits else []
    runs.append(c.model('Objects: arbitrary objects', explore(spec='SpecRand', seeds=seeds(c, 8), level=c.pick(quick_rand, thorough_rand))))
    runs.append(c.model('Objects: arbitrary documents', explore(spec='SpecRand', seeds=seeds(c, 8), level=c.pick(20, 150), depth=3, kinds=binding.FILE_KINDS)))
    long = long_runs(c)
    sweep_runs()
    out = [x for r in runs for x in r.cases] + long_cases(long)
    if c.thorough:
        top = sorted({x['kind'] for x in out})
        big = {'Board', 'Footprint', 'Schematic', 'Pad', 'Symbol', 'SymbolLib'}
        for group in ([k for k in top if k not in big], ['Pad', 'Symbol']):
            rr = c.model('Objects: two edits from the default object', explore(level=3, bases=(0,), kinds=group, depth=1, timeout=3000))
            out += rr.cases
    return runs[0].schema, out


def doc_cases(c, quick_rand=400, thorough_rand=4000):
    r1 = c.model('Docs: one change of form from each base', explore('Docs', level=2, bases=c.pick((1, 2), (0, 1, 2)), depth=c.pick(1, 2)))
    r2 = c.model('Docs: arbitrary documents', explore('Docs', spec='SpecRand', seeds=seeds(c, 8), level=c.pick(quick_rand, thorough_rand)))
    r4 = c.model('Docs: arbitrary documents of the seven file kinds', explore('Docs', spec='SpecRand', seeds=seeds(c, 8), level=c.pick(25, 250), depth=3,
                 kinds=binding.FILE_KINDS, timeout=3000))
    long = long_runs(c)
    sweep_runs()
    out = r1.cases + r2.cases + r4.cases + as_documents(long_cases(long))
    if c.thorough:
        small = sorted({x['kind'] for x in out} - {'Board', 'Footprint', 'Schematic', 'Pad', 'PlotSettings', 'FillSettings'})
        r3 = c.model('Docs: two changes of form', explore('Docs', level=3, bases=(1,), kinds=small, depth=1, timeout=3000))
        out += r3.cases
    return r1.schema, out


def info(case, **kw):
    return dict(kind=case['kind'], edited=case['last'], **kw)


def sig(msg):
    return msg.split(':')[0]


# ---------------------------------------------------------------- C01
def c01_case(res, i, case, B, seed, n):
    if case['bad'] or not case['tree']:
        return
    kind = case['kind']
    for conc in concs(case, seed, n):
        o = B.build(kind, case['obj'], conc)
        res.case((kind, case['obj'], conc.salt), sample=None)
        try:
            text = write(kind, o)
        except Refused as e:
            res.bad((kind, 'write', str(e)[:40]), f'{kind}: writing failed: {e}', **info(case, obj=case['obj']))
            return
        try:
            back = read(kind, text)
        except Refused as e:
            res.bad((kind, 'read', str(e)[:40]), f'{kind}: its own text could not be read: {e}', **info(case, text=text))
            return
        d = B.compare(kind, back, case['norm'], conc)
        if d:
            res.bad((kind, sig(d)), f'{kind} after editing {case["last"] or "nothing"}: read back {d}', **info(case, text=text))
            return
        if len(res.samples) < 1:
            res.samples.append({'kind': kind, 'edited': case['last'], 'text': text[:300]})


def c01_file_case(res, i, case, B, seed, n):
    """The same through files, for the seven kinds of documents."""
    if case['bad'] or not case['tree'] or case['kind'] not in binding.FILE_KINDS:
        return
    kind = case['kind']
    for conc in concs(case, seed + 7, 1, files=True):
        o = B.build(kind, case['obj'], conc)
        res.case((kind, 'file', case['obj'], conc.salt))
        with Scratch() as tmp:
            path = os.path.join(tmp, 'doc')
            try:
                objects.call(o.to_file, path, encoding=objects.some_encoding(i))
                back = objects.call(CLASSES[kind].from_file, path, encoding=objects.some_encoding(i, 2))
            except Refused as e:
                res.bad((kind, 'file', str(e)[:40]), f'{kind}: saving and loading failed: {e}', **info(case, obj=case['obj']))
                return
        d = B.compare(kind, back, case['norm'], conc)
        if d:
            res.bad((kind, 'file', sig(d)), f'{kind} after editing {case["last"] or "nothing"}: loaded {d}', **info(case, obj=case['obj']))


def own_leaves(case, schema):
    """The leaves of an object itself (not of the objects in it)."""
    for f, s in schema[case['kind']].items():
        v = case['obj'][f]
        for x in v if isinstance(v, list) else [v]:
            if binding.is_leaf(x) and x['c'] in ('t1', 'w1', 'n1', 'q4', 'q6', 'y1'):
                yield f, s, x


def candidates(f, s, leaf, everything):
    """Values the documentation or the code mentions, for a leaf."""
    strs, nums, by = values.mentioned()
    c = leaf['c']
    if c in ('n1', 'q4', 'q6'):
        vals = list(values.near(f)) + values.NUMBERS + [x for x in nums if everything]
        return [v for v in dict.fromkeys(vals) if v and (c == 'n1' or round(v, int(c[1])) == v)]
    vals = list(values.texts(f)) + (values.WORDS if c == 'w1' else values.TEXTS) + (list(strs) if everything else [])
    vals = list(dict.fromkeys(vals))
    if c == 'w1':
        return [v for v in vals if values.is_word(v, FLAGWORDS)]
    if c == 'y1':
        return [v for v in vals if v and '*' not in v and '&' not in v and not v.endswith('\\')]
    return [v for v in vals if not v.endswith('\\') and not (f == 'key' and v.lower().startswith('sheet'))]


def sweep_items(c, cases, schema):
    """(case, leaf, value): each own leaf of the base objects with each of the values mentioned with its name; all others in rotation.
    Objects with one edit: the values mentioned with the edited attribute, a few others."""
    out = []
    rnd = random.Random(c.seed)
    for ci, case in enumerate(cases):
        for f, s, leaf in own_leaves(case, schema):
            if case['last'] not in ('', f):
                continue
            near = candidates(f, s, leaf, False)
            rest = [v for v in candidates(f, s, leaf, True) if v not in near]
            if case['last']:
                said = set(values.near(f)) | set(values.texts(f))
                few = [v for v in near if v not in said] + rest
                near, rest = [v for v in near if v in said], few
            more = rest if c.thorough else rnd.sample(rest, min(len(rest), 6 if case['last'] else 40))
            out += [(ci, leaf['c'], leaf['p'], v) for v in near + more]
    return out


def cross_items(c, cases, schema, first):
    """The same for objects with one edit from a base object with everything set: the values mentioned with the other attributes."""
    out = []
    rnd = random.Random(c.seed + 1)
    for ci, case in enumerate(cases, first):
        for f, s, leaf in own_leaves(case, schema):
            if f != case['last']:
                said = [v for v in candidates(f, s, leaf, False) if v in values.mentioned()[2].get(f, ())]
                nums = [v for v in said if not isinstance(v, str)]
                few = [v for v in said if isinstance(v, str)]
                out += [(ci, leaf['c'], leaf['p'], v) for v in nums + (few if c.thorough else rnd.sample(few, min(len(few), 1)))]
    return out


def judge_object(kind, case, conc, want, B):
    """Written, read back, compared with the specification."""
    text = write(kind, B.build(kind, case['obj'], conc))
    got = sx.read_one(text)
    d = B.compare(kind, read(kind, text), case['norm'], conc)
    if d:
        return f'read as {d}'
    d = sx.diff(got, want, ordered=True)
    return d and f'written {d}'


def judge_document(kind, case, conc, want, B):
    back = read(kind, sx.write(want))
    got = sx.read_one(write(kind, back))
    d = B.compare(kind, back, case['norm'], conc)
    if d:
        return f'read as {d}'
    d = sx.diff(got, want, ordered=True)
    return d and f'written {d}'


def judge_both(kind, case, conc, want, B):
    return judge_object(kind, case, conc, want, B) or judge_document(kind, case, conc, want, B)


def judge_pure(kind, case, conc, want, B):
    o = B.build(kind, case['obj'], conc)
    before = state(o)
    t1 = write(kind, o)
    if state(o) != before:
        return 'changed by writing it'
    if write(kind, o) != t1:
        return 'written differently the second time'
    t2 = write(kind, read(kind, t1))
    t3 = write(kind, read(kind, t2))
    d = sx.diff(sx.read_one(t2), sx.read_one(t1), ordered=True)
    if d:
        return f'changed by loading and saving: {d}'
    return None if t2 == t3 else f'never settles: {first_diff(t2, t3)}'


def judge_text(kind, case, conc, want, B):
    d = sx.diff(sx.read_one(write(kind, B.build(kind, case['obj'], conc))), want, ordered=True)
    return d and f'written {d}'


def judge_accepted(kind, case, conc, want, B):
    write(kind, B.build(kind, case['obj'], conc))


def judge_layout(kind, case, conc, want, B):
    o = B.build(kind, case['obj'], conc)
    for indent, newline in ((0, False), (5, True), (12, False), (h(kind, case['last']) % 150, True)):
        raw = objects.call(o.to_sexpr, indent=indent, **({} if kind in NO_NEWLINE else {'newline': newline}))
        d = sx.diff(sx.read_one(objects.wrap(kind, raw)), want, ordered=True)
        if d:
            return f'written with indent={indent}, newline={newline}: {d}'
        if len(raw) - len(raw.lstrip(' ')) != indent:
            return f'written with indent={indent}: starts {raw[:20]!r}'
        if kind not in LOOSE_END and raw.endswith('\n') != newline:
            return f'written with newline={newline}: ends {raw[-10:]!r}'


def sweep_case(res, i, item, B, seed, cases, judge):
    ci, cl, p, v = item
    case = cases[ci]
    kind = case['kind']
    conc = Conc((seed, kind, 'sweep'), texts='plain')
    conc.memo[(cl, p)] = v
    conc.used.add((cl[0], v))
    res.case((kind, case['last'], p, v))
    want = conc.node(case['tree'][0])
    try:
        d = judge(kind, case, conc, want, B)
    except (Refused, sx.SxError) as e:
        d = f'raise: {e}'
    if d:
        res.bad((kind, p, sig(d)), f'{kind} with {p} = {v!r}: {d}', kind=kind, value=v, expected=sx.write(want)[:4000])


def sweep_runs():
    return explore(level=2, depth=1, bases=(0,)), explore(level=2, depth=1, bases=(1,))


def sweep(c, B, judge, only=(str, int, float)):
    """Values the documentation or the code mentions, at the attributes they are mentioned with (and elsewhere)."""
    fine = lambda x: not x['bad'] and x['tree'] and x['again']
    r0, r1 = sweep_runs()
    c.model('Objects: one edit from the default object', r0)
    c.model('Objects: one edit from the objects with all attributes set', r1)
    cases = [x for x in r1.cases if fine(x) and not x['last']] + [x for x in r0.cases if fine(x) and x['last']]
    items = sweep_items(c, cases, B.schema)
    more = [x for x in r1.cases if fine(x) and x['last']]
    items += cross_items(c, more, B.schema, len(cases))
    cases += more
    items = [x for x in items if isinstance(x[3], only)]
    c.replay(sweep_case, items, (B, c.seed, cases, judge))
    c.result.count('values_swept', len(items))


def c01():
    c = Check('C01')
    schema, cases = object_cases(c)
    B = Binding(schema)
    sweep(c, B, judge_object)
    c.replay(c01_case, cases, (B, c.seed, c.pick(1, 3)))
    c.replay(c01_file_case, cases, (B, c.seed, 1))
    c.assumptions = ASSUME
    c.finish('every state of Objects.tla: base objects of all kinds, one attribute edited (thorough: two), and pseudo-random nested '
             'objects; each written and read back by the library and compared with Norm of the specification; non-trivial: a tree is written')


# ---------------------------------------------------------------- C02
def c02_case(res, i, case, B, seed, n):
    kind = case['kind']
    for conc in concs(case, seed, n):
        text = sx.write(conc.node(case['tree']), random.Random(h(seed, conc.salt)))
        res.case((kind, text), sample={'kind': kind, 'change': case['last'], 'text': text[:300]} if i % 50 == 0 else None)
        try:
            o = read(kind, text)
        except Refused as e:
            res.bad((kind, 'read', case['last'], str(e)[:40]), f'{kind}: document ({case["last"]}) could not be read: {e}', **info(case, text=text))
            return
        d = B.compare(kind, o, case['read'], conc)
        if d:
            res.bad((kind, sig(d)), f'{kind}: document ({case["last"]}) read as {d}', **info(case, text=text))
            return
        if case['bad']:
            return
        try:
            out = write(kind, o)
            got = sx.read_one(out) if case['out'] else None
        except (Refused, sx.SxError) as e:
            res.bad((kind, 'write', str(e)[:40]), f'{kind}: document ({case["last"]}) could not be saved again: {e}', **info(case, text=text))
            return
        if not case['out']:
            if out.strip():
                res.bad((kind, 'vanish'), f'{kind}: wrote {out[:100]!r} for an empty object', **info(case, text=text))
            return
        d = sx.diff(got, conc.node(case['out'][0]))
        if d:
            res.bad((kind, 'out', sig(d)), f'{kind}: document ({case["last"]}) saved as {d}', **info(case, text=text, out=out))
            return


def c02():
    c = Check('C02')
    schema, cases = doc_cases(c)
    B = Binding(schema)
    r = c.model('Docs: unknown tokens much like known ones', explore('Docs', spec='SpecLike', level=2, bases=(1,), depth=c.pick(1, 2)))
    c.replay(c02_case, cases + r.cases, (B, c.seed, c.pick(1, 3)))
    sweep(c, B, judge_document)
    import corpus
    corpus.run(c)
    c.assumptions = ASSUME
    c.finish('every state of Docs.tla (tokens reordered, left out, unknown ones inserted, flags moved; random layouts) and the sample '
             'documents of the repository, validated as traces; non-trivial: distinct document texts')


# ---------------------------------------------------------------- C03
def c03_case(res, i, case, B, seed, n):
    if case['bad'] or not case['tree']:
        return
    kind = case['kind']
    for conc in concs(case, seed, n):
        o = B.build(kind, case['obj'], conc)
        res.case((kind, case['obj'], conc.salt))
        before = state(o)
        try:
            t1 = write(kind, o)
            if state(o) != before:
                res.bad((kind, 'changed'), f'{kind}: writing changed the object', **info(case, text=t1))
                return
            for _ in range(2):
                if write(kind, o) != t1:
                    res.bad((kind, 'repeat'), f'{kind}: writing twice gives different texts', **info(case, text=t1))
                    return
            texts = [t1]
            for _ in range(3):
                texts.append(write(kind, read(kind, texts[-1])))
            sx.read_one(t1), sx.read_one(texts[1])
        except (Refused, sx.SxError) as e:
            res.bad((kind, 'raise', str(e)[:40]), f'{kind}: {e}', **info(case, obj=case['obj']))
            return
        # (a number may change its spelling, 5.0 -> 5, when it is read for the first time)
        d = sx.diff(sx.read_one(texts[1]), sx.read_one(texts[0]), ordered=True) if case['again'] else None
        if d:
            res.bad((kind, 'second'), f'{kind} after editing {case["last"] or "nothing"}: loading and saving changes the text: {d}',
                    **info(case, first=texts[0], second=texts[1]))
            return
        if not texts[1] == texts[2] == texts[3]:
            res.bad((kind, 'fix'), f'{kind} after editing {case["last"] or "nothing"}: repeated saves do not settle: {first_diff(texts[1], texts[2])}',
                    **info(case, first=texts[1], second=texts[2]))
            return


def first_diff(a, b):
    k = next((k for k, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return f'{a[max(0, k - 30):k + 40]!r} vs {b[max(0, k - 30):k + 40]!r}'


ENVS = [
    dict(PYTHONHASHSEED='0', TZ='UTC', LC_ALL='C', cwd='/'),
    dict(PYTHONHASHSEED='1', TZ='Asia/Tokyo', LC_ALL='C.UTF-8', cwd='/tmp'),
    dict(PYTHONHASHSEED='4242', TZ='America/New_York', LC_ALL='C.UTF-8', LANG='de_DE.UTF-8', PYTHONUTF8='1', cwd='/', later='1', COLUMNS='40', HOME='/nonexistent', USER='x', backwards='1'),
]


# values that something sloppy might take for one another
TWINS = {'n1': [1, 1.0, -1, -2, -2.0, 2, 0.1, 0.10000001, 1e-07, 100000, 100000.0, 1.25, 1.2500001],
         'q4': [0.5, 0.5001, 1, 1.0], 'q6': [0.5, 0.500001, -1, -2, 1, 1.0],
         't1': ['Ab', 'AB', 'ab', 'Ab ', ' Ab', 'A b', 'A  b', 'A_b', 'Äb', 'A\u0308b', '1', '1.0', '01', 'yes', 'no'],
         'w1': ['Ab', 'AB', 'ab', 'A_b', 'A-b', 'Abb'], 'y1': ['F.Cu', 'f.cu', 'F.cu', 'F_Cu', 'B.Cu']}


def twins(schema, cases):
    """Objects that differ in one value only, one after the other."""
    out = []
    for x in cases:
        for f, s, leaf in own_leaves(x, schema):
            out += [{'kind': x['kind'], 'obj': x['obj'], 'last': x['last'], 'texts': 'plain', 'values': [(leaf['c'], leaf['p'], v)]}
                    for v in TWINS[leaf['c']] if not (f == 'key' and v in ('yes', 'no'))]
    return out


def c03_env(c, schema, cases):
    """The same objects written in processes with different environments, one of them in reverse order."""
    rnd = random.Random(c.seed)
    pool = [x for x in cases if not x['bad'] and x['tree']]
    pick = [{k: x[k] for k in ('kind', 'obj', 'last')} for x in rnd.sample(pool, min(len(pool), c.pick(800, 4000)))]
    pick += twins(schema, [x for x in sweep_runs()[1].cases if not x['bad'] and x['tree'] and not x['last']])
    with Scratch() as tmp:
        path = os.path.join(tmp, 'cases.json')
        with open(path, 'w') as fh:
            json.dump({'schema': schema, 'cases': pick, 'seed': c.seed}, fh)
        outs = []
        for env in ENVS:
            e = {k: v for k, v in os.environ.items() if not k.startswith('LC_')}
            e.update({k: v for k, v in env.items() if k not in ('cwd',)})
            e['PYTHONDONTWRITEBYTECODE'] = '1'
            p = subprocess.run([sys.executable, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'digest.py'), path],
                               cwd=env['cwd'], env=e, capture_output=True, text=True, timeout=600)
            if p.returncode != 0:
                c.result.bad(('env', 'crash'), f'writing failed in environment {env}: {p.stderr[-500:]}')
                return
            outs.append(p.stdout.split())
    for i, digs in enumerate(zip(*outs)):
        c.result.case(('env', i, pick[i]['obj']))
        if len(set(digs)) != 1:
            c.result.bad((pick[i]['kind'], 'env'), f'{pick[i]["kind"]} {pick[i].get("values", "")}: the text depends on the environment of the process, or on what was written before',
                         kind=pick[i]['kind'], obj=pick[i]['obj'], values=pick[i].get('values'))


def c03():
    c = Check('C03')
    schema, cases = object_cases(c)
    B = Binding(schema)
    c.replay(c03_case, cases, (B, c.seed, c.pick(1, 2)))
    sweep(c, B, judge_pure)
    c03_env(c, schema, cases)
    c.assumptions = ASSUME
    c.finish('every state of Objects.tla written repeatedly, loaded and saved three times, and (a sample) written in three processes with '
             'different hash seed, clock, time zone, locale and directory, in one of them in reverse order (with objects that differ in one value only next to each other); non-trivial: distinct objects')


# ---------------------------------------------------------------- C04
def c04_case(res, i, case, B, seed, n):
    if case['bad'] or not case['tree']:
        return
    kind = case['kind']
    for conc in concs(case, seed, n, texts='odd'):
        o = B.build(kind, case['obj'], conc)
        res.case((kind, case['obj'], conc.salt))
        try:
            text = write(kind, o)
            got = sx.read_one(text)
        except (Refused, sx.SxError) as e:
            res.bad((kind, 'form', str(e)[:30]), f'{kind} after editing {case["last"] or "nothing"}: the text is not well-formed: {e}',
                    **info(case, obj=case['obj'], text=locals().get('text')))
            return
        d = sx.diff(got, conc.node(case['tree'][0]))
        if d:
            res.bad((kind, sig(d)), f'{kind} after editing {case["last"] or "nothing"}: an independent reader sees {d}', **info(case, text=text))
            return
        if len(res.samples) < 1:
            res.samples.append({'kind': kind, 'text': text[:300]})


def c04():
    c = Check('C04')
    schema, cases = object_cases(c)
    B = Binding(schema)
    c.replay(c04_case, cases, (B, c.seed, c.pick(1, 4)))
    sweep(c, B, judge_text)
    c.assumptions = ASSUME
    c.finish('every state of Objects.tla with hostile texts in every text attribute, written by the library and read by an independent '
             'reader, compared token by token with Render of the specification')


# ---------------------------------------------------------------- C07
OPTIONAL = ('tok', 'ktok', 'bool', 'boolt', 'flag', 'pflag', 'eflag', 'ftok', 'fton', 'popt', 'gate')


def heads(node):
    out = {}
    for x in node[1]:
        key = sx.head(x) if x[0] == 'l' else ('atom', x)
        out[key] = out.get(key, 0) + 1
    return out


def c07_case(res, i, case, B, seed, n):
    if case['bad'] or not case['tree']:
        return
    kind, f = case['kind'], case['last']
    slots = B.schema[kind]
    focus = [f] if f in slots else [x for x, s in slots.items() if s['ty'] in OPTIONAL or s['opt']]
    if f in slots and not (slots[f]['ty'] in OPTIONAL or slots[f]['opt'] or slots[f]['ty'] in ('list', 'wlist', 'atoms')):
        return
    for conc in concs(case, seed, n, texts='plain'):
        o = B.build(kind, case['obj'], conc)
        res.case((kind, f, case['obj']), sample={'kind': kind, 'attribute': f, 'value': case['obj'].get(f)} if i % 97 == 0 and f in slots else None)
        try:
            text = write(kind, o)
            got, want = sx.read_one(text), conc.node(case['tree'][0])
            back = read(kind, text)
        except (Refused, sx.SxError) as e:
            res.bad((kind, 'raise', str(e)[:40]), f'{kind} with {f}={case["obj"].get(f)}: {e}', **info(case, obj=case['obj']))
            return
        g, w = heads(got), heads(want)
        for key in set(g) | set(w):
            if isinstance(key, tuple):
                continue
            if g.get(key, 0) != w.get(key, 0):
                res.bad((kind, key), f'{kind} with {f}={case["obj"].get(f)}: token {key} written {g.get(key, 0)} times instead of {w.get(key, 0)}',
                        **info(case, text=text))
                return
        d = sx.diff(got, want)
        if d:
            res.bad((kind, sig(d)), f'{kind} with {f}={case["obj"].get(f)}: written {d}', **info(case, text=text))
            return
        for x in focus:
            d = B.compare_value(slots[x], getattr(back, x), case['norm'][x], conc, None, f'{kind}.{x}') if x != 'libId' and x != 'units' else None
            if d:
                res.bad((kind, x), f'{kind}: after saving and loading {d}', **info(case, text=text))
                return


def c07_doc(res, i, case, B, seed, n):
    """A document without a token does not get it by being loaded and saved."""
    if case['bad'] or not case['out'] or case['last'] not in ('drop', '', '*'):
        return
    kind = case['kind']
    conc = next(concs(case, seed, 1, texts='plain'))
    node = conc.node(case['tree'])
    text = sx.write(node)
    res.case((kind, 'doc', text))
    try:
        out = sx.read_one(write(kind, read(kind, text)))
    except (Refused, sx.SxError) as e:
        res.bad((kind, 'doc', str(e)[:40]), f'{kind}: {e}', **info(case, text=text))
        return
    g, w = heads(out), heads(conc.node(case['out'][0]))
    for key in set(g) | set(w):
        if not isinstance(key, tuple) and g.get(key, 0) != w.get(key, 0):
            res.bad((kind, 'doc', key), f'{kind}: a document with {heads(node).get(key, 0)} {key} tokens is saved with {g.get(key, 0)}, expected {w.get(key, 0)}',
                    **info(case, text=text))
            return


def c07():
    c = Check('C07')
    schema, cases = object_cases(c)
    B = Binding(schema)
    c.replay(c07_case, cases, (B, c.seed, c.pick(1, 2)))
    r = c.model('Docs: one token left out', explore('Docs', level=2, bases=(1,), depth=c.pick(1, 2)))
    c.replay(c07_doc, r.cases, (B, c.seed, 1))
    sweep(c, B, judge_object)
    c.assumptions = ASSUME
    c.finish('every optional attribute and flag of every kind unset, zero, empty, false and set, from three base objects and in arbitrary '
             'combinations; and every document with one token left out; tokens written and values read back compared with the specification')


# ---------------------------------------------------------------- C14
def c14_case(res, i, case, B, seed, n):
    kind = case['kind']
    for conc in concs(case, seed, n, texts='plain'):
        o = B.build(kind, case['obj'], conc)
        res.case((kind, case['obj'], case['bad']), nontrivial=bool(case['bad']),
                 sample={'kind': kind, 'edited': case['last'], 'refused': case['bad']} if case['bad'] else None)
        if case['bad']:
            res.count('refused')
        try:
            text = write(kind, o)
        except Refused as e:
            if not case['bad']:
                res.bad((kind, 'refused'), f'{kind} after editing {case["last"] or "nothing"}: a complete object is refused: {e}', **info(case, obj=case['obj']))
            continue
        if case['bad']:
            res.bad((kind, 'accepted'), f'{kind} after editing {case["last"] or "nothing"}: an incomplete object is written: {text[:200]!r}', **info(case, obj=case['obj']))


GUARDED = ['Zone', 'Dimension', 'GrTextBox', 'FpTextBox', 'PageSettings']


def c14_unsupported(c):
    """Content declared unsupported is refused on loading (also nested)."""
    tries = [
        ('Footprint', '(footprint "x" (layer "F.Cu") (dimension (type aligned) (layer "F.Fab")))'),
        ('Footprint', '(footprint "x" (layer "F.Cu") (fp_text user "t" (at 0 0) (layer "F.Cu")) (dimension 5 (width 1)) (pad "1" smd rect (at 0 0) (size 1 1) (layers "F.Cu")))'),
        ('Board', '(kicad_pcb (version 1) (generator x) (footprint "x" (layer "F.Cu") (dimension (type aligned) (layer "F.Fab"))))'),
        ('Pad', '(pad "1" smd custom (at 0 0) (size 1 1) (layers "F.Cu") (primitives (dimension (type aligned) (layer "F.Fab"))))'),
        ('Footprint', '(footprint "x" (layer "F.Cu") (pad "1" smd custom (at 0 0) (size 1 1) (layers "F.Cu") (primitives (gr_line (start 0 0) (end 1 1)) (dimension (type aligned)))))'),
        ('WorkSheet', '(kicad_wks (version 1) (generator x) (polygon (name "") (pos 0 0) (pts (xy 0 0))))'),
        ('WorkSheet', '(kicad_wks (version 1) (generator x) (line (name "") (start 0 0) (end 1 1)) (polygon (name "p")) (line (name "") (start 0 0) (end 1 1)))'),
        ('PageSettings', '(paper "User")'), ('PageSettings', '(paper "User" 100)'),
        ('BusAlias', '(bus_alias "x")'), ('BusAlias', '(bus_alias "x" "y")'),
    ]
    for kind, text in tries:
        c.result.case((kind, text))
        try:
            read(kind, text)
        except Refused:
            continue
        c.result.bad((kind, 'unsupported', text[:60]), f'{kind}: unsupported or incomplete content is read without complaint: {text}', kind=kind, text=text)


def c14_arcs(c):
    """Finding F02: arcs among the points of a polygon are neither kept nor refused."""
    arc = '(arc (start 1 2) (mid 2 3) (end 3 2))'
    for kind, text in [('GrPoly', f'(gr_poly (pts (xy 0 0) {arc} (xy 5 5)) (layer "F.Cu") (width 1))'), ('FpPoly', f'(fp_poly (pts (xy 0 0) {arc}) (layer "F.Cu") (width 1))'),
                       ('ZonePolygon', f'(polygon (pts {arc} (xy 5 5)))'), ('FilledPolygon', f'(filled_polygon (layer "F.Cu") (pts (xy 1 1) {arc}))')]:
        c.result.case((kind, text))
        try:
            out = write(kind, read(kind, text))
            if 'mid' in out and sx.find(sx.read_one(out), 'arc') == sx.read_one(arc):
                continue
        except Refused:
            continue
        except sx.SxError:
            pass
        c.result.known['F02'] = c.result.known.get('F02', 0) + 1


def c14():
    c = Check('C14')
    level = c.pick(3, 4)
    r1 = c.model('Objects: all combinations of the guarded attributes', explore(level=level, kinds=GUARDED, bases=(0, 1, 2), depth=1, timeout=3000))
    r2 = c.model('Objects: one edit, all kinds', explore(level=2, depth=2))
    r3 = c.model('Objects: arbitrary documents', explore(spec='SpecRand', seeds=seeds(c, 8), level=c.pick(40, 300), depth=2,
                 kinds=GUARDED + ['Board', 'Footprint', 'Schematic', 'Pad', 'WorkSheet']))
    r4 = c.model('Objects: incomplete objects inside others', explore(spec='SpecNested', bases=(0, 1), level=2, depth=3, timeout=3000))
    B = Binding(r1.schema)
    c.replay(c14_case, r1.cases + r2.cases + r3.cases + r4.cases, (B, c.seed, 1))
    sweep(c, B, judge_accepted)
    c14_unsupported(c)
    c14_arcs(c)
    c.assumptions = ASSUME
    c.finish('all combinations of up to two (thorough: three) edits of zones, dimensions, text boxes and paper sizes, alone and nested in '
             'documents; non-trivial: objects that must be refused')


# ---------------------------------------------------------------- C16
INDENTS = sorted({0, 1, 2, 3, 4, 5, 8, 13, 16, 33, 64, 130, 257} | {n for n in values.sizes() if n not in values.USUAL and n < 260})


def c16_case(res, i, case, B, seed, n):
    if case['bad'] or not case['tree']:
        return
    kind = case['kind']
    rnd = random.Random(h(seed, i))
    conc = next(concs(case, seed, 1, texts='mixed'))
    o = B.build(kind, case['obj'], conc)
    want = conc.node(case['tree'][0])
    for indent in rnd.sample(INDENTS, n):
        for newline in (True, False):
            res.case((kind, case['obj'], indent, newline), sample={'kind': kind, 'indent': indent, 'newline': newline} if i % 200 == 0 else None)
            try:
                raw = objects.call(o.to_sexpr, indent=indent, **({} if kind in NO_NEWLINE else {'newline': newline}))
                got = sx.read_one(objects.wrap(kind, raw))
            except (Refused, sx.SxError) as e:
                res.bad((kind, 'raise'), f'{kind}: to_sexpr(indent={indent}, newline={newline}) is not well-formed: {e}', **info(case, obj=case['obj']))
                return
            d = sx.diff(got, want, ordered=True)
            if d:
                res.bad((kind, sig(d)), f'{kind}: to_sexpr(indent={indent}, newline={newline}) has {d}', **info(case, text=raw))
                return
            if kind not in LOOSE_LAYOUT:
                k = len(raw) - len(raw.lstrip(' '))
                if k != indent:
                    res.bad((kind, 'indent'), f'{kind}: to_sexpr(indent={indent}) starts with {k} blanks', **info(case, text=raw))
                    return
            if kind not in LOOSE_END and raw.endswith('\n') != newline:
                res.bad((kind, 'newline'), f'{kind}: to_sexpr(newline={newline}) ends with {raw[-10:]!r}', **info(case, text=raw))
                return


LOOSE_LAYOUT = set()
NO_NEWLINE = {'Rule'}
LOOSE_END = {'Rule', 'DesignRules'}        # always end with a line break


def c16():
    c = Check('C16')
    schema, cases = object_cases(c, quick_rand=60)
    if not c.thorough:
        rnd = random.Random(c.seed)
        cases = [x for x in cases if x['last'] in ('', '*') or rnd.random() < 0.4]
    B = Binding(schema)
    c.replay(c16_case, cases, (B, c.seed, c.pick(3, 6)))
    sweep(c, B, judge_layout)
    c.assumptions = ASSUME
    c.finish('states of Objects.tla, each written with several indentations with and without newline, read by an independent reader and '
             'compared token by token with Render')


# ---------------------------------------------------------------- C17
def c17_case(res, i, case, B, seed, n):
    if case['bad'] or not case['tree']:
        return
    kind = case['kind']
    conc = next(concs(case, seed, 1, texts='plain'))
    res.case((kind, case['obj'], conc.salt))
    o1 = B.build(kind, case['obj'], conc)
    o2 = B.build(kind, case['obj'], conc, order=random.Random(h(seed, i)))
    try:
        t1, t2 = write(kind, o1), write(kind, o2)
        got = sx.read_one(t1)
    except (Refused, sx.SxError) as e:
        res.bad((kind, 'raise', str(e)[:40]), f'{kind}: {e}', **info(case, obj=case['obj']))
        return
    if t1 != t2:
        res.bad((kind, 'assign'), f'{kind}: the text depends on the order of assignments: {first_diff(t1, t2)}', **info(case, text=t1))
        return
    d = sx.diff(got, conc.node(case['tree'][0]), ordered=True)
    if d:
        res.bad((kind, sig(d)), f'{kind} after editing {case["last"] or "nothing"}: not in canonical order: {d}', **info(case, text=t1))


def c17_doc(res, i, case, B, seed, n):
    if case['bad'] or not case['out']:
        return
    kind = case['kind']
    conc = next(concs(case, seed, 1, texts='plain'))
    text = sx.write(conc.node(case['tree']))
    res.case((kind, text), sample={'kind': kind, 'change': case['last'], 'text': text[:200]} if i % 97 == 0 else None)
    try:
        out = write(kind, read(kind, text))
        got = sx.read_one(out)
        canon = conc.node(case['out'][0])
        again = write(kind, read(kind, write(kind, read(kind, sx.write(canon)))))
        out2 = write(kind, read(kind, out))
    except (Refused, sx.SxError) as e:
        res.bad((kind, 'raise', str(e)[:40]), f'{kind}: {e}', **info(case, text=text))
        return
    d = sx.diff(got, canon, ordered=True)
    if d:
        res.bad((kind, sig(d)), f'{kind}: document ({case["last"]}) not saved in canonical order: {d}', **info(case, text=text, out=out))
    elif out2 != again:
        res.bad((kind, 'text'), f'{kind}: equal documents in different order give different texts: {first_diff(out2, again)}', **info(case, text=text))


def c17():
    c = Check('C17')
    schema, cases = doc_cases(c, quick_rand=80)
    B = Binding(schema)
    c.replay(c17_doc, cases, (B, c.seed, 1))
    r = c.model('Objects: arbitrary objects', explore(spec='SpecRand', seeds=seeds(c, 8), level=c.pick(120, 1200)))
    r0 = c.model('Objects: bases', explore(level=1))
    c.replay(c17_case, r0.cases + r.cases, (B, c.seed, 1))
    sweep(c, B, judge_text)
    c.assumptions = ASSUME
    c.finish('every state of Docs.tla (reordered documents) and arbitrary objects built by assigning attributes in two orders; the order of '
             'all tokens compared with Render')
