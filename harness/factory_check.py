"""C18: calls of the factory functions, and histories of them (Factories.tla), replayed."""
import os
import binding, objects, sx, tlc
from binding import Binding, CLASSES
from conc import Conc, h
from framework import Check, Scratch
from grammar_checks import ASSUME, sig
from isolation_check import scramble, state, first_diff
from objects import Refused, read, write

CFG = '''SPECIFICATION Spec
CONSTANTS
  Mode = "{mode}"
  MaxSteps = {steps}
INVARIANTS LawsExport
CHECK_DEADLOCK FALSE
'''
ORDER = {'LibTable': ['type'], 'Footprint': ['library_id', 'value', 'type', 'reference'], 'Symbol': ['id', 'reference', 'value', 'footprint', 'datasheet']}


def make(kind, args, conc, positional=False):
    """Call the factory; arguments that are None are not given."""
    names = [n for n in ORDER.get(kind, []) if args[n]['c'] != 'none']
    vals = {n: conc.raw(args[n]) for n in names}
    if positional:
        k = 0
        order = ORDER.get(kind, [])
        while k < len(order) and order[k] in vals:
            k += 1
        pos = [vals.pop(n) for n in order[:k]]
        return objects.call(CLASSES[kind].create_new, *pos, **vals)
    return objects.call(CLASSES[kind].create_new, **vals)


def stamp(kind, o, conc):
    """The creation time of a footprint: any word."""
    if kind == 'Footprint':
        conc.memo[('w1', 'tedit')] = o.tedit if isinstance(o.tedit, str) and o.tedit else 'a time of creation'


def words_diff(a, b):
    """The difference between two objects; values are compared by their spelling (a bare word may look like a number)."""
    def norm(x):
        if isinstance(x, (list, tuple)):
            if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], str) and isinstance(x[1], str):
                t, v = x
                if t == 'str':
                    v = eval(v)
                try:
                    return repr(float(v)) if t in ('int', 'float') or v.isdigit() else repr(v)
                except ValueError:
                    return repr(v)
            return [norm(y) for y in x]
        return x
    return first_diff(norm(state(a)), norm(state(b)))


def c18_call(res, i, case, B, seed, n):
    kind = case['kind']
    for j in range(n):
        conc = Conc((seed, j, h(case)), texts='mixed', files=True)
        given = {k: conc.raw(v) for k, v in case['args'].items() if v['c'] != 'none'}
        what = f'{kind}.create_new({given})'
        res.case((kind, given, j), sample={'call': what} if i % 40 == 0 else None)
        try:
            o = make(kind, case['args'], conc, positional=bool((i + j) % 2))
        except Refused as e:
            if not case['refused']:
                res.bad((kind, 'raise', str(e)[:40]), f'{what}: {e}', call=what)
            continue
        if case['refused']:
            res.bad((kind, 'type'), f'{what}: an unsupported type is accepted', call=what)
            return
        stamp(kind, o, conc)
        d = B.compare(kind, o, case['obj'], conc)
        if d:
            res.bad((kind, sig(d)), f'{what} returns {d}', call=what)
            return
        before = state(o)
        try:
            text = write(kind, o)
            dt = sx.diff(sx.read_one(text), conc.node(case['tree']))
            back = read(kind, text)
            d = B.compare(kind, back, case['obj'], conc)
            if not d and kind in binding.FILE_KINDS:
                with Scratch() as tmp:
                    path = os.path.join(tmp, 'new')
                    objects.call(o.to_file, path, encoding=objects.some_encoding(i))
                    d = B.compare(kind, objects.call(CLASSES[kind].from_file, path, encoding=objects.some_encoding(i, 2)), case['obj'], conc)
        except (Refused, sx.SxError) as e:
            res.bad((kind, 'save', str(e)[:40]), f'{what} cannot be saved and loaded: {e}', call=what)
            return
        if dt or d:
            res.bad((kind, 'saved', sig(dt or d)), f'{what}: saved and loaded {dt or d}', call=what, text=text)
            return
        if state(o) != before:
            res.bad((kind, 'changed'), f'{what}: changed by saving it: {first_diff(before, state(o))}', call=what)
            return


def c18_hist(res, i, case, B, seed, n):
    conc = Conc((seed, h(case)), texts='mixed', files=True)
    objs, snaps, live = [], [], []
    done = []
    for step, st in enumerate(case['hist']):
        op = st['op']
        if op == 'create':
            kind = st['call']['k']
            done.append(f'create {kind}')
            try:
                o = make(kind, st['call']['args'], conc)
            except Refused as e:
                if not case['calls'][step]:
                    res.bad((kind, 'hist', 'raise'), f'after {done}: {e}', history=case['hist'])
                    return
                continue
            if case['calls'][step]:
                res.bad((kind, 'hist', 'type'), f'after {done}: an unsupported type is accepted', history=case['hist'])
                return
            objs.append((kind, o)), snaps.append(state(o)), live.append(True)
            # whatever happened before, equal calls give equal objects
            ref = REF.get((kind, repr(st['call']['args']).replace(f'a{step}.', 'a.')))
            res.count('compared with the model' if ref is not None else 'not compared')
            if ref is not None:
                stamp(kind, o, conc)
                d = B.compare(kind, o, ref, Renamed(conc, step))
                if d:
                    res.bad((kind, 'hist', sig(d)), f'after {done}: returns {d}', history=case['hist'])
                    return
        elif op == 'edit':
            kind, o = objs[st['i'] - 1]
            done.append(f'edit {st["i"]}')
            scramble(o, step + 1, True, True)
            live[st['i'] - 1] = False
        else:
            kind, o = objs[st['i'] - 1]
            done.append(f'reload {st["i"]}')
            try:
                b = read(kind, write(kind, o))
            except Refused as e:
                res.bad((kind, 'hist', 'reload'), f'after {done}: {e}', history=case['hist'])
                return
            d = words_diff(o, b)
            if d:
                res.bad((kind, 'hist', 'reloaded'), f'after {done}: changed by saving and loading: {d}', history=case['hist'])
                return
            objs.append((kind, b)), snaps.append(state(b)), live.append(True)
        for k, ((kind, o), snap, alive) in enumerate(zip(objs, snaps, live)):
            if alive and state(o) != snap:
                res.bad((kind, 'hist', 'shared', op), f'after {done}: object {k + 1} ({kind}) changed: {first_diff(snap, state(o))}', history=case['hist'])
                return
    res.case(repr(done), sample={'history': done} if i % 500 == 0 else None)


REF = {}


class Renamed:
    """The values of a call made in step n of a history, under the names of the single calls."""
    def __init__(self, conc, n):
        self.conc, self.n = conc, n

    def raw(self, leaf):
        p = leaf['p']
        return self.conc.raw({'c': leaf['c'], 'p': f'a{self.n}.' + p[2:]} if p.startswith('a.') else leaf)


def c18():
    c = Check('C18')
    r = c.model('Factories: every call', tlc.run('Factories', CFG.format(mode='args', steps=1)))
    schema = next(x['schema'] for x in r.exported if 'schema' in x)
    calls = sorted((x for x in r.exported if 'args' in x), key=h)
    B = Binding(schema)
    steps = c.pick(4, 5)
    rh = c.model(f'Factories: histories of {steps} steps', tlc.run('Factories', CFG.format(mode='hist', steps=steps), timeout=3000))
    hists = sorted((x for x in rh.exported if 'hist' in x), key=h)
    names = {'a.id': 'a.id', 'a.val': 'a.v', 'a.ref': 'a.r'}
    for x in calls:
        if not x['refused']:
            s = repr(x)
            for a, b in names.items():
                s = s.replace(f"'{a}'", f"'{b}'")
            y = eval(s)
            REF[(y['kind'], repr(y['args']))] = y['obj']
    c.replay(c18_call, calls, (B, c.seed, c.pick(4, 20)))
    c.replay(c18_hist, hists, (B, c.seed, 1))
    c.assumptions = ASSUME
    c.finish('every combination of given, empty, omitted and unsupported arguments of the seven factories, compared with the objects of '
             'Factories.tla, saved and loaded; and all histories of creations, in-place edits and reloads of the given length, with every '
             'object looked at after every step; non-trivial: all')
