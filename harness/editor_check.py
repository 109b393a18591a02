"""C08: editing sessions (Editor.tla) replayed on one living document of the library."""
import concurrent.futures, copy, os, random
import binding, objects, sx, tlc
from binding import Binding, CLASSES, DICTS, as_list, leaf_value, symbol_name
from conc import Conc, h
from framework import Check, Scratch
from grammar_checks import ASSUME, sig
from objects import Refused

CFG = '''SPECIFICATION Spec
CONSTANTS
  KindSet = {kinds}
  Chains = {chains}
  MaxLevel = {level}
  Depth = {depth}
  Life = {life}
INVARIANTS LawsExport
CHECK_DEADLOCK FALSE
'''


def explore(kinds, chains, level, depth, life, timeout):
    r = tlc.run('Editor', CFG.format(kinds=tlc.tla_set(kinds), chains=tlc.tla_set(chains), level=level, depth=depth, life=life),
                workers=4, timeout=timeout)
    r.schema = next(x['schema'] for x in r.exported if 'schema' in x)
    steps = {}
    for x in r.exported:
        if 'chain' in x:
            steps.setdefault(x['chain'], {})[x['n']] = x
    r.histories = []
    for ch in sorted(steps):
        cur = None
        for n in sorted(steps[ch]):
            x = steps[ch][n]
            if x['op']['op'] == 'load':
                cur = []
                r.histories.append(cur)
            cur.append(x)
    return r


class Doc:
    """The living document and the way to a place in it."""
    def __init__(self, B, kind, live, conc):
        self.B, self.kind, self.live, self.conc = B, kind, live, conc

    def walk(self, path, kind):
        o, parent = self.live, None
        for st in path:
            s = self.B.schema[kind][st['f']]
            if kind == 'Symbol':
                parent = symbol_name(o.libId)
            if st['i']:
                ks = as_list(s['ks'])
                if ks[0] in DICTS:
                    d = getattr(o, st['f'])
                    return ('dict', ks[0], d, list(d)[st['i'] - 1], parent)
                o = getattr(o, st['f'])[st['i'] - 1]
                kind = kind_of(o, ks)
            else:
                o, kind = getattr(o, st['f']), as_list(s['ks'])[0]
        return ('obj', kind, o, None, parent)

    def apply(self, op):
        B, conc = self.B, self.conc
        how, kind, o, key, parent = self.walk(as_list(op['path']), self.kind)
        f = op['f']
        s = B.schema[kind][f]
        if how == 'dict':
            o[key] = leaf_value(op['v'], s, conc)
            return
        if kind == 'Symbol' and f != 'libId':
            parent = symbol_name(o.libId)
        if op['op'] == 'set':
            setattr(o, f, B.value(s, op['v'], conc, parent))
            return
        col = getattr(o, f)
        ks = as_list(s['ks'])
        if isinstance(col, dict):
            sl = B.schema[ks[0]]
            if op['op'] == 'clear':
                col.clear()
            elif op['op'] == 'del':
                del col[list(col)[op['at'] - 1]]
            else:
                col[leaf_value(op['v']['key'], sl['key'], conc)] = leaf_value(op['v']['val'], sl['val'], conc)
            return
        if op['op'] in ('ins', 'rep'):
            v = B.build(op['k'], op['v'], conc, parent) if op['k'] else leaf_value(op['v'], s, conc)
        at, to = op['at'] - 1, op['to'] - 1
        if op['op'] == 'ins':
            col.insert(at, v)
        elif op['op'] == 'rep':
            col[at] = v
        elif op['op'] == 'del':
            col.pop(at)
        elif op['op'] == 'mov':
            col.insert(to, col.pop(at))
        elif op['op'] == 'dup':
            col.insert(to, copy.deepcopy(col[at]))
        else:
            raise AssertionError(op['op'])


def kind_of(o, ks):
    hit = [k for k in ks if type(o) is CLASSES[k]]
    if not hit:
        raise Gone(f'{type(o).__name__} in a collection of {ks}')
    return hit[0]


class Gone(Exception):
    """The document does not have what the history refers to."""


def show(op):
    where = '.'.join(f'{p["f"]}[{p["i"]}]' if p['i'] else p['f'] for p in as_list(op['path']))
    return f'{op["op"]} {where}{"." if where else ""}{op["f"]}' + (f'[{op["at"]}]' if op['at'] else '')


def c08_case(res, i, hist, B, seed, files):
    kind = hist[0]['kind']
    x = h(seed, hist[0]['chain'], hist[0]['n'], 'mode') % 4
    conc = Conc((seed, hist[0]['chain'], hist[0]['n']), files=files, collide=x < 2, tiny=x in (1, 2))
    doc, done = None, []
    with Scratch() as tmp:
        path = os.path.join(tmp, 'doc')
        for x in hist:
            op = x['op']
            if not x['tree']:
                return
            want = conc.node(x['tree'][0])
            what = show(op)
            done.append(what)
            data = dict(kind=kind, history=done)
            try:
                if op['op'] == 'load':
                    text = sx.write(want, random.Random(h(seed, i)))
                    doc = Doc(B, kind, objects.read(kind, text), conc)
                elif op['op'] == 'reload':
                    if files:
                        objects.call(doc.live.to_file, path, encoding=objects.some_encoding(i, len(done)))
                        doc.live = objects.call(CLASSES[kind].from_file, path, encoding=objects.some_encoding(i, -len(done)))
                    else:
                        doc.live = objects.read(kind, objects.write(kind, doc.live))
                    d = B.compare(kind, doc.live, x['obj'], conc)
                    if d:
                        res.bad((kind, 'reload', sig(d)), f'{kind}: after {len(done)} steps ({"; ".join(done[-6:])}) reloaded as {d}', **data)
                        return
                elif op['op'] != 'skip':
                    objects.call(doc.apply, op)
                text = objects.write(kind, doc.live)
                got = sx.read_one(text)
            except (Refused, sx.SxError) as e:
                res.bad((kind, 'raise', str(e)[:40]), f'{kind}: {what} (step {len(done)}): {e}', **data)
                return
            res.case((kind, tuple(done), conc.salt), nontrivial=op['op'] not in ('load', 'skip'),
                     sample={'kind': kind, 'history': done[-8:]} if len(done) % 13 == 0 else None)
            res.count(op['op'])
            d = sx.diff(got, want)
            if d:
                res.bad((kind, sig(d)), f'{kind}: after {what} (step {len(done)}) the document differs elsewhere: {d}', text=text[:4000], **data)
                return


def c08():
    c = Check('C08')
    chains = [c.seed * 100 + i for i in range(8)]
    jobs = [(binding.FILE_KINDS, chains, c.pick(200, 800), 2, c.pick(25, 60)),
            (['Board', 'Footprint', 'Schematic'], [x + 50 for x in chains], c.pick(90, 400), 3, c.pick(20, 40)),
            (['SymbolLib', 'WorkSheet', 'DesignRules', 'LibTable'], [x + 70 for x in chains], c.pick(200, 800), 3, 30)]
    B = None
    with concurrent.futures.ThreadPoolExecutor(3) as pool:
        runs = list(pool.map(lambda j: explore(*j, c.pick(800, 6000)), jobs))
    for (kinds, ch, level, depth, life), r in zip(jobs, runs):
        c.model(f'Editor: sessions on {", ".join(kinds)} (depth {depth})', r)
        B = B or Binding(r.schema)
        c.replay(c08_case, r.histories, (B, c.seed, False))
        c.replay(c08_case, r.histories, (B, c.seed + 1, True))
    c.assumptions = ASSUME
    c.finish('pseudo-random editing sessions of Editor.tla (assign, insert, remove, replace, move, duplicate at any depth, save and reload) '
             'replayed step by step on one document; after every step the saved text is compared with Render of the specification')
