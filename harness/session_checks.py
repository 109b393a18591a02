"""C10 and C11: documents and files (Session.tla), replayed in scratch directories."""
import contextlib, copy, os, pathlib, random
import binding, objects, sx, tlc
from binding import Binding, CLASSES, M
from conc import Conc, h
from framework import Check, Scratch
from grammar_checks import ASSUME
from objects import Refused, call, explore, wrap

KINDS = binding.FILE_KINDS
MARK = {'A': 'plain text', 'L': 'Gerät für é', 'W': '日本語 Ω 😀'}
NAMES = {'p1': ['a.kicad', 'first file', 'dir1/x.y', 'ü.txt', 'a$KIV_REV.kicad', '~', '%41.x', '{x}.kicad_pcb'],
         'p2': ['b.kicad', 'second-file', 'dir1/z', 'Ω.txt', 'b${KIV_REV}', '~root', 'B', ' x ']}
os.environ['KIV_REV'] = 'rev'          # (a name that occurs in paths)


def transitions(steps, encs):
    cfg = (f'SPECIFICATION Spec\nVIEW view\nACTION_CONSTRAINT ExportStep\nCONSTANTS Docs = {{"d1"}}\n Paths = {{"p1", "p2"}}\n Encs = {tlc.tla_set(encs)}\n'
           f' MaxSteps = {steps}\n Seeds = {{1}}\nINVARIANT Representable\nPROPERTIES FailureIsHarmless OnlyTheTarget BindingStays\nCHECK_DEADLOCK FALSE\n')
    return tlc.run('Session', cfg, workers=1)


def walks(steps, seeds, encs):
    cfg = (f'SPECIFICATION SpecRand\nCONSTANTS Docs = {{"d1", "d2"}}\n Paths = {{"p1", "p2"}}\n Encs = {tlc.tla_set(encs)}\n'
           f' MaxSteps = {steps}\n Seeds = {tlc.tla_set(seeds)}\nINVARIANTS Representable ExportLast\nPROPERTIES FailureIsHarmless OnlyTheTarget BindingStays\nCHECK_DEADLOCK FALSE\n')
    return tlc.run('Session', cfg)


def mark(kind, doc, text):
    """Put a text into the document."""
    if kind in ('Board', 'Schematic'):
        if doc.titleBlock is None:
            doc.titleBlock = CLASSES['TitleBlock']()
        doc.titleBlock.title = text
    elif kind == 'Footprint':
        doc.description = text
    elif kind == 'SymbolLib':
        doc.generator = 'gen'
        if not doc.symbols:
            doc.symbols.append(CLASSES['Symbol'].create_new('S', 'R', 'v'))
        ps = doc.symbols[0].properties
        if not ps or ps[-1].key != 'mark':
            ps.append(CLASSES['Property'](key='mark'))
        ps[-1].value = text
    elif kind == 'WorkSheet':
        if not doc.drawingObjects or getattr(doc.drawingObjects[0], 'comment', None) != 'mark':
            doc.drawingObjects.insert(0, CLASSES['WksLine'](comment='mark'))
        doc.drawingObjects[0].name = text
    elif kind == 'DesignRules':
        if not doc.rules:
            doc.rules.append(CLASSES['Rule'](name='r'))
        doc.rules[0].condition = text
    elif kind == 'LibTable':
        if not doc.libs:
            doc.libs.append(CLASSES['Library'](name='l'))
        doc.libs[0].description = text


def broken(kind, doc, rnd):
    """Make the document unwritable; returns how to undo it."""
    lists = {'Board': ['footprints', 'traceItems', 'groups', 'zones', 'nets', 'layers'], 'Schematic': ['libSymbols', 'texts', 'sheets', 'sheetInstances', 'symbolInstances', 'junctions'],
             'Footprint': ['graphicItems', 'pads', 'zones', 'groups', 'models'], 'SymbolLib': ['symbols'], 'WorkSheet': ['drawingObjects'],
             'DesignRules': ['rules'], 'LibTable': ['libs']}[kind]
    ways = [('item', f) for f in lists]
    if kind in ('Board', 'Footprint'):
        ways += [('zone', 'zones')] * 3
    if kind == 'Board':
        ways += [('dimension', 'dimensions'), ('textbox', 'graphicItems')] * 2
    if kind in ('Board', 'Schematic'):
        ways += [('paper', 'paper')] * 3
    if kind == 'Footprint':
        ways += [('fptextbox', 'graphicItems')] * 2
    if kind == 'Board' and doc.footprints:
        ways += [('nested', 'footprints')] * 2
    if kind == 'SymbolLib' and doc.symbols:
        ways += [('unit', 'symbols')] * 2
    if kind == 'DesignRules' and doc.rules:
        ways += [('constraint', 'rules')] * 2
    way, f = rnd.choice(ways)
    if way == 'paper':
        old = doc.paper
        doc.paper = CLASSES['PageSettings'](paperSize='User')
        def undo(): doc.paper = old
        return undo
    where = getattr(doc, f)
    if way == 'nested':
        where = where[-1].zones
    elif way == 'unit':
        where = where[-1].units
    elif way == 'constraint':
        where = where[-1].constraints
    bad = {'item': lambda: None, 'zone': CLASSES['Zone'], 'nested': CLASSES['Zone'], 'dimension': CLASSES['Dimension'], 'textbox': CLASSES['GrTextBox'],
           'fptextbox': CLASSES['FpTextBox'], 'unit': lambda: None, 'constraint': lambda: None}[way]()
    at = rnd.choice([0, len(where), len(where)])
    where.insert(at, bad)
    def undo(): where[:] = [x for x in where if x is not bad]
    return undo


class Violation(Exception):
    pass


def tokens(kind, text):
    return sx.read_one(wrap(kind, text))


class Run:
    """One history, replayed."""
    def __init__(self, kind, tmp, rnd, make):
        self.kind, self.tmp, self.rnd, self.make = kind, tmp, rnd, make
        os.makedirs(os.path.join(tmp, 'dir1'))
        i = rnd.randrange(len(NAMES['p1']))
        self.path = {p: os.path.join(tmp, n[i]) for p, n in NAMES.items()}
        if rnd.random() < 0.25:           # (the current directory is the scratch directory)
            self.path = {p: n[i] for p, n in NAMES.items()}
        elif rnd.random() < 0.2:
            self.path = {p: os.path.join(tmp, 'dir1', '..', n[i]) for p, n in NAMES.items()}
        if rnd.random() < 0.2:
            self.path = {p: pathlib.Path(x) for p, x in self.path.items()}
        self.docs, self.undo = {}, {}
        self.bytes = {p: None for p in NAMES}
        self.pristine = {}
        self.bare = rnd.random() < 0.4          # content A: the document as it was made

    def content(self, c):
        """The expected expression of a document with content c."""
        if c not in self.pristine:
            d = self.make()
            self.mark(d, c)
            self.pristine[c] = tokens(self.kind, d.to_sexpr())
        return self.pristine[c]

    def mark(self, doc, c):
        if not self.bare:
            mark(self.kind, doc, MARK[c])
            return
        for k, v in vars(self.make()).items():
            if k != 'filePath':
                setattr(doc, k, v)
        if c != 'A':
            mark(self.kind, doc, MARK[c])

    def enc(self, e):
        return None if e == 'utf-8' and objects.UTF8 and self.rnd.random() < 0.5 else e

    def do(self, s):
        d, op = s['d'], s['op']
        if op == 'new':
            doc = self.make()
            self.mark(doc, s['e'])
            self.docs[d] = doc
            self.undo.pop(d, None)
        elif op == 'edit':
            # (repaired first, so that the text is put into a complete document)
            self.mark(self.docs[d], s['e']) if d not in self.undo else self.around(d, s['e'])
        elif op == 'load':
            self.docs[d] = call(CLASSES[self.kind].from_file, self.path[s['p']], encoding=self.enc(s['e']))
            self.undo.pop(d, None)
        elif op == 'loaddir':
            call(CLASSES[self.kind].from_file, self.tmp)
        elif op == 'save':
            call(self.docs[d].to_file, encoding=self.enc(s['e']))
        elif op == 'saveas':
            call(self.docs[d].to_file, self.path[s['p']], encoding=self.enc(s['e']))
        elif op == 'savedir':
            call(self.docs[d].to_file, self.tmp)
        elif op == 'savelost':
            call(self.docs[d].to_file, os.path.join(self.tmp, 'nowhere', 'x.kicad'))
        elif op == 'saveempty':
            call(self.docs[d].to_file, '')
        elif op == 'loadempty':
            call(CLASSES[self.kind].from_file, '')
        elif op == 'foreign':
            with open(self.path[s['p']], 'wb') as fh:
                fh.write(b'no document at all' + b' and more' * self.rnd.choice([0, 3, 5000]))
        elif op == 'rebind':
            self.docs[d].filePath = None if s['p'] == 'none' else self.path[s['p']]
        elif op == 'break':
            self.undo[d] = broken(self.kind, self.docs[d], self.rnd)
        elif op == 'repair':
            self.undo.pop(d)()
        elif op == 'delete':
            os.unlink(self.path[s['p']])

    def around(self, d, c):
        """Edit a broken document: only its text changes."""
        self.undo.pop(d)()
        self.mark(self.docs[d], c)
        self.undo[d] = broken(self.kind, self.docs[d], self.rnd)

    def step(self, s):
        op = s['op']
        name = f'{op} ' + ' '.join(str(s[k]) for k in ('d', 'p', 'e') if s[k])
        try:
            self.do(s)
            failed = None
        except Refused as e:
            failed = e
        if failed and s['ok']:
            raise Violation(f'{name}: fails with {failed}')
        if not failed and not s['ok']:
            raise Violation(f'{name}: does not fail')
        # the file system
        found = sorted(os.path.relpath(os.path.join(r, f), self.tmp) for r, _, fs in os.walk(self.tmp) for f in fs)
        expect = sorted(os.path.relpath(self.path[p], self.tmp) for p in self.path if s['fs'][p]['c'] != 'absent')
        if found != expect:
            raise Violation(f'{name}: the directory holds {found} instead of {expect}')
        for p in self.path:
            now = open(self.path[p], 'rb').read() if s['fs'][p]['c'] != 'absent' else None
            written = op in ('save', 'saveas') and s['ok'] and (s['p'] == p or (op == 'save' and s['ds'][s['d']]['at'] == p))
            if written:
                enc = s['fs'][p]['e']
                try:
                    text = now.decode(enc)
                    d = sx.diff(tokens(self.kind, text), self.content(s['fs'][p]['c']), ordered=True)
                except (UnicodeDecodeError, sx.SxError) as e:
                    d = f'unreadable: {e}'
                if d:
                    raise Violation(f'{name}: the file has {d}')
            elif not (op in ('delete', 'foreign') and s['p'] == p) and now != self.bytes[p]:
                raise Violation(f'{name}: the file {p} changed from {str(self.bytes[p])[:60]} to {str(now)[:60]}')
            self.bytes[p] = now
        # the documents
        for d, w in s['ds'].items():
            if w['c'] == 'nothing':
                continue
            at = None if w['at'] == 'none' else self.path[w['at']]
            if self.docs[d].filePath != at:
                raise Violation(f'{name}: {d} is bound to {self.docs[d].filePath!r} instead of {at!r}')
            if op in ('load', 'new', 'edit', 'save', 'saveas', 'repair') and d == s['d'] and d not in self.undo:
                try:
                    diff = sx.diff(tokens(self.kind, call(self.docs[d].to_sexpr)), self.content(w['c']), ordered=True)
                except (Refused, sx.SxError) as e:
                    diff = str(e)
                if diff:
                    raise Violation(f'{name}: {d} has {diff}')


def maker(kind, B, cases, rnd):
    pool = [x for x in cases if x['kind'] == kind and not x['bad'] and x['tree']]
    case = rnd.choice(pool)
    salt = rnd.randrange(10 ** 6)
    def make():
        o = B.build(kind, case['obj'], Conc(salt, texts='plain', files=True))
        # as it would be after loading: no difference between the document and its file
        return objects.read(kind, objects.write(kind, o))
    return make


def replay(res, i, case, B, cases, seed, kinds, prop):
    for kind in kinds(i):
        rnd = random.Random(h(seed, i, kind))
        steps = case['hist']
        last = steps[-1]
        fails = sum(1 - s['ok'] for s in steps)
        if prop == 'C11' and not fails:
            continue
        res.case((kind, [(s['op'], s['d'], s['p'], s['e']) for s in steps]), nontrivial=last['op'] in ('save', 'saveas', 'load') or len(steps) > 6,
                 sample={'kind': kind, 'history': [f"{s['op']} {s['d']} {s['p']} {s['e']} {'ok' if s['ok'] else 'fails'}" for s in steps]} if i % 999 == 0 else None)
        res.count('failing_calls', fails)
        with Scratch() as tmp, contextlib.chdir(tmp):
            run = Run(kind, tmp, rnd, maker(kind, B, cases, rnd))
            done = []
            for s in steps:
                done.append(f"{s['op']} {s['d']} {s['p']} {s['e']}".strip())
                try:
                    run.step(s)
                except Violation as e:
                    res.bad((kind, s['op'], s['ok']), f'{kind}: after {"; ".join(done)}: {e}', kind=kind, history=done)
                    break


def main(prop, rule):
    c = Check(prop)
    encs = ('utf-8', 'latin-1', 'x-unknown')
    r1 = c.model('Session: every transition, one document', transitions(c.pick(8, 12), encs))
    r2 = c.model('Session: walks with two documents', walks(c.pick(24, 40), [c.seed * 5000 + i for i in range(c.pick(300, 4000))], encs + ('utf-16',)))
    ro = c.model('Objects: documents', explore(level=1, kinds=KINDS, bases=(0, 1), depth=2))
    rr = c.model('Objects: arbitrary documents', explore(spec='SpecRand', seeds=[c.seed * 1000 + i for i in range(8)], level=c.pick(6, 30), kinds=KINDS, depth=2))
    B = Binding(ro.schema)
    cases = ro.cases + rr.cases
    steps = sorted(r1.exported, key=lambda x: (len(x['hist']), h(x)))
    if prop == 'C11':
        steps = [x for x in steps if not x['hist'][-1]['ok']]
    if c.thorough:
        kinds = lambda i: KINDS
    else:
        kinds = lambda i: [KINDS[i % 7]]
        rnd = random.Random(c.seed)
        if len(steps) > 9000:
            steps = [x for x in steps if rnd.random() < 9000 / len(steps) or len(x['hist']) < 4]
    c.replay(replay, steps, (B, cases, c.seed, kinds, prop))
    c.replay(replay, sorted(r2.exported, key=h), (B, cases, c.seed + 1, kinds, prop))
    c.assumptions = ASSUME + ['the file system of the scratch directory behaves like the user\'s']
    c.finish(rule)


def c10():
    main('C10', 'every transition of Session.tla (one document, two files, three contents, two encodings and an unknown one) with the shortest history leading to it, and random '
         'walks with two documents; replayed with the seven kinds of documents in scratch directories; files, bindings and contents compared after every step')


def c11():
    main('C11', 'every failing save or load of Session.tla (incomplete document, text outside the encoding, no path, target is a directory) with the shortest '
         'history leading to it, and random walks; replayed with the seven kinds of documents; every file compared byte by byte after every step')
