"""Recorded documents (the sample files of the repository) validated as traces: TLC reads and writes each of them with the
operators of the specification (Corpus.tla); the library has to agree."""
import json, os, re
import binding, objects, sx, tlc
from binding import Binding, CLASSES
from framework import Scratch
from objects import Refused

DATA = os.path.join(binding.REPO, 'tests', 'testdata')
HEADS = {'kicad_pcb': 'Board', 'kicad_sch': 'Schematic', 'footprint': 'Footprint', 'module': 'Footprint', 'kicad_symbol_lib': 'SymbolLib',
         'kicad_wks': 'WorkSheet', 'sym_lib_table': 'LibTable', 'fp_lib_table': 'LibTable', 'version': 'DesignRules'}
CFG = '''SPECIFICATION Spec
INVARIANTS LawsExport
CHECK_DEADLOCK FALSE
'''


def leaf(text):
    if text == '':
        return {'c': 't0', 'p': ''}
    if text.startswith('*.') or text == 'F&B.Cu':
        return {'c': 'x1', 'p': text}
    return {'c': 'lit', 'p': text}


def tree(node):
    """The abstraction of a node: every word a literal."""
    k, v = node
    if k == 'l':
        return {'k': 'l', 'v': {'c': 'none', 'p': ''}, 'c': [tree(x) for x in v]}
    if k == 'a' and re.fullmatch(r'-?0\d+', v):        # an unquoted number, however it is spelt
        v = str(int(v))
    return {'k': k, 'v': leaf(v), 'c': []}


class Literal:
    """Concrete values of literal leaves: themselves."""
    salt = 0

    def raw(self, x):
        return {'none': None, 'T': True, 'F': False, 't0': '', 'n0': 0}.get(x['c'], x['p'])

    def node(self, t):
        return ('l', [self.node(x) for x in t['c']]) if t['k'] == 'l' else (t['k'], self.raw(t['v']))


def documents(limit):
    out = []
    for d, dirs, files in os.walk(DATA):
        dirs.sort()
        for f in sorted(files):
            path = os.path.join(d, f)
            if f.endswith('.testoutput') or os.path.getsize(path) > limit:
                continue
            try:
                with open(path, encoding='utf-8') as fh:
                    text = fh.read()
                nodes = sx.read_all(text)
            except (UnicodeDecodeError, sx.SxError):
                continue
            if not nodes or nodes[0][0] != 'l' or sx.head(nodes[0]) not in HEADS:
                continue
            kind = HEADS[sx.head(nodes[0])]
            if kind != 'DesignRules' and len(nodes) != 1:
                continue
            out.append((os.path.relpath(path, DATA), kind, text, ('l', nodes) if kind == 'DesignRules' else nodes[0]))
    return out


def one(res, i, case, B, docs):
    name, kind, text, node = docs[case['doc'] - 1]
    res.case(('corpus', name), sample={'document': name, 'kind': kind} if i % 20 == 0 else None)
    res.count('sample_documents')
    conc = Literal()
    with Scratch() as tmp:
        path, path2 = os.path.join(tmp, 'in'), os.path.join(tmp, 'out')
        with open(path, 'w', encoding='utf-8', newline='') as fh:
            fh.write(text)
        try:
            o = objects.call(CLASSES[kind].from_file, path, encoding=objects.some_encoding(i, kind))
        except Refused as e:
            res.bad(('corpus', name, 'read'), f'sample document {name} cannot be loaded: {e}', document=name)
            return
        d = B.compare(kind, o, case['obj'], conc)
        if d:
            res.bad(('corpus', name, 'obj'), f'sample document {name} loaded as {d}', document=name)
            return
        if case['bad']:
            return
        try:
            objects.call(o.to_file, path2, encoding=objects.some_encoding(i, kind, 2))
            with open(path2, encoding='utf-8') as fh:
                out = fh.read()
            got = sx.read_one(objects.wrap(kind, out))
        except (Refused, sx.SxError) as e:
            res.bad(('corpus', name, 'write'), f'sample document {name} cannot be saved: {e}', document=name)
            return
    d = sx.diff(got, conc.node(case['out'][0]))
    if d:
        res.bad(('corpus', name, 'out'), f'sample document {name} saved as {d}', document=name)


def run(c):
    docs = documents(c.pick(60_000, 10_000_000))
    if not docs:
        return
    r = tlc.run('Corpus', CFG, files={'docs.json': json.dumps([{'kind': k, 'tree': tree(n)} for _, k, _, n in docs])}, timeout=3000)
    c.model('Corpus: sample documents of the repository', r)
    schema = next(x['schema'] for x in r.exported if 'schema' in x)
    c.replay(one, sorted((x for x in r.exported if 'doc' in x), key=lambda x: x['doc']), (Binding(schema), docs))
