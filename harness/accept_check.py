"""C12: which reader accepts which expression (Accept.tla)."""
import os
import binding, objects, sx, tlc
from binding import Binding, CLASSES, FILE_KINDS
from conc import Conc, h
from framework import Check, Scratch
from grammar_checks import ASSUME, sig
from objects import Refused

CFG = '''SPECIFICATION Spec
CONSTANTS
  Bases = {bases}
  Depth = {depth}
INVARIANTS LawsExport
CHECK_DEADLOCK FALSE
'''


def bend(form, head):
    return {'upper': head.upper(), 'plural': head + 's', 'short': head[:-1], 'blank': head + ' ', 'title': head.title(),
            'prefixed': 'x' + head, 'quoted': f'"{head}"'}[form]


def plain(node):
    """What parse_sexp gives for an expression: our own rendition of it."""
    return objects.call(binding.parse_sexp, sx.write(node))


def c12_case(res, i, case, B, trees, readings, seed):
    kind, off = case['reader'], case['offer']
    form, src, n, head = off['form'], off['k'], off['n'], off['h']
    cls = CLASSES[kind]
    conc = Conc((seed, kind, src, n), texts='plain')
    tree = trees[src][str(n)] if form != 'empty' else []
    if not tree and form not in ('empty',):
        if form in ('list', 'headless', 'wrapped') or form not in NOT_LISTS:
            return
    if tree:
        exp = plain(conc.node(tree[0]))
    else:
        exp = []
    if form == 'list':
        exp[0] = head
    elif form == 'headless':
        exp = exp[1:]
        if exp and exp[0] == kind:
            return
    elif form == 'wrapped':
        exp[0] = head
        exp = [exp]
    elif form == 'empty':
        exp = []
    elif form in NOT_LISTS:
        exp = NOT_LISTS[form](head, exp)
    else:
        exp[0] = bend(form, head)
    res.case((kind, form, src, n, head), sample={'reader': kind, 'form': form, 'expression': repr(exp)[:120], 'accepted': case['ok']} if i % 997 == 0 else None)
    res.count('accepted' if case['ok'] else 'refused')
    try:
        o = objects.call(cls.from_sexpr, exp)
    except Refused as e:
        if case['ok']:
            res.bad((kind, 'refused', head), f'{kind} refuses an expression of its own kind with head {head}: {e}', reader=kind, exp=repr(exp)[:2000])
        return
    if not case['ok']:
        res.bad((kind, 'accepted', form, head if form == 'list' else ''),
                f'{kind} silently reads {"an expression of kind " + src if form == "list" and src != kind else form + " " + head}: {exp!r:.200}',
                reader=kind, offer=off, exp=repr(exp)[:2000])
        return
    if type(o) is not cls:
        res.bad((kind, 'type'), f'{kind}: read as {type(o).__name__}', reader=kind)
        return
    d = B.compare(kind, o, readings[kind][str(n)][head], conc)
    if d:
        res.bad((kind, sig(d)), f'{kind} with head {head} read as {d}', reader=kind, exp=repr(exp)[:2000])


NOT_LISTS = {
    'none': lambda hd, e: None, 'number': lambda hd, e: 1.5, 'text': lambda hd, e: sx_text(e), 'head': lambda hd, e: hd,
    'tuple': lambda hd, e: tuple(e), 'dict': lambda hd, e: {0: hd, 1: 'x'}, 'true': lambda hd, e: True, 'tokens': lambda hd, e: {hd},
}


def sx_text(e):
    return '(' + ' '.join(str(x) for x in e) + ')'


def as_map(m):
    """Functions over 0..n are printed as objects or arrays; give both the same form."""
    if isinstance(m, list):
        return {str(i + (0 if len(m) == 3 else 1)): v for i, v in enumerate(m)}
    return m


def c12_special(c, schema):
    """Readers without a head of their own, and files of another kind."""
    res = c.result
    Position = binding.Position
    for cls in (Position, CLASSES['WksPosition']):
        for e in ([], ['at'], ['at', 1], None, 'at 1 2', ('at', 1, 2), {'at': 1}, 5):
            res.case((cls.__name__, repr(e)))
            try:
                objects.call(cls.from_sexpr, e)
            except Refused:
                continue
            res.bad((cls.__name__, repr(e)), f'{cls.__name__} silently reads {e!r}')
        for head in ('at', 'xy', 'start', 'end', 'mid', 'center', 'size', 'pos', 'offset', 'aux_axis_origin'):
            res.case((cls.__name__, head))
            try:
                o = objects.call(cls.from_sexpr, [head, 1, 2.5])
                ok = (o.X, o.Y) == (1, 2.5)
            except Refused:
                ok = False
            if not ok:
                res.bad((cls.__name__, head), f'{cls.__name__} does not read ({head} 1 2.5)')
    DR = CLASSES['DesignRules']
    for e in ([], ['version', 1], [['rule', 'x'], ['version', 1]], [['rule', 'x']], None, 'x', (['version', 1],), {0: ['version', 1]}, ['rule', 'x'],
              ['kicad_pcb', ['version', 1]], [['versions', 1]], [['VERSION', 1]], ['kicad_sch', ['version', 20211123]], 7):
        res.case(('DesignRules', repr(e)))
        try:
            objects.call(DR.from_sexpr, e)
        except Refused:
            continue
        res.bad(('DesignRules', repr(e)), f'DesignRules silently reads {e!r}')
    for e in ([['version', 1]], [['version', 1], ['rule', 'x']]):
        try:
            objects.call(DR.from_sexpr, e)
        except Refused as x:
            res.bad(('DesignRules', repr(e)), f'DesignRules refuses {e!r}: {x}')
    LT = CLASSES['LayerToken']
    for e in (None, 'x', (0, 'F.Cu', 'signal'), {0: 1}, [], 4):
        res.case(('LayerToken', repr(e)))
        try:
            objects.call(LT.from_sexpr, e)
        except Refused:
            continue
        res.bad(('LayerToken', repr(e)), f'LayerToken silently reads {e!r}')


def c12_files(res, i, case, B, trees, seed):
    """Loading the file of another kind of document is refused."""
    mine, other, n = case
    conc = Conc((seed, 'file', other), texts='plain')
    if other == 'DesignRules':
        text = '(version 1)\n(rule "x" (constraint clearance (min "1mm")) (condition "y"))\n'
    elif other in trees:
        t = trees[other][str(n)]
        if not t:
            return
        text = sx.write(conc.node(t[0]))
    else:
        text = other
    ok = mine == other
    res.case((mine, 'file', other, n))
    with Scratch() as tmp:
        path = os.path.join(tmp, 'doc.kicad')
        with open(path, 'w', encoding='utf-8') as fh:
            fh.write(text)
        try:
            o = objects.call(CLASSES[mine].from_file, path, encoding=objects.some_encoding(i, mine))
        except Refused as e:
            if ok:
                res.bad((mine, 'file'), f'{mine}: its own file is refused: {e}', text=text[:2000])
            return
    if not ok:
        res.bad((mine, 'file', other), f'{mine} silently loads a file with {other[:60]!r}', text=text[:2000])


def c12():
    c = Check('C12')
    depth = c.pick(1, 2)
    r = tlc.run('Accept', CFG.format(bases='{0, 1, 2}', depth=depth), workers=8, timeout=c.pick(800, 3000))
    c.model('Accept: every reader and every offer', r)
    schema = next(x['schema'] for x in r.exported if 'schema' in x)
    t = next(x for x in r.exported if 'trees' in x)
    trees = {k: as_map(v) for k, v in t['trees'].items()}
    readings = {k: as_map(v) for k, v in t['readings'].items()}
    cases = sorted((x for x in r.exported if 'reader' in x), key=h)
    B = Binding(schema)
    for s in range(c.pick(1, 5)):
        c.replay(c12_case, cases, (B, trees, readings, c.seed + 100 * s))
    c12_special(c, schema)
    files = [(a, b, n) for a in FILE_KINDS for b in sorted(trees) + ['DesignRules', 'nothing', '', '()', '(())', '"x"', 'kicad_pcb', '(kicad_mod)'] for n in (0, 1)
             if a == b or a != 'DesignRules']
    files += [('DesignRules', b, 1) for b in sorted(trees) + ['nothing', '', '()', '"x"', 'version 1', '(rule "x") (version 1)']]
    c.replay(c12_files, files, (B, trees, c.seed))
    c.assumptions = ASSUME
    c.finish('every reader of the library against expressions of every kind, its own expressions under every head token of the format, '
             'misspelt and missing heads, and things that are no lists; the same through files; accepted exactly if the specification accepts')
