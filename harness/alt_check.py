"""C15: states of Alt.tla - one object, its current and an alternative spelling - read by the library."""
import random
import binding, objects, sx
from binding import Binding, parse_sexp
from conc import Conc, h
from framework import Check
from grammar_checks import ASSUME, info, seeds, sig
from objects import Refused, explore, read, write


def respell(node, rnd):
    """Trailing zeros in unquoted decimal numbers, now and then."""
    k, v = node
    if k == 'l':
        return (k, [respell(x, rnd) for x in v])
    if k == 'a' and v.count('.') == 1 and v.replace('.', '').lstrip('-').isdigit() and not v.endswith('.') and rnd.random() < 0.3:
        return (k, v + '0' * rnd.randrange(1, 4))
    return node


def c15_case(res, i, case, B, seed, n):
    kind = case['kind']
    for j in range(n):
        salt = (seed, j, h(case))
        conc = Conc(salt, texts='word')
        rnd = random.Random(h(salt))
        alt = sx.write(respell(conc.node(case['tree']), rnd), rnd)
        cur = sx.write(conc.node(case['out']))
        res.case((kind, alt), nontrivial=not case['same'], sample={'kind': kind, 'style': case['last'], 'text': alt[:300]} if i % 50 == 0 else None)
        try:
            a, b = read(kind, alt), read(kind, cur)
        except Refused as e:
            res.bad((kind, 'read', case['last'], str(e)[:40]), f'{kind}: spelling ({case["last"]}) could not be read: {e}', **info(case, text=alt))
            return
        for o, what, text in ((b, 'current', cur), (a, case['last'], alt)):
            d = B.compare(kind, o, case['obj'], conc)
            if d:
                res.bad((kind, sig(d)), f'{kind}: spelling ({what}) read as {d}', **info(case, text=text))
                return
        if not (a == b) or a != b:
            res.bad((kind, 'eq'), f'{kind}: spelling ({case["last"]}) gives an object that is not equal to the one of the current spelling',
                    **info(case, text=alt, current=cur))
            return
        try:
            ta, tb = write(kind, a), write(kind, b)
            na, nb = sx.read_one(ta), sx.read_one(tb)
            ta2, tb2 = write(kind, read(kind, ta)), write(kind, read(kind, tb))
        except (Refused, sx.SxError) as e:
            res.bad((kind, 'write', str(e)[:40]), f'{kind}: read from spelling ({case["last"]}), could not be written: {e}', **info(case, text=alt))
            return
        for node, what in ((na, case['last']), (nb, 'current')):
            d = sx.diff(node, conc.node(case['out']), ordered=True)
            if d:
                res.bad((kind, 'out', sig(d)), f'{kind}: read from spelling ({what}), not written in the current spelling: {d}', **info(case, text=alt, out=ta))
                return
        if ta2 != tb2:
            res.bad((kind, 'text'), f'{kind}: spelling ({case["last"]}) and the current one give different texts', **info(case, text=alt, first=ta2, second=tb2))
            return


def c15():
    c = Check('C15')
    r1 = c.model('Alt: every style, every kind', explore('Alt', bases=(0, 1, 2)))
    r2 = c.model('Alt: arbitrary objects', explore('Alt', spec='SpecRand', seeds=seeds(c, 8), level=c.pick(400, 4000), timeout=3000))
    r3 = c.model('Alt: arbitrary documents', explore('Alt', spec='SpecRand', seeds=seeds(c, 8), level=c.pick(40, 400), depth=3, kinds=binding.FILE_KINDS, timeout=3000))
    B = Binding(r1.schema)
    c.replay(c15_case, r1.cases + r2.cases + r3.cases, (B, c.seed, c.pick(2, 5)))
    c.assumptions = ASSUME
    c.finish('every state of Alt.tla: all kinds in every style (legacy head, one layer as a list, bare or quoted words, flags early or late, '
             'reversed order, defaults left out, explicit "no") and all of them mixed; both spellings read, compared with the model and each '
             'other, and written; non-trivial: the spelling differs from the current one')
