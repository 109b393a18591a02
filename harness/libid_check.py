"""C09: library identifiers (LibId.tla)."""
import objects, tlc
from binding import CLASSES
from framework import Check
from grammar_checks import ASSUME
from objects import Refused, call, read, write

SEQ = lambda s: '<<' + ', '.join(f'"{c}"' for c in s) + '>>'
NONE = '-none-'


def spellings(chars, n):
    return run('Spec', chars, n, [], [], [], 0, 'Verbatim Exact')


def histories(ids, nicks, entries, n):
    return run('SpecH', 'a', 0, ids, nicks, entries, n, 'Family SaveKeeps')


def walks(ids, nicks, entries, n, seeds, level):
    return run('SpecW', 'a', 0, ids, nicks, entries, n, 'Family SaveKeeps', seeds, level)


def run(spec, chars, maxlen, ids, nicks, entries, n, invs, seeds=(1,), level=1):
    defs = ['---- MODULE LibIdRun ----', 'EXTENDS LibId', f'cIds == {{{", ".join(map(SEQ, ids))}}}',
            f'cNicks == {{{", ".join(["NoPart"] + list(map(SEQ, nicks)))}}}', f'cEntries == {{{", ".join(map(SEQ, entries))}}}', '====']
    cfg = (f'SPECIFICATION {spec}\nCONSTANTS Chars = {tlc.tla_set(chars)}\n MaxLen = {maxlen}\n Ids <- cIds\n Nicks <- cNicks\n Entries <- cEntries\n'
           f' MaxHist = {n}\n Seeds = {tlc.tla_set(seeds)}\n MaxLevel = {level}\nINVARIANTS {invs} Export\nCHECK_DEADLOCK FALSE\n')
    return tlc.run('LibIdRun', cfg, files={'LibIdRun.tla': '\n'.join(defs)})


def part(s, number=False):
    if s == NONE:
        return None
    return int(s) if number else s


def state_of(o, cls):
    out = {'id': o.libId, 'nick': o.libraryNickname, 'entry': o.entryName}
    if cls == 'Symbol':
        out.update(unit=o.unitId, style=o.styleId)
    return out


def want_of(p, cls):
    out = {'id': p['id'], 'nick': part(p['nick']), 'entry': part(p['entry'])}
    if cls == 'Symbol':
        out.update(unit=part(p['unit'], True), style=part(p['style'], True))
    return out


def norm(d):
    # an empty nickname is as good as none
    return {**d, 'nick': d['nick'] or None}


def differs(o, case, cls):
    g, w = norm(state_of(o, cls)), norm(want_of(case['parts'], cls))
    if g != w:
        return f'{g} instead of {w}'
    if cls == 'Symbol':
        g, w = [norm(state_of(u, cls)) for u in o.units], [norm(want_of(p, cls)) for p in case['units']]
        if g != w:
            return f'units {g} instead of {w}'
    return None


def new(cls, libid):
    if cls == 'Symbol':
        return CLASSES[cls].create_new(libid, 'R', 'v')
    o = CLASSES[cls]()
    o.libId = libid
    return o


def spelled(res, i, case):
    cls, text = case['cls'], case['parts']['id']
    if not text:
        return
    res.case((cls, text), nontrivial=any(c in text for c in '_:'), sample={'class': cls, 'id': text, 'parts': case['parts']} if i % 3000 == 0 else None)
    try:
        o = call(new, cls, text)
        d = differs(o, case, cls)
        if d:
            res.bad((cls, 'set'), f'{cls}: after setting the identifier {text!r}: {d}', id=text)
            return
        back = read(cls, write(cls, o))
    except Refused as e:
        res.bad((cls, 'raise'), f'{cls}: identifier {text!r}: {e}', id=text)
        return
    d = differs(back, case, cls)
    if d:
        res.bad((cls, 'load'), f'{cls}: after saving and loading the identifier {text!r}: {d}', id=text)


def family_name(o):
    return o.entryName if o.unitId is None or o.styleId is None else f'{o.entryName}_{o.unitId}_{o.styleId}'


def perform(o, cls, ops):
    for x in ops:
        op, arg = x['op'], x['arg']
        if op == 'id':
            o.libId = arg[0]
        elif op == 'nick':
            o.libraryNickname = part(arg[0])
        elif op == 'entry':
            o.entryName = arg[0]
        elif op == 'unit':
            o.unitId, o.styleId = part(arg[0], True), part(arg[1], True)
        elif op == 'unitno':
            o.unitId = part(arg[0], True)
        elif op == 'styleno':
            o.styleId = part(arg[0], True)
        elif op == 'add':
            u = CLASSES['Symbol']()
            u.libId = f'{family_name(o)}_{arg[0]}_{arg[1]}'
            o.units.append(u)
        elif op == 'drop':
            del o.units[0]
        elif op == 'unitid':
            o.units[0].libId = arg[0]
        elif op == 'save':
            o = read(cls, write(cls, o))
    return o


def history(res, i, case):
    cls = case['cls']
    res.case((cls, case['hist']), nontrivial=bool(case['hist']), sample={'class': cls, 'history': case['hist']} if i % 2000 == 7 else None)
    try:
        hist = case['hist']
        start, count = hist[0]['arg'] if hist and hist[0]['op'] == 'start' else ('R', '3' if cls == 'Symbol' else '0')
        o = new(cls, start)
        family = call(family_name, o) if cls == 'Symbol' else ''
        for u, st in ((0, 1), (1, 1), (12, 0))[:int(count)]:
            o.units.append(CLASSES['Symbol'](entryName=family, unitId=u, styleId=st))
        o = call(perform, o, cls, case['hist'])
    except Refused as e:
        res.bad((cls, 'raise', case['hist'][-1]['op']), f'{cls}: history {case["hist"]}: {e}', history=case['hist'])
        return
    d = differs(o, case, cls)
    if d:
        res.bad((cls, case['hist'][-1]['op'] if case['hist'] else ''), f'{cls}: history {case["hist"]}: {d}', history=case['hist'])


def c09():
    c = Check('C09')
    r1 = c.model('LibId: all spellings', spellings('a_:01', c.pick(6, 8)))
    r5 = c.model('LibId: spellings with other characters', spellings(['a', ':', '_', '1', ' ', '"', '\n', '-'], c.pick(4, 5)))
    ids = ['Q', 'L:Q', 'Q_1_2', 'L:Q_0_1', 'Q_01_1', 'M:N:O', 'a_b', '74_HC_00', '_1_1', '5']
    r2 = c.model('LibId: histories', histories(ids, ['K', 'lib-2'], ['T', 'T_3_4', 'T_x'], c.pick(3, 4)))
    more = ids + ['Q_1_0', 'Q_0_0', 'Q_0_2', 'Q_10_1', 'Q_1_10', 'L:Q_1_0', 'Lib.2:x y', 'Q-1', 'R_US', 'R_US_0_1', 'A_1', 'A_1_', 'A__1_1', 'A_-1_1', 'A_1_1_1_1', 'A_1_01',
                  'LQ', 'L', 'Q_', ':Q', 'Q:', 'L:Q:R', 'a:b_1_1', 'R_1_1', 'R_2_1', 'Device:R', 'Device:R_Small', 'R_Small', 'R_Small_1_1', '_', '0_1_1', '1_1']
    r3 = c.model('LibId: pairs of steps, more identifiers', histories(more, ['K', 'lib-2', 'Device'], ['T', 'T_3_4', 'T_x', 'T_0_0', 'R'], 2))
    r4 = c.model('LibId: long histories', walks(more, ['K', 'lib-2', 'Device'], ['T', 'T_3_4', 'T_x', 'T_0_0', 'R'], 14,
                 [c.seed * 100 + i for i in range(16)], c.pick(400, 4000)))
    key = lambda x: (x['cls'], len(x['hist']), x['parts']['id'], str(x))
    c.replay(spelled, sorted(r1.exported + r5.exported, key=key))
    c.replay(history, sorted(r2.exported + r3.exported + r4.exported, key=key))
    c.assumptions = ASSUME
    c.finish('every identifier spelling up to 6 (thorough: 8) characters over a letter, underscore, colon and two digits; every history of up to '
             '3 (4) renames, part edits, unit edits and saves; pseudo-random histories of up to 14 steps; on symbols, schematic symbols and footprints; non-trivial: with separators')
