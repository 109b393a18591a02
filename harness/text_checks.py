"""Checks of the reader, of texts and of numbers (C05, C06, C19): Lexer.tla, Texts.tla, Numerals.tla and Objects.tla."""
import random
import binding, objects, sx, tlc, values
from binding import Binding, parse_sexp
from conc import Conc, FLAGWORDS, ODD, WORDS, h
from framework import Check
from grammar_checks import ASSUME, info, judge_both, sig, sweep
from objects import Refused, call, explore, read, write

CH = {'s': ' ', 'n': '\n', 'q': '"', 'b': '\\', 'l': '(', 'r': ')', 'a': 'x', 'd': '7', 'u': 'ü', 't': '\t', 'm': ';', 'k': "'"}


def lexer(n):
    return tlc.run('Lexer', f'SPECIFICATION Spec\nCONSTANTS MaxTokens = {n}\nINVARIANTS Inverse KeepsOrder BalancedIffAccepted Export\nCHECK_DEADLOCK FALSE\n')


def numerals(n, digits=('0', '1', '5'), others=('.', '-', '+', 'e', 'E', 'a')):
    return tlc.run('Numerals', f'SPECIFICATION Spec\nCONSTANTS Digits = {tlc.tla_set(digits)}\n Others = {tlc.tla_set(others)}\n MaxLen = {n}\n'
                   'INVARIANTS LeadingZero TrailingZero Decimal Shifted Automaton Export\nCHECK_DEADLOCK FALSE\n')


RUNS = ('2147483648', '4294967296', '65536', '9999999', '123456789', '000', '00000', '1', '5', '25', '999', '75', '1000000')


def numeral_runs(n, runs=RUNS, others=('.', '-', 'e-', '0.')):
    seq = lambda w: '<<' + ', '.join(f'"{x}"' for x in w) + '>>'
    mod = ('---- MODULE NumeralRuns ----\nEXTENDS Numerals\nRunsD == {%s}\nRunsO == {%s}\n====\n' % (', '.join(map(seq, runs)), ', '.join(map(seq, others))))
    return tlc.run('NumeralRuns', 'SPECIFICATION SpecRuns\nCONSTANTS Digits <- RunsD\n Others <- RunsO\n MaxLen = %d\n'
                   'INVARIANTS LeadingZero TrailingZero Decimal Shifted Automaton Export\nCHECK_DEADLOCK FALSE\n' % n, files={'NumeralRuns.tla': mod})


def significant(x):
    """Few enough digits for a float, as every number of the formats."""
    return x['class'] == 'word' or len(x['val']['ds']) <= 15 and -12 < x['val']['ex'] <= 15


def texts(n, chars='snqblradu'):
    return tlc.run('Texts', f'SPECIFICATION Spec\nCONSTANTS Chars = {tlc.tla_set(chars)}\n MaxLen = {n}\n'
                   'INVARIANTS Lossless Protected Export\nCHECK_DEADLOCK FALSE\n')


def spell(t):
    return ''.join(CH[c] for c in t)


def number(val):
    """The exact number of a numeral of the specification, as the nearest Python number."""
    if not val['ds']:
        return 0
    ex = val['ex'] - len(val['ds'])
    s = ('-' if val['neg'] else '') + val['ds']
    return int(s) * 10 ** ex if ex >= 0 else float(f'{s}e{ex}')


# ---------------------------------------------------------------- C05
def show(x, limit=200):
    s = repr(x)
    return s if len(s) < limit else s[:limit] + '...'


def same(got, want):
    """Is got the nested-list form want?  A number may be an int or a float, a text is a str."""
    if isinstance(want, list):
        return isinstance(got, list) and len(got) == len(want) and all(same(a, b) for a, b in zip(got, want))
    if isinstance(want, str):
        return isinstance(got, str) and got == want
    return isinstance(got, (int, float)) and not isinstance(got, bool) and got == want


WS = [' ', ' ', ' ', '\n', '\t', '  ', '\r\n', '\n\n   ', ' \t ', '\f', '\v ']


def begins_odd(s):
    return s[:1] == ')' or s[:1].isspace()


def c05_lex(res, i, case, seed, nums, n):
    toks = case['toks']
    for k in range(n):
        rnd = random.Random(h(seed, k, toks))
        atoms, parts, prev, last_q, f01, f03 = {}, [rnd.choice(['', '', ' ', '\n'])], None, None, False, False
        for j, t in enumerate(toks, 1):
            tight = prev is not None and (t in 'LR' or prev in 'LR')
            # (a quoted string directly followed by an opening bracket: known finding F03)
            if prev == 'Q' and t == 'L':
                tight = rnd.random() < 0.05
            if t == 'W':
                w = rnd.choice(WORDS + [f'w{rnd.randrange(100)}', '+5', '1e5', '.5', '5.', '-', '5x', '1-2', '0x1F', '1.2.3', 'é', "'", 'a"b' if False else 'q'])
                atoms[j], txt = w, w
            elif t == 'N':
                x = rnd.choice(nums)
                atoms[j], txt = number(x['val']), x['text']
            elif t == 'Q':
                s = rnd.choice(ODD + ['', 'plain', '5', 'x y', '\\', 'dir\\'])
                if last_q is not None and last_q.endswith('\\') and begins_odd(s):
                    f01 = True
                last_q = s
                atoms[j], txt = s, sx.quote(s)
            else:
                txt = '(' if t == 'L' else ')'
            if prev is not None:
                if tight and rnd.random() < 0.6:
                    if prev == 'Q' and t == 'L':
                        f03 = True
                else:
                    parts.append(rnd.choice(WS))
            parts.append(txt)
            prev = t
        text = ''.join(parts) + rnd.choice(['', '', ' ', '\n', '\r\n'])
        res.case(text, sample={'tokens': ''.join(toks), 'text': text[:200]} if i % 500 == 0 else None)
        want = tree(case['tree'][0], atoms) if case['ok'] else None
        try:
            got = call(parse_sexp, text)
        except Refused as e:
            if case['ok'] and not (f01 or f03):
                res.bad(('refused', str(e)[:30]), f'a well-formed text is refused: {show(text)}: {e}', text=text)
            elif case['ok']:
                res.known['F01' if f01 else 'F03'] = res.known.get('F01' if f01 else 'F03', 0) + 1
            continue
        if not case['ok']:
            if f01 or f03:
                f = 'F01' if f01 else 'F03'
                res.known[f] = res.known.get(f, 0) + 1
            else:
                res.bad(('unbalanced', ''.join(toks)), f'unbalanced text is read: {show(text)} as {show(got)}', text=text)
            continue
        if not same(got, want):
            if f01 or f03:
                f = 'F01' if f01 else 'F03'
                res.known[f] = res.known.get(f, 0) + 1
                continue
            res.bad(('tree', ''.join(toks)), f'{show(text)} is read as {show(got)} instead of {show(want)}', text=text)


def tree(node, atoms):
    return atoms[node['i']] if node['k'] == 'a' else [tree(c, atoms) for c in node['c']]


def c05_num(res, i, case, n):
    w, t = case['text'], case['text']
    want = number(case['val']) if case['class'] != 'word' else t
    for text, exp in ((f'(x {w})', ['x', want]), (f'({w})', [want]), (f'(x {w} y)', ['x', want, 'y']), (f'(x\n{w}\n)', ['x', want]),
                      (f'(x\t{w}\t"s")', ['x', want, 's']), (f'(x {w}(y {w}))', ['x', want, ['y', want]]), (f'((a) {w} "{w}")', [['a'], want, w]),
                      (f'({w} {w} {w}\r\n)', [want] * 3), (f'(a (b (c {w})))', ['a', ['b', ['c', want]]])):
        res.case(text)
        try:
            got = call(parse_sexp, text)
        except Refused as e:
            got = e
        if not same(got, exp):
            res.bad(('numeral', case['class'], len(w)), f'{show(text)} is read as {show(got)} instead of {show(exp)}', text=text)
            return


def c05_text(res, i, case, n):
    s = spell(case['text'])
    q = sx.quote(s)
    for text, exp, odd in ((f'(x {q})', ['x', s], 0), (f'({q})', [s], 0), (f'(x {q} y)', ['x', s, 'y'], 0), (f'(x {q} "b")', ['x', s, 'b'], 0),
                           (f'({q}\n(y 1))', [s, ['y', 1]], 0), (f'(x {q} "")', ['x', s, ''], 0), (f'(a (b {q}) (c "d" 2) "e")', ['a', ['b', s], ['c', 'd', 2], 'e'], 0),
                           (f'(x "p\\"" {q})', ['x', 'p"', s], 0), (f'(x {q} {q})', ['x', s, s], begins_odd(s)), (f'(x {q} " b")', ['x', s, ' b'], 1),
                           (f'(x {q} ") (")', ['x', s, ') ('], 1)):
        res.case(text)
        try:
            got = call(parse_sexp, text)
        except Refused as e:
            got = e
        if not same(got, exp):
            if case['amb'] and odd:
                res.known['F01'] = res.known.get('F01', 0) + 1
                continue
            res.bad(('string', case['text'][:2]), f'{show(text)} is read as {show(got)} instead of {show(exp)}', text=text)
            return


def c05_large(res):
    """Deep and long texts."""
    for text, exp in (('(' * 400 + 'x' + ')' * 400, None), ('(a ' + ' '.join(f'({i} "s{i}")' for i in range(5000)) + ')', ['a'] + [[i, f's{i}'] for i in range(5000)]),
                      ('(a "' + 'x (y) ' * 20000 + '" 1)', ['a', 'x (y) ' * 20000, 1])):
        res.case(('large', len(text)))
        if exp is None:
            exp = 'x'
            for _ in range(400):
                exp = [exp]
        try:
            got = call(parse_sexp, text)
        except Refused as e:
            got = e
        if not same(got, exp):
            res.bad(('large', len(text)), f'a large text is read wrongly: {show(got)}', text=text[:200])


def c05():
    c = Check('C05')
    r1 = c.model('Lexer', lexer(c.pick(8, 10)))
    r2 = c.model('Numerals', numerals(c.pick(7, 9)))
    r4 = c.model('Numerals: longer spellings', numeral_runs(c.pick(4, 5)))
    r3 = c.model('Texts', texts(c.pick(5, 6)))
    nums = [x for x in r2.exported if x['class'] != 'word'][:4000]
    r1.exported.sort(key=lambda x: (len(x['toks']), x['toks']))
    c.replay(c05_lex, r1.exported, (c.seed, nums, c.pick(2, 3)))
    c.replay(c05_num, r2.exported + [x for x in r4.exported if significant(x)], (1,))
    c.replay(c05_text, r3.exported, (1,))
    c05_large(c.result)
    c.assumptions = ASSUME
    c.finish('every token sequence up to 8 (thorough: 10) tokens with random spellings and layouts; every word up to 7 (9) characters over digits, '
             'point, signs and exponent, and longer ones made of up to 4 (5) runs; every text up to 5 (6) characters over 9 character classes, quoted, in several contexts')


# ---------------------------------------------------------------- slots
def leaves(kind, obj, schema, classes, out=None, path=()):
    """(class, payload, slot) of all leaves of an object with one of the classes."""
    out = [] if out is None else out
    if kind == 'PngData':
        return out
    for f, s in schema[kind].items():
        v = obj[f]
        if isinstance(v, list):
            for x in v:
                if binding.is_leaf(x):
                    if x['c'] in classes:
                        out.append((x['c'], x['p'], s))
                else:
                    leaves(x['k'], x['o'], schema, classes, out)
        elif binding.is_leaf(v):
            if v['c'] in classes:
                out.append((v['c'], v['p'], s))
        elif isinstance(v, dict) and binding.as_list(s['ks']):
            leaves(binding.as_list(s['ks'])[0], v, schema, classes, out)
    return out


def keywords(kind, schema):
    out = set()
    for s in schema[kind].values():
        if s['hd']:
            out.add(s['hd'])
        if s['ty'] == 'keyed':          # reserved property keys are not free texts
            continue
        out |= set(x for x in binding.as_list(s['dom']))
    return out


def forced(case, B, key, value, seed, texts='plain'):
    conc = Conc((seed, case['kind'], 'forced'), texts=texts)
    conc.memo[key] = value
    conc.used.add((key[0][0], value))
    return conc


def roundtrip(res, case, B, conc, what, tag):
    kind = case['kind']
    o = B.build(kind, case['obj'], conc)
    try:
        text = write(kind, o)
        back = read(kind, text)
    except Refused as e:
        res.bad((kind, tag, 'raise'), f'{kind} with {what}: {e}', **info(case))
        return None
    d = B.compare(kind, back, case['norm'], conc)
    if d:
        res.bad((kind, tag, sig(d)), f'{kind} with {what}: read back {d}', **info(case, text=text[:4000]))
        return None
    return text


# ---------------------------------------------------------------- C06
def c06_case(res, i, item, B, seed, pool, cases):
    ci, (cl, p, s) = item
    case = cases[ci]
    name = p.rsplit('.', 1)[-1]
    mine = list(pool) + sorted(keywords(case['kind'], B.schema))
    for t in mine:
        conc = forced(case, B, (cl, p), t, seed)
        res.case((case['kind'], p, t))
        if roundtrip(res, case, B, conc, f'{p} = {t!r}', name) is None:
            return
    if len(res.samples) < 1:
        res.samples.append({'kind': case['kind'], 'slot': p, 'texts': len(mine), 'last': mine[-1]})


def c06_edit(res, i, case, B, seed, pool, n):
    """Texts in objects with other attributes edited."""
    if case['bad'] or not case['tree']:
        return
    ls = leaves(case['kind'], case['obj'], B.schema, ('t1', 't2'))
    if not ls:
        return
    rnd = random.Random(h(seed, i))
    kw = sorted(keywords(case['kind'], B.schema))
    for _ in range(n):
        cl, p, s = rnd.choice(ls)
        t = rnd.choice(pool) if rnd.random() < 0.5 or not kw else rnd.choice(kw)
        conc = forced(case, B, (cl, p), t, (seed, _))
        res.case((case['kind'], case['last'], p, t))
        if roundtrip(res, case, B, conc, f'{p} = {t!r} after editing {case["last"]}', p.rsplit('.', 1)[-1]) is None:
            return


def c06_pairs(res, i, item, B, seed, pool, cases):
    """Two texts in neighbouring attributes; the ambiguity F01 shows here."""
    ci, ls = item
    case = cases[ci]
    rnd = random.Random(h(seed, ci))
    for a, b in zip(ls, ls[1:]):
        for _ in range(6):
            t1, t2 = rnd.choice(pool), rnd.choice(pool)
            if t1 == t2:
                t2 += 'z'
            conc = forced(case, B, a[:2], t1, (seed, _))
            conc.memo[b[:2]] = t2
            res.case((case['kind'], a[1], b[1], t1, t2))
            o = B.build(case['kind'], case['obj'], conc)
            try:
                d = B.compare(case['kind'], read(case['kind'], write(case['kind'], o)), case['norm'], conc)
            except Refused as e:
                d = f'raise: {e}'
            if d:
                if any(x.endswith('\\') and any(begins_odd(y) for y in (t1, t2)) for x in (t1, t2)):
                    res.known['F01'] = res.known.get('F01', 0) + 1
                    continue
                res.bad((case['kind'], 'pair', sig(d)), f'{case["kind"]} with {a[1]} = {t1!r} and {b[1]} = {t2!r}: read back {d}', **info(case))
                return


EXTRA = ['', 'C:\\lib\\', '"a" and "b"', "''", '`', '\u2028', '\u00a0', 'x' * 3000, '(kicad_pcb)', '${X}', 'a\r b'.replace('\r', ''), '\\"', '\\\\"', '"\\', 'né', '\U0001F600', '0', '00', '1.0', '-0', '1e-5', '+1.5', '5', 'None', 'True', 'nan', '[]', '{}', "['x']", '%s', '{0}', 'a\tb', '\x01', '~', '*',
         'a\u0308', '\u2126', '\ufb01', '\ufeffx', 'x\ufeff', '\x0bv', 'f\x0c', '\x1cx', 'x\x85', '\u2029', 'a\u200db', 'ß', 'İı', '１', '\xad', 'x\x00y', '\x7f', '\ud7ff', '\ue000', '&lt;', '%20', '\\u0041', 'a  b', 'AbC', 'x.', '-x', '=1+1']


def long_texts():
    """Texts as long as sizes the code mentions, and longer."""
    ns = sorted({int(n) for n in values.mentioned()[1] if 10 <= n <= 70000})
    return ['ab cd' * (n // 5 + 1) for n in dict.fromkeys([n for n in ns if n > 58][-10:] + [5000])]


def c06():
    c = Check('C06')
    rt = c.model('Texts', texts(c.pick(3, 4)))
    all_texts = [spell(x['text']) for x in rt.exported]
    small = sorted(t for t in all_texts if len(t) <= 2)
    rest = sorted(t for t in all_texts if len(t) > 2)
    r = c.model('Objects: one edit from each base', explore(level=2, depth=1))
    B = Binding(r.schema)
    cases = [x for x in r.cases if x['last'] == '' and not x['bad'] and x['tree']]
    slots = [(ci, l) for ci, x in enumerate(cases) for l in leaves(x['kind'], x['obj'], r.schema, ('t1',)) if l[2]['lt'] in ('T', 'M')]
    pool = small + EXTRA + long_texts() + sorted(FLAGWORDS) + c.pick([], ODD)
    rnd = random.Random(c.seed)
    c.replay(c06_case, slots, (B, c.seed, pool, cases))
    k = c.pick(25, 600)
    c.replay(c06_rotate, list(enumerate(slots)), (B, c.seed, rest, cases, k))
    c.replay(c06_edit, r.cases, (B, c.seed, pool + ODD + rnd.sample(rest, 300), c.pick(2, 12)))
    pairs = [(ci, leaves(x['kind'], x['obj'], r.schema, ('t1',))) for ci, x in enumerate(cases)]
    c.replay(c06_pairs, [p for p in pairs if len(p[1]) > 1], (B, c.seed, small + [' b', ') x', 'a\\', '\\', '\n', ' ', ')'], cases))
    sweep(c, B, judge_both, (str,))
    c.result.counters['text_slots'] = len(slots)
    c.assumptions = ASSUME
    c.finish('every text up to 2 characters over 9 character classes, keywords of the kind, flag words and special texts in every text slot of '
             'every kind; longer ones (up to 3; thorough 4) in rotation; texts in objects with one attribute edited; pairs of texts')


def c06_rotate(res, i, item, B, seed, rest, cases, k):
    n, (ci, (cl, p, s)) = item
    case = cases[ci]
    rnd = random.Random(h(seed, n))
    longer = [''.join(rnd.choice(rest) + rnd.choice(['', 'ab', 'word ', '  x'])  for _ in range(m)) for m in (6, 12, 30, 60, 700)]
    longer = [t + 'z' if t.endswith('\\') else t for t in longer]
    for t in rnd.sample(rest, min(k, len(rest))) + longer:
        res.case((case['kind'], p, t))
        if roundtrip(res, case, B, forced(case, B, (cl, p), t, seed), f'{p} = {show(t)}', p.rsplit('.', 1)[-1]) is None:
            return


# ---------------------------------------------------------------- C19
NUMCLASS = ('n1', 'n2', 'q4', 'q6')


def decimals(v):
    from decimal import Decimal
    return max(0, -Decimal(repr(v)).normalize().as_tuple().exponent)


def fits(cl, v):
    lim = {'q4': 4, 'q6': 6}.get(cl)
    return lim is None or (decimals(v) <= lim and abs(v) < 1e9)


def c19_slot(res, i, item, B, seed, pool, spellings, cases, k):
    ci, (cl, p, s) = item
    case = cases[ci]
    rnd = random.Random(h(seed, i))
    name = p.rsplit('.', 1)[-1]
    vals = [v for v in pool if fits(cl, v)]
    for v in rnd.sample(vals, min(k, len(vals))):
        conc = forced(case, B, (cl, p), v, seed)
        res.case((case['kind'], p, repr(v)), sample={'kind': case['kind'], 'slot': p, 'value': repr(v)} if i % 60 == 0 else None)
        text = roundtrip(res, case, B, conc, f'{p} = {v!r}', name)
        if text is None:
            return
        try:
            d = sx.diff(sx.read_one(text), conc.node(case['tree'][0]))
        except sx.SxError as e:
            d = str(e)
        if d:
            res.bad((case['kind'], name, 'tok'), f'{case["kind"]} with {p} = {v!r}: another reader sees {d}', **info(case, text=text[:4000]))
            return
    # the number as another program spells it
    for x in rnd.sample(spellings, min(k // 2, len(spellings))):
        v = number(x['val'])
        if v == 0 or not fits(cl, v):
            continue
        conc = forced(case, B, (cl, p), x['text'], seed)
        doc = sx.write(conc.node(case['tree'][0]))
        res.case((case['kind'], p, 'doc', x['text']))
        try:
            o = read(case['kind'], doc)
            d = B.compare(case['kind'], o, case['norm'], conc)
            if not d:
                out = write(case['kind'], o)
                d = sx.diff(sx.read_one(out), conc.node(case['tree'][0]))
        except (Refused, sx.SxError) as e:
            d = f'raise: {e}'
        if d:
            res.bad((case['kind'], name, 'doc'), f'{case["kind"]} from a document with {p} = {x["text"]}: {d}', **info(case, text=doc[:4000]))
            return


def c19_all(res, i, case, B, seed, n):
    """Numbers of all magnitudes in all slots at once."""
    if case['bad'] or not case['tree']:
        return
    for k in range(n):
        conc = Conc((seed, k, i), texts='plain')
        rnd = random.Random(h(seed, k, i))
        for cl, p, s in leaves(case['kind'], case['obj'], B.schema, NUMCLASS):
            for _ in range(50):
                v = wild(rnd)
                if fits(cl, v):
                    break
            else:
                v = 1.5
            conc.memo[(cl, p)] = v
        res.case((case['kind'], i, k))
        if roundtrip(res, case, B, conc, 'numbers of all magnitudes', 'all') is None:
            return


def wild(rnd):
    sign = rnd.choice([1, -1])
    x = rnd.random()
    if x < 0.2:
        return sign * rnd.randrange(1, 10 ** rnd.randrange(1, 16))
    if x < 0.4:
        return sign * float(f'{rnd.randrange(1, 10 ** rnd.randrange(1, 17))}e-{rnd.randrange(1, 20)}')
    if x < 0.6:
        return sign * rnd.uniform(0, 10 ** rnd.randrange(-8, 12))
    if x < 0.8:
        return sign * round(rnd.uniform(0.0001, 1000), rnd.randrange(1, 7)) or 0.5
    return sign * float(rnd.randrange(1, 10 ** 6))


def c19():
    c = Check('C19')
    rn = c.model('Numerals', numerals(c.pick(6, 7), others=('.', '-', '+', 'e')))
    rl = c.model('Numerals: longer spellings', numeral_runs(3))
    spellings = [x for x in rn.exported + rl.exported if x['class'] != 'word' and significant(x)]
    vals = {}
    for x in spellings:
        v = number(x['val'])
        if v:
            vals.setdefault(repr(v), v)
            if isinstance(v, int):
                vals.setdefault(repr(float(v)), float(v))
    rnd = random.Random(c.seed)
    fixed = [1, -1, 5.0, 0.1, -0.1, 1e-05, 1e-07, 1.5e-06, 123456789, 10 ** 15, 9007199254740993, 2 ** 31, 2 ** 63, 0.30000000000000004, 1 / 3, 1e-10, 2.5e-05,
             123456.789012345, 999999999999999.9, 0.0001, 0.00012, 1.1, 100, 1000, 12.7, 25.4, 270, 359.9999, 1234567.1, 0.000001, 16777217, 3.0, 20.0, 1e3, 1e15]
    sample = sorted(rnd.sample(sorted(vals), min(len(vals), c.pick(150, 1500))))
    pool = fixed + [vals[k] for k in sample] + [wild(rnd) for _ in range(c.pick(50, 500))]
    r = c.model('Objects: bases', explore(level=1, depth=1, bases=(1,)))
    rr = c.model('Objects: arbitrary objects', explore(spec='SpecRand', seeds=[c.seed * 1000 + i for i in range(8)], level=c.pick(60, 600)))
    B = Binding(r.schema)
    cases = [x for x in r.cases if not x['bad'] and x['tree']]
    slots = [(ci, l) for ci, x in enumerate(cases) for l in leaves(x['kind'], x['obj'], r.schema, NUMCLASS)]
    c.replay(c19_slot, slots, (B, c.seed, pool, spellings, cases, c.pick(60, 600)))
    c.replay(c19_all, r.cases + rr.cases, (B, c.seed, c.pick(4, 20)))
    sweep(c, B, judge_both, (int, float))
    c.result.counters['numeric_slots'] = len(slots)
    c.assumptions = ASSUME
    c.finish('numerals of Numerals.tla and numbers of all magnitudes, in every numeric slot of every kind, from objects and from documents')
