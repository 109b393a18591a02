"""Concrete values for the abstract leaves of the specification.

A leaf (class, payload) of the specification stands for an arbitrary value.  A Conc picks one,
as a function of (salt, class, payload) only, so that equal leaves get equal values and leaves at
different places get different ones.
"""
import hashlib, random
import values

PLAIN = ['R1', 'Value', 'net-5', 'My Text', 'GND', 'Net-(U1-Pad3)', 'signal name', 'F.SilkS', 'a_b.c:d/e']
ODD = [
    'say "hi"', '"', '""', '"quoted" tail', 'tail "quoted"', 'a"b', '\\"x', 'path\\to\\file', 'back\\slash "q" x',
    '(at 1 2)', ')', '(', '))((', 'x) (evil 1', '") (evil "1', 'a b  c', ' lead', 'trail ', '  ', '\t', 'tab\there',
    'line\nbreak', '\n', 'one\ntwo\n', 'ü', 'Ωµ°', '日本語', '😀', 'é"ü', '123', '-5', '0402', '1e5', '1.50', '007', '+3.3V', '~',
    'yes', 'no', 'hide', 'locked', 'true', 'false', 'none', 'None', 'True', 'left', 'unlocked', 'knockout', 'portrait', 'smd',
    '${VAR}/x', '%REF', '{slash}', '#pwr', ';comment', "it's", '`', '$', 'a,b', '[x]', '<y>', '=', '&', '*', '|', '\u00a0x', '\u200b',
    '\\n', '\\t', 'C:\\dir\\x', 'Sheet  name', 'null', '^caret^', 'x^y', '@', 'a' * 300, 'module', 'property', 'User',
]
WORDS = ['smd', 'thru_hole', 'input', 'edge', 'solid', 'dash_dot', 'x-y', 'a.b', 'A1_b', 'outline', 'abc/def', 'k:v', 'a+b', '~x', 'w*', '{w}', 'ü1', 'x^2', 'q^', "p'", 'm,n', '#w', '$w', '%w', 'v7e', 'e5', 'x&y', '=w', 'w;']
FLAGWORDS = {'yes', 'no', 'true', 'false', 'hide', 'locked', 'unlocked', 'knockout', 'bold', 'italic', 'mirror', 'left', 'right', 'center',
             'top', 'bottom', 'oval', 'private', 'placed', 'portrait', 'smd', 'through_hole', 'board_only', 'island', 'none', 'disabled',
             'addsublayer', 'micro', 'blind', 'free', 'null', 'True', 'False', 'None'}
LIBS = ['Device', 'my_lib', 'Lib-1', 'Conn_01x02', 'lib.v1', 'a b', 'Bücher']
NAMES = ['R', 'LM358', 'C_0402', 'U_1', 'R_US', 'x-y', 'Name with space', 'A_B_C', 'IC_7_x', 'ä', '74HC00', 'BC_547', 'R_01_1', 'R_1_02', 'D_', '_', 'a.b', 'Q"n', 'R_1_', 'n_-1_2', 'sw_1_1x']

HEADS = []         # the tokens of the specification (set by the binding)


def h(*xs):
    return int.from_bytes(hashlib.blake2b(repr(xs).encode(), digest_size=8).digest(), 'big')


def jnum(x):
    """The way a number is printed in a document of our own making."""
    return repr(x)


class Conc:
    def __init__(self, salt, texts='mixed', files=False, collide=False, tiny=False):
        """collide: equal values at different places (keys of maps excepted); tiny: small integers for numbers."""
        self.salt, self.texts, self.files, self.collide, self.tiny = salt, texts, files, collide, tiny
        self.memo = {}
        self.used = set()

    def rnd(self, *xs):
        return random.Random(h(self.salt, *xs))

    def _unique(self, kind, make, p=''):
        if self.collide and not p.endswith('.key'):
            r = self.rnd('c', kind, p)
            mine = self.memo.setdefault(('pool', kind), [])
            if mine and r.random() < 0.7:
                return r.choice(mine)
        v = self._fresh(kind, make)
        if self.collide and not (isinstance(v, str) and values.NUMBER.match(v)):
            self.memo.setdefault(('pool', kind), []).append(v)
        return v

    def _fresh(self, kind, make):
        for i in range(1000):
            v = make(i)
            key = (kind, v)
            if key not in self.used:
                self.used.add(key)
                return v
        raise AssertionError('no fresh value')

    def text(self, c, p):
        if self.texts == 'word':            # texts that may stand without quotes
            return self._unique('t', lambda i: self.plain_word('t', c, p, i), p)
        f = p.rsplit('.', 1)[-1]
        def make(i):
            r = self.rnd('t', c, p, i)
            x = r.random()
            known = values.texts(f) if r.random() < 0.6 else values.TEXTS
            if self.texts == 'plain':
                known = [t for t in known if t[:1] not in ' ()\n']
            if known and r.random() < 0.15 and i < 3:
                s = r.choice(known)
                if f == 'key' and s.lower().startswith('sheet'):     # (reserved)
                    s += '_'
            elif self.texts == 'plain' or x < 0.35:
                s = f'{r.choice(PLAIN)}{r.randrange(1000)}'
            elif x < 0.75 or self.texts == 'odd':
                s = r.choice(ODD)
                if i or r.random() < 0.2:
                    k = r.randrange(1000)
                    s = r.choice([f'{s}{k}', f'{k}{s}', f'{s} {r.choice(ODD)}{k}'])
            else:
                s = ''.join(r.choice('ab "\\()\n\tü1.-_') for _ in range(r.randrange(1, 12))) + 'z'
            if self.files:
                s = s.replace('\r', '')
            if s.endswith('\\') or not s:      # see known finding F01: its own check (C06)
                s += 'z'
            return s
        return self._unique('t', make, p)

    def plain_word(self, *key):
        r = self.rnd(*key)
        return r.choice(['', '_', '~', '/', '${X}/', '%']) + r.choice(['R', 'net', 'VCC', 'Üb', 'a.b', 'k:v', 'x-y', 'a/b/c', 'N$', 'e', 'Lib:', "5V'"]) \
            + r.choice(['', '-', '_', '.', '+']) + 'w' + str(r.randrange(10000)) + r.choice(['', '', '^', '#', 'mm', '*'])

    def unknown(self, p):
        """A token the library does not know, now and then much like one it does."""
        def make(i):
            r = self.rnd('u', p, i)
            if p.startswith('like/') and i < 20:
                hd, n = p.split('/')[1:3]
                w = [f'{hd}_{r.choice(["group", "x", "at"])}', f'{r.choice(["x_", "pre", "gr_", "fp_"])}{hd}', r.choice([hd[:-1], hd[1:], hd.replace('_', '')]),
                     r.choice([hd.upper(), hd.capitalize(), hd.replace('_', '-'), f'.{hd}']), f'{hd}{r.choice(["s", "2", "_", "-1", "ed"])}'][int(n)]
            elif HEADS and i < 20 and r.random() < 0.6:
                hd = r.choice(HEADS)
                w = r.choice([f'{hd}_group', f'{hd}s', f'{hd}2', f'x_{hd}', f'pre{hd}', hd[:-1], hd[1:], hd.upper(), hd.replace('_', '-'), f'{hd}.{hd}', f'{hd}_{r.choice(HEADS)}'])
            else:
                w = ''
            if values.is_word(w, FLAGWORDS) and w not in HEADS and w not in values.mentioned()[0] and len(w) > 1:
                return w
            return f'{r.choice(WORDS)}_u{r.randrange(1000)}'
        return self._unique('u', make, p)

    def word(self, p, unknown=False):
        if self.texts == 'word':
            return self._unique('w', lambda i: self.plain_word('w', p, i), p)
        def make(i):
            r = self.rnd('w', p, i)
            f = p.rsplit('.', 1)[-1]
            if f == 'version':
                return str(20200101 + r.randrange(40000)) if r.random() < 0.8 else f'v{r.randrange(99)}'
            if f in ('tedit', 'tstamp', 'uuid', 'id', 'members') or r.random() < 0.2:
                y = r.random()
                if y < 0.5:
                    hx = '%032x' % r.getrandbits(128)
                    hx = 'a' + hx[1:] if hx[0] == '0' else hx
                    return '-'.join([hx[:8], hx[8:12], hx[12:16], hx[16:20], hx[20:]])
                s = '%08X' % r.getrandbits(32)
                if s[0] == '0' or 'E' in s or (s.isdigit() and f not in ('tedit', 'tstamp', 'id')):
                    s = 'F' + s[1:]
                return s
            if not unknown and i < 3 and r.random() < 0.5:
                w = r.choice(values.texts(f) or values.WORDS) if r.random() < 0.6 else r.choice(values.WORDS)
                if values.is_word(w, FLAGWORDS):
                    return w
            w = r.choice(WORDS)
            if i or r.random() < 0.7:
                w = f'{w}{r.randrange(100)}' if r.random() < 0.6 else f'{w}_{r.choice(WORDS)}'
            return w
        def ok(i):
            w = make(i)
            j = 0
            while w in FLAGWORDS:
                j += 1
                w = f'{w}_{j}'
            return w
        return self._unique('u' if unknown else 'w', ok, p)

    def number(self, c, p):
        if self.tiny and c in ('n1', 'n2'):
            return self.rnd('tiny', c, p).choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, -1, 0.5])
        def make(i):
            r = self.rnd('n', c, p, i)
            x = r.random()
            if c == 'q4':
                return round(r.uniform(0, 1), r.choice([1, 2, 4]))
            if c == 'q6':
                return round(r.uniform(-100, 100), r.choice([1, 3, 6]))
            if i < 3 and r.random() < 0.25:
                v = r.choice(values.near(p.rsplit('.', 1)[-1]) or values.NUMBERS) if r.random() < 0.5 else r.choice(values.NUMBERS)
                return v
            if x < 0.25:
                return r.choice([1, -1, 1]) * r.randrange(1, 500)
            if x < 0.6:
                return round(r.choice([1, -1]) * r.uniform(0.001, 300), r.choice([1, 2, 3, 4, 6]))
            if x < 0.7:
                return r.choice([1, -1]) * (r.randrange(1, 99) / 10 ** r.randrange(5, 9))   # 1e-05 and the like
            if x < 0.8:
                return r.choice([1, -1]) * r.randrange(10 ** 6, 10 ** 15)
            if x < 0.9:
                return r.choice([1, -1]) * float(r.randrange(1, 10 ** 6))
            return r.choice([1, -1]) * r.uniform(0, 1000)
        def nz(i):
            v = make(i)
            return v if v else make(i + 7919) or 1.5
        return self._unique('n' if c not in ('q4', 'q6') else c, nz, p)

    def ident(self, c, p):
        def make(i):
            r = self.rnd('i', c, p, i)
            if self.texts == 'word':
                name = r.choice(['R', 'LM', 'C_', 'a.b', 'ä', 'Q-']) + 'n' + str(r.randrange(1000))
                return f'{r.choice(["Device", "lib.v1", "L-1"])}:{name}' if c == 'i1' else f'{name}_{r.randrange(3)}_{r.randrange(3)}' if c == 'i3' else name
            name = r.choice(NAMES) + ('' if r.random() < 0.5 and not i else str(r.choice('abcxyz')) + str(r.randrange(100)))
            if c == 'i1':
                return f'{r.choice(LIBS)}:{name}' if r.random() < 0.8 else f'{r.choice(LIBS)}:{name}_{r.randrange(3)}_{r.randrange(3)}'
            if c == 'i3':
                return f'{name}_{r.randrange(12)}_{r.randrange(3)}'
            return name
        return self._unique('i', make)

    def layer(self, c, p):
        def make(i):
            r = self.rnd('l', c, p, i)
            if c == 'x1':
                return r.choice(['*.Cu', 'F&B.Cu', '*.Mask', '*.Paste', '*.SilkS'])
            if self.texts == 'word':
                return r.choice(['F.Cu', 'B.Cu', 'In1.Cu', 'F.Mask', 'User.1', 'Edge.Cuts', 'L' + str(i)])
            return r.choice(['F.Cu', 'B.Cu', 'In1.Cu', 'F.Mask', 'User.1', 'Edge.Cuts', 'my layer', 'Top"x"', 'L' + str(i)])
        if c == 'x1':
            return make(0)
        return self._unique('l', make, p)

    # -- the value of a leaf --
    def raw(self, leaf):
        c, p = leaf['c'], leaf['p']
        if c == 'none':
            return None
        if c == 'T':
            return True
        if c == 'F':
            return False
        if c == 'lit':
            return p
        if c == 't0':
            return ''
        if c == 'n0':
            return 0
        key = (c, p)
        if key not in self.memo:
            self.memo[key] = self._new(c, p)
        return self.memo[key]

    def _new(self, c, p):
        if c in ('t1', 't2'):
            return self.text(c, p)
        if c == 'h1':
            return self.hexa(p)
        if c in ('n1', 'n2', 'q4', 'q6'):
            return self.number(c, p)
        if c == 'i9':
            i = int(p.split('.')[-2]) if p.split('.')[-2].isdigit() else 1
            return [i, 1000 - i, i * 37 % 1009, i * 3 - 2][h(self.salt, 'i9') % 4]     # (distinct for distinct items)
        if c == 'u1' and self.texts != 'word':
            return self.unknown(p)
        if c in ('w1', 'u1'):
            return self.word(p, unknown=c == 'u1')
        if c in ('i1', 'i2', 'i3'):
            return self.ident(c, p)
        if c in ('y1', 'x1'):
            return self.layer(c, p)
        if c == 'x2':
            return self.rnd('x', p).choice(['*.Cu', 'F&B.Cu'])
        if c == 'iu':                                   # appended to the parent's name
            return f'_{p.rsplit(".", 1)[-1]}_{self.rnd("u", p).randrange(3)}'
        raise AssertionError(c)

    # -- trees of the specification as nodes of sx --
    def node(self, tree, parent=None):
        """A tree as an sx node; parent is the name of the enclosing symbol, if any."""
        if tree['k'] == 'l':
            kids = tree['c']
            if len(kids) > 1 and kids[0]['v'] == {'c': 'lit', 'p': 'symbol'} and kids[1]['k'] != 'l':
                name = self.leaf_text(kids[1]['v'], parent)
                parent = name.split(':', 1)[1] if ':' in name else name
                return ('l', [('a', 'symbol'), (kids[1]['k'], name)] + [self.node(t, parent) for t in kids[2:]])
            return ('l', [self.node(t, parent) for t in kids])
        return (tree['k'], self.leaf_text(tree['v'], parent))

    def leaf_text(self, leaf, parent=None):
        v = self.raw(leaf)
        if leaf['c'] == 'iu':
            return (parent or '') + v
        return v if isinstance(v, str) else repr(v)

    def hexa(self, p):
        r = self.rnd('h', p)
        if self.texts == 'word':
            return 'F' + ''.join(r.choice('0123456789ABCDEF') for _ in range(r.randrange(1, 30)))
        return ''.join(r.choice('0123456789ABCDEF ') for _ in range(r.randrange(1, 60))).strip() or 'A0'
