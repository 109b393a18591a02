"""An independent reader and printer of S-expressions (the oracle's own eyes).

A node is ('a', text) for an unquoted word, ('q', text) for a quoted string and
('l', [nodes]) for a list.  It shares no code with the library under test.
"""

class SxError(Exception):
    pass


def read_all(text):
    """All top-level nodes of a text; raises SxError if it is not well-formed."""
    stack, out, i, n = [], [], 0, len(text)
    while i < n:
        ch = text[i]
        if ch in ' \t\r\n\f\v' or ch.isspace():
            i += 1
        elif ch == '(':
            stack.append(out)
            out = []
            i += 1
        elif ch == ')':
            if not stack:
                raise SxError(f'unbalanced ) at {i}')
            lst, out = out, stack.pop()
            out.append(('l', lst))
            i += 1
        elif ch == '"':
            j, buf = i + 1, []
            while True:
                if j >= n:
                    raise SxError(f'unterminated string at {i}')
                if text[j] == '\\' and j + 1 < n and text[j + 1] == '"':
                    buf.append('"')
                    j += 2
                elif text[j] == '"':
                    break
                else:
                    buf.append(text[j])
                    j += 1
            j += 1
            if j < n and text[j] not in ')' and not text[j].isspace():
                raise SxError(f'string at {i} runs into {text[j:j+10]!r}')
            out.append(('q', ''.join(buf)))
            i = j
        else:
            j = i
            while j < n and text[j] not in '()' and not text[j].isspace():
                j += 1
            word = text[i:j]
            if '"' in word:
                raise SxError(f'quote inside a word: {word[:40]!r}')
            out.append(('a', word))
            i = j
    if stack:
        raise SxError('unbalanced (')
    return out


def read_one(text):
    nodes = read_all(text)
    if len(nodes) != 1:
        raise SxError(f'{len(nodes)} top-level expressions instead of one')
    return nodes[0]


def quote(s):
    return '"' + s.replace('"', '\\"') + '"'


def write(node, rnd=None):
    """Print a node; with rnd, choose the white space between tokens at random."""
    k, v = node
    if k == 'a':
        return v
    if k == 'q':
        return quote(v)
    if rnd is None:
        return '(' + ' '.join(write(c) for c in v) + ')'
    parts = ['(' + rnd.choice(['', '', '', ' ', '\n'])]
    prev = None
    for c in v:
        if prev is not None:
            tight = prev[0] == 'l' or (c[0] == 'l' and prev[0] == 'a')
            parts.append(rnd.choice([' ', ' ', ' ', '\n', '\n  ', '\t', '  ', '\n\n    '] + ([''] if tight else [])))
        parts.append(write(c, rnd))
        prev = c
    parts.append(rnd.choice(['', '', '', ' ', '\n', '\n\t']))
    return ''.join(parts) + ')'


def to_lists(node):
    """The nested-list form of a node, with every atom as text."""
    k, v = node
    return [to_lists(c) for c in v] if k == 'l' else v


def num(s):
    try:
        return int(s) if s.lstrip('+-').isdigit() else float(s)
    except (ValueError, TypeError):
        return None


def same_atom(a, b):
    """Two atoms denote the same value: same quotedness, same text, or same number if unquoted."""
    if a[0] != b[0]:
        return False
    if a[1] == b[1]:
        return True
    if a[0] == 'a':
        x, y = num(a[1]), num(b[1])
        return x is not None and x == y
    return False


def head(node):
    if node[0] == 'l' and node[1] and node[1][0][0] != 'l':
        return node[1][0][1]
    return None


def diff(got, want, ordered=False, path=''):
    """First difference between two nodes, or None.

    Unordered: list children may come in any order as long as those with the same head keep
    theirs; atoms keep their order among themselves.
    """
    if got[0] == 'l' or want[0] == 'l':
        if got[0] != want[0]:
            return f'{path}: {short(got)} instead of {short(want)}'
        h = head(want)
        path = f'{path}/{h}' if h is not None else f'{path}/()'
        gs, ws = got[1], want[1]
        if not ordered:
            gs, ws = canon(gs), canon(ws)
        for i in range(max(len(gs), len(ws))):
            if i >= len(gs):
                return f'{path}: missing {short(ws[i])}'
            if i >= len(ws):
                return f'{path}: unexpected {short(gs[i])}'
            if not ordered and head(gs[i]) != head(ws[i]):
                if not (num(head(gs[i])) is not None and num(head(gs[i])) == num(head(ws[i]))):
                    g, w = [head(x) for x in gs], [head(x) for x in ws]
                    miss = next((x for x in ws if g.count(head(x)) < w.count(head(x))), None)
                    if miss is not None:
                        return f'{path}: missing {short(miss)}'
                    return f'{path}: unexpected {short(next((x for x in gs if g.count(head(x)) > w.count(head(x))), gs[i]))}'
            d = diff(gs[i], ws[i], ordered, path)
            if d:
                return d
        return None
    return None if same_atom(got, want) else f'{path}: {short(got)} instead of {short(want)}'


def canon(children):
    atoms = [c for c in children if c[0] != 'l']
    lists = [c for c in children if c[0] == 'l']
    order = {}
    for c in lists:
        h = head(c)
        x = num(h) if h is not None else None
        order.setdefault(repr(x) if x is not None else (h or ''), []).append(c)
    return atoms + [c for h in sorted(order) for c in order[h]]


def short(node):
    s = write(node)
    return s if len(s) < 120 else s[:117] + '...'


def find(node, name):
    """The first list with that head, at any depth."""
    if node[0] == 'l':
        if head(node) == name:
            return node
        for x in node[1]:
            hit = find(x, name)
            if hit:
                return hit
    return None
