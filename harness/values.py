"""Values worth trying: customary ones of the formats, and those the code and its documentation mention.

The library's source is only used as a dictionary (as a fuzzer does): which values it mentions decides which values are tried,
never what is expected of them.
"""
import ast, functools, glob, os, re
from binding import SRC

NUMBERS = [1, 2, 3, 4, 5, 10, 45, 90, 180, 270, 360, 900, 1800, 2700, -1, -90, 0.1, 0.15, 0.2, 0.254, 0.5, 0.508, 1.0, 1.27, 1.524, 1.6, 2.54,
           0.12, 25.4, 100, 255, 256, 999, 1000, 1001, 4096, 32767, 32768, 65535, 65536, 1000000, 2147483647, 2147483648, 1e-06, 0.000001, 0.001, 359.9, -0.001, -360]
WORDS = ['smd', 'thru_hole', 'np_thru_hole', 'connect', 'rect', 'circle', 'oval', 'roundrect', 'trapezoid', 'custom', 'aligned', 'leader', 'orthogonal', 'radial',
         'center', 'signal', 'power', 'mixed', 'jumper', 'user', 'full', 'edge', 'solid', 'hatch', 'polygon', 'outline', 'background', 'input', 'output', 'bidirectional',
         'tri_state', 'passive', 'free', 'unspecified', 'power_in', 'power_out', 'open_collector', 'no_connect', 'line', 'inverted', 'clock', 'dash', 'dash_dot', 'dot',
         'default', 'allowed', 'not_allowed', 'thru_hole_only', 'reference', 'value', 'convexhull', 'pcbnew', 'eeschema', 'kiutils', 'x', 'y', 'xy', 'ltcorner', 'rtcorner']
TEXTS = ['', 'GND', '+3V3', '~', 'Reference', 'Value', 'Footprint', 'Datasheet', 'REF**', '${REFERENCE}', 'F.Cu', 'B.Cu', '*.Cu', 'Edge.Cuts', 'KiCad', 'Legacy', 'A4', 'User',
         'N/A', 'none', 'yes', 'no', '1', '0', '-1', '/', 'unconnected-(U1-Pad3)', '2022-02-14', 'rev 1', 'copper', 'core', 'prepreg', 'Top Silk Screen', 'FR4']
WORD = re.compile(r'[^()\s"]+\Z')
NUMBER = re.compile(r'[+-]?\d+(\.\d+)?([eE]-?\d+)?\Z')


def _doc_words(s):
    return re.findall(r'``([^`\n]{1,40})``', s)


@functools.lru_cache(None)
def mentioned():
    """(strings, numbers) anywhere, and the same by name of the attribute they are mentioned with."""
    strs, nums, by = set(), set(), {}
    for path in sorted(glob.glob(os.path.join(SRC, 'kiutils', '**', '*.py'), recursive=True)):
        try:
            tree = ast.parse(open(path, encoding='utf-8').read())
        except SyntaxError:
            continue
        docs = set()
        for node in ast.walk(tree):
            body = getattr(node, 'body', None)
            if isinstance(body, list):
                for prev, st in zip([None] + body, body):
                    if isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant) and isinstance(st.value.value, str):
                        docs.add(id(st.value))
                        if isinstance(prev, ast.AnnAssign) and isinstance(prev.target, ast.Name):
                            by.setdefault(prev.target.id, set()).update(_doc_words(st.value.value))
        for node in ast.walk(tree):
            if isinstance(node, ast.Constant) and id(node) not in docs:
                v = node.value
                if isinstance(v, str):
                    strs.add(v)
                    strs.update(re.findall(r'[A-Za-z_*&][\w.*&-]+', v) if len(v) < 200 else [])
                elif isinstance(v, (int, float)) and not isinstance(v, bool) and abs(v) < 1e15:
                    nums.add(v)
            if isinstance(node, (ast.Compare, ast.Assign, ast.AnnAssign, ast.Call, ast.BoolOp, ast.IfExp, ast.If, ast.BinOp)):
                inner = list(ast.walk(node if not isinstance(node, ast.If) else node.test))
                names = {x.attr for x in inner if isinstance(x, ast.Attribute)} | {x.arg for x in inner if isinstance(x, ast.keyword) and x.arg}
                if isinstance(node, ast.AnnAssign) and isinstance(node.target, ast.Name):
                    names.add(node.target.id)
                if 0 < len(names) <= 8:
                    vals = {x.value for x in inner if isinstance(x, ast.Constant) and id(x) not in docs}
                    for n in names:
                        by.setdefault(n, set()).update(v for v in vals if isinstance(v, (str, int, float)) and not isinstance(v, bool))
    def fine(v):
        return not isinstance(v, str) or len(v) <= 60 and '{' not in v.strip('${}') and '\r' not in v
    key = lambda v: (isinstance(v, str), v)
    return (tuple(sorted(v for v in strs if fine(v))), tuple(sorted(nums)),
            {n: tuple(sorted((v for v in s if fine(v)), key=key)) for n, s in by.items()})


def is_word(s, flags):
    return isinstance(s, str) and bool(WORD.match(s)) and not NUMBER.match(s) and s not in flags


@functools.lru_cache(None)
def near(f):
    """Numbers mentioned with an attribute, and their neighbours."""
    vals = [v for v in mentioned()[2].get(f, ()) if not isinstance(v, str) and abs(v) < 1e12]
    out = []
    for v in vals:
        out += [v, -v, v + 1, v - 1, v + 0.5, v / 2, v * 2]
    return tuple(x for x in dict.fromkeys(out) if x)


@functools.lru_cache(None)
def texts(f):
    return tuple(v for v in mentioned()[2].get(f, ()) if isinstance(v, str))


USUAL = {2, 3, 4, 5, 6, 7, 8, 9} | set(range(31, 60))      # sizes that are tried anyhow (or are layer numbers)


@functools.lru_cache(None)
def sizes():
    """Sizes mentioned in the code, and one more."""
    return tuple(sorted({n + d for n in mentioned()[1] if isinstance(n, int) and 1 < n <= 300 for d in (0, 1)}))
