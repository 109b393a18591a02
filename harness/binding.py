"""The binding between the kinds of the specification and the classes of the library.

build   - an object of the library from an object of the specification
compare - the differences between an object of the library and one of the specification
Both only use public attributes and constructors.
"""
import importlib, os, sys

REPO = os.environ.get('KIUTILS_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
if SRC not in sys.path:
    sys.path.insert(0, SRC)
sys.dont_write_bytecode = True


def _mods():
    names = ['board', 'dru', 'footprint', 'libraries', 'schematic', 'symbol', 'wks', 'items.brditems', 'items.common',
             'items.dimensions', 'items.fpitems', 'items.gritems', 'items.schitems', 'items.syitems', 'items.zones', 'utils.sexpr']
    return {n.split('.')[-1]: importlib.import_module('kiutils.' + n) for n in names}


M = _mods()
WHERE = {
    'common': 'Coordinate ColorRGBA Stroke Font Justify Effects Net Group PageSettings TitleBlock Property RenderCachePolygon RenderCache Fill Image',
    'brditems': 'GeneralSettings LayerToken StackupSubLayer StackupLayer Stackup PlotSettings SetupData Segment Via Target',
    'dimensions': 'DimensionFormat DimensionStyle Dimension',
    'board': 'Board',
    'gritems': 'GrText GrTextBox GrLine GrRect GrCircle GrArc GrPoly GrCurve',
    'fpitems': 'FpText FpTextBox FpLine FpRect FpCircle FpArc FpPoly FpCurve',
    'footprint': 'Attributes Model DrillDefinition PadOptions Pad Footprint',
    'zones': 'KeepoutSettings FillSettings ZonePolygon FilledPolygon FillSegments Hatch Zone',
    'schitems': 'Junction NoConnect BusEntry BusAlias Connection PolyLine Text TextBox LocalLabel GlobalLabel HierarchicalLabel '
                'SymbolProjectPath SymbolProjectInstance SchematicSymbol HierarchicalPin HierarchicalSheetProjectPath '
                'HierarchicalSheetProjectInstance HierarchicalSheet HierarchicalSheetInstance SymbolInstance Rectangle Circle NetclassFlag',
    'schematic': 'Schematic',
    'syitems': 'SyArc SyCircle SyCurve SyPolyLine SyRect SyText SyTextBox',
    'symbol': 'SymbolAlternativePin SymbolPin Symbol SymbolLib',
    'wks': 'WksFontSize WksFont WksPosition Bitmap TbText TextSize WorkSheet',
    'libraries': 'Library LibTable',
    'dru': 'Constraint Rule DesignRules',
}
CLASSES = {n: getattr(M[m], n) for m, ns in WHERE.items() for n in ns.split()}
Position = M['common'].Position
CLASSES.update({k: Position for k in ('XY', 'xy', 'XYA', 'XYA0', 'XYAU')})
CLASSES.update({'Coordinate1': CLASSES['Coordinate'], 'ColorRGBA4': CLASSES['ColorRGBA'], 'BrdArc': M['brditems'].Arc,
                'SchArc': M['schitems'].Arc, 'WksLine': M['wks'].Line, 'WksRect': M['wks'].Rect, 'WksSetup': M['wks'].Setup})
parse_sexp = M['sexpr'].parse_sexp
FILE_KINDS = ['Board', 'Schematic', 'Footprint', 'SymbolLib', 'WorkSheet', 'DesignRules', 'LibTable']
NUM = {'N', 'N4', 'N6', 'NA', 'MN'}
DICTS = {'Pair', 'Comment', 'PinUuid'}


def leaf_value(leaf, slot, conc, parent=None):
    v = conc.raw(leaf)
    if leaf['c'] == 'iu':
        return (parent or '') + v
    if leaf['c'] == 'lit' and slot['lt'] in NUM:
        x = float(v)
        return int(x) if '.' not in v else x
    return v


def is_leaf(v):
    return isinstance(v, dict) and set(v) == {'c', 'p'}


def symbol_name(libid):
    return libid.split(':', 1)[1] if ':' in libid else libid


def as_list(v):
    # an empty function and an empty sequence are printed alike
    return v if isinstance(v, list) else []


class Binding:
    """Needs the schema (field -> slot), as exported by the specification."""

    def __init__(self, schema):
        self.schema = schema
        import conc
        conc.HEADS[:] = sorted({s['hd'] for sl in schema.values() for s in sl.values() if s.get('hd')})

    # ---- specification -> library ------------------------------------
    def build(self, kind, obj, conc, parent=None, order=None):
        """order: a random generator that shuffles the order of the assignments."""
        if kind == 'PngData':
            return conc.raw(obj['val'])
        o = CLASSES[kind]()
        slots = self.schema[kind]
        if kind == 'Symbol':
            libid = leaf_value(obj['libId'], slots['libId'], conc, parent)
            o.libId = libid
            parent = symbol_name(libid)
        fields = list(slots)
        if order is not None:
            order.shuffle(fields)
        for f in fields:
            if kind == 'Symbol' and f == 'libId':
                continue
            setattr(o, f, self.value(slots[f], obj[f], conc, parent, order))
        return o

    def value(self, s, v, conc, parent=None, order=None):
        ty = s['ty']
        if ty in ('list', 'wlist', 'wlist4', 'subl'):
            items = as_list(v)
            ks = as_list(s['ks'])
            if ks and ks[0] in DICTS:
                sl = self.schema[ks[0]]
                return {leaf_value(i['o']['key'], sl['key'], conc): leaf_value(i['o']['val'], sl['val'], conc) for i in items}
            return [self.build(i['k'], i['o'], conc, parent, order) for i in items]
        if ty in ('atoms', 'rest', 'zlay'):
            return [leaf_value(x, s, conc) for x in as_list(v)]
        if is_leaf(v):
            return leaf_value(v, s, conc, parent)
        return self.build(as_list(s['ks'])[0], v, conc, parent, order)

    # ---- library -> specification -------------------------------------
    def compare(self, kind, got, want, conc, parent=None, path=''):
        """First difference as text, or None."""
        path = path or kind
        if kind == 'PngData':
            return None if got == conc.raw(want['val']) else f'{path}: {got!r}'
        if type(got) is not CLASSES[kind]:
            return f'{path}: {type(got).__name__} instead of {CLASSES[kind].__name__}'
        slots = self.schema[kind]
        if kind == 'Symbol':
            want_id = leaf_value(want['libId'], slots['libId'], conc, parent)
            parent2 = symbol_name(want_id)
        else:
            parent2 = parent
        for f, s in slots.items():
            try:
                g = getattr(got, f)
            except AttributeError:
                return f'{path}.{f}: missing attribute'
            d = self.compare_value(s, g, want[f], conc, parent if f == 'libId' else parent2, f'{path}.{f}')
            if d:
                return d
        return None

    def compare_value(self, s, g, v, conc, parent, path):
        ty = s['ty']
        if ty in ('list', 'wlist', 'wlist4', 'subl'):
            items, ks = as_list(v), as_list(s['ks'])
            if ks and ks[0] in DICTS:
                w = self.value(s, v, conc)
                if not isinstance(g, dict):
                    return f'{path}: {g!r} is not a mapping'
                gg = {k: str(x) for k, x in g.items()}
                if gg != {k: str(x) for k, x in w.items()} or list(gg) != list(w):
                    return f'{path}: {g!r} instead of {w!r}'
                return None
            if not isinstance(g, list) or len(g) != len(items):
                return f'{path}: {len(g) if isinstance(g, list) else g!r} items instead of {len(items)}'
            for i, (x, y) in enumerate(zip(g, items)):
                d = self.compare(y['k'], x, y['o'], conc, parent, f'{path}[{i}]')
                if d:
                    return d
            return None
        if ty in ('atoms', 'rest', 'zlay'):
            w = self.value(s, v, conc)
            if not isinstance(g, list) or [str(x) for x in g] != [str(x) for x in w]:
                return f'{path}: {g!r} instead of {w!r}'
            return None
        if is_leaf(v):
            return self.compare_leaf(s, g, v, conc, parent, path)
        if g is None:
            return f'{path}: None instead of an object'
        return self.compare(as_list(s['ks'])[0], g, v, conc, parent, path)

    def compare_leaf(self, s, g, v, conc, parent, path):
        w = leaf_value(v, s, conc, parent)
        bad = f'{path}: {g!r} instead of {w!r}'
        if v['c'] == 'none':
            return None if g is None else bad
        if v['c'] in ('T', 'F'):
            return None if isinstance(g, bool) and g == w else bad
        if s['lt'] in NUM or s['ty'] in ('ws', 'page'):
            if isinstance(g, (int, float)) and not isinstance(g, bool) and g == (w if isinstance(w, int) else float(w)):
                return None
            return bad
        if s['lt'] in ('W', 'WN', 'PS') or s['ty'] in ('eflag', 'head'):
            return None if g is not None and str(g) == str(w) else bad
        return None if isinstance(g, str) and g == w else bad


def from_sexpr(kind, exp):
    return CLASSES[kind].from_sexpr(exp)


def parse_text(kind, text):
    """What from_file does with the text of a document of this kind."""
    if kind == 'DesignRules':
        text = f'({text})'
    return parse_sexp(text)
