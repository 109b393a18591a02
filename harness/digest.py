"""Print a digest of the text of each case (run in a process of its own)."""
import hashlib, json, os, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
if os.environ.get('later'):
    # a later clock for whatever looks at it
    import datetime
    _t = time.time
    time.time = lambda: _t() + 86400 * 400
import objects
from binding import Binding
from conc import Conc, h

data = json.load(open(sys.argv[1]))
B = Binding(data['schema'])
out = {}
order = list(enumerate(data['cases']))
if os.environ.get('backwards'):
    order.reverse()
for i, c in order:
    conc = Conc((data['seed'], h([c[k] for k in ('kind', 'obj', 'last')])), texts=c.get('texts', 'mixed'))
    for cl, p, v in c.get('values', []):
        conc.memo[cl, p] = v
    t = objects.write(c['kind'], B.build(c['kind'], c['obj'], conc))
    out[i] = hashlib.sha256(t.encode('utf-8', 'surrogatepass')).hexdigest()
for i in sorted(out):
    print(out[i])
