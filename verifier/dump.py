"""Development aid: python3-vt verifier/dump.py PID driver [function-regex]: extracted functions and bodies."""
import sys, os, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import verify, ir
mod = verify.load_module(sys.argv[1])
d = mod.DRIVERS[sys.argv[2]]
p = verify.extract('D' + sys.argv[1], *d)
p = p[0] if isinstance(p, tuple) else p
x = ir.IR(p)
rx = sys.argv[3] if len(sys.argv) > 3 else None
for f in x.fns:
    if rx is None:
        print(f['id'], f['q'], '(' + x.sig(f)[:160] + ')', f.get('ta'), 'BODY' if 'body' in f else '')
    elif re.search(rx, f['q']):
        print('//', f['id'], f['q'], '(' + x.sig(f)[:300] + ')', x.tname(f['rec']) if 'rec' in f else '', f.get('loc'), f.get('ta'))
        for i in f.get('inits', []):
            print('   :', i.get('m') or i.get('b'), ir.show(i['e'], x) if i.get('e') else '')
        if 'body' in f:
            print(ir.show(f['body'], x))
if rx is None:
    for i, t in enumerate(x.types):
        print(i, t['k'], t['s'][:150])
os.unlink(p)
