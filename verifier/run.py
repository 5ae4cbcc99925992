import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import verify
a = [x for x in sys.argv[2:] if not x.startswith('-')]
only = a[0] if a else None
r, te = verify.prove_all(sys.argv[1], only=only, verbose=2)
print('extract %.1fs; %d obligations, %d proved' % (te, sum(len(x['obligations']) for x in r), sum(1 for x in r for o in x['obligations'] if o['status'] == 'proved')))
if '-v' in sys.argv:
    for x in r:
        print(x['unit'], x.get('models'), x.get('reachability'))
        for l in x['loops']: print('  loop', l)
        for o in x['obligations']:
            if o['status'] != 'proved': print(o['name'], o['goal'][:600], '\n', o['info'][:1500])
if '--hints' in sys.argv:
    import json
    d = os.path.join(verify.VERIF, 'contracts', 'hints')
    os.makedirs(d, exist_ok=True)
    h = verify.load_hints(sys.argv[1])
    for x in r:
        if x['loops'] and not x['error']:
            d2 = {}
            for o, lid, nc, sv in x['loops']:
                d2.setdefault(str(o), [])
                d2[str(o)] += [n for n in sv if n not in d2[str(o)]]
            h[x['unit']] = d2
    json.dump(h, open(os.path.join(d, sys.argv[1] + '.json'), 'w'), indent=0, sort_keys=True)
