"""check.py PID: prove the units of a property, run its runtime-contract harness, write the evidence and the verdict."""
import os, sys, json, time, re, subprocess, threading, hashlib, shutil, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import verify
from verify import VERIF, REPO, BUILD, SEED, TIER

PID = sys.argv[1]
T0 = time.time()
LIMIT = 840 if TIER == 'quick' else 3400


def known():
    out = []
    try:
        for l in open(os.path.join(VERIF, 'known_findings.txt')):
            m = re.match(r'finding: property=(\S+) key=(.*?) :: (.*)', l)
            if m and m.group(1) == PID:
                out.append((m.group(2).strip(), m.group(3).strip()))
    except OSError:
        pass
    return out


class Harness:
    def __init__(self, cfg, scratch):
        self.cfg, self.scratch, self.exe, self.err = cfg, scratch, None, None

    def build(self):
        try:
            src = os.path.join(VERIF, 'harness', self.cfg['src'])
            exe = os.path.join(self.scratch, 'harness')
            cmd = ['clang++-18', '-O1', '-g0'] + verify.FLAGS + verify.include_flags() + ['-I' + os.path.join(VERIF, 'harness')] + self.cfg.get('flags', []) + [src] + [os.path.join(REPO, s) for s in self.cfg.get('repo_src', [])] + ['-o', exe] + self.cfg.get('libs', [])
            t = time.time()
            p = subprocess.run(cmd, capture_output=True, text=True, timeout=700)
            if p.returncode:
                self.err = 'harness does not build: ' + p.stderr[-1500:]
            else:
                self.exe = exe
            self.build_s = time.time() - t
        except Exception as e:
            self.err = 'harness does not build: %s' % e

    def run(self, cases, tlimit, seed):
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=1', UBSAN_OPTIONS='halt_on_error=1')
        p = subprocess.run([self.exe, '--seed', str(seed), '--cases', str(cases), '--time', str(tlimit)], capture_output=True, text=True, timeout=tlimit + 150, cwd=self.scratch, env=env)
        for l in p.stdout.splitlines()[::-1]:
            if l.startswith('{"evaluations"'):
                d = json.loads(l)
                for f in d['failures']:
                    f['seed'] = seed
                    f['stderr'] = p.stderr[-1500:]
                return d
        raise RuntimeError('harness gave no result: %s %s' % (p.returncode, p.stderr[-500:]))


def main():
    mod = verify.load_module(PID)
    hcfg = getattr(mod, 'HARNESS', None)
    scratch = tempfile.mkdtemp(prefix='verif-%s-' % PID)
    try:
        return check(mod, hcfg, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def check(mod, hcfg, scratch):
    notes, units, err = [], [], None
    h = Harness(hcfg, scratch) if hcfg else None
    th = None
    if h:
        th = threading.Thread(target=h.build)
        th.start()
    try:
        units, te = verify.prove_all(PID, total=500 if TIER == 'quick' else 2400, budget=200 if TIER == 'quick' else 900, otimeout=10 if TIER == 'quick' else 60, workers=7)
    except Exception as e:
        err = 'UNDECIDED: %s: %s' % (type(e).__name__, str(e)[-800:])
        notes.append(err)
    if th:
        th.join()
    obl = [o for u in units for o in u['obligations']]
    discharged = [o for o in obl if o['status'] == 'proved']
    refuted = [(u, o) for u in units for o in u['obligations'] if o['status'] == 'refuted']
    unknown = [(u, o) for u in units for o in u['obligations'] if o['status'] == 'unknown']
    failed_units = [u for u in units if u['error']]
    hres, fails = None, []
    if h:
        if h.exe:
            left = LIMIT - (time.time() - T0) - 60
            suspicious = bool(refuted or unknown or failed_units or err)
            t = hcfg.get('time', 25) if TIER == 'quick' else 600
            cases = hcfg.get('cases', 20000) if TIER == 'quick' else 10 ** 9
            if suspicious:
                t, cases = max(t, 100), 10 ** 9
            try:
                hres = h.run(cases, max(10, min(t, left)), SEED)
                fails = hres['failures']
            except Exception as e:
                notes.append('UNDECIDED harness: %s' % e)
        else:
            notes.append('UNDECIDED ' + (h.err or ''))
    # known findings
    kn = known()
    real = []
    hit = {}
    for f in fails:
        k = next((k for k in kn if k[0] == f['key']), None)
        if k:
            hit[k[0]] = k
        else:
            real.append(f)
    for k in kn:
        print('KNOWN-FINDING: property=%s %s' % (PID, k[1]))
    violations = []
    rdir = os.path.join(VERIF, 'build', 'replay')
    os.makedirs(rdir, exist_ok=True)
    rp = os.path.join(rdir, '%s.json' % PID)
    first = (refuted or unknown)
    robl = [dict(unit=u['unit'], obligation=o['name'], at=o['loc'], status=o['status'], goal=o['goal'], verifier=o['info']) for u, o in (refuted + unknown)[:10]]
    if real:
        json.dump(dict(property=PID, failed_obligations=robl, input=real[0], how='%s --seed %d --replay %d (harness/%s built against /repo)' % (hcfg['src'], real[0]['seed'], real[0]['case'], hcfg['src'])), open(rp, 'w'), indent=1)
        violations.append('VIOLATION property=%s replay=%s' % (PID, rp))
        for f in real[:3]:
            print('failing input [%s] case %d seed %d: %s\n%s' % (f['key'], f['case'], f['seed'], f['what'], f['trace'][:1500]))
    elif refuted:
        # a definite counterexample of an obligation in a unit without inferred loop invariants
        strong = [(u, o) for u, o in refuted if not u['loops'] and not u['error'] and u.get('strict', True) and o['kind'] != 'side']
        if strong:
            json.dump(dict(property=PID, failed_obligations=[dict(unit=u['unit'], obligation=o['name'], at=o['loc'], goal=o['goal'], verifier=o['info']) for u, o in strong], input=None), open(rp, 'w'), indent=1)
            violations.append('VIOLATION property=%s replay=%s no-failing-input-found' % (PID, rp))
    for u, o in refuted + unknown:
        print('%s obligation not discharged (%s): %s: %s @ %s' % ('FAILED' if o['status'] == 'refuted' else 'UNDECIDED', o['backend'], u['unit'], o['name'], o['loc']))
    for u in failed_units:
        print('UNDECIDED unit %s: %s' % (u['unit'], u['error']))
    for n in notes:
        print(n)
    be = {}
    for o in discharged:
        be[o['backend']] = be.get(o['backend'], 0) + 1
    fully = not (refuted or unknown or failed_units or err)
    proved_units = [u['unit'] for u in units if not u['error'] and all(o['status'] == 'proved' for o in u['obligations'])]
    trusted = list(getattr(mod, 'TRUSTED', [])) + ['std/boost model: ' + m for m in sorted({m for u in units for m in u['models']})] + ['uninterpreted: ' + m for m in sorted({m for u in units for m in u['ufs']})]
    level = getattr(mod, 'LEVEL', 'proof')
    if not units or not discharged or level != 'proof':
        level = 'exploration' if hres else 'other'
    cov = dict(obligations=len(obl), discharged=len(discharged), checker_cmd='python3-vt verifier/check.py %s' % PID, trusted_base=trusted,
               units=[dict(unit=u['unit'], functions_inlined=u['inlined'], contracts_used=u['contracts'], obligations=len(u['obligations']), proved=sum(1 for o in u['obligations'] if o['status'] == 'proved'), wall_s=u['wall'], loops=[dict(at=l[1], candidates=l[2], invariants=l[3]) for l in u['loops']][:6], reachability=u.get('reachability'), error=u['error']) for u in units],
               units_proved=len(proved_units), units_total=len(units), backends=be, solver_s=round(sum(o['t'] for o in obl), 2), undecided=[u['unit'] + ': ' + u['error'] for u in failed_units] + [u['unit'] + ': ' + o['name'] for u, o in unknown] + notes,
               bounded=getattr(mod, 'BOUNDED', []),
               explanation='obligations are generated from the current tree by symbolic execution of the extracted AST and discharged by z3/cvc5; the harness figures are bounded runtime-contract checks and are not counted as proved')
    if hres:
        cov.update(evaluations=hres['evaluations'], distinct_nontrivial=hres['distinct'], rule=hcfg.get('rule', ''), samples=hres['samples'] or ['(none)'])
    ev = dict(property=PID, tier=TIER if TIER in ('quick', 'thorough') else 'quick', seed=SEED, level=level, coverage=cov, assumptions=getattr(mod, 'ASSUMPTIONS', []), wall_s=round(time.time() - T0, 2), violations=len(violations))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', PID + '.json'), 'w'), indent=1)
    print('%s: %d/%d units proved, %d/%d obligations discharged (%s), solver %.1f s; harness: %s; wall %.1f s' % (PID, len(proved_units), len(units), len(discharged), len(obl), ', '.join('%s %d' % x for x in sorted(be.items())), cov['solver_s'], '%d cases, %d distinct non-trivial, %d failing' % (hres['evaluations'], hres['distinct'], len(fails)) if hres else 'none', time.time() - T0))
    for v in violations:
        print(v)
    return 1 if violations else 0


if __name__ == '__main__':
    try:
        rc = main()
    except SystemExit:
        raise
    except Exception as e:
        import traceback
        traceback.print_exc()
        print('UNDECIDED: internal error of the check: %s' % e)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        json.dump(dict(property=PID, tier='quick' if TIER != 'thorough' else TIER, seed=SEED, level='other', coverage=dict(explanation='the check failed internally: %s' % e), wall_s=time.time() - T0, violations=0), open(os.path.join(VERIF, 'evidence', PID + '.json'), 'w'))
        rc = 0
    sys.stdout.flush()
    os._exit(rc)
