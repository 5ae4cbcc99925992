"""Driver: extraction, proof units, discharge of obligations, evidence, violation reporting."""
import os, sys, json, time, re, subprocess, hashlib, traceback, shutil, tempfile
import multiprocessing as mp
import multiprocessing.connection

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(VERIF, 'contracts'))

import z3
from values import *
import ir as irmod
import engine
from engine import Ex, ThrowEx, PathEnd

SEED = int(os.environ.get('VERIF_SEED', '1'))
TIER = os.environ.get('VERIF_TIER', 'quick')

FLAGS = ['-DBOOST_ALLOW_DEPRECATED_HEADERS', '-DBOOST_CHRONO_NO_LIB', '-DBOOST_GEOMETRY_INDEX_DETAIL_EXPERIMENTAL', '-DBOOST_PROGRAM_OPTIONS_NO_LIB', '-DBOOST_SERIALIZATION_NO_LIB', '-DBOOST_THREAD_NO_LIB', '-DBOOST_THREAD_VERSION=5', '-DHAS_STRING_VIEW=1', '-DONLY_C_LOCALE=1', '-D_USE_MATH_DEFINES']
RES = '/usr/lib/llvm-18/lib/clang/18'


def include_flags():
    fl = ['-I' + REPO + '/src/library/include', '-I' + VERIF + '/harness/include', '-I' + VERIF + '/contracts/stubs', '-I' + REPO + '/src/app/include', '-std=c++20', '-w']
    return fl


def extractor():
    exe = os.path.join(BUILD, 'cxx2ir')
    src = os.path.join(HERE, 'extract', 'cxx2ir.cpp')
    if not os.path.exists(exe) or os.path.getmtime(exe) < os.path.getmtime(src):
        os.makedirs(BUILD, exist_ok=True)
        tmp = exe + '.%d' % os.getpid()
        subprocess.run(['clang++-18', '-O1', '-std=c++17', '-fno-rtti', '-I/usr/lib/llvm-18/include', src, '-o', tmp, '/usr/lib/llvm-18/lib/libclang-cpp.so.18.1', '-L/usr/lib/llvm-18/lib', '-lLLVM-18'], check=True, stdout=subprocess.DEVNULL)
        os.replace(tmp, exe)
    return exe


class ExtractError(Exception):
    pass


def extract(pid, driver, roots, opaque=()):
    """Extract the IR of a driver translation unit from the current tree; returns the path of the JSON file."""
    exe = extractor()
    d = os.path.join(BUILD, 'ir')
    os.makedirs(d, exist_ok=True)
    src = os.path.join(VERIF, 'contracts', driver)
    out = os.path.join(d, '%s.%s.%d.json' % (pid, os.path.basename(driver), os.getpid()))
    cmd = [exe, '--out=' + out, '--prefix=' + REPO + '/src'] + ['--root=' + r for r in roots] + ['--opaque=' + o for o in opaque] + [src, '--'] + FLAGS + include_flags() + ['-resource-dir=' + RES]
    p = subprocess.run(cmd, capture_output=True, text=True, timeout=600)
    if p.returncode != 0 or not os.path.exists(out):
        raise ExtractError('extraction of %s failed: %s' % (driver, p.stderr[-2000:]))
    return out


class Unit:
    """One function (or lemma) under contract. prove(ex, ir) generates the obligations."""

    def __init__(self, name, prove, driver=None, float_mode='uf', fns=(), timeout=None, configure=None, kind='function'):
        self.name, self.prove, self.driver, self.float_mode, self.fns, self.timeout, self.configure, self.kind = name, prove, driver, float_mode, fns, timeout, configure, kind


def to_smt2(obl, ex, axioms):
    s = z3.Solver()
    s.add(*ex.fl.axioms())
    s.add(*axioms)
    s.add(*obl.pc)
    s.add(Not(obl.goal))
    return s


def solve(obl, ex, timeout):
    """(status, backend, seconds, info): status in proved / refuted / unknown."""
    t0 = time.time()
    ax = list(ex.axioms)
    if z3.is_true(z3.simplify(obl.goal)):
        return 'proved', 'simplifier', time.time() - t0, ''
    quant = has_quant(obl.goal) or any(has_quant(f) for f in obl.pc) or bool(ax)
    # 1. relevant quantifier-free part first (cheap)
    if quant and not has_quant(obl.goal):
        s = z3.SimpleSolver()
        s.set('timeout', int(min(timeout, 2) * 1000))
        s.add(*ex.fl.axioms())
        s.add(*[f for f in obl.pc if not has_quant(f)])
        s.add(Not(obl.goal))
        if s.check() == z3.unsat:
            return 'proved', 'z3', time.time() - t0, ''
    last = 'unknown'
    info = ''
    if os.environ.get('VERIF_DUMPOBL') and os.environ['VERIF_DUMPOBL'] in obl.name:
        open('/tmp/obl_%s.smt2' % re.sub(r'\W+', '_', obl.name), 'w').write('(set-logic ALL)\n' + to_smt2(obl, ex, ax).to_smt2())
    def z3try(c, t):
        s = to_smt2(obl, ex, ax)
        s.set('timeout', int(t * 1000))
        if c == 'nombqi':
            s.set('mbqi', False)
            s.set('auto_config', False)
        if c == 'seed':
            s.set('smt.random_seed', 7)
        r = s.check()
        if r == z3.unsat:
            return 'proved', ''
        if r == z3.sat:
            return 'refuted', model_text(s.model())
        return 'unknown', s.reason_unknown()

    def cvc5try(t):
        txt = to_smt2(obl, ex, ax).to_smt2()
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
            f.write('(set-logic ALL)\n' + txt)
        try:
            p = subprocess.run(['cvc5', '--tlimit=%d' % int(t * 1000), f.name], capture_output=True, text=True, timeout=t + 10)
            if p.stdout.startswith('unsat'):
                return 'proved', ''
            if p.stdout.startswith('sat'):
                return 'refuted', 'cvc5: sat'
            return 'unknown', 'cvc5: ' + (p.stdout + p.stderr)[:200]
        except Exception as e:
            return 'unknown', 'cvc5: %s' % e
        finally:
            os.unlink(f.name)
    def clitry(t):
        # another release of the same solver (4.8.12): its instantiation order differs
        txt = to_smt2(obl, ex, ax).to_smt2()
        try:
            p = subprocess.run(['z3', '-in', '-t:%d' % int(t * 1000), 'smt.mbqi=false'], input='(set-logic ALL)\n' + txt, capture_output=True, text=True, timeout=t + 10)
            return ('proved', '') if p.stdout.startswith('unsat') else ('unknown', 'z3 4.8: ' + p.stdout[:200])
        except Exception as e:
            return 'unknown', 'z3 4.8: %s' % e
    plan = ([('nombqi', 2), ('cli', 3)] if quant else []) + [('', 2), ('cvc5', 4)] + ([('nombqi', 4)] if quant else []) + [('', timeout), ('cvc5', timeout), ('seed', timeout * 0.6)]
    for c, t in plan:
        st, inf = cvc5try(t) if c == 'cvc5' else clitry(t) if c == 'cli' else z3try(c, t)
        if st != 'unknown':
            return st, 'cvc5' if c == 'cvc5' else 'z3-4.8.12' if c == 'cli' else 'z3', time.time() - t0, inf
        info = inf
    return 'unknown', 'z3+cvc5', time.time() - t0, info


def model_text(m, limit=60):
    out = []
    for d in m.decls()[:400]:
        if d.arity() == 0:
            try:
                out.append('%s = %s' % (d.name(), str(m[d])[:160].replace('\n', ' ')))
            except Exception:
                pass
    out.sort(key=lambda s: (s.startswith('arr0'), s))
    return '\n'.join(out[:limit])


def load_module(pid):
    import importlib
    return importlib.import_module(pid)


def load_hints(pid):
    try:
        return json.load(open(os.path.join(VERIF, 'contracts', 'hints', pid + '.json')))
    except (OSError, ValueError):
        return {}


def run_unit(args):
    pid, idx, irpaths, budget, otimeout = args
    mod = load_module(pid)
    unit = mod.units()[idx]
    hints = None if os.environ.get('VERIF_NOHINTS') else load_hints(pid).get(unit.name)
    t0 = time.time()
    if hints:
        # candidate invariants that survived on the committed tree first (each is proved again); all candidates if that does not discharge everything
        res = run_unit1(pid, mod, idx, unit, irpaths, budget, otimeout, hints)
        if not res['error'] and all(o['status'] == 'proved' for o in res['obligations']):
            return res
        budget = max(30, budget - (time.time() - t0))
    return run_unit1(pid, mod, idx, unit, irpaths, budget, otimeout, None)


def run_unit1(pid, mod, idx, unit, irpaths, budget, otimeout, hints):
    t0 = time.time()
    res = dict(unit=unit.name, kind=unit.kind, idx=idx, obligations=[], error=None, fns=list(unit.fns), inlined=[], models=[], contracts=[], ufs=[], loops=[], reach=None)
    ex = None
    try:
        irr = irmod.IR(irpaths[unit.driver]) if unit.driver else None
        ex = Ex(irr, unit.float_mode)
        budget = float(os.environ.get('VERIF_BUDGET', budget))
        ex.budget = t0 + budget
        ex.hints = hints
        if unit.configure:
            unit.configure(ex)
        elif hasattr(mod, 'configure'):
            mod.configure(ex)
        try:
            unit.prove(ex, irr)
        except PathEnd:
            pass
        tg = time.time() - t0
        ex.budget = None
        n = len(ex.obls)
        for o in ex.obls:
            if o.status == 'trivial':
                st, be, tm, info = 'proved', 'simplifier', 0.0, ''
            else:
                left = t0 + budget - time.time()
                if left < 1:
                    st, be, tm, info = 'unknown', 'none', 0.0, 'time budget exhausted'
                else:
                    st, be, tm, info = solve(o, ex, min(unit.timeout or otimeout, max(1, left)))
            if os.environ.get('VERIF_SLOW') and tm > 0.4:
                print('SLOW %.2f %s %s' % (tm, be, o.name), flush=True)
            res['obligations'].append(dict(name=o.name, loc=o.loc, kind=o.kind, status=st, backend=be, t=round(tm, 4), info=info, goal=str(o.goal)[:1500] if st != 'proved' else ''))
        # vacuity: the precondition and every recorded entry mark must be satisfiable
        for nm, facts in ex.entry_marks:
            s = z3.Solver()
            s.set('timeout', 5000)
            s.add(*ex.fl.axioms())
            s.add(*[f for f in facts if not has_quant(f)])
            r = s.check()
            s2 = z3.Solver()
            s2.set('timeout', 3000)
            s2.add(*ex.fl.axioms())
            s2.add(*ex.axioms)
            s2.add(*facts)
            r2 = s2.check()
            res.setdefault('reachability', []).append((nm, str(r), str(r2)))
            if r == z3.unsat or r2 == z3.unsat:
                res['error'] = 'vacuous: precondition of %s is contradictory' % nm
        if n == 0:
            res['error'] = 'no obligations generated'
        res['gen_s'] = round(tg, 2)
    except Undecided as e:
        res['error'] = 'undecided: %s' % e
        if os.environ.get('VERIF_DEBUG'):
            res['trace'] = traceback.format_exc()
    except Exception as e:
        res['error'] = 'undecided: internal %s: %s' % (type(e).__name__, e)
        res['trace'] = traceback.format_exc()[-3000:]
    if ex is not None:
        res['inlined'] = sorted({ex.ir.fns[i]['q'] for i in ex.inlined}) if ex.ir else []
        res['models'] = sorted(ex.used_models)
        res['contracts'] = sorted(ex.used_contracts)
        res['ufs'] = sorted(ex.used_uf)
        res['loops'] = [list(x) for x in ex.loop_reports]
        res['queries'] = ex.qt['n']
    res['wall'] = round(time.time() - t0, 2)
    return res


def prove_all(pid, only=None, budget=200, otimeout=10, workers=8, verbose=False, total=None):
    budget = float(os.environ.get('VERIF_BUDGET', budget))
    mod = load_module(pid)
    t0 = time.time()
    irpaths, err = {}, None
    for name, (driver, roots, opaque) in mod.DRIVERS.items():
        irpaths[name] = extract(pid, driver, roots, opaque)
    te = time.time() - t0
    us = mod.units()
    todo = [i for i, u in enumerate(us) if only is None or re.search(only, u.name)]
    results = [None] * len(us)
    ctx = mp.get_context('fork')
    running, queue = {}, list(todo)
    deadline = t0 + total if total else None

    def blank(i, err):
        return dict(unit=us[i].name, kind=us[i].kind, idx=i, obligations=[], error='undecided: ' + err, fns=list(us[i].fns), inlined=[], models=[], contracts=[], ufs=[], loops=[], wall=0)

    def child(i, conn):
        if os.environ.get('VERIF_FH'):
            import faulthandler
            faulthandler.dump_traceback_later(150, exit=False)
        r = run_unit((pid, i, irpaths, budget, otimeout))
        conn.send(r)
        conn.close()
    while queue or running:
        while queue and len(running) < workers:
            i = queue.pop(0)
            if deadline and time.time() > deadline:
                results[i] = blank(i, 'total time budget exhausted')
                continue
            rd, wr = ctx.Pipe(False)
            p = ctx.Process(target=child, args=(i, wr), daemon=True)
            p.start()
            wr.close()
            running[rd] = (i, p, time.time())
        done = []
        for c in mp.connection.wait(list(running), timeout=0.5):
            i, p, _ = running[c]
            try:
                results[i] = c.recv()
            except Exception as e:
                results[i] = blank(i, 'worker died')
            done.append(c)
        now = time.time()
        for c, (i, p, ts) in running.items():
            if c not in done and (now - ts > budget + 30 or (deadline and now > deadline)):
                p.kill()
                results[i] = blank(i, 'hard time limit')
                done.append(c)
        for c in done:
            i, p, _ = running.pop(c)
            p.join(5)
            c.close()
            if verbose:
                r = results[i]
                bad = [o for o in r['obligations'] if o['status'] != 'proved']
                print('%-60s %3d obl %3d bad %6.1fs %s' % (r['unit'], len(r['obligations']), len(bad), r['wall'], r['error'] or ''), flush=True)
                for o in bad:
                    print('     ', o['status'], o['name'], '@', o['loc'], o['t'])
                if r.get('trace') and verbose > 1:
                    print(r['trace'])
    for p in irpaths.values():
        os.unlink(p)
    return [r for r in results if r is not None], te
