"""Loops: dynamic discovery of the modified set, Houdini inference of inductive invariants, and the resulting obligations."""
import z3, time, os, re
from values import *
import ir as irmod
from engine import BreakEx, ContinueEx, ReturnEx, ThrowEx, PathEnd

UNROLL = 6


class Leaf:
    def __init__(self, ex, name, lv, tid, mod, var):
        self.ex, self.name, self.lv, self.tid, self.mod, self.var = ex, name, lv, tid, mod, var
        self.pre = ex.read(lv)

    def cur(self):
        return self.ex.read(self.lv)


class LoopCtx:
    def __init__(self, ex, leaves, node):
        self.ex, self.leaves, self.node = ex, leaves, node
        self.fn = ex.fr.fn if ex.frames else None

    def of(self, cls=None, sort=None, mod=None, el=None):
        out = []
        for l in self.leaves:
            if mod is not None and l.mod != mod:
                continue
            if cls is not None and not isinstance(l.pre, cls):
                continue
            if sort is not None and not (z3.is_expr(l.pre) and l.pre.sort().eq(sort)):
                continue
            if el is not None and not (isinstance(l.pre, Vec) and self.ex.sort_of(l.pre.el).eq(el)):
                continue
            out.append(l)
        return out

    def ints(self, mod=None):
        """(name, current-value thunk, pre value, modified?) for integers, iterator positions and lengths."""
        out = []
        for l in self.leaves:
            p = l.pre
            if z3.is_expr(p) and p.sort() == z3.IntSort():
                out.append((l.name, (lambda l=l: l.cur()), p, l.mod))
            elif isinstance(p, It):
                out.append((l.name + '.idx', (lambda l=l: l.cur().idx), p.idx, l.mod))
            elif isinstance(p, Vec):
                out.append((l.name + '.size', (lambda l=l: l.cur().len), p.len, l.mod == 'whole' or l.mod is True))
            elif isinstance(p, MapV):
                out.append((l.name + '.size', (lambda l=l: l.cur().n), p.n, bool(l.mod)))
        if mod is None:
            return out
        return [x for x in out if bool(x[3]) == mod]


def covers(a, b):
    """Does modified entry a cover b?"""
    if a[0] != b[0]:
        return False
    if a == b:
        return True
    if a[2] == 'whole':
        return b[1][:len(a[1])] == a[1]
    return False


def norm(mods):
    ms = set(mods)
    return {m for m in ms if not any(o != m and covers(o, m) for o in ms)}


def type_at(ex, root, path):
    t = ex.rtype.get(root)
    if t is None:
        return None
    t = ex.ir.deref(t)
    for s in path:
        if isinstance(s, int):
            t = s
        else:
            lay = ex.layout(t)
            if not lay or lay[0] != 'rec':
                return None
            t = dict(lay[1]).get(s)
            if t is None:
                return None
    return t


def havoc_value(ex, v, kind, tid, hint):
    if isinstance(v, Vec):
        s = ex.sort_of(v.el)
        arr = ex.fresh(z3.ArraySort(z3.IntSort(), s), hint + '.arr')
        if kind == 'elem':
            return v.with_(arr=arr)
        l = ex.fresh(z3.IntSort(), hint + '.len')
        ex.assume(And(l >= 0, l <= MAXLEN))
        if ex.ir.T(v.tid)['n'] == 'std::array':
            l = v.len
        return v.with_(len=l, arr=arr)
    if isinstance(v, MapV):
        if kind == 'elem':
            return v.with_(val=ex.fresh(v.val.sort(), hint + '.val'))
        n = ex.fresh(z3.IntSort(), hint + '.n')
        ex.assume(And(n >= 0, n <= MAXLEN))
        return v.with_(dom=ex.fresh(v.dom.sort(), hint + '.dom'), val=None if v.val is None else ex.fresh(v.val.sort(), hint + '.val'), n=n)
    if isinstance(v, Rec):
        lay = dict(ex.layout(v.tid)[1]) if v.tid is not None and ex.layout(v.tid) else {}
        return Rec(v.tid, {k: havoc_value(ex, x, kind, lay.get(k), '%s.%s' % (hint, k)) for k, x in v.d.items()})
    if isinstance(v, It):
        return It(v.cont, ex.fresh(z3.IntSort(), hint + '.idx'), v.rev)
    if isinstance(v, MIt):
        key = v.key
        if key is None:
            c = ex.read(v.cont)
            key = z3.Const('nokey', ex.sort_of(c.kt))
        return MIt(v.cont, ex.fresh(key.sort(), hint + '.key'), ex.fresh(z3.BoolSort(), hint + '.valid'))
    if isinstance(v, (Unit, BackIns, FnVal)):
        return v
    if isinstance(v, Uninit):
        return ex.sym(v.tid, hint)
    if z3.is_expr(v):
        e = ex.fresh(v.sort(), hint)
        if tid is not None:
            ex.assume_type(tid, e)
        return e
    raise Undecided('loop modifies a %s' % type(v).__name__)


def havoc(ex, mods):
    logs, ex.wlogs = ex.wlogs, []
    try:
        for root, path, kind in sorted(mods, key=str):
            if root not in ex.store:
                continue
            lv = LV(root, path)
            v = ex.read(lv)
            if isinstance(v, Ptr):
                to = ex.ptr_shapes.get((root, tuple(path)), v.lv)
                if to is not None:
                    if to.root not in ex.store:
                        raise Undecided('loop moves a pointer to a local')
                    h = root.split('#')[0]
                    to = LV(to.root, tuple((x[0], ex.fresh(x[1].sort(), h + '.idx')) if isinstance(x, tuple) else x for x in to.sels))
                    ex.write(lv, Ptr(to, ex.fresh(z3.BoolSort(), h + '.isnull')))
                continue
            ex.write(lv, havoc_value(ex, v, kind, type_at(ex, root, path), root.split('#')[0] + ''.join('.%s' % p for p in path)))
    finally:
        ex.wlogs = logs


def collect_leaves(ex, mods):
    leaves, seen = [], set()

    def status(root, path):
        """False, 'elem' or 'whole' for a leaf at (root, path)."""
        st = False
        for m in mods:
            if m[0] != root:
                continue
            if m[1] == path:
                st = m[2] if m[2] == 'whole' or not st else st
            elif path[:len(m[1])] == m[1]:
                st = 'whole'
            elif m[1][:len(path)] == path:
                st = 'whole'
        return st

    def walk(lv, tid, name, var, depth):
        key = (lv.root, tuple(s if not isinstance(s, tuple) else (s[0], s[1].get_id()) for s in lv.sels))
        if key in seen or depth > 5:
            return
        seen.add(key)
        try:
            v = ex.read(lv)
        except (Undecided, KeyError):
            return
        path = []
        for s in lv.sels:
            if isinstance(s, tuple):
                break
            path.append(s)
        indexed = len(path) < len(lv.sels)
        if isinstance(v, Rec):
            lay = dict(ex.layout(v.tid)[1]) if v.tid is not None and ex.layout(v.tid) else {}
            for k in v.d:
                walk(lv.sub(k), lay.get(k), '%s.%s' % (name, k) if not isinstance(k, int) else name, var, depth + 1)
            return
        if z3.is_expr(v) or isinstance(v, (Vec, It, MapV, Ptr)):
            st = status(lv.root, tuple(path))
            if indexed and st:
                st = 'whole'
            leaves.append(Leaf(ex, name, lv, tid, st, var))

    if ex.frames:
        fr = ex.fr
        for i, lv in list(fr.env.items()):
            if isinstance(lv, LV) and lv.root in ex.store and not lv.root.startswith('const:'):
                walk(lv, ex.rtype.get(lv.root) if not lv.sels else None, lv.root.split('#')[0], i, 0)
        if fr.this is not None and isinstance(fr.this, LV):
            walk(fr.this, fr.fn.get('rec'), 'this', 'this', 0)
    for m in mods:
        if m[0] in ex.store and m[0] not in ex.dead:
            walk(LV(m[0], m[1]), type_at(ex, m[0], m[1]), m[0].split('#')[0], None, 0)
    for l in ex.extra_leaves() if hasattr(ex, 'extra_leaves') else []:
        walk(*l)
    return leaves


def int_templates(ctx):
    M = ctx.ints(True)
    C = ctx.ints(False)
    consts = [('0', I(0)), ('1', I(1))]
    for n, cur, pre, _ in M:
        cs = [('pre', pre)] + consts + [(cn, cp) for cn, _, cp, _ in C]
        for cn, c in cs:
            yield ('%s >= %s' % (n, cn), lambda cur=cur, c=c: cur() >= c, False)
            yield ('%s <= %s' % (n, cn), lambda cur=cur, c=c: cur() <= c, False)
            if cn not in ('0', '1'):
                yield ('%s < %s' % (n, cn), lambda cur=cur, c=c: cur() < c, False)
                if cn != 'pre':
                    yield ('%s <= %s if any' % (n, cn), lambda cur=cur, c=c: z3.Or(cur() < c, c == 0), False)
                    yield ('%s <= %s or unchanged' % (n, cn), lambda cur=cur, c=c, pre=pre: z3.Or(cur() <= c, cur() == pre), False)
        for cn, c in consts:
            pass
    for i, (n, cur, pre, _) in enumerate(M):
        for j, (n2, cur2, pre2, _) in enumerate(M):
            if i < j:
                yield ('%s - %s const' % (n, n2), lambda a=cur, b=cur2, d=z3.simplify(pre - pre2): a() - b() == d, False)
                yield ('%s + %s const' % (n, n2), lambda a=cur, b=cur2, d=z3.simplify(pre + pre2): a() + b() == d, False)
            if i != j:
                yield ('%s <= %s' % (n, n2), lambda a=cur, b=cur2: a() <= b(), False)


def scalar_templates(ctx):
    """Scalars (bool, float, opaque) that keep their value, and element frames of modified sequences."""
    ex = ctx.ex
    for l in ctx.leaves:
        if not l.mod:
            continue
        p = l.pre
        if z3.is_expr(p) and p.sort() != z3.IntSort():
            yield ('%s unchanged' % l.name, lambda l=l: l.cur() == l.pre, False)
        if isinstance(p, Vec):
            k = z3.Int('k')
            yield ('%s keeps its first elements' % l.name, lambda l=l: forall([k], z3.Implies(z3.And(k >= 0, k < l.pre.len), z3.Select(l.cur().arr, k) == z3.Select(l.pre.arr, k)), patterns=[z3.Select(l.cur().arr, k)]) if not l.cur().arr.eq(l.pre.arr) else z3.BoolVal(True), True)
            if l.mod == 'elem':
                for n, cur, pre, _ in ctx.ints(True):
                    yield ('%s unchanged from %s' % (l.name, n), lambda l=l, cur=cur: forall([k], z3.Implies(k >= cur(), z3.Select(l.cur().arr, k) == z3.Select(l.pre.arr, k)), patterns=[z3.Select(l.cur().arr, k)]) if not l.cur().arr.eq(l.pre.arr) else z3.BoolVal(True), True)


def filter_qf(ex, cands, vals, extra=()):
    """Indices of candidates (ground) valid in the current state."""
    ok = list(range(len(cands)))
    t0 = time.time()
    s = z3.SimpleSolver()
    s.set('timeout', 2000)
    s.add(*ex.fl.axioms())
    s.add(*ex.ground())
    rounds = 0
    while ok:
        rounds += 1
        s.push()
        s.add(Not(And(*[vals[i] for i in ok])))
        r = s.check()
        ex.qt['n'] += 1
        if r == z3.unsat:
            s.pop()
            break
        if r == z3.sat:
            m = s.model()
            keep = [i for i in ok if not z3.is_false(m.eval(vals[i], model_completion=True))]
            s.pop()
            if len(keep) < len(ok):
                ok = keep
                continue
        else:
            s.pop()
        ok = [i for i in ok if ex.proves(vals[i], 500)]
        break
    ex.qt['t'] += time.time() - t0
    return ok


def run(ex, cond, body, inc, node):
    lit = node is not None and node.get('c') is not None and node['c']['k'] == 'int' or (node is not None and node['k'] == 'for' and not node.get('c'))
    n = 0
    while not lit and n < UNROLL:
        kk = ex.key()
        if kk in ex.memo:
            conc = ex.memo[kk]
        else:
            ex.muted += 1
            sv = (ex.events, ex.k)
            ex.events, ex.k = (('peek', kk),), 0
            try:
                res = ex.explore(cond)
            finally:
                ex.events, ex.k = sv
                ex.muted -= 1
            conc = None
            if len(res) == 1 and res[0][0] == 'norm':
                v = z3.simplify(res[0][1])
                conc = True if z3.is_true(v) else False if z3.is_false(v) else None
                if conc is None and n == 0:
                    # decided by the path condition?
                    s = ex.snap()
                    ex.restore((res[0][2], res[0][3], res[0][4]))
                    if not ex.feasible(v):
                        conc = False
                    ex.restore(s)
            ex.memo[kk] = conc
        if conc is None:
            break
        c = cond()
        if conc is False:
            ex.assume(Not(c))
            return
        ex.assume(c)
        try:
            try:
                body()
            except ContinueEx:
                pass
            if inc:
                inc()
        except BreakEx:
            return
        n += 1
    symbolic(ex, cond, body, inc, node)


def iteration(ex, cond, body, inc):
    c = cond()
    if not ex.branch(c):
        return 'exit'
    try:
        body()
    except ContinueEx:
        pass
    if inc:
        inc()
    return 'end'


def iteration_any(ex, cond, body, inc):
    """As iteration, with the result wrapped so that only same-kind outcomes merge."""
    r = iteration(ex, cond, body, inc)
    return Tag(r)


class Tag:
    def __init__(self, n):
        self.n = n


def symbolic(ex, cond, body, inc, node):
    kk = ex.key()
    lid = irmod.loc(node) if node else 'model'
    base_roots = set(ex.store)
    if ('loop', kk) in ex.memo:
        mods, survivors, mk = ex.memo[('loop', kk)]
        ctx = LoopCtx(ex, collect_leaves(ex, mods), node)
    else:
        ex.muted += 1
        sv = (ex.events, ex.k)
        base = ex.snap()
        try:
            mods = set()
            for r in range(10):
                ex.events, ex.k = (('mods', kk, r),), 0
                ex.modsonly += 1
                log = set()
                logs, ex.wlogs = ex.wlogs, ex.wlogs + [log]

                def it():
                    havoc(ex, mods)
                    return Tag(iteration(ex, cond, body, inc))
                try:
                    res = ex.explore(it)
                finally:
                    ex.wlogs = logs
                    ex.modsonly -= 1
                # what is written only on the way out (return, throw, break) does not reach the loop head
                back = [st for kind, v, st, pc, rt in res if kind == 'cont' or (kind == 'norm' and v.n == 'end')]
                same = {r for r in base_roots if all(st.get(r) is base[0].get(r) for st in back)}
                new = {m for m in log if m[0] in base_roots and not m[0].startswith('const:') and m[0] not in same}
                if all(any(covers(o, m) for o in mods) for m in new):
                    break
                mods = norm(mods | new)
            else:
                raise Undecided('modified set of loop does not stabilise at ' + lid)
            for m in mods:
                for log in ex.wlogs:
                    log.add(m)
            ctx = LoopCtx(ex, collect_leaves(ex, mods), node)
            cands, full = [], []
            gens = [] if ex.modsonly else [int_templates, scalar_templates] + list(ex.templates)
            names = set()
            for g in gens:
                for nm, th, q in g(ctx):
                    if nm not in names and (ex.cand_filter is None or ex.cand_filter(nm)):
                        names.add(nm)
                        cands.append((nm, th, q))
            ex.loop_ids.setdefault(lid, len(ex.loop_ids))
            hint = (ex.hints or {}).get(str(ex.loop_ids.setdefault(lid, len(ex.loop_ids))))
            sub = None
            if hint is not None:
                sub = [c for c in cands if c[0] in set(hint)]
                if len(sub) >= 0.4 * len(hint):
                    cands = sub
            warm = ex.warm[-1].get(lid) if ex.warm else None
            if warm is not None:
                cands = [c for c in cands if c[0] in warm]
            hinted = sub is not None and len(sub) >= 0.4 * len(hint)
            cli, ex.cli = ex.cli, hinted
            try:
                survivors = [] if ex.modsonly else houdini(ex, kk, cands, mods, cond, body, inc, base, lid)
            finally:
                ex.cli = cli
            if ex.warm_next:
                ex.warm_next[-1].setdefault(lid, set()).update(c[0] for c in survivors)
            if not ex.modsonly:
                ex.loop_reports.append((ex.loop_ids[lid], lid, len(cands), [c[0] for c in survivors]))
        finally:
            ex.events, ex.k = sv
            ex.muted -= 1
            ex.restore(base)
        ex.memo[('loop', kk)] = (mods, survivors, None)
    for m in mods:
        for log in ex.wlogs:
            log.add(m)
    # established
    gs = [(nm, th()) for nm, th, q in survivors]
    qf = And(*[g for (nm, g), (_, _, q) in zip(gs, survivors) if not q])
    ex.oblige('loop invariant holds on entry (%d facts)' % sum(1 for s in survivors if not s[2]), qf, node, 'invariant', assume=False)
    for (nm, g), (_, _, q) in zip(gs, survivors):
        if q:
            ex.oblige('loop invariant on entry: ' + nm, g, node, 'invariant', assume=False)

    def final():
        havoc(ex, mods)
        for nm, th, q in survivors:
            ex.assume(th())
        r = iteration(ex, cond, body, inc)
        if r == 'end':
            gs = [(nm, th()) for nm, th, q in survivors]
            qf = And(*[g for (nm, g), (_, _, q) in zip(gs, survivors) if not q])
            ex.oblige('loop invariant preserved', qf, node, 'invariant', assume=False)
            for (nm, g), (_, _, q) in zip(gs, survivors):
                if q:
                    ex.oblige('loop invariant preserved: ' + nm, g, node, 'invariant', assume=False)
            raise PathEnd()
        return None
    if ('loop', kk) in ex.memo and kk in ex.final_warm:
        ex.warm.append(ex.final_warm[kk])
    else:
        ex.warm.append({})
    ex.warm_next.append({})
    try:
        ex.merge_explore(final)
    except BreakEx:
        pass
    finally:
        ex.warm.pop()
        ex.warm_next.pop()


def houdini(ex, kk, cands, mods, cond, body, inc, base, lid):
    # entry
    def entry_filter(cs):
        vals = [c[1]() for c in cs]
        qi = [i for i, c in enumerate(cs) if c[2]]
        gi = [i for i, c in enumerate(cs) if not c[2]]
        ok = set(gi[j] for j in filter_qf(ex, [cs[i] for i in gi], [vals[i] for i in gi]))
        for i in qi:
            if ex.proves(vals[i], 3000, quant=True):
                ok.add(i)
        return [c for i, c in enumerate(cs) if i in ok]
    if os.environ.get('VERIF_KEYS'):
        print('HOUDINI', lid, hash(kk), len(ex.memo), round(time.time() - ex.t_start if hasattr(ex, 't_start') else 0), str(kk)[-300:], flush=True)
    cs = entry_filter(cands)
    dbg = os.environ.get('VERIF_LOOPDBG')
    if dbg and dbg in lid:
        print('LOOP', lid, 'mods', sorted(mods, key=str), 'entry drops', [c[0] for c in cands if c not in cs], flush=True)
    prev = {}
    for rnd in range(60):
        ex.restore(base)
        ex.events, ex.k = (('hou', kk, rnd),), 0

        def it():
            havoc(ex, mods)
            for c in cs:
                ex.assume(c[1]())
            return Tag(iteration(ex, cond, body, inc))
        # inner loops: start from what survived in the round before (assumptions only get weaker)
        ex.warm_next.append({})
        ex.warm.append(prev)
        try:
            res = ex.explore(it)
        finally:
            ex.warm.pop()
            prev = ex.warm_next.pop()
        dropped = False
        keep = list(cs)
        for kind, v, st, pc, rt in res:
            if kind == 'cont' or (kind == 'norm' and v.n == 'end'):
                ex.restore((st, pc, rt))
                vals = [c[1]() for c in keep]
                gi = [i for i, c in enumerate(keep) if not c[2]]
                ok = set(gi[j] for j in filter_qf(ex, [keep[i] for i in gi], [vals[i] for i in gi]))
                miss = [i for i in gi if i not in ok]
                for i, c in enumerate(keep):
                    if c[2] and ex.proves(vals[i], 3000, quant=True):
                        ok.add(i)
                if len(ok) < len(keep):
                    dropped = True
                    if dbg and dbg in lid and os.environ.get('VERIF_CAND'):
                        for i, c in enumerate(keep):
                            if i not in ok and os.environ['VERIF_CAND'] in c[0]:
                                sm = z3.SimpleSolver()
                                sm.add(*ex.facts(), *ex.axioms, z3.Not(vals[i]))
                                open('/tmp/drop_%s.smt2' % re.sub(r'\W+', '_', c[0]), 'w').write(sm.to_smt2())
                                print('    DROP', c[0], ex.check_sat([Not(vals[i])], 3000, True))
                keep = [c for i, c in enumerate(keep) if i in ok]
        ex.restore(base)
        if dbg and dbg in lid:
            print('  round', rnd, 'outcomes', [(k, v.n if isinstance(v, Tag) else v) for k, v, *_ in res], 'drops', [c[0] for c in cs if c not in keep], flush=True)
        cs = keep
        if not dropped:
            ex.final_warm[kk] = prev
            return prune(ex, cs)
    raise Undecided('invariant inference does not converge at ' + lid)


def prune(ex, cs):
    return cs
