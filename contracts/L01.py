"""L01: Viterbi selects the best sequence of candidates."""
from lib import *
from verify import Unit
import re

NS = 'map_matching_2::learning::viterbi'
DRIVERS = {'v': ('L01_driver.cpp', [NS + '::operator\\(\\)'], [])}
t_, g_, s_, i_ = z3.Ints('t g s i')


class Mark:
    """A value on which paths are not merged."""
    def __init__(self, v):
        self.v = v


class S:
    def __init__(self, ex, ir, obs, tr):
        self.ex, self.obs, self.tr = ex, obs, tr
        self.F = ex.fl.sort
        self.ninf, self.zero = ex.fl.const('-inf'), ex.fl.const('0x0p+0')
        self.neg = ex.fl.unary('log', self.zero)
        self.ne = z3.Function('some_list_before', z3.IntSort(), z3.BoolSort())
        ex.assume(Not(self.ne(0)))
        ex.spec = self

    def row(self, v, i):
        return self.ex.reflect(z3.Select(v.arr, i), v.el, facts=False)

    def at(self, v, *ix):
        for i in ix[:-1]:
            v = self.row(v, i)
        return z3.Select(v.arr, ix[-1])

    def n(self, t):
        return self.row(self.obs, t).len

    def gt(self, a, b):
        return self.ex.fl.cmp('>', a, b)

    def P(self, T, t, g, s):
        f = self.ex.fl
        return f.op('+', f.op('+', self.at(T, t - 1, s), self.at(self.tr, t, g, s)), self.at(self.obs, t, g))

    def late(self, t, g):
        f = self.ex.fl
        return f.op('+', f.unary('log', f.op('/', f.const('0x1p+0'), f.from_int(self.row(self.tr, t).len))), self.at(self.obs, t, g))

    def okk(self, T, K, t, g):
        k = self.at(K, t, g)
        return z3.If(k < 0, And(k == -1, self.at(T, t, g) == z3.If(self.ne(t), self.neg, self.late(t, g))),
                     And(k < self.n(t - 1), self.at(T, t, g) == self.P(T, t, g, k), self.gt(self.at(T, t, g), self.ninf)))

    def oks(self, T, K, t, g, s):
        return Not(self.gt(self.P(T, t, g, s), z3.If(self.at(K, t, g) < 0, self.ninf, self.at(T, t, g))))

    def table(self, T, K, n):
        """Rows 1..n-1 are filled as specified."""
        r = z3.And(t_ >= 1, t_ < n, g_ >= 0, g_ < self.n(t_))
        return [fa([t_, g_], z3.Implies(r, self.okk(T, K, t_, g_)), [self.at(K, t_, g_), self.at(T, t_, g_)] if False else [self.at(K, t_, g_)]),
                fa([t_, g_, s_], z3.Implies(z3.And(r, s_ >= 0, s_ < self.n(t_ - 1)), self.oks(T, K, t_, g_, s_)), [self.at(self.tr, t_, g_, s_)])]

    def first(self, T, n):
        f = self.ex.fl
        return fa(g_, z3.Implies(z3.And(g_ >= 0, g_ < n, g_ < self.n(I(0))), self.at(T, I(0), g_) == f.op('+', self.at(self.tr, I(0), g_, I(0)), self.at(self.obs, I(0), g_))), [self.at(T, I(0), g_)])


def units():
    us = []

    def cfg(ex):
        ex.pure = []
        ex.templates = [templates]
        ex.cand_filter = lambda n: not re.search(r'(policy|selections)\.size|if any|or unchanged| const$|[<>] (pre|0|1)$|<= 0$|<= 1$', n)
        f = ex.fl
        a, b, c = z3.Consts('a b c', f.sort)
        # IEEE: a < b and b < c give a < c; nothing is less than itself
        ex.axioms.append(fa([a, b, c], z3.Implies(z3.And(f.lt(a, b), f.lt(b, c)), f.lt(a, c)), [f.lt(a, b), f.lt(b, c)] if False else None))
        ex.axioms.append(fa(a, z3.Not(f.lt(a, a)), [f.lt(a, a)]))

    def templates(ctx):
        ex = ctx.ex
        s = ex.spec
        vv = lambda el: [l for l in ctx.leaves if isinstance(l.pre, Vec) and ex.ir.T(l.pre.el).get('n') == 'std::vector' and ex.sort_of(ex.ir.T(l.pre.el)['a'][0]['t']) == el and not l.pre.arr.eq(s.obs.arr)]
        Ts, Ks = vv(s.F), vv(z3.IntSort())
        sel = [l for l in ctx.of(cls=Vec, el=z3.IntSort())]
        M, C = [x for x in ctx.ints(True) if '.' not in x[0]], [x for x in ctx.ints(False) if '.' not in x[0]]
        fl = [l for l in ctx.of(sort=s.F) if l.mod]
        bl = [l for l in ctx.of(sort=z3.BoolSort()) if l.mod]
        # row numbers: variables that keep their value, and the first row
        R = [(n, (lambda p=pre: p)) for n, cur, pre, md in C] + [('0', lambda: I(0))]
        for n, cur, pre, md in M:
            for rn, r in R:
                yield ('%s <= length of list %s' % (n, rn), lambda cur=cur, r=r: z3.Implies(s.n(r()) >= 0, cur() <= s.n(r())), False)
                if rn != '0':
                    yield ('%s <= length of the list before %s' % (n, rn), lambda cur=cur, r=r: z3.Implies(s.n(r() - 1) >= 0, cur() <= s.n(r() - 1)), False)
            yield ('%s <= length of the last list' % n, lambda cur=cur: z3.Implies(s.n(s.obs.len - 1) >= 0, cur() <= s.n(s.obs.len - 1)), False)
        pol = [l for l in ctx.leaves if isinstance(l.pre, Vec) and l.mod and ex.ir.T(l.pre.el).get('n') == 'std::pair']
        ghost = [l for l in ctx.leaves if l.name.startswith('aborted')]
        for l in ghost:
            if not any(True for x in ctx.leaves if x is l and x.mod):
                continue
        for T in Ts + Ks:
            if T.mod == 'whole':      # building the tables
                yield (T.name + ' rows are as long as the lists', lambda T=T: fa(t_, z3.Implies(z3.And(t_ >= 0, t_ < T.cur().len), s.row(T.cur(), t_).len == s.n(t_)), [z3.Select(T.cur().arr, t_)]), True)
                v0 = s.neg if T in Ts else I(-1)
                yield (T.name + ' rows are initial', lambda T=T, v0=v0: fa([t_, g_], z3.Implies(z3.And(t_ >= 0, t_ < T.cur().len, g_ >= 0, g_ < s.row(T.cur(), t_).len), s.at(T.cur(), t_, g_) == v0), [s.at(T.cur(), t_, g_)]), True)
            elif T.mod:
                yield (T.name + ' rows are as long as the lists', lambda T=T: fa(t_, z3.Implies(z3.And(t_ >= 0, t_ < T.cur().len), s.row(T.cur(), t_).len == s.n(t_)), [z3.Select(T.cur().arr, t_)]), True)
                v0 = s.neg if T in Ts else I(-1)
                for n, cur, pre, md in M:
                    yield ('%s rows from %s on are initial' % (T.name, n), lambda T=T, cur=cur, v0=v0: fa([t_, g_], z3.Implies(z3.And(t_ >= cur(), t_ < T.cur().len, g_ >= 0, g_ < s.row(T.cur(), t_).len), s.at(T.cur(), t_, g_) == v0), [s.at(T.cur(), t_, g_)]), True)
                    if T in Ts:
                        yield ('%s row 0 is filled below %s' % (T.name, n), lambda T=T, cur=cur: s.first(T.cur(), cur()), True)
                        yield ('%s row 0 is filled' % (T.name), lambda T=T: s.first(T.cur(), s.n(I(0))), True)
                    yield ('%s row 0 initial from %s on' % (T.name, n), lambda T=T, cur=cur, v0=v0: fa(g_, z3.Implies(z3.And(g_ >= cur(), g_ < s.n(I(0))), s.at(T.cur(), I(0), g_) == v0), [s.at(T.cur(), I(0), g_)]), True)
                    for K in Ks:
                        if K.mod and T in Ts:
                            yield ('table filled below %s' % n, lambda T=T, K=K, cur=cur: s.table(T.cur(), K.cur(), cur())[0], True)
                            yield ('table best below %s' % n, lambda T=T, K=K, cur=cur: s.table(T.cur(), K.cur(), cur())[1], True)
                for n, cur, pre, md in C + [('0', None, I(0), False)]:
                    if not n or n.startswith('__'):
                        continue
                    yield ('%s other rows than %s unchanged' % (T.name, n), lambda T=T, p=pre: fa(t_, z3.Implies(t_ != p, z3.Select(T.cur().arr, t_) == z3.Select(T.pre.arr, t_)), [z3.Select(T.cur().arr, t_)]), True)
                    for n2, cur2, pre2, _ in M:
                        yield ('%s row %s unchanged from %s' % (T.name, n, n2), lambda T=T, p=pre, cur2=cur2: fa(g_, z3.Implies(z3.And(g_ >= cur2(), g_ < s.n(p)), s.at(T.cur(), p, g_) == s.at(T.pre, p, g_)), [s.at(T.cur(), p, g_)]), True)
                        for K in Ks:
                            if K.mod and T in Ts:
                                def rowk(T=T, K=K, t=pre, cur=cur2):
                                    return fa(g_, z3.Implies(z3.And(t >= 1, g_ >= 0, g_ < cur(), g_ < s.n(t)), s.okk(T.cur(), K.cur(), t, g_)), [s.at(K.cur(), t, g_)])

                                def rows(T=T, K=K, t=pre, cur=cur2):
                                    return fa([g_, s_], z3.Implies(z3.And(t >= 1, g_ >= 0, g_ < cur(), g_ < s.n(t), s_ >= 0, s_ < s.n(t - 1)), s.oks(T.cur(), K.cur(), t, g_, s_)), [s.at(s.tr, t, g_, s_)])
                                yield ('row %s filled below %s' % (n, n2), rowk, True)
                                yield ('row %s best below %s' % (n, n2), rows, True)
        # flags: some list was not empty
        for n, cur, pre, md in C:
            ex.assume(Implies(pre > 0, s.ne(pre) == z3.Or(s.ne(pre - 1), s.n(pre - 1) > 0)))
        for b in bl:
            for n, cur, pre, md in M:
                def th(b=b, cur=cur):
                    c = cur()
                    ex.assume(Implies(c > 0, s.ne(c) == z3.Or(s.ne(c - 1), s.n(c - 1) > 0)))
                    return b.cur() == s.ne(c)
                yield ('%s: a list below %s is not empty' % (b.name, n), th, True)
                yield ('%s or %s' % (b.name, n), lambda b=b, cur=cur: b.cur() == (cur() > 0), False)
                yield ('%s or %s or before' % (b.name, n), lambda b=b, cur=cur: b.cur() == z3.Or(b.pre, cur() > 0), False)
                for b2 in ctx.of(sort=z3.BoolSort()):
                    if not b2.mod:
                        yield ('%s unless %s, %s' % (b.name, b2.name, n), lambda b=b, b2=b2, cur=cur: b.cur() == z3.And(z3.Not(b2.pre), cur() > 0), False)
        # running maxima
        if fl and not any(T.mod for T in Ts):
            for m in fl:
                for k in [x for x in M]:
                    for n, cur, pre, md in M:
                        if n == k[0]:
                            continue
                        for T in Ts:
                            def shape(f, m=m, k=k, cur=cur):
                                kk = k[1]()
                                return [z3.If(kk < 0, z3.And(kk == -1, m.cur() == s.ninf), z3.And(kk < cur(), m.cur() == f(kk), s.gt(f(kk), s.ninf))), fa(s_, z3.Implies(z3.And(s_ >= 0, s_ < cur()), Not(s.gt(f(s_), m.cur()))))]
                            last = lambda T: s.obs.len - 1
                            yield ('%s is the last row at %s' % (m.name, k[0] + n), lambda T=T, shape=shape: shape(lambda x: s.at(T.cur(), last(T), x))[0], True)

                            def best(T=T, m=m, cur=cur):
                                return fa(s_, z3.Implies(z3.And(s_ >= 0, s_ < cur()), Not(s.gt(s.at(T.cur(), last(T), s_), m.cur()))), [s.at(T.cur(), last(T), s_)])
                            yield ('%s is the best of the last row below %s' % (m.name, n), best, True)
                            for a in C:
                                for b in C:
                                    if a[0] == b[0] or '.' in a[0] + b[0]:
                                        continue
                                    yield ('%s is the step %s %s at %s' % (m.name, a[0], b[0], k[0] + n), lambda T=T, a=a, b=b, shape=shape: shape(lambda x: s.P(T.cur(), a[2], b[2], x))[0], True)

                                    def best(T=T, m=m, cur=cur, a=a, b=b):
                                        return fa(s_, z3.Implies(z3.And(s_ >= 0, s_ < cur()), Not(s.gt(s.P(T.cur(), a[2], b[2], s_), m.cur()))), [s.at(s.tr, a[2], b[2], s_)])
                                    yield ('%s is the best step %s %s below %s' % (m.name, a[0], b[0], n), best, True)
        # back-tracking
        for q in sel:
            if not q.mod:
                continue
            for n, cur, pre, md in M:
                for K in Ks:
                    def link(q=q, K=K, cur=cur):
                        v = q.cur()
                        return fa(t_, z3.Implies(z3.And(t_ > cur(), t_ < v.len), z3.Select(v.arr, t_ - 1) == z3.If(z3.Select(v.arr, t_) >= 0, s.at(K.cur(), t_, z3.Select(v.arr, t_)), I(-1))), [z3.Select(v.arr, t_)])
                    yield ('%s linked above %s' % (q.name, n), link, True)
                    yield ('%s in range' % q.name, lambda q=q: fa(t_, z3.Implies(z3.And(t_ >= 0, t_ < q.cur().len), z3.And(z3.Select(q.cur().arr, t_) >= -1, z3.Select(q.cur().arr, t_) < s.n(t_))), [z3.Select(q.cur().arr, t_)]), True)
                yield ('%s unchanged from the first %s' % (q.name, n), lambda q=q, pre=pre: fa(t_, z3.Implies(t_ >= pre, z3.Select(q.cur().arr, t_) == z3.Select(q.pre.arr, t_)), [z3.Select(q.cur().arr, t_)]), True)
                yield ('%s none below %s' % (q.name, n), lambda q=q, cur=cur: fa(t_, z3.Implies(z3.And(t_ >= 0, t_ < cur()), z3.Select(q.cur().arr, t_) == -1), [z3.Select(q.cur().arr, t_)]), True)
        for p in pol:
            for q in sel:
                for n, cur, pre, md in M:
                    if n.endswith('.size'):
                        continue

                    def entries(p=p, q=q, cur=cur):
                        v = p.cur()
                        e = s.ex.reflect(z3.Select(v.arr, i_), v.el, facts=False).d
                        a = cur() - v.len
                        return fa(i_, z3.Implies(z3.And(i_ >= 0, i_ < v.len), z3.And(e['first'] == a + i_, e['second'] == z3.Select(q.cur().arr, a + i_), e['second'] >= 0)), [z3.Select(v.arr, i_)])
                    yield ('%s holds the selections before %s' % (p.name, n), entries, True)
                    yield ('nothing selected before %s' % p.name, lambda p=p, q=q, cur=cur: fa(t_, z3.Implies(z3.And(t_ >= 0, t_ < cur() - p.cur().len), z3.Select(q.cur().arr, t_) < 0), [z3.Select(q.cur().arr, t_)]), True)
                    yield ('%s follows %s' % (p.name, n), lambda p=p, q=q, cur=cur: z3.Implies(p.cur().len > 0, z3.And(p.cur().len <= cur(), z3.Select(q.cur().arr, cur() - 1) >= 0)), True)

    def prove(ex, ir):
        fn = ir.sel(NS + '::operator()', '')
        env_t = the([i for i in ir.find_type(r'^Env$')], 'Env')
        env = sym_root(ex, env_t, 'env')
        this = sym_root_viterbi(ex, fn, env)
        e = ex.read(env)
        obs, tr = e.d['obs'], e.d['tr']
        ex.write(env.sub('no_action'), I(-1))
        s = S(ex, ir, obs, tr)
        n = obs.len
        # the tables handed in fit together
        ex.assume(tr.len == n)
        ex.assume(fa(t_, z3.Implies(z3.And(t_ >= 0, t_ < n), z3.And(s.n(t_) >= 0, s.n(t_) <= MAXLEN, s.row(tr, t_).len == s.n(t_))), [z3.Select(obs.arr, t_)]))
        ex.assume(fa(t_, z3.Implies(z3.And(t_ >= 0, t_ < n), z3.And(s.row(tr, t_).len == s.n(t_))), [z3.Select(tr.arr, t_)]))
        ex.assume(fa([t_, g_], z3.Implies(z3.And(t_ >= 0, t_ < n, g_ >= 0, g_ < s.n(t_)), s.row(s.row(tr, t_), g_).len == z3.If(t_ == 0, I(1), s.n(t_ - 1))), [s.at(tr, t_, g_)]))
        ex.store['aborted'] = Mark(False)
        ex.rtype['aborted'] = None

        def abort(ex, fn, o, args, nd):
            r = ex.fresh(z3.BoolSort(), 'abort')
            if ex.branch(r):
                ex.store['aborted'] = Mark(True)
                return z3.BoolVal(True)
            return z3.BoolVal(False)
        ex.contracts.append((lambda f: f['q'].endswith('::abort'), abort))
        mark(ex, 'viterbi')
        for k, v in outcomes(ex, call(ex, fn, this, [])):
            ex.oblige('viterbi does not throw', z3.BoolVal(k != 'throw'), None, 'post', assume=False)
            if k == 'throw':
                continue
            p = ex.load(v)
            ab = ex.store['aborted'].v
            if ab:
                ex.oblige('an aborted search selects nothing', p.len == 0, None, 'post', assume=False)
                continue
            ab = z3.BoolVal(False)
            T = [ex.store[r] for r in ex.store if isinstance(ex.store[r], Vec) and r.split('#')[0] not in ('env',) and ex.ir.T(ex.store[r].el).get('n') == 'std::vector' and ex.sort_of(ex.ir.T(ex.store[r].el)['a'][0]['t']) == s.F]
            K = [ex.store[r] for r in ex.store if isinstance(ex.store[r], Vec) and ex.ir.T(ex.store[r].el).get('n') == 'std::vector' and ex.sort_of(ex.ir.T(ex.store[r].el)['a'][0]['t']) == z3.IntSort()]
            if not T or not K:
                ex.oblige('no lists, no selection', Implies(n == 0, p.len == 0), None, 'post', assume=False)
                ex.oblige('tables only missing without lists', n == 0, None, 'post', assume=False)
                continue
            T, K = T[0], K[0]
            g = And(Not(ab), n > 0)
            for nm, f in zip(('total weights and predecessors', 'no better predecessor'), s.table(T, K, n)):
                ex.oblige('every row has the ' + nm, Implies(g, f), None, 'post', assume=False)
            ex.oblige('the first row holds the initial weights', Implies(g, s.first(T, s.n(I(0)))), None, 'post', assume=False)
            last = n - 1
            at = lambda i: ex.reflect(z3.Select(p.arr, i), p.el, facts=False).d
            pl = at(p.len - 1)
            ex.oblige('without a path nothing is selected', Implies(And(g, p.len > 0), And(pl['first'] == last, pl['second'] >= 0, pl['second'] < s.n(last), s.gt(s.at(T, last, pl['second']), s.ninf))), None, 'post', assume=False)
            ex.oblige('with a path something is selected', Implies(And(g, p.len == 0), fa(g_, z3.Implies(z3.And(g_ >= 0, g_ < s.n(last)), Not(s.gt(s.at(T, last, g_), s.ninf))), [s.at(T, last, g_)])), None, 'post', assume=False)
            ex.oblige('the last selection has the best total', Implies(And(g, p.len > 0), fa(g_, z3.Implies(z3.And(g_ >= 0, g_ < s.n(last)), Not(s.gt(s.at(T, last, g_), s.at(T, last, pl['second'])))), [s.at(T, last, g_)])), None, 'post', assume=False)
            ex.oblige('selections are those of successive lists', Implies(g, fa(i_, z3.Implies(z3.And(i_ >= 0, i_ < p.len), z3.And(at(i_)['first'] == n - p.len + i_, at(i_)['second'] >= 0, at(i_)['second'] < s.n(at(i_)['first']))), [z3.Select(p.arr, i_)])), None, 'post', assume=False)
            ex.oblige('each selection is the predecessor of the next', Implies(g, fa(i_, z3.Implies(z3.And(i_ >= 1, i_ < p.len), at(i_ - 1)['second'] == s.at(K, at(i_)['first'], at(i_)['second'])), [z3.Select(p.arr, i_)])), None, 'post', assume=False)
            p0 = at(I(0))
            ex.oblige('the path starts at a start', Implies(And(g, p.len > 0), Or(p0['first'] == 0, s.at(K, p0['first'], p0['second']) < 0)), None, 'post', assume=False)

    def sym_root_viterbi(ex, fn, env):
        r = ex.newroot('viterbi')
        rec = fn['rec']
        lay = ex.layout(rec)
        d = {}
        for key, t in lay[1]:
            nm = ex.ir.T(ex.ir.deref(t)).get('n', '')
            if nm == 'Env':
                d[key] = env
            else:
                d[key] = Uninit(t)
        ex.store[r] = Rec(rec, d)
        ex.rtype[r] = rec
        return LV(r)

    us.append(Unit('viterbi', prove, driver='v', fns=['viterbi::operator()'], configure=cfg))

    def lemma(ex, ir):
        """Induction step: if no path to the row before is better than its total, none to this row is."""
        f = ex.fl
        F = f.sort
        w, tot, x, o, best = z3.Consts('w total x o best', F)
        # IEEE facts for numbers that are not NaN: adding the same number keeps the order, order is total
        le = lambda a, b: Not(f.lt(b, a))
        a, b, c = z3.Consts('a b c', F)
        ex.axioms.append(z3.ForAll([a, b, c], z3.Implies(le(a, b), le(f.fn['add'](a, c), f.fn['add'](b, c)))))
        ex.axioms.append(z3.ForAll([a, b, c], z3.Implies(z3.And(le(a, b), le(b, c)), le(a, c))))
        step = lambda y: f.op('+', f.op('+', y, x), o)
        ex.assume(le(w, tot))
        ex.assume(le(step(tot), best))
        ex.oblige('the total of a row bounds every path to it', le(step(w), best), None, 'lemma', assume=False)
    us.append(Unit('optimality of the totals (induction step)', lemma, driver='v', kind='lemma'))
    return us


HARNESS = dict(src='L01.cpp', time=20, cases=3000000, rule='random lists of 0 to 29 observations with up to 4 candidates (ties, reals, unreachable, empty lists, aborts) against enumeration of the best total by dynamic programming over the definition; non-trivial: a path of at least two lists exists; distinct input')
ASSUMPTIONS = ['floating-point operations are uninterpreted; comparison is transitive and irreflexive (IEEE, also for NaN)', 'lemma: no NaN arises; adding the same number keeps the order (IEEE monotonicity)', 'the environment hands in tables that fit together (hmm::set builds them so)', 'the model parameter is an environment with plain member tables']
BOUNDED = ['end-to-end optimality of the returned path against enumeration: harness']
