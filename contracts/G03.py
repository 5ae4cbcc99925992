"""G03: searches reach what is reachable, shortest paths are shortest."""
from lib import *
from verify import Unit as PU
import re

NS = 'map_matching_2::graph'
DRIVERS = {'s': ('G03_driver.cpp', [NS + '::(breadth_first_search|depth_first_search|dijkstra_shortest_path|a_star_shortest_path)', NS + '::priority_type_comparator::operator\\(\\)'], [])}
v_, e_ = z3.Ints('v e')
GRAY, BLACK = 1, 2


def field(r, name):
    if name in r.d:
        return r.d[name]
    for k, x in r.d.items():
        if isinstance(k, int) and isinstance(x, Rec):
            f = field(x, name)
            if f is not None:
                return f
    return None


class S:
    """The graph as edges e with source and target; pos(e) is the place of e among the edges listed at its source."""

    def __init__(self, ex, ir, fn, weighted=False):
        self.ex, self.ir, self.fn = ex, ir, fn
        ex.spec = self
        rec = ir.deref(fn['p'][0]['t'])
        self.csr = 'compressed_sparse_row' in ir.tname(rec)
        self.g = sym_root(ex, rec, 'graph')
        g = ex.read(self.g)
        self.V, self.E = g.d['vertices'], g.d['edges']
        self.vel, self.eel = self.V.el, self.E.el
        self.pos = (lambda e: e) if self.csr else z3.Function('pos', z3.IntSort(), z3.IntSort())
        self.R = z3.Function('reachable', z3.IntSort(), z3.BoolSort())
        V, E = self.V, self.E
        ex.assume(And(V.len <= MAXLEN, E.len <= MAXLEN))
        s, t = self.st(e_)
        x = z3.Select(E.arr, e_)
        r = z3.And(e_ >= 0, e_ < E.len)
        cs = [s >= 0, s < V.len, t >= 0, t < V.len]
        # the invariants proved by G01 (adjacency lists) and G02 (compressed graphs)
        if self.csr:
            cs += [self.lo(s) <= e_, e_ < self.hi(s)]
            ex.assume(fa(v_, z3.Implies(z3.And(v_ >= 0, v_ < V.len), z3.And(self.lo(v_) >= 0, self.lo(v_) <= self.hi(v_), self.hi(v_) <= E.len)), [z3.Select(V.arr, v_)]))
            ex.assume(fa([v_, e_], z3.Implies(z3.And(r, v_ >= 0, v_ < V.len, self.lo(v_) <= e_, e_ < self.hi(v_)), s == v_), [z3.MultiPattern(z3.Select(V.arr, v_), x)]))
        else:
            L = self.out(s)
            cs += [self.pos(e_) >= 0, self.pos(e_) < L.len, z3.Select(L.arr, self.pos(e_)) == e_]
            L = self.out(v_)
            k = z3.Int('k')
            y = z3.Select(L.arr, k)
            ex.assume(fa([v_, k], z3.Implies(z3.And(v_ >= 0, v_ < V.len, k >= 0, k < L.len), z3.And(y >= 0, y < E.len, self.st(y)[0] == v_, self.pos(y) == k)), [y]))
            ex.assume(fa(v_, z3.Implies(z3.And(v_ >= 0, v_ < V.len), z3.And(L.len >= 0, L.len <= MAXLEN)), [z3.Select(V.arr, v_)]))
        ex.assume(fa(e_, z3.Implies(r, z3.And(*cs)), [x]))
        self.start = ex.sym(ir.find_type(r'^unsigned long$')[0], 'start')
        ex.assume(And(self.start >= 0, self.start < V.len, self.R(self.start)))
        # reachable: any set that contains the start and with an edge's source its target
        ex.assume(fa(e_, z3.Implies(z3.And(r, self.R(s)), self.R(t)), [x]))
        self.Q = None
        if weighted:
            # lengths of paths: any relation that holds (start, 0) and with (source, l) of an edge (target, l + its weight)
            L = z3.Int('L')
            self.Q = z3.Function('path_length', z3.IntSort(), z3.IntSort(), z3.BoolSort())
            ex.assume(self.Q(self.start, I(0)))
            ex.assume(fa([e_, L], z3.Implies(z3.And(r, self.Q(s, L)), self.Q(t, L + self.w(e_))), [z3.MultiPattern(x, self.Q(s, L))]))

    def vert(self, v):
        return self.ex.reflect(z3.Select(self.V.arr, v), self.vel, facts=False)

    def edge(self, e):
        return self.ex.reflect(z3.Select(self.E.arr, e), self.eel, facts=False)

    def st(self, e):
        r = self.edge(e)
        return field(r, 'source'), field(r, 'target')

    def w(self, e):
        return field(self.edge(e), 'data')

    def out(self, v):
        return field(self.vert(v), 'out_edges')

    def lo(self, v):
        return field(self.vert(v), 'start')

    def hi(self, v):
        return z3.If(v + 1 < self.V.len, self.lo(v + 1), self.E.len)

    def root(self, name, i):
        lv = sym_root(self.ex, self.ir.deref(self.fn['p'][i]['t']), name)
        setattr(self, name, lv)
        return lv

    def rd(self, lv, *fs):
        for f in fs:
            lv = lv.sub(f)
        return self.ex.read(lv)

    def empty_map(self, lv):
        m = self.ex.read(lv)
        self.ex.write(lv, m.with_(dom=z3.K(m.dom.sort().domain(), z3.BoolVal(False)), n=I(0)))

    def new_visitor(self, i):
        self.root('visitor', i)
        for f in ('found', 'via', 'examined', 'finished'):
            self.empty_map(self.visitor.sub(f))
        self.ex.assume(And(self.rd(self.visitor, 'clock') >= 0))

    def dom(self, lv, *fs):
        m = self.rd(lv, *fs)
        return lambda k: z3.Select(m.dom, k)

    def val(self, lv, *fs):
        m = self.rd(lv, *fs)
        return lambda k: z3.Select(m.val, k)

    # ---------------------------------------------------------------- breadth first and depth first
    def search_inv(self, cur=None, below=None):
        """[(name, formula)]; cur: the vertex being worked on, below: its edges before this place are done."""
        vis, fin, exd, found = self.dom(self.visited), self.dom(self.visitor, 'finished'), self.dom(self.visitor, 'examined'), self.dom(self.visitor, 'found')
        q = self.queue
        items, at, atd = self.rd(q, 'items'), self.val(q, 'at'), self.dom(q, 'at')
        head = self.rd(q, 'head') if self.fifo else I(0)
        it = lambda i: z3.Select(items.arr, i)
        s, t = self.st(e_)
        rng = z3.And(e_ >= 0, e_ < self.E.len)
        i_ = z3.Int('i')
        out = [('visited vertices are reachable', fa(v_, z3.Implies(vis(v_), z3.And(v_ >= 0, v_ < self.V.len, self.R(v_))), [vis(v_)])),
               ('discovered are the visited', fa(v_, found(v_) == vis(v_), [found(v_)])),
               ('discovered are the visited 2', fa(v_, found(v_) == vis(v_), [vis(v_)])),
               ('only visited are finished', fa(v_, z3.Implies(fin(v_), vis(v_)), [fin(v_)])),
               ('finished are examined', fa(v_, z3.Implies(fin(v_), exd(v_)), [fin(v_)])),
               ('edges of finished vertices lead to visited ones', fa(e_, z3.Implies(z3.And(rng, fin(s)), vis(t)), [z3.Select(self.E.arr, e_)])),
               ('head', z3.And(head >= 0, head <= items.len)),
               ('the start is visited', vis(self.start))]
        if cur is None:
            out += [('examined are finished', fa(v_, exd(v_) == fin(v_), [exd(v_)])),
                    ('what waits', fa(i_, z3.Implies(z3.And(i_ >= head, i_ < items.len), z3.And(vis(it(i_)), z3.Not(fin(it(i_))), at(it(i_)) == i_)), [it(i_)])),
                    ('unfinished vertices wait', fa(v_, z3.Implies(z3.And(vis(v_), z3.Not(fin(v_))), z3.And(at(v_) >= head, at(v_) < items.len, it(at(v_)) == v_)), [vis(v_)]))]
        else:
            out += [('only one is examined', fa(v_, exd(v_) == z3.Or(fin(v_), v_ == cur), [exd(v_)])),
                    ('this one is not finished', z3.And(vis(cur), z3.Not(fin(cur)))),
                    ('what waits', fa(i_, z3.Implies(z3.And(i_ >= head, i_ < items.len), z3.And(vis(it(i_)), z3.Not(fin(it(i_))), it(i_) != cur, at(it(i_)) == i_)), [it(i_)])),
                    ('unfinished vertices wait', fa(v_, z3.Implies(z3.And(vis(v_), z3.Not(fin(v_)), v_ != cur), z3.And(at(v_) >= head, at(v_) < items.len, it(at(v_)) == v_)), [vis(v_)]))]
            if below is not None:
                for nm, c in (('before', self.pos(e_) < below), ('from', self.pos(e_) >= below)):
                    out.append(('edges %s this place lead to visited' % nm, fa(e_, z3.Implies(z3.And(rng, s == cur, c), vis(t)), [z3.Select(self.E.arr, e_)])))
        return out

    # ---------------------------------------------------------------- shortest paths
    def key(self, p, x):
        return self.ex.reify(Rec(self.pt, {'first': p, 'second': x}), self.pt)

    def path_inv(self, cur=None, below=None, d=None):
        D, P, K, found, via = (self.val(self.dist), self.val(self.pred), self.val(self.colors), self.val(self.visitor, 'found'), self.val(self.visitor, 'via'))
        dD, dP, dK, dF, dV = (self.dom(self.dist), self.dom(self.pred), self.dom(self.colors), self.dom(self.visitor, 'found'), self.dom(self.visitor, 'via'))
        fin = self.dom(self.visitor, 'finished')
        H = self.dom(self.queue, 'items')
        b = self.rd(self.queue, 'least', 'first')
        clock = self.rd(self.visitor, 'clock')
        h = self.h
        y = z3.Const('y', self.rd(self.queue, 'items').dom.sort().domain())
        yr = self.ex.reflect(y, self.pt, facts=False).d
        p, x = yr['first'], yr['second']
        s, t = self.st(e_)
        rng = z3.And(e_ >= 0, e_ < self.E.len)
        black = lambda v: z3.And(dK(v), K(v) == BLACK)
        E = [z3.Select(self.E.arr, e_)]
        a = via(v_)
        out = [('same vertices', fa(v_, z3.And(dP(v_) == dD(v_), dK(v_) == dD(v_), dF(v_) == dD(v_), dV(v_) == dD(v_)), [dD(v_)])),
               ('same vertices P', fa(v_, dP(v_) == dD(v_), [dP(v_)])),
               ('same vertices K', fa(v_, dK(v_) == dD(v_), [dK(v_)])),
               ('reached are reachable', fa(v_, z3.Implies(dD(v_), z3.And(v_ >= 0, v_ < self.V.len, self.R(v_), D(v_) >= 0)), [dD(v_)])),
               ('distances are lengths of paths', fa(v_, z3.Implies(dD(v_), self.Q(v_, D(v_))), [dD(v_)])),
               ('colors', fa(v_, z3.Implies(dK(v_), z3.And(z3.Or(K(v_) == GRAY, K(v_) == BLACK))), [dK(v_)])),
               ('black are the finished', fa(v_, fin(v_) == black(v_), [fin(v_)])),
               ('entries', fa(y, z3.Implies(H(y), z3.And(dD(x), p >= D(x) + h(x), p >= b)), [H(y)])),
               ('black are below the last', fa(v_, z3.Implies(black(v_), D(v_) + h(v_) <= b), [dK(v_)])),
               ('edges of black vertices are relaxed', fa(e_, z3.Implies(z3.And(rng, black(s)), z3.And(dD(t), D(t) <= D(s) + self.w(e_))), E)),
               ('the start', z3.And(dD(self.start), D(self.start) == 0, P(self.start) == self.start)),
               ('predecessors', fa(v_, z3.Implies(z3.And(dD(v_), v_ != self.start), z3.And(a >= 0, a < self.E.len, self.st(a)[0] == P(v_), self.st(a)[1] == v_, D(v_) == D(P(v_)) + self.w(a), dD(P(v_)))), [P(v_)])),
               ('predecessors are earlier', fa(v_, z3.Implies(z3.And(dD(v_), v_ != self.start), found(P(v_)) < found(v_)), [P(v_)])),
               ('time', fa(v_, z3.Implies(dD(v_), found(v_) < clock), [dD(v_)]))]
        if cur is None:
            out += [('grey wait', fa(v_, z3.Implies(z3.And(dD(v_), K(v_) != BLACK), H(self.key(D(v_) + h(v_), v_))), [dD(v_)])),
                    ('predecessors are black', fa(v_, z3.Implies(z3.And(dD(v_), v_ != self.start), black(P(v_))), [P(v_)]))]
        else:
            out += [('grey wait', fa(v_, z3.Implies(z3.And(dD(v_), K(v_) != BLACK, v_ != cur), H(self.key(D(v_) + h(v_), v_))), [dD(v_)])),
                    ('predecessors are black', fa(v_, z3.Implies(z3.And(dD(v_), v_ != self.start), z3.Or(black(P(v_)), P(v_) == cur)), [P(v_)])),
                    ('this one', z3.And(dD(cur), D(cur) + h(cur) <= b, z3.Or(black(cur), D(cur) + h(cur) == b)))]
            if below is not None:
                out.append(('edges before this place are relaxed', fa(e_, z3.Implies(z3.And(rng, s == cur, self.pos(e_) < below), z3.And(dD(t), D(t) <= D(cur) + self.w(e_))), E)))
        return out


def ctxvars(ctx):
    """Values that may be the vertex being worked on: integers that keep their value."""
    bad = lambda n: '.' in n or n.split('#')[0] in ('start', 'ghost')
    return [x for x in ctx.ints(False) if not bad(x[0])], [x for x in ctx.ints(True) if not bad(x[0])]


def templates(inv):
    def gen(ctx):
        ex = ctx.ex
        s = getattr(ex, 'spec', None)
        if s is None:
            return
        C, M = ctxvars(ctx)
        C = [c for c in C if not c[2].eq(s.start) and not c[2].eq(getattr(s, 'goal', s.start))]
        outer = not M
        if outer:
            for i, (n, _) in enumerate(inv(s)):
                yield (n, lambda i=i: inv(s)[i][1], True)
            return
        for cn, _, cp, _ in C:
            for mn, cur, pre, _ in M:
                lo, hi = (s.lo(cp), s.hi(cp)) if s.csr else (I(0), s.out(cp).len)
                yield ('%s among the edges of %s' % (mn, cn), lambda cur=cur, lo=lo, hi=hi: z3.And(cur() >= lo, cur() <= hi), False)
                for i, (n, _) in enumerate(inv(s, cp, cur())):
                    yield ('%s [%s, %s]' % (n, cn, mn), lambda i=i, cp=cp, cur=cur: inv(s, cp, cur())[i][1], True)
    return gen


def units():
    us = []
    filt = lambda n: not re.search(r'(visitor|queue|distances|predecessors|colors|visited|dist|pred)[.#\w]*(\.size)?\b.*(<=|>=|<|>|const|unchanged)|if any|or unchanged', n)

    def stopped(ex, fn, o, args, nd):
        return ex.fresh(z3.BoolSort(), 'stop')

    def fns(ir, name, ty=None):
        r = [f for f in ir.fns if f['q'] == NS + '::' + name and f.get('body') and (ty is None or re.search(ty, ir.tname(ir.deref(f['p'][0]['t']))))]
        if not r:
            raise Undecided('no instance of ' + name)
        return r[0]

    KINDS = [('directed', r'adjacency_list<.*::directional'), ('bidirectional', r'adjacency_list<.*::bidirectional'), ('compressed', 'compressed_sparse_row')]

    for name, short, fifo in (('breadth_first_search', 'breadth first', True), ('depth_first_search', 'depth first', False)):
        for kind, ty in KINDS:
            def prove(ex, ir, name=name, fifo=fifo, ty=ty, short=short):
                fn = fns(ir, name, ty)
                s = S(ex, ir, fn)
                s.fifo = fifo
                s.root('visited', 2), s.root('queue', 3)
                s.new_visitor(4)
                s.empty_map(s.visited)
                s.empty_map(s.queue.sub('at'))
                q = s.rd(s.queue, 'items')
                ex.assume(q.len == (s.rd(s.queue, 'head') if fifo else 0))
                ex.contracts.append((lambda f: f['q'].endswith('::stopped'), stopped))
                ex.contracts.append((lambda f: f['q'] == 'V::tick', tick))

                mark(ex, short)
                for k, r in outcomes(ex, call(ex, fn, None, [s.g, s.start, s.visited, s.queue, s.visitor])):
                    ex.oblige('%s does not throw' % name, z3.BoolVal(k != 'throw'), None, 'post', assume=False)
                    if k == 'throw':
                        continue
                    for n, f in s.search_inv():
                        ex.oblige('also when stopped: ' + n, f, None, 'post', assume=False)
                    vis = s.dom(s.visited)
                    fin = s.dom(s.visitor, 'finished')
                    items = s.rd(s.queue, 'items')
                    done = items.len == (s.rd(s.queue, 'head') if fifo else 0)
                    x, y = s.st(e_)
                    ex.oblige('nothing waits: everything reachable is visited', Implies(done, And(vis(s.start), fa(e_, z3.Implies(z3.And(e_ >= 0, e_ < s.E.len, vis(x)), vis(y)), [z3.Select(s.E.arr, e_)]))), None, 'post', assume=False)
                    ex.oblige('nothing waits: every visited vertex is finished', Implies(done, fa(v_, z3.Implies(vis(v_), fin(v_)), [vis(v_)])), None, 'post', assume=False)

            def cfg(ex):
                ex.templates = [templates(S.search_inv)]
                ex.cand_filter = filt
            us.append(PU('%s search: %s' % (short, kind), prove, driver='s', fns=[name], configure=cfg))

    def tick(ex, fn, o, args, nd):
        lv = ex.spec.visitor.sub('clock')
        ex.write(lv, ex.read(lv) + 1)

    def heap(ex, s):
        items = s.queue.sub('items')

        def empty(ex, fn, o, args, nd):
            m = ex.read(items)
            b = ex.fresh(z3.BoolSort(), 'empty')
            y = z3.Const('y', m.dom.sort().domain())
            ex.assume(z3.Implies(b, fa(y, z3.Not(z3.Select(m.dom, y)), [z3.Select(m.dom, y)])))
            w = ex.fresh(m.dom.sort().domain(), 'some')
            ex.assume(z3.Implies(z3.Not(b), z3.Select(m.dom, w)))
            return b

        def top(ex, fn, o, args, nd):
            m = ex.read(items)
            x = ex.fresh(m.dom.sort().domain(), 'top')
            y = z3.Const('y', m.dom.sort().domain())
            some = z3.Const('z', m.dom.sort().domain())
            ex.oblige('top of a queue with entries', z3.Exists([some], z3.Select(m.dom, some)), nd, 'pre', assume=False)
            xr, yr = ex.reflect(x, s.pt, facts=False), ex.reflect(y, s.pt, facts=False)
            ex.assume(z3.Select(m.dom, x))
            ex.assume(fa(y, z3.Implies(z3.Select(m.dom, y), xr.d['first'] <= yr.d['first']), [z3.Select(m.dom, y)]))
            ex.write(s.queue.sub('least'), xr)
            return s.queue.sub('least')

        def pop(ex, fn, o, args, nd):
            m = ex.read(items)
            x = ex.reify(ex.read(s.queue.sub('least')), s.pt)
            ex.oblige('pop of an entry', z3.Select(m.dom, x), nd, 'pre', assume=False)
            ex.write(items, m.with_(dom=z3.Store(m.dom, x, z3.BoolVal(False)), n=ex.fresh(z3.IntSort(), 'n')))

        def push(ex, fn, o, args, nd):
            m = ex.read(items)
            x = ex.reify(ex.load(args[0]), s.pt)
            ex.oblige('entries are distinct', z3.Not(z3.Select(m.dom, x)), nd, 'pre', assume=False)
            ex.write(items, m.with_(dom=z3.Store(m.dom, x, z3.BoolVal(True)), n=ex.fresh(z3.IntSort(), 'n')))
        for nm, c in (('empty', empty), ('top', top), ('pop', pop), ('push', push)):
            ex.contracts.append((lambda f, nm=nm: f['q'] == 'Heap::' + nm, c))
        ex.contracts.append((lambda f: f['q'].endswith('::stopped'), stopped))

    def paths(name, short, kind, ty, star):
        def prove(ex, ir):
            fn = fns(ir, name, ty)
            s = S(ex, ir, fn, True)
            i = 3 if star else 2
            s.root('pred', i), s.root('dist', i + 1), s.root('colors', i + 2), s.root('queue', i + 3)
            s.new_visitor(i + 4)
            s.pt = ir.deref(dict(ex.layout(ir.deref(fn['p'][i + 3]['t']))[1])['least'])
            for m in (s.pred, s.dist, s.colors, s.queue.sub('items')):
                s.empty_map(m)
            x = z3.Select(s.E.arr, e_)
            ex.assume(fa(e_, z3.Implies(z3.And(e_ >= 0, e_ < s.E.len), s.w(e_) >= 0), [x]))
            args = [s.g, s.start]
            if star:
                goal = ex.sym(ir.find_type(r'^unsigned long$')[0], 'goal')
                ex.assume(And(goal >= 0, goal < s.V.len))
                hf = z3.Function('heuristic', z3.IntSort(), z3.IntSort())
                s.h, s.goal = hf, goal
                a, b = s.st(e_)
                ex.assume(fa(e_, z3.Implies(z3.And(e_ >= 0, e_ < s.E.len), hf(a) <= s.w(e_) + hf(b)), [x]))
                args.append(goal)
                ex.assume(s.rd(s.queue, 'least', 'first') <= hf(s.start))

                def heur(ex, fn, o, args, nd):
                    ex.oblige('the heuristic is asked for the goal', ex.load(args[1]) == goal, nd, 'pre', assume=False)
                    return hf(ex.load(args[0]))
                ex.contracts.append((lambda f: f['q'].startswith('Heur::'), heur))
            else:
                s.h = lambda v: I(0)
                ex.assume(s.rd(s.queue, 'least', 'first') <= 0)
            heap(ex, s)
            ex.unbounded = True  # distances are mathematical integers
            ex.contracts.append((lambda f: f['q'] == 'V::tick', tick))
            args += [s.pred, s.dist, s.colors, s.queue, s.visitor]
            for p in fn['p'][len(args):]:
                args.append(sym_root(ex, ir.deref(p['t']), p['n']))
            mark(ex, short)
            for k, r in outcomes(ex, call(ex, fn, None, args)):
                ex.oblige('%s does not throw' % name, z3.BoolVal(k != 'throw'), None, 'post', assume=False)
                if k == 'throw':
                    continue
                for n, f in s.path_inv():
                    ex.oblige('also when stopped: ' + n, f, None, 'post', assume=False)
                H = s.rd(s.queue, 'items')
                y = z3.Const('y', H.dom.sort().domain())
                K, D, dD = s.val(s.colors), s.val(s.dist), s.dom(s.dist)
                done = z3.ForAll([y], z3.Not(z3.Select(H.dom, y)))
                ex.oblige('nothing waits: every reached vertex is final', Implies(done, fa(v_, z3.Implies(dD(v_), K(v_) == BLACK), [dD(v_)])), None, 'post', assume=False)
                x, y = s.st(e_)
                rng = z3.And(e_ >= 0, e_ < s.E.len)
                ex.oblige('nothing waits: no edge shortens a distance', Implies(done, fa(e_, z3.Implies(z3.And(rng, dD(x)), z3.And(dD(y), D(y) <= D(x) + s.w(e_))), [z3.Select(s.E.arr, e_)])), None, 'post', assume=False)
                # by induction over paths, also when stopped early: (v, l) belongs to C when v is final with at most l, or the last entry is at most l + h(v)
                b = s.rd(s.queue, 'least', 'first')
                L = z3.Int('L')
                black = lambda v: z3.And(dD(v), K(v) == BLACK)
                C = lambda v, l: z3.Or(z3.And(black(v), D(v) <= l), b <= l + s.h(v))
                taken = s.dom(s.visitor, 'examined')
                any_ = z3.Exists([v_], black(v_))
                ex.oblige('a shortest path: the start', Implies(black(s.start), C(s.start, I(0))), None, 'post', assume=False)
                ex.oblige('a shortest path: one edge more', fa([e_, L], z3.Implies(z3.And(rng, C(x, L)), C(y, L + s.w(e_))), [z3.MultiPattern(z3.Select(s.E.arr, e_), s.Q(x, L))]), None, 'post', assume=False)
                ex.oblige('a shortest path: a final vertex', fa([v_, L], z3.Implies(z3.And(black(v_), C(v_, L)), D(v_) <= L), [s.Q(v_, L)]), None, 'post', assume=False)

        def cfg(ex):
            ex.cvc5 = True
            ex.templates = [templates(S.path_inv)]
            ex.cand_filter = filt
        us.append(PU('%s: %s' % (short, kind), prove, driver='s', fns=[name], configure=cfg))
    for kind, ty in (('directed', r'adjacency_list<.*::directional, int, long'), ('bidirectional', r'adjacency_list<.*::bidirectional, int, long'), ('compressed', 'compressed_sparse_row<.*int, long')):
        paths('dijkstra_shortest_path', 'Dijkstra', kind, ty, False)
        paths('a_star_shortest_path', 'A*', kind, ty, True)

    def order(ex, ir):
        f = next(f for f in ir.fns if f['q'] == NS + '::priority_type_comparator::operator()' and f.get('body'))
        l, r = (sym_root(ex, ir.deref(f['p'][i]['t']), n) for i, n in ((0, 'left'), (1, 'right')))
        a, b = ex.read(l), ex.read(r)
        for k, x in outcomes(ex, call(ex, f, None, [l, r])):
            ex.oblige('an entry comes later exactly when its distance is larger', And(z3.BoolVal(k != 'throw'), x == (field(a, 'first') > field(b, 'first'))), None, 'post', assume=False)
    us.append(PU('the order of the queue', order, driver='s', fns=['priority_type_comparator::operator()']))
    return us


HARNESS = dict(src='G03.cpp', time=15, cases=400000, rule='random graphs of at most 12 vertices and 30 edges with self loops, parallel edges, unreachable parts and weights with ties, as list and vector adjacency lists and compressed, searched with the real queues: order of events against a plain search, distances against relaxation until nothing changes, predecessors followed back to the start; non-trivial: at least three vertices are reached; distinct graph and start')
ASSUMPTIONS = ['the graph is well formed as G01 and G02 establish (ends of edges exist, every edge is listed exactly at its source)', 'weights are integers and not negative, distances are mathematical integers; shortest paths with double weights are checked by the harness', 'the heuristic is consistent (never above an edge weight plus the heuristic of its end)', 'std::queue, std::stack and boost::heap::d_ary_heap behave as sequence and set with some smallest element on top (the order of the heap is the proved priority_type_comparator)', 'visitors only listen; they may ask to stop at any time']
BOUNDED = ['real queues, list graphs, double weights: harness']
