"""N01: shortest paths within a maximum distance in the road network."""
from lib import *
from verify import Unit as PU
import re
import G03
from G03 import field, GRAY, BLACK, v_, e_

NS = 'map_matching_2::graph'
NET = 'map_matching_2::geometry::network::network'
DRIVERS = {'s': ('N01_driver.cpp', ['dijkstra_within', 'a_star_within', NET + '::(dijkstra_shortest_paths|a_star_shortest_paths|extract_route)'], [])}


def R(x):
    return z3.RealVal(x)


class S(G03.S):
    """The network's graph with weights of edges as an unknown function that is never negative."""

    def __init__(self, ex, ir, fn):
        self.W = z3.Function('weight', z3.IntSort(), z3.RealSort())
        G03.S.__init__(self, ex, ir, fn)
        L = z3.Real('L')
        s, t = self.st(e_)
        x = z3.Select(self.E.arr, e_)
        r = z3.And(e_ >= 0, e_ < self.E.len)
        self.Q = z3.Function('path_length', z3.IntSort(), z3.RealSort(), z3.BoolSort())
        ex.assume(self.Q(self.start, R(0)))
        ex.assume(fa([e_, L], z3.Implies(z3.And(r, self.Q(s, L)), self.Q(t, L + self.W(e_))), [z3.MultiPattern(x, self.Q(s, L))]))
        ex.assume(fa(e_, z3.Implies(r, self.W(e_) >= 0), [x]))
        ex.assume(fa(e_, z3.Implies(r, self.W(e_) >= 0), [self.W(e_)]))

    def w(self, e):
        return self.W(e)

    def far(self, l):
        """beyond the maximum"""
        return z3.And(self.factor >= 0, l > self.limit)

    def path_inv(self, cur=None, below=None):
        D, P, K, found, via = (self.val(self.dist), self.val(self.pred), self.val(self.colors), self.val(self.ghost, 'found'), self.val(self.ghost, 'via'))
        dD, dP, dK, dF, dV = (self.dom(self.dist), self.dom(self.pred), self.dom(self.colors), self.dom(self.ghost, 'found'), self.dom(self.ghost, 'via'))
        fin = self.dom(self.ghost, 'finished')
        H = self.dom(self.queue, 'items')
        b = self.rd(self.queue, 'least', 'first')
        clock = self.rd(self.ghost, 'clock')
        h = self.h
        y = z3.Const('y', self.rd(self.queue, 'items').dom.sort().domain())
        yr = self.ex.reflect(y, self.pt, facts=False).d
        p, x = yr['first'], yr['second']
        s, t = self.st(e_)
        rng = z3.And(e_ >= 0, e_ < self.E.len)
        black = lambda v: z3.And(dD(v), K(v) == BLACK)
        E = [z3.Select(self.E.arr, e_)]
        a = via(v_)
        done = lambda d: z3.Or(self.far(d + self.w(e_)), z3.And(dD(t), D(t) <= d + self.w(e_)))
        out = [('same vertices', fa(v_, z3.And(dP(v_) == dD(v_), dF(v_) == dD(v_), dV(v_) == dD(v_), z3.Implies(dD(v_), dK(v_))), [dD(v_)])),
               ('same vertices P', fa(v_, dP(v_) == dD(v_), [dP(v_)])),
               ('disabled vertices', fa(v_, z3.Implies(z3.And(dK(v_), z3.Not(dD(v_))), z3.And(K(v_) == BLACK, self.factor >= 0)), [dK(v_)])),
               ('reached are reachable', fa(v_, z3.Implies(dD(v_), z3.And(v_ >= 0, v_ < self.V.len, self.R(v_), D(v_) >= 0)), [dD(v_)])),
               ('reached are within the maximum', fa(v_, z3.Implies(z3.And(dD(v_), v_ != self.start), z3.Not(self.far(D(v_)))), [dD(v_)])),
               ('distances are lengths of paths', fa(v_, z3.Implies(dD(v_), self.Q(v_, D(v_))), [dD(v_)])),
               ('colors', fa(v_, z3.Implies(dD(v_), z3.Or(K(v_) == GRAY, K(v_) == BLACK)), [dD(v_)])),
               ('finished', fa(v_, fin(v_) == black(v_), [fin(v_)])),
               ('finished 2', fa(v_, fin(v_) == black(v_), [dD(v_)])),
               ('entries', fa(y, z3.Implies(H(y), z3.And(dD(x), p >= D(x) + h(x), p >= b)), [H(y)])),
               ('finished are below the last', fa(v_, z3.Implies(black(v_), D(v_) + h(v_) <= b), [dD(v_)])),
               ('edges of finished vertices are relaxed', fa(e_, z3.Implies(z3.And(rng, black(s)), done(D(s))), E)),
               ('the start', z3.And(dD(self.start), D(self.start) == 0, P(self.start) == self.start)),
               ('predecessors', fa(v_, z3.Implies(z3.And(dD(v_), v_ != self.start), z3.And(a >= 0, a < self.E.len, self.st(a)[0] == P(v_), self.st(a)[1] == v_, D(v_) == D(P(v_)) + self.w(a), dD(P(v_)))), [P(v_)])),
               ('predecessors are earlier', fa(v_, z3.Implies(z3.And(dD(v_), v_ != self.start), found(P(v_)) < found(v_)), [P(v_)])),
               ('time', fa(v_, z3.Implies(dD(v_), found(v_) < clock), [dD(v_)]))]
        if self.found is not None:
            F, G = self.dom(self.found), self.dom(self.goals)
            stop = self.stop()
            out += [('goals found are the finished goals', fa(v_, F(v_) == z3.And(G(v_), fin(v_)), [F(v_)])),
                    ('finished goals are found', fa(v_, F(v_) == z3.And(G(v_), fin(v_)), [fin(v_)])),
                    ('stopped with all goals', z3.Implies(stop, self.rd(self.found).n >= self.rd(self.goals).n))]
        else:
            stop = self.stop()
            out.append(('stopped with the goal', z3.Implies(stop, black(self.goal))))
        if cur is None:
            out += [('grey wait', fa(v_, z3.Implies(z3.And(dD(v_), K(v_) != BLACK), H(self.key(D(v_) + h(v_), v_))), [dD(v_)])),
                    ('predecessors are finished', fa(v_, z3.Implies(z3.And(dD(v_), v_ != self.start), black(P(v_))), [P(v_)]))]
        else:
            out += [('grey wait', fa(v_, z3.Implies(z3.And(dD(v_), K(v_) != BLACK, v_ != cur), H(self.key(D(v_) + h(v_), v_))), [dD(v_)])),
                    ('predecessors are finished', fa(v_, z3.Implies(z3.And(dD(v_), v_ != self.start), z3.Or(black(P(v_)), P(v_) == cur)), [P(v_)])),
                    ('this one', z3.And(dD(cur), D(cur) + h(cur) <= b, z3.Or(black(cur), D(cur) + h(cur) == b)))]
            if below is not None:
                out.append(('edges before this place are relaxed', fa(e_, z3.Implies(z3.And(rng, s == cur, self.pos(e_) < below), done(D(cur))), E)))
        return out

    def stop(self):
        """whether the visitor has stopped the search"""
        v = self.ex.read(self.visitor)
        return field(v, '_stop')


def heap(ex, s):
    items = s.queue.sub('items')

    def empty(ex, fn, o, args, nd):
        m = ex.read(items)
        b = ex.fresh(z3.BoolSort(), 'empty')
        y = z3.Const('y', m.dom.sort().domain())
        ex.assume(z3.Implies(b, fa(y, z3.Not(z3.Select(m.dom, y)), [z3.Select(m.dom, y)])))
        w = ex.fresh(m.dom.sort().domain(), 'some')
        ex.assume(z3.Implies(z3.Not(b), z3.Select(m.dom, w)))
        return b

    def top(ex, fn, o, args, nd):
        m = ex.read(items)
        x = ex.fresh(m.dom.sort().domain(), 'top')
        y = z3.Const('y', m.dom.sort().domain())
        some = z3.Const('z', m.dom.sort().domain())
        ex.oblige('top of a queue with entries', z3.Exists([some], z3.Select(m.dom, some)), nd, 'pre', assume=False)
        xr, yr = ex.reflect(x, s.pt, facts=False), ex.reflect(y, s.pt, facts=False)
        ex.assume(z3.Select(m.dom, x))
        ex.assume(fa(y, z3.Implies(z3.Select(m.dom, y), xr.d['first'] <= yr.d['first']), [z3.Select(m.dom, y)]))
        ex.write(s.queue.sub('least'), xr)
        return s.queue.sub('least')

    def pop(ex, fn, o, args, nd):
        m = ex.read(items)
        x = ex.reify(ex.read(s.queue.sub('least')), s.pt)
        ex.oblige('pop of an entry', z3.Select(m.dom, x), nd, 'pre', assume=False)
        ex.write(items, m.with_(dom=z3.Store(m.dom, x, z3.BoolVal(False)), n=ex.fresh(z3.IntSort(), 'n')))

    def push(ex, fn, o, args, nd):
        m = ex.read(items)
        x = ex.reify(ex.load(args[0]), s.pt)
        ex.oblige('entries are distinct', z3.Not(z3.Select(m.dom, x)), nd, 'pre', assume=False)
        ex.write(items, m.with_(dom=z3.Store(m.dom, x, z3.BoolVal(True)), n=ex.fresh(z3.IntSort(), 'n')))
    for nm, c in (('empty', empty), ('top', top), ('pop', pop), ('push', push)):
        ex.contracts.append((lambda f, nm=nm: f['q'] == 'Heap::' + nm, c))


def deep(r, name):
    for k, x in r.d.items():
        if k == name:
            return x
        if isinstance(x, Rec):
            f = deep(x, name)
            if f is not None:
                return f


def by_name(fn):
    return {p['n']: i for i, p in enumerate(fn['p'])}


def units():
    us = []
    filt = lambda n: not re.search(r'(this|visitor|found|ghost|queue|goals|distances|predecessors|colors|visited|dist|pred)[.#\w]*(\.size)?\b.*(<=|>=|<|>|const|unchanged)|if any|or unchanged', n)

    def within(name, short, star):
        def prove(ex, ir):
            fn = the([f for f in ir.fns if f['q'] == name], name)
            s = S(ex, ir, fn)
            ix = by_name(fn)
            for nm, p in (('goals', 'goals'), ('pred', 'p'), ('dist', 'd'), ('colors', 'co'), ('queue', 'q'), ('ghost', 'g'), ('found', 'goals_found')):
                if p in ix:
                    s.root(nm, ix[p])
            if star:
                s.found = s.goals = None
            s.pt = ir.deref(dict(ex.layout(ir.deref(fn['p'][ix['q']]['t']))[1])['least'])
            for m in (s.pred, s.dist, s.colors, s.queue.sub('items'), s.ghost.sub('found'), s.ghost.sub('via'), s.ghost.sub('finished')) + (() if star else (s.found,)):
                s.empty_map(m)
            ex.assume(s.rd(s.ghost, 'clock') >= 0)
            mx, s.factor = (ex.sym(ir.deref(fn['p'][ix[n]]['t']), n) for n in ('max', 'factor'))
            s.limit = s.factor * mx
            args = {'c': s.g, 'start': s.start, 'goals': getattr(s, 'goals', None), 'max': mx, 'factor': s.factor, 'p': s.pred, 'd': s.dist, 'co': s.colors, 'q': s.queue, 'g': s.ghost, 'goals_found': s.found}
            if star:
                goal = ex.sym(ir.find_type(r'^unsigned long$')[0], 'goal')
                ex.assume(And(goal >= 0, goal < s.V.len))
                hf = z3.Function('heuristic', z3.IntSort(), z3.RealSort())
                s.h, s.goal = hf, goal
                a, b = s.st(e_)
                ex.assume(fa(e_, z3.Implies(z3.And(e_ >= 0, e_ < s.E.len), hf(a) <= s.w(e_) + hf(b)), [z3.Select(s.E.arr, e_)]))
                args['goal'] = goal
                ex.assume(s.rd(s.queue, 'least', 'first') <= hf(s.start))

                def heur(ex, fn, o, args, nd):
                    ex.oblige('the heuristic is asked for the goal', ex.load(args[1]) == goal, nd, 'pre', assume=False)
                    return hf(ex.load(args[0]))
                ex.contracts.append((lambda f: f['q'].startswith('Heur::'), heur))
            else:
                s.h = lambda v: R(0)
                ex.assume(s.rd(s.queue, 'least', 'first') <= 0)
            heap(ex, s)

            def tick(ex, fn, o, args, nd):
                lv = s.ghost.sub('clock')
                ex.write(lv, ex.read(lv) + 1)

            def weight(ex, fn, o, args, nd):
                lv = args[0]
                if not (isinstance(lv, LV) and lv.root == s.g.root and lv.sels[:len(s.g.sels)] == s.g.sels and 'edges' in lv.sels):
                    raise Undecided('weight of something that is no edge of the graph')
                i = [x for x in lv.sels if isinstance(x, tuple) and x[0] == 'i'][0][1]
                return s.W(i)
            ex.contracts.append((lambda f: f['q'] == 'tick', tick))
            ex.contracts.append((lambda f: f['q'].startswith('Wt::operator()'), weight))

            def seen(ex, fn, o, args, nd):
                s.visitor = args[[i for i, p in enumerate(fn['p']) if p['n'] == 'visitor'][0]]
            ex.on_call = [(lambda f: f['q'].startswith(NS + '::') and f['q'].endswith('_shortest_path'), seen)]
            mark(ex, short)
            for k, r in outcomes(ex, call(ex, fn, None, [args[p['n']] for p in fn['p']])):
                ex.oblige('does not throw', z3.BoolVal(k != 'throw'), None, 'post', assume=False)
                if k == 'throw':
                    continue
                s.stop = lambda: r
                for n, f in s.path_inv():
                    ex.oblige('also when stopped: ' + n, f, None, 'post', assume=False)
                H = s.rd(s.queue, 'items')
                y = z3.Const('y', H.dom.sort().domain())
                K, D, dD = s.val(s.colors), s.val(s.dist), s.dom(s.dist)
                ex.oblige('ends stopped or with nothing waiting', Or(r, z3.ForAll([y], z3.Not(z3.Select(H.dom, y)))), None, 'post', assume=False)
                done = Not(r)
                ex.oblige('not stopped: every reached vertex is final', Implies(done, fa(v_, z3.Implies(dD(v_), K(v_) == BLACK), [dD(v_)])), None, 'post', assume=False)
                x, y = s.st(e_)
                rng = z3.And(e_ >= 0, e_ < s.E.len)
                b = s.rd(s.queue, 'least', 'first')
                L = z3.Real('L')
                black = lambda v: z3.And(dD(v), K(v) == BLACK)
                C = lambda v, l: z3.Or(z3.And(black(v), D(v) <= l), b <= l + s.h(v), s.far(l))
                N = lambda v, l: z3.Or(z3.And(black(v), D(v) <= l), s.far(l))
                ex.oblige('a shortest path: the start', Implies(black(s.start), C(s.start, R(0))), None, 'post', assume=False)
                ex.oblige('a shortest path: one edge more', fa([e_, L], z3.Implies(z3.And(rng, C(x, L)), C(y, L + s.w(e_))), [z3.MultiPattern(z3.Select(s.E.arr, e_), s.Q(x, L))]), None, 'post', assume=False)
                ex.oblige('a shortest path: a final vertex', fa([v_, L], z3.Implies(z3.And(black(v_), C(v_, L)), z3.Or(D(v_) <= L, s.far(L))), [s.Q(v_, L)]), None, 'post', assume=False)
                ex.oblige('not stopped, a path within the maximum: the start', Implies(done, Or(N(s.start, R(0)))), None, 'post', assume=False)
                ex.oblige('not stopped, a path within the maximum: one edge more', Implies(done, fa([e_, L], z3.Implies(z3.And(rng, L >= 0, N(x, L)), N(y, L + s.w(e_))), [z3.MultiPattern(z3.Select(s.E.arr, e_), s.Q(x, L))])), None, 'post', assume=False)

        def cfg(ex):
            ex.cvc5 = True
            ex.templates = [G03.templates(S.path_inv)]
            ex.cand_filter = filt
        us.append(PU(short, prove, driver='s', fns=['graph::%s' % ('a_star_shortest_path' if star else 'dijkstra_shortest_path'), 'network::%s::examine_edge, finish_vertex' % ('goal_visitor' if star else 'goals_visitor')], configure=cfg, float_mode='real'))
    within('dijkstra_within', 'Dijkstra within a maximum', False)
    within('a_star_within', 'A* within a maximum', True)

    # ------------------------------------------------------------ paths from predecessors
    def follow(name, short, star):
        meth = NET + '::' + ('a_star_shortest_paths' if star else 'dijkstra_shortest_paths')

        def prove(ex, ir):
            fn = the([f for f in ir.fns if f['q'] == meth and f.get('body')], meth)
            ix = by_name(fn)
            T = lambda n: ir.deref(fn['p'][ix[n]]['t'])
            s = ex.spec = type('Paths', (), {})()
            net = sym_root(ex, fn['rec'], 'net')
            names = ['predecessors', 'distances', 'colors'] + ([] if star else ['goals'])
            m = {n: sym_root(ex, T(n), n) for n in names}
            for n in names[:3]:
                x = ex.read(m[n])
                ex.write(m[n], x.with_(dom=z3.K(x.dom.sort().domain(), z3.BoolVal(False)), n=I(0)))
            queue = ex.temp(Unit(T('queue')), 'queue')
            waiting = ex.temp(I(0), 'waiting')
            start = ex.sym(T('start'), 'start')
            mx, factor = ex.sym(T('max_distance'), 'max_distance'), ex.sym(T('max_distance_factor'), 'max_distance_factor')
            goal = ex.sym(T('goal'), 'goal') if star else None
            vals = dict(m, start=start, max_distance=mx, max_distance_factor=factor, queue=queue, goal=goal)
            s.start, s.net, s.m, s.P = start, net, m, None
            dom = lambda n: ex.read(m[n]).dom
            dP = lambda v: z3.Select(s.P.dom, v)
            P = lambda v: z3.Select(s.P.val, v)
            s.dP, s.Pf = dP, P
            found = z3.Function('time_found', z3.IntSort(), z3.IntSort())
            s.F = None
            mark(ex, short)
            s.calls = 0

            def search(ex, f, o, args, nd):
                b = dict(zip((p['n'] for p in f['p']), args))
                ob = lambda what, c: ex.oblige('the search is given ' + what, z3.BoolVal(c) if isinstance(c, bool) else c, nd, 'pre', assume=False)
                s.calls += 1
                g = b['graph']
                ob('the graph of the network', isinstance(g, LV) and g.root == net.root)
                ob('the start', ex.load(b['start']) == start)
                same = lambda a, c: isinstance(a, LV) and a.root == c.root and a.sels == c.sels
                for n in names[:3]:
                    ob('the ' + n, same(b[n], m[n]))
                    x = z3.Int('x')
                    ob('no ' + n, fa(x, z3.Not(z3.Select(dom(n), x)), [z3.Select(dom(n), x)]))
                ob('the queue', same(b['queue'], queue))
                ob('an empty queue', ex.read(waiting) == 0)
                vis = ex.read(b['visitor'])
                ref = lambda n: (lambda x: x.lv if isinstance(x, Ptr) else x)(field(vis, n))
                ob('the maximum', ex.load(ref('_max_distance')) == mx)
                ob('the factor', ex.load(ref('_max_distance_factor')) == factor)
                ob('a visitor of the distances', same(ref('_distances'), m['distances']))
                ob('a visitor of the colors', same(ref('_colors'), m['colors']))
                if star:
                    ob('the goal', ex.load(b['goal']) == goal)
                    ob('a visitor of the goal', ex.load(ref('_goal')) == goal)
                else:
                    ob('a visitor of the goals', same(ref('_goals'), m['goals']))
                    fl = ref('_goals_found')
                    x = z3.Int('x')
                    fd = ex.read(fl)
                    ob('no goals found', fa(x, z3.Not(z3.Select(fd.dom, x)), [z3.Select(fd.dom, x)]))
                # weights and estimates are what the functions given compute
                weigh(ex, b['weight_func'], nd)
                weigh(ex, ref('_weight_func'), nd)
                if star:
                    estimate(ex, b['heuristic_func'], nd)
                # what the search ensures (proved above)
                for n in names[:3]:
                    ex.write(m[n], ex.sym(T(n), n + '_after'))
                ex.write(waiting, ex.fresh(z3.IntSort(), 'waiting'))
                ex.assume(ex.read(waiting) >= 0)
                s.P = ex.read(m['predecessors'])
                x = z3.Int('x')
                ex.assume(And(dP(start), P(start) == start))
                ex.assume(fa(x, z3.Implies(z3.And(dP(x), x != start), z3.And(dP(P(x)), found(P(x)) < found(x))), [P(x)]))
                if star:
                    s.F = None
                else:
                    fd = ex.read(fl)
                    ex.write(fl, ex.sym(fd.tid, 'goals_found'))
                    s.F = ex.read(fl)
                    ex.assume(fa(x, z3.Implies(z3.Select(s.F.dom, x), z3.And(z3.Select(ex.read(m['goals']).dom, x), dP(x))), [z3.Select(s.F.dom, x)]))
            edata = next(t for t in range(len(ir.types)) if ir.T(t).get('n', '').endswith('network::edge') and ir.T(t)['k'] == 'rec')
            LN = z3.Function('length_of_edge', z3.IntSort(), z3.RealSort())
            HL = z3.Function('has_length_of_edge', z3.IntSort(), z3.BoolSort())
            some = z3.Int('some_edge')

            def weigh(ex, f, nd):
                lv = net_edge(ex)
                w = ex.apply(ex.load(f), [lv], nd)
                ex.oblige('the weight of an edge is its length, or zero when it has none', ex.load(w) == z3.If(HL(some), LN(some), R(0)), nd, 'pre', assume=False)

            def net_edge(ex):
                if not hasattr(s, 'edge'):
                    s.edge = sym_root(ex, edata, 'edge')
                return s.edge

            def estimate(ex, f, nd):
                a, b = ex.sym(T('start'), 'a'), ex.sym(T('start'), 'b')
                n = deep(ex.read(net), 'vertices').len
                ex.assume(And(a >= 0, a < n, b >= 0, b < n))
                A, B = ex.temp(a, 'a'), ex.temp(b, 'b')
                V = z3.Function('estimate', z3.IntSort(), z3.IntSort(), z3.RealSort())
                r = ex.load(ex.apply(ex.load(f), [A, B], nd))
                ex.oblige('the estimate is the distance of the vertices', r == V(a, b), nd, 'pre', assume=False)

            def at_vertex(lv):
                return next((x[1] for x in lv.sels if isinstance(x, tuple) and x[0] == 'i'), None) if isinstance(lv, LV) else None

            def distance(ex, f, o, args, nd):
                i, j = at_vertex(args[0]), at_vertex(args[1])
                if i is None or j is None:
                    raise Undecided('distance of something that is no vertex')
                return z3.Function('estimate', z3.IntSort(), z3.IntSort(), z3.RealSort())(i, j)
            ex.contracts.append((lambda f: f['q'].endswith('::euclidean_distance'), distance))
            ex.contracts.append((lambda f: f['q'].endswith('::has_length'), lambda ex, f, o, a, nd: HL(some)))
            ex.contracts.append((lambda f: re.search(r'rich_line.*::length$', f['q']), lambda ex, f, o, a, nd: LN(some)))
            ex.contracts.append((lambda f: f['q'] in (NS + '::dijkstra_shortest_path', NS + '::a_star_shortest_path'), search))

            def q_empty(ex, f, o, args, nd):
                return ex.read(waiting) == 0

            def q_pop(ex, f, o, args, nd):
                ex.oblige('pop of a queue with entries', ex.read(waiting) > 0, nd, 'safety')
                ex.write(waiting, ex.read(waiting) - 1)
            for n, c in (('empty', q_empty), ('pop', q_pop), ('size', lambda ex, f, o, a, nd: ex.read(waiting))):
                ex.contracts.append((lambda f, n=n: 'heap' in f['q'] and f['q'].endswith('::' + n), c))

            def q_clear(ex, f, o, args, nd):
                ex.write(waiting, I(0))
            ex.contracts.append((lambda f: 'heap' in f['q'] and f['q'].endswith('::clear'), q_clear))
            s.goal = goal
            for k, r in outcomes(ex, call(ex, fn, net, [vals[p['n']] for p in fn['p']])):
                ex.oblige('does not throw', z3.BoolVal(k != 'throw'), None, 'post', assume=False)
                if k == 'throw':
                    continue
                ex.oblige('the search runs', z3.BoolVal(s.P is not None), None, 'post', assume=False)
                x = z3.Int('x')
                for n in names[:3]:
                    d = dom(n)
                    ex.oblige('%s are left empty' % n, fa(x, z3.Not(z3.Select(d, x)), [z3.Select(d, x)]), None, 'post', assume=False)
                ex.oblige('the queue is left empty', ex.read(waiting) == 0, None, 'post', assume=False)
                r = ex.load(r)
                if star:
                    ex.oblige('a path exactly when the goal was reached', (r.len > 0) == dP(goal), None, 'post', assume=False)
                    for n, f in s_path(s, ex, r, goal):
                        ex.oblige('the path ' + n, Implies(r.len > 0, f), None, 'post', assume=False)
                    continue
                import stdmodel
                en = stdmodel.enumeration(ex, s.F)
                ex.oblige('as many paths as goals found', r.len == s.F.n, None, 'post', assume=False)
                for n, f in s_paths(s, ex, r, en, r.len):
                    ex.oblige(n, f, None, 'post', assume=False)

        def cfg(ex):
            ex.cvc5 = True
            ex.templates = [follow_templates]
            ex.cand_filter = filt
        us.append(PU(short, prove, driver='s', fns=['network::' + name], configure=cfg, float_mode='real'))
    follow('dijkstra_shortest_paths', 'paths to the goals', False)
    follow('a_star_shortest_paths', 'path to the goal', True)

    # ------------------------------------------------------------ the route of a path
    def extract(ex, ir):
        fn = the([f for f in ir.fns if f['q'] == NET + '::extract_route' and f.get('body')], 'extract_route')
        s = ex.spec = type('Extract', (), {})()
        s.P = None
        net = sym_root(ex, fn['rec'], 'net')
        path = sym_root(ex, ir.deref(fn['p'][0]['t']), 'path')
        V, E = deep(ex.read(net), 'vertices'), deep(ex.read(net), 'edges')
        p = s.path = ex.read(path)
        lo = s.lo = lambda v: field(ex.reflect(z3.Select(V.arr, v), V.el, facts=False), 'start')
        hi = s.hi = lambda v: z3.If(v + 1 < V.len, lo(v + 1), E.len)
        ends = lambda e: (lambda r: (field(r, 'source'), field(r, 'target')))(ex.reflect(z3.Select(E.arr, e), E.el, facts=False))
        LN, HL, EM = z3.Function('length', z3.IntSort(), z3.RealSort()), z3.Function('has_length', z3.IntSort(), z3.BoolSort()), z3.Function('empty', z3.IntSort(), z3.BoolSort())
        s.w = w = lambda e: z3.If(HL(e), LN(e), R(0))
        inf = z3.Const('real_inf', z3.RealSort())
        i, k = z3.Ints('i k')
        x = z3.Select(E.arr, e_)
        rng = z3.And(e_ >= 0, e_ < E.len)
        ex.assume(And(V.len <= MAXLEN, E.len <= MAXLEN, p.len <= MAXLEN, inf > 0))
        ex.assume(fa(e_, z3.Implies(rng, z3.And(ends(e_)[0] >= 0, ends(e_)[0] < V.len, ends(e_)[1] >= 0, ends(e_)[1] < V.len, lo(ends(e_)[0]) <= e_, e_ < hi(ends(e_)[0]), w(e_) < inf, w(e_) >= 0)), [x]))
        ex.assume(fa(v_, z3.Implies(z3.And(v_ >= 0, v_ < V.len), z3.And(lo(v_) >= 0, lo(v_) <= hi(v_), hi(v_) <= E.len)), [z3.Select(V.arr, v_)]))
        ex.assume(fa([v_, e_], z3.Implies(z3.And(rng, v_ >= 0, v_ < V.len, lo(v_) <= e_, e_ < hi(v_)), ends(e_)[0] == v_), [z3.MultiPattern(z3.Select(V.arr, v_), x)]))
        at = lambda i: z3.Select(p.arr, i)
        s.joins = joins = lambda e, i: z3.And(e >= 0, e < E.len, ends(e)[0] == at(i), ends(e)[1] == at(i + 1), z3.Not(EM(e)))
        s.E, s.ends, s.EM, s.inf, s.at = E, ends, EM, inf, at
        # the path is one of the graph: consecutive vertices are joined by an edge with a line
        wit = z3.Function('joining', z3.IntSort(), z3.IntSort())
        ex.assume(fa(i, z3.Implies(z3.And(i >= 0, i < p.len), z3.And(at(i) >= 0, at(i) < V.len)), [at(i)]))
        ex.assume(fa(i, z3.Implies(z3.And(i >= 0, i < p.len - 1), z3.And(joins(wit(i), i), z3.Select(E.arr, wit(i)) == z3.Select(E.arr, wit(i)))), [at(i)]))
        s.wit = wit
        kind = ex.temp(I(0), 'kind')       # 1: invalid, 2: empty, 3: of edges
        result = ex.temp(Vec(p.tid, p.el, I(0), ex.empty_arr(p.el)), 'result')

        def index(lv):
            r = [x[1] for x in lv.sels if isinstance(x, tuple) and x[0] == 'i'] if isinstance(lv, LV) and 'edges' in lv.sels else []
            if not r:
                raise Undecided('length of something that is no edge')
            return r[0]
        # keep the terms of an edge looked at
        for nm, F in (('length', LN), ('has_length', HL), ('empty', EM)):
            ex.contracts.append((lambda f, nm=nm: re.search(r'rich_line(_data)?::%s$' % nm, f['q']), lambda ex, f, o, a, nd, F=F: F(index(o))))
        vec = lambda t: ir.T(t).get('n') == 'std::vector' and 'reference_wrapper' in ir.tname(t)

        def vctor(ex, f, o, args, nd):
            if args:
                return ex.load(args[0])
            return Vec(f['rec'], p.el, I(0), ex.empty_arr(p.el))
        ex.contracts.append((lambda f: f['kind'] == 'ctor' and vec(f['rec']), vctor))
        ex.contracts.append((lambda f: f['q'] in ('std::cref', 'std::ref'), lambda ex, f, o, a, nd: index(a[0])))

        def route(ex, f, o, args, nd):
            a = ex.load(args[0]) if args else None
            if isinstance(a, Vec):
                ex.write(kind, I(3))
                ex.write(result, a)
            elif a is not None and z3.is_bool(a):
                ex.write(kind, Ite(a, I(1), I(2)))
            else:
                raise Undecided('route from %r' % a)
            return Unit(f['rec'])
        ex.contracts.append((lambda f: f['kind'] == 'ctor' and ir.T(f['rec']).get('n', '').endswith('::lazy_route'), route))
        mark(ex, 'extract_route')
        for k, r in outcomes(ex, call(ex, fn, net, [path])):
            ex.oblige('does not throw', z3.BoolVal(k != 'throw'), None, 'post', assume=False)
            if k == 'throw':
                continue
            kd, rs = ex.read(kind), ex.read(result)
            ex.oblige('no path is an invalid route', Implies(p.len == 0, kd == 1), None, 'post', assume=False)
            ex.oblige('staying is an empty route', Implies(p.len == 1, kd == 2), None, 'post', assume=False)
            ex.oblige('a path is a route of one edge for each step', Implies(p.len > 1, And(kd == 3, rs.len == p.len - 1)), None, 'post', assume=False)
            ex.oblige('every edge of the route joins its step and is the shortest that does', Implies(p.len > 1, chosen(s, rs)), None, 'post', assume=False)

    def cfg(ex):
        ex.cvc5 = True
        ex.templates = [extract_templates]
        ex.cand_filter = filt
    us.append(PU('the route of a path', extract, driver='s', fns=['network::extract_route'], configure=cfg, float_mode='real'))
    return us


def chosen(s, rs, n=None):
    i, e = z3.Ints('i e')
    x = z3.Select(rs.arr, i)
    a, b = s.ends(e)
    return z3.And(fa(i, z3.Implies(z3.And(i >= 0, i < rs.len), s.joins(x, i)), [x]),
                  fa([i, e], z3.Implies(z3.And(i >= 0, i < rs.len, s.joins(e, i)), s.w(x) <= s.w(e)), [z3.MultiPattern(x, z3.Select(s.E.arr, e))]))


def extract_templates(ctx):
    ex = ctx.ex
    s = ex.spec
    its = lambda mod: [l for l in ctx.leaves if isinstance(l.pre, It) and bool(l.mod) == mod]
    vecs = [l for l in ctx.leaves if isinstance(l.pre, Vec) and l.mod and l.pre.arr.sort().range() == z3.IntSort()]
    ptrs = [l for l in ctx.leaves if isinstance(l.pre, Ptr) and l.mod]
    reals = [l for l in ctx.leaves if z3.is_expr(l.pre) and l.pre.sort() == z3.RealSort() and l.mod]
    for it in its(True):
        yield '%s in the path' % it.name, lambda it=it: z3.And(it.cur().idx >= 0, it.cur().idx <= s.path.len), False
        for v in vecs:
            yield '%s has one for each step to %s' % (v.name, it.name), lambda it=it, v=v: v.cur().len == z3.If(it.cur().idx < s.path.len, it.cur().idx, s.path.len - 1), True
    for v in vecs:
        yield '%s are the shortest' % v.name, lambda v=v: chosen(s, v.cur()), True
    e = z3.Int('e')
    for it in its(False):
        i = it.pre.idx
        for n, cur, pre, m in ctx.ints(True):
            if '.' in n:
                continue
            u = s.at(i)
            yield '%s among the edges of %s' % (n, it.name), lambda cur=cur, u=u: z3.And(cur() >= s.lo(u), cur() <= s.hi(u)), False
            for r in reals:
                yield '%s is below all before %s [%s]' % (r.name, n, it.name), lambda cur=cur, r=r, i=i: fa(e, z3.Implies(z3.And(e < cur(), s.joins(e, i)), r.cur() <= s.w(e)), [z3.Select(s.E.arr, e)]), True
        for p in ptrs:
            def idx(p):
                q = p.cur()
                j = [x[1] for x in q.lv.sels if isinstance(x, tuple)] if q.lv is not None else []
                return q.isnull, (j[0] if j else None)
            for r in reals:
                def f(p=p, r=r, i=i):
                    nul, j = idx(p)
                    return z3.And(z3.Implies(nul, r.cur() == s.inf), z3.BoolVal(True) if j is None else z3.Implies(z3.Not(nul), z3.And(s.joins(j, i), r.cur() == s.w(j), r.cur() < s.inf)))
                yield '%s is the length of %s [%s]' % (r.name, p.name, it.name), f, True


def s_path(s, ex, p, goal, upto=None):
    """p leads from the start (or to the vertex upto, not yet in it) to the goal along predecessors."""
    j = z3.Int('j')
    x = z3.Select(p.arr, j)
    out = []
    if upto is None:
        out += [('starts at the start', z3.And(p.len > 0, z3.Select(p.arr, 0) == s.start)),
                ('ends at the goal', z3.And(p.len > 0, z3.Select(p.arr, p.len - 1) == goal))]
    else:
        out += [('goes on at its predecessor', z3.Or(z3.And(p.len == 0, upto == goal), z3.And(p.len > 0, z3.Select(p.arr, p.len - 1) == goal, s.Pf(z3.Select(p.arr, 0)) == upto, z3.Select(p.arr, 0) != s.start))),
                ('reached', s.dP(upto)), ('length', p.len >= 0)]
    out += [('holds reached vertices', fa(j, z3.Implies(z3.And(j >= 0, j < p.len), s.dP(x)), [x])),
            ('follows the predecessors', fa(j, z3.Implies(z3.And(j > 0, j < p.len), z3.And(s.Pf(x) == z3.Select(p.arr, j - 1), x != s.start)), [x]))]
    return out


def s_paths(s, ex, ps, en, n):
    i, j = z3.Ints('i j')
    p = ex.reflect(z3.Select(ps.arr, i), ps.el, facts=False)
    g = z3.Select(en.arr, i)
    x = z3.Select(p.arr, j)
    r = z3.And(i >= 0, i < n)
    return [('every path leads from the start to one of the goals found, each its own', fa(i, z3.Implies(r, z3.And(p.len > 0, z3.Select(p.arr, 0) == s.start, z3.Select(p.arr, p.len - 1) == g)), [z3.Select(ps.arr, i)])),
            ('every path follows the predecessors', fa([i, j], z3.Implies(z3.And(r, j > 0, j < p.len), z3.And(s.Pf(x) == z3.Select(p.arr, j - 1), x != s.start)), [x])),
            ('paths hold reached vertices', fa([i, j], z3.Implies(z3.And(r, j >= 0, j < p.len), s.dP(x)), [x]))]


def follow_templates(ctx):
    ex = ctx.ex
    s = getattr(ex, 'spec', None)
    if s is None or s.P is None:
        return
    v = z3.Int('v')

    def same():
        m = ex.read(s.m['predecessors'])
        return fa(v, z3.And(z3.Select(m.dom, v) == s.dP(v), z3.Implies(s.dP(v), z3.Select(m.val, v) == s.Pf(v))), [z3.Select(m.dom, v)])

    def same2():
        m = ex.read(s.m['predecessors'])
        return fa(v, z3.And(z3.Select(m.dom, v) == s.dP(v), z3.Implies(s.dP(v), z3.Select(m.val, v) == s.Pf(v))), [z3.Select(m.val, v)])
    yield 'predecessors stay', same, True
    yield 'predecessors stay 2', same2, True
    vecs = [l for l in ctx.leaves if isinstance(ex.read(l.lv), Vec) and l.mod]
    for l in vecs:
        pass
    ints = [(a[0], a[1]) for a in ctx.ints(True) if '.' not in a[0]]
    cints = [(a[0], a[2]) for a in ctx.ints(False) if '.' not in a[0]]
    goals = [('goal', s.goal)] if s.goal is not None else []
    order = [l for l in ctx.leaves if l.name.startswith('order') and isinstance(ex.read(l.lv), Vec)]
    if s.F is not None:
        goals += [(n, c) for n, c in cints if n.startswith('order')]
    for l in vecs:
        x = ex.read(l.lv)
        if x.arr.sort().range() == z3.IntSort():
            for n, cur in ints:
                for g in goals:
                    gv = lambda g=g: g[1]
                    for i, nm in enumerate([a for a, _ in s_path(s, ex, x, I(0), I(0))]):
                        yield '%s %s [%s, %s]' % (l.name, nm, n, g[0]), lambda l=l, cur=cur, gv=gv, i=i: s_path(s, ex, ex.read(l.lv), gv(), cur())[i][1], True
        else:
            for n, cur in ints:
                if n.startswith('place'):
                    yield '%s has as many as %s' % (l.name, n), lambda l=l, cur=cur: ex.read(l.lv).len == cur(), False
                    for i in range(3):
                        yield '%s paths %d [%s]' % (l.name, i, n), lambda l=l, cur=cur, i=i: s_paths(s, ex, ex.read(l.lv), type('E', (), {'arr': order_arr(ex, s)}), cur())[i][1], True


def order_arr(ex, s):
    f = z3.Function('keys_of_%d' % s.F.kt, s.F.dom.sort(), z3.ArraySort(z3.IntSort(), s.F.dom.sort().domain()))
    return f(s.F.dom)


HARNESS = dict(src='N01.cpp', repo_src=['src/library/src/geometry/cache.cpp'], time=15, cases=200000, rule='random road networks of at most 8 nodes and 20 edges (parallel, bent, coinciding nodes, grids with ties) searched with the real queue and maps: paths and their routes against relaxation of all edges until nothing changes, within the maximum exactly, what is left in the maps; non-trivial: at least two goals found; distinct network and questions')
ASSUMPTIONS = ['the graph is well formed as G01 and G02 establish', 'lengths of edges are not negative, the distance of two vertices is never above the length of an edge plus the distance from its end (lines are at least as long as the beeline); sums of lengths are taken as mathematical reals, rounding is left out', 'boost::heap::d_ary_heap behaves as a set with some smallest element on top', 'a finite set of goals found among the goals that has as many elements has all of them', 'the search an outer function calls behaves as proved for it (its contract), iteration over a set meets every element once', 'extract_route: consecutive vertices of the path are joined by an edge with a line, as the searches return them']
BOUNDED = ['the real queue, double lengths and the real lines: harness']
