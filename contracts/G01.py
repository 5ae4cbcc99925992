"""G01: adding vertices and edges, looking at them, copying graphs."""
from lib import *
from verify import Unit
import re

NS = 'map_matching_2::graph::adjacency_list'
DRIVERS = {'g': ('G01_driver.cpp', [NS + '::.*'], [])}
t_, e_, v_, k_ = z3.Ints('t e v k')


def field(r, name):
    """Member of a record or of one of its bases."""
    if name in r.d:
        return r.d[name]
    for k, x in r.d.items():
        if isinstance(k, int) and isinstance(x, Rec):
            f = field(x, name)
            if f is not None:
                return f
    return None


class S:
    """A graph as its edge list; the edge lists of a vertex are the edges of the edge list that touch it, in order."""

    def __init__(self, ex, ir, kind, rec):
        self.ex, self.ir, self.kind, self.rec = ex, ir, kind, rec
        self.n = 0
        ex.spec = self
        lay = dict(ex.layout(rec)[1])
        self.vt, self.et = lay['vertices'], lay['edges']
        self.vel, self.eel = ex.layout(self.vt)[1], ex.layout(self.et)[1]
        A = z3.ArraySort(z3.IntSort(), ex.sort_of(self.eel))
        self.rk = {l: z3.Function('rank_' + l, A, z3.IntSort(), z3.IntSort(), z3.IntSort()) for l in ('out', 'in')}

    def lists(self):
        return ['out', 'in'] if self.kind == 'bidirectional' else ['out']

    def edge(self, E, e):
        r = self.ex.reflect(z3.Select(E.arr, e), self.eel, facts=False)
        return field(r, 'source'), field(r, 'target'), field(r, 'data')

    def vert(self, V, v):
        return self.ex.reflect(z3.Select(V.arr, v), self.vel, facts=False)

    def lst(self, V, v, l):
        return field(self.vert(V, v), l + '_edges')

    def cond(self, E, e, v, l):
        s, t, _ = self.edge(E, e)
        if l == 'in':
            return t == v
        return z3.Or(s == v, t == v) if self.kind == 'undirected' else s == v

    def rank(self, E, v, e, l):
        return self.rk[l](E.arr, v, e)

    def unfold(self, E, e):
        """rank counts the edges before e that are listed at v"""
        for l in self.lists():
            r = lambda x: self.rk[l](E.arr, v_, x)
            self.ex.assume(fa(v_, z3.Implies(e >= 0, r(e + 1) == r(e) + z3.If(self.cond(E, e, v_, l), 1, 0)), [r(e + 1)]))
            self.ex.assume(fa(v_, r(I(0)) == 0, [r(I(0))]))

    def facts(self, E, m):
        """Lemmas on rank (proved by induction in units of their own): bounds, strictly growing at listed edges."""
        for l in self.lists():
            r = lambda v, x: self.rk[l](E.arr, v, x)
            self.ex.assume(fa([v_, e_], z3.Implies(e_ >= 0, z3.And(r(v_, e_) >= 0, r(v_, e_) <= e_)), [r(v_, e_)]))
            self.ex.assume(fa([v_, e_], z3.Implies(z3.And(e_ >= 0, e_ < m, self.cond(E, e_, v_, l)), r(v_, e_) < r(v_, m)), [r(v_, e_)]))

    def ext(self, E, F, m):
        """Lemma: rank depends only on the edges it counts (E and F agree before m)."""
        for l in self.lists():
            self.ex.oblige('edge lists agree before the new edge', fa(e_, z3.Implies(z3.And(e_ >= 0, e_ < m), z3.Select(E.arr, e_) == z3.Select(F.arr, e_)), [z3.Select(F.arr, e_)]), None, 'lemma')
            self.ex.assume(fa([v_, e_], z3.Implies(z3.And(e_ >= 0, e_ <= m), self.rk[l](F.arr, v_, e_) == self.rk[l](E.arr, v_, e_)), [self.rk[l](F.arr, v_, e_)]))

    def wf(self, V, E, m=None, O=None, n=None):
        """[(name, formula)]: the first m edges of O are exactly listed"""
        O = E if O is None else O
        m = E.len if m is None else m
        n = V.len if n is None else n
        out = [('ends exist', fa(e_, z3.Implies(z3.And(e_ >= 0, e_ < m), z3.And(*[z3.And(x >= 0, x < n) for x in self.edge(O, e_)[:2]])), [z3.Select(O.arr, e_)]))]
        for l in self.lists():
            L = lambda v: self.lst(V, v, l)
            out.append((l + ' lists: length', fa(v_, z3.Implies(z3.And(v_ >= 0, v_ < V.len), L(v_).len == self.rank(O, v_, m, l)), [z3.Select(V.arr, v_)])))
            ends = self.edge(O, e_)
            at = [ends[1]] if l == 'in' else [ends[0], ends[1]] if self.kind == 'undirected' else [ends[0]]
            out.append((l + ' lists: every edge is listed', fa(e_, z3.Implies(z3.And(e_ >= 0, e_ < m), z3.And(*[z3.Select(L(x).arr, self.rank(O, x, e_, l)) == e_ for x in at])), [z3.Select(O.arr, e_)])))
            x = z3.Select(L(v_).arr, k_)
            out.append((l + ' lists: what is listed', fa([v_, k_], z3.Implies(z3.And(v_ >= 0, v_ < V.len, k_ >= 0, k_ < L(v_).len), z3.And(x >= 0, x < m, self.cond(O, x, v_, l), self.rank(O, v_, x, l) == k_)), [x])))
        return out

    def graph(self, name, wf=True):
        ex = self.ex
        lv = sym_root(ex, self.rec, name)
        g = ex.read(lv)
        V, E = g.d['vertices'], g.d['edges']
        if wf:
            for n, f in self.wf(V, E):
                ex.assume(f)
            self.facts(E, E.len)
        return lv, V, E

    def same(self, tag, g, V, E):
        ex = self.ex
        W, F = g.d['vertices'], g.d['edges']
        ex.oblige(tag + ': same numbers', And(W.len == V.len, F.len == E.len), None, 'post', assume=False)
        ex.oblige(tag + ': same edges', fa(e_, z3.Implies(z3.And(e_ >= 0, e_ < E.len), z3.Select(F.arr, e_) == z3.Select(E.arr, e_)), [z3.Select(F.arr, e_)]), None, 'post', assume=False)
        a, b = self.vert(W, v_), self.vert(V, v_)
        cs = [field(a, 'data') == field(b, 'data')]
        for l in self.lists():
            x, y = field(a, l + '_edges'), field(b, l + '_edges')
            cs += [x.len == y.len, z3.ForAll([k_], z3.Implies(z3.And(k_ >= 0, k_ < y.len), z3.Select(x.arr, k_) == z3.Select(y.arr, k_)))]
        ex.oblige(tag + ': same vertices', fa(v_, z3.Implies(z3.And(v_ >= 0, v_ < V.len), z3.And(*cs)), [z3.Select(W.arr, v_)]), None, 'post', assume=False)


def units():
    us = []

    def sel(ir, kind, name, np, const=None, ty=None):
        fs = [f for f in ir.fns if f['q'] == NS + '::' + name and f.get('body') and ('::' + kind + ',') in ir.tname(f['rec']) and len(f['p']) == np and (const is None or bool(f.get('const')) == const) and (ty is None or re.search(ty, ir.sig(f)))]
        if not fs:
            raise Undecided('no function %s of the %s graph' % (name, kind))
        return fs

    def unit(name, kind, fns, prove, fails=False, templates=None):
        def cfg(ex):
            ex.emplace_fails = fails
            ex.templates = [templates] if templates else []
        us.append(Unit('%s graph: %s' % (kind, name), prove, driver='g', fns=fns, configure=cfg))

    for kind in ('directional', 'undirected', 'bidirectional'):
        def add_vertex(ex, ir, kind=kind):
            for f in sel(ir, kind, 'add_vertex', 1):
                s = S(ex, ir, kind, f['rec'])
                g, V, E = s.graph('g')
                d = ex.sym(ir.find_type(r'^int$')[0], 'data')
                a = ex.temp(d, 'd', ir.find_type(r'^int$')[0])
                mark(ex, 'add_vertex')
                for k, v in outcomes(ex, call(ex, f, g, [a])):
                    h = ex.read(g)
                    if k == 'throw':
                        s.same('failed', h, V, E)
                        continue
                    W = h.d['vertices']
                    ex.oblige('the new vertex is the last one', And(ex.load(v) == V.len, W.len == V.len + 1), None, 'post', assume=False)
                    nv = s.vert(W, V.len)
                    ex.oblige('the new vertex has the data and no edges', And(field(nv, 'data') == d, *[field(nv, l + '_edges').len == 0 for l in s.lists()]), None, 'post', assume=False)
                    s.same('others', Rec(h.tid, dict(h.d, vertices=W.with_(len=V.len))), V, E)
                    # a vertex without edges: nothing counted
                    for l in s.lists():
                        ex.assume(Implies(fa(e_, z3.Implies(z3.And(e_ >= 0, e_ < E.len), Not(s.cond(E, e_, V.len, l))), [z3.Select(E.arr, e_)]), s.rank(E, V.len, E.len, l) == 0))
                    for n, fo in s.wf(W, h.d['edges']):
                        ex.oblige('invariant: ' + n, fo, None, 'post', assume=False)
        unit('add_vertex', kind, ['add_vertex', '_add_vertex', 'try_add'], add_vertex, fails=True)

        def add_edge(ex, ir, kind=kind):
            for f in sel(ir, kind, 'add_edge', 3)[:1]:
                s = S(ex, ir, kind, f['rec'])
                g, V, E = s.graph('g')
                I_, U = ir.find_type(r'^int$')[0], ir.find_type(r'^unsigned long$')[0]
                d, x, y = ex.sym(I_, 'data'), ex.sym(U, 'source'), ex.sym(U, 'target')
                ex.assume(And(x >= 0, x < V.len, y >= 0, y < V.len))
                args = [ex.temp(x, 's', U), ex.temp(y, 't', U), ex.temp(d, 'd', I_)]
                mark(ex, 'add_edge')
                for k, v in outcomes(ex, call(ex, f, g, args)):
                    h = ex.read(g)
                    if k == 'throw':
                        s.same('failed', h, V, E)
                        continue
                    W, F = h.d['vertices'], h.d['edges']
                    ne = s.edge(F, E.len)
                    ex.oblige('the new edge is the last one', And(ex.load(v) == E.len, F.len == E.len + 1, W.len == V.len), None, 'post', assume=False)
                    ex.oblige('the new edge has ends and data', And(ne[0] == x, ne[1] == y, ne[2] == d), None, 'post', assume=False)
                    s.ext(E, F, E.len)
                    s.unfold(F, E.len)
                    s.facts(F, F.len)
                    a, b = s.vert(W, v_), s.vert(V, v_)
                    ex.oblige('data of the vertices unchanged', fa(v_, z3.Implies(z3.And(v_ >= 0, v_ < V.len), field(a, 'data') == field(b, 'data')), [z3.Select(W.arr, v_)]), None, 'post', assume=False)
                    for n, fo in s.wf(W, F):
                        ex.oblige('invariant: ' + n, fo, None, 'post', assume=False)
        unit('add_edge', kind, ['add_edge', '_add_edge', 'try_add'], add_edge, fails=True)

        def accessors(ex, ir, kind=kind):
            I_, U = ir.find_type(r'^int$')[0], ir.find_type(r'^unsigned long$')[0]
            f0 = sel(ir, kind, 'add_vertex', 1)[0]
            s = S(ex, ir, kind, f0['rec'])
            g, V, E = s.graph('g')
            v, w, e, d = ex.sym(U, 'v'), ex.sym(U, 'w'), ex.sym(U, 'e'), ex.sym(U, 'd')
            ex.assume(And(v >= 0, v < V.len, w >= 0, w < V.len, e >= 0, e < E.len, d >= 0, d < E.len))
            src, tgt, dat = s.edge(E, e)
            vd = field(s.vert(V, v), 'data')
            L = lambda l: s.lst(V, v, l)
            mark(ex, 'accessors')
            base = ex.snap()

            def each(name, args, spec, np=None):
                fs = sel(ir, kind, name, np or len(args))
                for f in fs:
                    ex.restore(base)
                    a = [ex.temp(x, 'a', U) if ir.isref(p['t']) else x for x, p in zip(args, f['p'])]
                    for k, r in outcomes(ex, call(ex, f, g, a)):
                        ex.oblige('%s does not throw' % name, z3.BoolVal(k == 'norm'), None, 'post', assume=False)
                        ex.oblige('%s answers' % name, spec(ex.load(r)), None, 'post', assume=False)
                        h = ex.read(g)
                        ex.oblige('%s changes nothing' % name, z3.BoolVal(h.d['vertices'].arr.eq(V.arr) and h.d['edges'].arr.eq(E.arr)), None, 'post', assume=False)
            each('source', [e], lambda r: r == src)
            each('target', [e], lambda r: r == tgt)
            each('vertex_index', [v], lambda r: r == v)
            each('edge_index', [e], lambda r: r == e)
            each('get_vertex', [v], lambda r: field(r, 'data') == vd)
            each('get_edge', [e], lambda r: And(field(r, 'source') == src, field(r, 'target') == tgt, field(r, 'data') == dat))
            each('get_vertex_data', [v], lambda r: r == vd)
            each('get_edge_data', [e], lambda r: r == dat)
            each('out_degree', [v], lambda r: r == s.rank(E, v, E.len, 'out'))
            each('is_same_vertex', [v, w], lambda r: r == (v == w))
            each('is_same_edge', [e, d], lambda r: r == (e == d))
            each('is_self_loop', [e], lambda r: r == (src == tgt))
            if kind == 'undirected':
                each('is_undirected_reverse', [v, e], lambda r: r == And(src != tgt, tgt == v))
            if kind == 'bidirectional':
                each('in_degree', [v], lambda r: r == s.rank(E, v, E.len, 'in'))
                each('degree', [v], lambda r: r == s.rank(E, v, E.len, 'out') + s.rank(E, v, E.len, 'in'))
        unit('accessors', kind, ['source', 'target', 'out_degree', 'in_degree', 'degree', 'get_vertex', 'get_edge', 'is_self_loop', 'is_same_vertex', 'is_same_edge', 'vertex_index', 'edge_index'], accessors)

        def templates(ctx, kind=kind):
            ex = ctx.ex
            s = getattr(ex, 'spec', None)
            if s is None or not hasattr(s, 'other'):
                return
            OV, O = s.other
            for n, cur, pre, md in ctx.ints(True):
                yield ('%s <= number of vertices' % n, lambda cur=cur: cur() <= OV.len, False)
                yield ('%s <= number of edges' % n, lambda cur=cur: cur() <= O.len, False)
            vs = [l for l in ctx.leaves if isinstance(l.pre, Vec) and l.pre.el == s.vel and l.mod]
            es = [l for l in ctx.leaves if isinstance(l.pre, Vec) and l.pre.el == s.eel and l.mod]
            ms = [l for l in ctx.of(cls=Vec, el=z3.IntSort()) if l.mod]
            M0 = [x for x in ctx.ints(True) if not x[0].endswith('.size')]
            for W in vs:
                for n, cur, pre, md in M0:
                    yield ('%s: the first %s vertices' % (W.name, n), lambda W=W, cur=cur: W.cur().len == cur(), False)

                    def copied(W=W):
                        a, b = s.vert(W.cur(), v_), s.vert(OV, v_)
                        return fa(v_, z3.Implies(z3.And(v_ >= 0, v_ < W.cur().len), z3.And(field(a, 'data') == field(b, 'data'))), [z3.Select(W.cur().arr, v_)])
                    yield ('%s: data copied' % W.name, copied, True)
                    yield ('%s: no edges' % W.name, lambda W=W: fa(v_, z3.Implies(z3.And(v_ >= 0, v_ < W.cur().len), z3.And(*[field(s.vert(W.cur(), v_), l + '_edges').len == 0 for l in s.lists()])), [z3.Select(W.cur().arr, v_)]), True)
                    yield ('%s: no new vertices' % W.name, lambda W=W: W.cur().len == W.pre.len, False)

                    def wf(i, W=W, cur=cur):
                        s.unfold(O, cur())
                        return [f for _, f in s.wf(W.cur(), None, cur(), O)[1:]][i]
                    for i in range(3 * len(s.lists())):
                        yield ('%s: lists %d of the first %s edges' % (W.name, i, n), lambda i=i, wf=wf: wf(i), True)
            for F in es:
                for n, cur, pre, md in M0:
                    yield ('%s: the first %s edges' % (F.name, n), lambda F=F, cur=cur: F.cur().len == cur(), False)
                yield ('%s: edges copied' % F.name, lambda F=F: fa(e_, z3.Implies(z3.And(e_ >= 0, e_ < F.cur().len), z3.Select(F.cur().arr, e_) == z3.Select(O.arr, e_)), [z3.Select(F.cur().arr, e_)]), True)
            for M in ms:
                for n, cur, pre, md in M0:
                    yield ('%s: identity below %s' % (M.name, n), lambda M=M, cur=cur: fa(v_, z3.Implies(z3.And(v_ >= 0, v_ < cur(), v_ < M.cur().len), z3.Select(M.cur().arr, v_) == v_), [z3.Select(M.cur().arr, v_)]), True)

        def copying(ex, ir, s, OV, O, thunk, g, name):
            s.other = (OV, O)
            ex.assume(And(OV.len <= MAXLEN, O.len <= MAXLEN))
            mark(ex, name)
            for k, v in outcomes(ex, thunk):
                ex.oblige(name + ' does not throw', z3.BoolVal(k != 'throw'), None, 'post', assume=False)
                if k == 'throw':
                    continue
                h = ex.load(v) if g is None else ex.read(g)
                W, F = h.d['vertices'], h.d['edges']
                # the lists of the copy determine those of the original: instances for any vertex and position
                s.same('copy', h, OV, O)
                for n, fo in s.wf(W, F, O.len, O):
                    ex.oblige('invariant: ' + n, fo, None, 'post', assume=False)

        def self_assign(ex, ir, kind=kind):
            f = the([f for f in ir.fns if f['q'] == NS + '::operator=' and f.get('body') and ('::' + kind + ',') in ir.tname(f['rec']) and 'const' in ir.sig(f)], 'copy assignment')
            s = S(ex, ir, kind, f['rec'])
            o, OV, O = s.graph('g')
            copying(ex, ir, s, OV, O, call(ex, f, o, [o]), o, 'self assignment')
        unit('self assignment', kind, ['operator='], self_assign, templates=templates)

        if kind == 'bidirectional':
            continue        # copies of bidirectional graphs: not discharged (two lists per vertex), harness

        def copy_from(ex, ir, kind=kind):
            f = [f for f in sel(ir, kind, 'copy_from', 1)][0]
            s = S(ex, ir, kind, f['rec'])
            o, OV, O = s.graph('other')
            g = sym_root(ex, f['rec'], 'g')
            x = ex.read(g)
            ex.assume(And(x.d['vertices'].len == 0, x.d['edges'].len == 0))
            copying(ex, ir, s, OV, O, call(ex, f, g, [o]), g, 'copy_from')
        unit('copy_from', kind, ['copy_from'], copy_from, templates=templates)

        def assign(ex, ir, kind=kind):
            fs = [f for f in ir.fns if f['q'] == NS + '::operator=' and f.get('body') and ('::' + kind + ',') in ir.tname(f['rec']) and 'const' in ir.sig(f)]
            f = the(fs, 'copy assignment of the %s graph' % kind)
            s = S(ex, ir, kind, f['rec'])
            o, OV, O = s.graph('other')
            g, V, E = s.graph('g', wf=False)
            copying(ex, ir, s, OV, O, call(ex, f, g, [o]), g, 'copy assignment')
        unit('copy assignment', kind, ['operator='], assign, templates=templates)

        def copy(ex, ir, kind=kind):
            fs = [f for f in ir.fns if f['q'] == NS + '::ctor' and f.get('body') and ('::' + kind + ',') in ir.tname(f['rec']) and len(f['p']) == 1 and 'const' in ir.sig(f) and 'adjacency_list' in ir.sig(f)]
            f = the(fs, 'copy constructor of the %s graph' % kind)
            s = S(ex, ir, kind, f['rec'])
            o, OV, O = s.graph('other')
            copying(ex, ir, s, OV, O, call(ex, f, None, [o]), None, 'copy construction')
        unit('copy construction', kind, ['adjacency_list'], copy, templates=templates)

    for kind in ('directional', 'undirected', 'bidirectional'):
        def lemma(ex, ir, kind=kind):
            """Induction steps for the counting function: bounds, growth, dependence on the counted edges only."""
            f = sel(ir, kind, 'add_vertex', 1)[0]
            s = S(ex, ir, kind, f['rec'])
            _, V, E = s.graph('g', wf=False)
            _, W, F = s.graph('h', wf=False)
            v, e, m, c = z3.Int('v0'), z3.Int('e0'), z3.Int('m0'), z3.Int('c0')
            for l in s.lists():
                one = lambda A, x: z3.If(s.cond(A, x, v, l), 1, 0)
                r = lambda A, x: s.rank(A, v, x, l)
                for A in (E, F):
                    for x in (e, c, m):
                        ex.assume(Implies(x >= 0, r(A, x + 1) == r(A, x) + one(A, x)))
                    ex.assume(r(A, I(0)) == 0)
                ex.oblige(l + ': bounds, start', And(r(E, I(0)) >= 0, r(E, I(0)) <= 0), None, 'lemma', assume=False)
                ex.oblige(l + ': bounds, step', Implies(And(e >= 0, r(E, e) >= 0, r(E, e) <= e), And(r(E, e + 1) >= 0, r(E, e + 1) <= e + 1)), None, 'lemma', assume=False)
                ex.oblige(l + ': growth after a listed edge, start', Implies(And(c >= 0, s.cond(E, c, v, l)), r(E, c) < r(E, c + 1)), None, 'lemma', assume=False)
                ex.oblige(l + ': growth after a listed edge, step', Implies(And(c >= 0, m > c, r(E, c) < r(E, m)), r(E, c) < r(E, m + 1)), None, 'lemma', assume=False)
                ex.oblige(l + ': dependence, start', r(E, I(0)) == r(F, I(0)), None, 'lemma', assume=False)
                ex.oblige(l + ': dependence, step', Implies(And(e >= 0, z3.Select(E.arr, e) == z3.Select(F.arr, e), r(E, e) == r(F, e)), r(E, e + 1) == r(F, e + 1)), None, 'lemma', assume=False)
                ex.oblige(l + ': a vertex without edges, step', Implies(And(e >= 0, Not(s.cond(E, e, v, l)), r(E, e) == 0), r(E, e + 1) == 0), None, 'lemma', assume=False)
        us.append(Unit('%s graph: counting lemmas (induction)' % kind, lemma, driver='g', kind='lemma'))
    return us


HARNESS = dict(src='G01.cpp', time=30, cases=300000, flags=['-fsanitize=address,undefined', '-fno-sanitize-recover=all'], rule='random histories of at most 30 operations (adding with and without failing allocations, removing, clearing, reindexing, copying between kinds, assigning) on list and vector graphs of all three directions against a plain model, under address and undefined behaviour sanitizers; non-trivial: at least two edges at some time; distinct history')
ASSUMPTIONS = ['contracts are proved for vertices and edges with int data in std::vector containers; list containers and void data are instances of the same templates, checked by the harness', 'a failed allocation throws before the container changes (strong guarantee of std::vector)', 'graphs have fewer than 2^56 vertices and edges']
BOUNDED = ['copies of bidirectional graphs: harness', 'remove_vertex, remove_edge, clear_vertex, out_remove_if, in_remove_if, reindex (list graphs only): harness', 'copy_from between graphs of different container kinds: harness']
