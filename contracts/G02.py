"""G02: compressed graphs hold exactly the converted graph; views show exactly what they view."""
from lib import *
from verify import Unit as PU
import re

NS = 'map_matching_2::graph'
CSR, VW, SV = NS + '::compressed_sparse_row', NS + '::container_view', NS + '::container_subview'
DRIVERS = {'c': ('G02_driver.cpp', [CSR + '::.*', VW + '::.*', SV + '::.*'], [])}
v_, e_, k_, i_ = z3.Ints('v e k i')


def field(r, name):
    if name in r.d:
        return r.d[name]
    for k, x in r.d.items():
        if isinstance(k, int) and isinstance(x, Rec):
            f = field(x, name)
            if f is not None:
                return f
    return None


class S:
    """An adjacency list: pos(e) is the place of e among the edges listed at its source (G01);
    start(v) counts the edges of the vertices before v; the edge e of the list is the edge idx(e) = start(source) + place."""

    def __init__(self, ex, ir, kind, lv, assume=True):
        self.ex, self.kind = ex, kind
        ex.spec = self
        self.a = lv
        g = ex.read(lv)
        self.V, self.E = g.d['vertices'], g.d['edges']
        self.vel, self.eel = self.V.el, self.E.el
        F = lambda n, *a: z3.Function(n, *([z3.IntSort()] * (len(a[0]) + 1)))
        self.pos, self.start, self.idx, self.orig = (F(n, 'x') for n in ('pos', 'start', 'idx', 'orig'))
        self.cnt = F('count', 'xy')
        ex.assume(And(self.V.len <= MAXLEN, self.E.len <= MAXLEN))
        V, E = self.V, self.E
        s, t = self.st(e_)
        x = z3.Select(E.arr, e_)
        r = z3.And(e_ >= 0, e_ < E.len)
        L = self.out(s)
        ex.assume(fa(e_, z3.Implies(r, z3.And(s >= 0, s < V.len, t >= 0, t < V.len, self.pos(e_) >= 0, self.pos(e_) < L.len, z3.Select(L.arr, self.pos(e_)) == e_)), [x]))
        L = self.out(v_)
        y = z3.Select(L.arr, k_)
        ys, yt = self.st(y)
        at = z3.Or(ys == v_, yt == v_) if kind == 'undirected' else ys == v_
        ex.assume(fa([v_, k_], z3.Implies(z3.And(v_ >= 0, v_ < V.len, k_ >= 0, k_ < L.len), z3.And(y >= 0, y < E.len, at, z3.Implies(ys == v_, self.pos(y) == k_))), [y]))
        ex.assume(fa(v_, z3.Implies(z3.And(v_ >= 0, v_ < V.len), z3.And(L.len >= 0, L.len <= MAXLEN)), [z3.Select(V.arr, v_)]))
        if assume:
            # definitions
            ex.assume(self.start(I(0)) == 0)
            ex.assume(fa(v_, z3.Implies(v_ >= 0, self.start(v_ + 1) == self.start(v_) + self.kept(v_, self.out(v_).len)), [z3.Select(V.arr, v_)]))
            ex.assume(fa(e_, z3.Implies(r, self.idx(e_) == self.start(s) + self.kept(s, self.pos(e_))), [x]))
            if kind == 'undirected':
                ex.assume(fa(v_, self.cnt(v_, I(0)) == 0, [self.cnt(v_, I(0))]))
                ex.assume(fa([v_, k_], z3.Implies(k_ >= 0, self.cnt(v_, k_ + 1) == self.cnt(v_, k_) + z3.If(self.keeps(v_, k_), 1, 0)), [y]))
                # lemma: bounds of the count
                ex.assume(fa([v_, k_], z3.Implies(k_ >= 0, z3.And(self.cnt(v_, k_) >= 0, self.cnt(v_, k_) <= k_)), [self.cnt(v_, k_)]))
            # (the same at the place of the edge)
            ex.assume(fa([v_, k_], z3.Implies(z3.And(v_ >= 0, v_ < V.len, k_ >= 0, k_ < self.out(v_).len, ys == v_), z3.And(self.idx(y) == self.start(v_) + self.kept(v_, k_), self.orig(self.start(v_) + self.kept(v_, k_)) == y)), [y]))
            # lemma: places of different edges differ and are below the sum
            ex.assume(fa(e_, z3.Implies(r, z3.And(self.orig(self.idx(e_)) == e_, self.idx(e_) >= 0, self.idx(e_) < self.start(V.len))), [x]))
            ex.assume(fa(v_, z3.Implies(z3.And(v_ >= 0, v_ <= V.len), z3.And(self.start(v_) >= 0, self.start(v_) <= self.start(V.len))), [self.start(v_)]))

    def keeps(self, v, k):
        s, t = self.st(z3.Select(self.out(v).arr, k))
        return z3.Not(z3.And(s != v, t == v))

    def kept(self, v, k):
        return self.cnt(v, k) if self.kind == 'undirected' else k

    def vert(self, v):
        return self.ex.reflect(z3.Select(self.V.arr, v), self.vel, facts=False)

    def edge(self, e):
        return self.ex.reflect(z3.Select(self.E.arr, e), self.eel, facts=False)

    def st(self, e):
        r = self.edge(e)
        return field(r, 'source'), field(r, 'target')

    def out(self, v):
        return field(self.vert(v), 'out_edges')

    def inv(self, W, F, n, edges):
        """The first n vertices and that many edges are converted."""
        ex = self.ex
        w = ex.reflect(z3.Select(W.arr, v_), W.el, facts=False)
        f = ex.reflect(z3.Select(F.arr, i_), F.el, facts=False)
        o = self.orig(i_)
        os, ot = self.st(o)
        return [('vertices', W.len == n, False),
                ('edges', F.len == edges, True),
                ('starts', fa(v_, z3.Implies(z3.And(v_ >= 0, v_ < W.len), field(w, 'start') == self.start(v_)), [z3.Select(W.arr, v_)]), True),
                ('data of vertices', fa(v_, z3.Implies(z3.And(v_ >= 0, v_ < W.len), field(w, 'data') == field(self.vert(v_), 'data')), [z3.Select(W.arr, v_)]), True),
                ('which edges', fa(i_, z3.Implies(z3.And(i_ >= 0, i_ < F.len), z3.And(o >= 0, o < self.E.len)), [z3.Select(F.arr, i_), o]), True),
                ('places of edges', fa(i_, z3.Implies(z3.And(i_ >= 0, i_ < F.len), self.idx(o) == i_), [z3.Select(F.arr, i_), o]), True),
                ('ends of edges', fa(i_, z3.Implies(z3.And(i_ >= 0, i_ < F.len), z3.And(field(f, 'source') == os, field(f, 'target') == ot)), [z3.Select(F.arr, i_), o]), True),
                ('data of edges', fa(i_, z3.Implies(z3.And(i_ >= 0, i_ < F.len), field(f, 'data') == field(self.edge(o), 'data')), [z3.Select(F.arr, i_), o]), True)]


def templates(ctx):
    ex = ctx.ex
    s = getattr(ex, 'spec', None)
    if s is None or not hasattr(s, 'c'):
        return
    W, F = (lambda: ex.read(s.c.sub('vertices'))), (lambda: ex.read(s.c.sub('edges')))
    M = [x for x in ctx.ints(True) if '.' not in x[0]]
    C = [x for x in ctx.ints(False) if '.' not in x[0] and 'capacity' not in x[0]]
    for n, cur, pre, _ in M:
        yield ('%s counts the edges' % n, lambda cur=cur: cur() == F().len, False)
        yield ('%s at most the vertices' % n, lambda cur=cur: And(cur() >= 0, cur() <= s.V.len), False)
        for i, nm in enumerate(('vertices', 'edges', 'starts', 'data of vertices', 'which edges', 'places of edges', 'ends of edges', 'data of edges')):
            yield ('%s [%s]' % (nm, n), lambda i=i, cur=cur: s.inv(W(), F(), cur(), s.start(cur()))[i][1], i > 0)
        for cn, _, cp, _ in C:
            yield ('%s among the edges of %s' % (n, cn), lambda cur=cur, cp=cp: And(cur() >= 0, cur() <= s.out(cp).len), False)
            yield ('vertices [%s]' % cn, lambda cp=cp: W().len == cp + 1, False)
            yield ('edges [%s, %s]' % (cn, n), lambda cur=cur, cp=cp: F().len == s.start(cp) + s.kept(cp, cur()), True)


def units():
    us = []

    def sel(ir, q, np, rx=None):
        fs = [f for f in ir.fns if f['q'] == q and f.get('body') and len(f['p']) == np and (rx is None or re.search(rx, ir.tname(ir.deref(f['p'][0]['t']))))]
        if not fs:
            raise Undecided('no function ' + q)
        return fs

    caps = {}
    filt = lambda n: not re.search(r'(size|data|capacity|vertex_index|vertex_desc)\b.*(<=|>=|<|>|const|unchanged)|(<=|>=|<|>) .*(size|data|capacity|vertex_index|vertex_desc)|if any|or unchanged', n)

    def reserve(ex, fn, o, args, nd):
        c = ex.fresh(z3.IntSort(), 'cap')
        n = ex.load(args[0])
        ex.assume(And(c >= n, c >= ex.read(o).len))
        caps[ex.wkey(o)] = c

    def capacity(ex, fn, o, args, nd):
        """stays the same as long as the elements fit"""
        n = ex.read(o).len
        c = caps.get(ex.wkey(o))
        d = ex.fresh(z3.IntSort(), 'cap')
        ex.assume(d >= n)
        return d if c is None else Ite(n <= c, c, d)

    for kind in ('directional', 'undirected', 'bidirectional'):
        def convert(ex, ir, kind=kind):
            f = sel(ir, CSR + '::from_adjacency_list', 1, '::' + kind)[0]
            a = sym_root(ex, ir.deref(f['p'][0]['t']), 'list')
            s = S(ex, ir, kind, a)
            s.c = sym_root(ex, f['rec'], 'compressed')
            c = ex.read(s.c)
            ex.assume(And(c.d['vertices'].len == 0, c.d['edges'].len == 0))
            caps.clear()
            ex.contracts.append((lambda f: f['q'] == 'std::vector::reserve', reserve))
            ex.contracts.append((lambda f: f['q'] == 'std::vector::capacity', capacity))
            # fits into memory (follows from the list fitting: no more edges than the list has)
            ex.assume(s.start(s.V.len) <= s.E.len)
            mark(ex, 'conversion')
            for k, v in outcomes(ex, call(ex, f, s.c, [a])):
                ex.oblige('the conversion does not throw', z3.BoolVal(k != 'throw'), None, 'post', assume=False)
                if k == 'throw':
                    continue
                d = ex.read(s.c)
                W, F = d.d['vertices'], d.d['edges']
                for n, fo, q in s.inv(W, F, s.V.len, s.start(s.V.len)):
                    ex.oblige('converted: ' + n, fo, None, 'post', assume=False)
                x = ex.reflect(z3.Select(F.arr, s.idx(e_)), F.el, facts=False)
                st = s.st(e_)
                ex.oblige('every edge is at its place', fa(e_, z3.Implies(z3.And(e_ >= 0, e_ < s.E.len), z3.And(s.idx(e_) >= 0, s.idx(e_) < F.len, field(x, 'source') == st[0], field(x, 'target') == st[1], field(x, 'data') == field(s.edge(e_), 'data'))), [z3.Select(s.E.arr, e_)]), None, 'post', assume=False)
                w = lambda v: field(ex.reflect(z3.Select(W.arr, v), W.el, facts=False), 'start')
                hi = z3.If(v_ + 1 < W.len, w(v_ + 1), F.len)
                y = ex.reflect(z3.Select(F.arr, i_), F.el, facts=False)
                ex.oblige('the edges between two starts', fa(v_, z3.Implies(z3.And(v_ >= 0, v_ < W.len), z3.And(w(v_) >= 0, w(v_) <= hi, hi <= F.len, hi - w(v_) == s.kept(v_, s.out(v_).len))), [z3.Select(W.arr, v_)]), None, 'post', assume=False)
                b = ex.read(a)
                ex.oblige('the list is unchanged', And(b.d['vertices'].arr == s.V.arr, b.d['edges'].arr == s.E.arr, b.d['vertices'].len == s.V.len, b.d['edges'].len == s.E.len), None, 'post', assume=False)

        def cfg(ex):
            ex.templates = [templates]
            ex.cvc5 = True
            ex.cand_filter = filt
        us.append(PU('conversion of %s graphs' % kind, convert, driver='c', fns=['from_adjacency_list', '_add_vertex', '_add_edge', 'reserve'], configure=cfg))

        def lemma(ex, ir, kind=kind):
            """Induction steps: start grows, places of edges of different vertices and of one vertex differ."""
            f = sel(ir, CSR + '::from_adjacency_list', 1, '::' + kind)[0]
            s = S(ex, ir, kind, sym_root(ex, ir.deref(f['p'][0]['t']), 'list'), assume=False)
            u, v, k, l, d, e = z3.Ints('u0 v0 k0 l0 d0 e0')
            st, kp = s.start, s.kept
            n = s.V.len
            step = lambda v: Implies(v >= 0, st(v + 1) == st(v) + kp(v, s.out(v).len))
            if kind == 'undirected':
                c = lambda v, k: And(s.cnt(v, I(0)) == 0, Implies(k >= 0, s.cnt(v, k + 1) == s.cnt(v, k) + Ite(s.keeps(v, k), I(1), I(0))))
                ex.assume(c(v, k))
                ex.oblige('count: start', s.cnt(v, I(0)) == 0, None, 'lemma', assume=False)
                ex.oblige('count: bounds, step', Implies(And(k >= 0, s.cnt(v, k) >= 0, s.cnt(v, k) <= k), And(s.cnt(v, k + 1) >= 0, s.cnt(v, k + 1) <= k + 1)), None, 'lemma', assume=False)
                ex.oblige('count: after a kept edge, start', Implies(And(k >= 0, s.keeps(v, k)), s.cnt(v, k) < s.cnt(v, k + 1)), None, 'lemma', assume=False)
                ex.oblige('count: after a kept edge, step', Implies(And(l >= 0, k > l, s.cnt(v, l) < s.cnt(v, k)), s.cnt(v, l) < s.cnt(v, k + 1)), None, 'lemma', assume=False)
                less = lambda v, l, k: Implies(And(l >= 0, l < k, s.keeps(v, l)), s.cnt(v, l) < s.cnt(v, k))
                ex.assume(fa([v_, k_], z3.Implies(k_ >= 0, s.cnt(v_, k_) >= 0), [s.cnt(v_, k_)]))
            else:
                less = lambda v, l, k: Implies(l < k, l < k)
            ex.assume(And(st(I(0)) == 0, step(v), step(u)))
            x = z3.Select(s.V.arr, v)
            ex.assume(x == x)
            ex.oblige('start: not negative', Implies(And(v >= 0, v < n, st(v) >= 0), st(v + 1) >= 0), None, 'lemma', assume=False)
            ex.oblige('start: grows, step', Implies(And(u >= 0, u <= v, v < n, st(u) <= st(v)), st(u) <= st(v + 1)), None, 'lemma', assume=False)
            # using the growth: places
            ex.assume(fa([v_, e_], z3.Implies(z3.And(v_ >= 0, v_ <= e_, e_ <= n), st(v_) <= st(e_)), [z3.MultiPattern(st(v_), st(e_))]))
            sd, se = s.st(d)[0], s.st(e)[0]
            for w in (sd, se):
                ex.assume(step(w))
            pd, pe = s.pos(d), s.pos(e)
            for w, p in ((sd, pd), (se, pe)):
                ex.assume(less(w, p, s.out(w).len))
            ex.assume(Implies(sd == se, And(less(sd, pd, pe), less(sd, pe, pd))))
            idx = lambda w, p: st(w) + kp(w, p)
            rng = And(d >= 0, d < s.E.len, e >= 0, e < s.E.len)
            ex.oblige('places differ', Implies(And(rng, d != e), idx(sd, pd) != idx(se, pe)), None, 'lemma', assume=False)
            ex.oblige('places are below the sum', Implies(And(rng, st(I(0)) <= st(sd)), And(idx(sd, pd) >= 0, idx(sd, pd) < st(n))), None, 'lemma', assume=False)
        us.append(PU('places of edges (induction, %s)' % kind, lemma, driver='c', kind='lemma'))

    def each(ex, base, f, this, args, name, spec, throws=None, keep=()):
        ex.restore(base)
        U = ex.ir.find_type(r'^unsigned long$')[0]
        a = [ex.temp(x, 'a', U) if ex.ir.isref(p['t']) and z3.is_expr(x) else x for x, p in zip(args, f['p'])]
        before = [ex.reify(ex.read(lv)) for lv in keep]
        for k, r in outcomes(ex, call(ex, f, this, a)):
            if throws is not None:
                ex.oblige('%s throws exactly when asked for what is not there' % name, throws if k == 'throw' else Not(throws), None, 'post', assume=False)
            else:
                ex.oblige('%s does not throw' % name, z3.BoolVal(k != 'throw'), None, 'post', assume=False)
            if k == 'throw':
                continue
            ex.oblige('%s answers' % name, spec(ex.load(r)), None, 'post', assume=False)
            for lv, b in zip(keep, before):
                ex.oblige('%s changes nothing' % name, ex.reify(ex.read(lv)) == b, None, 'post', assume=False)

    def accessors(ex, ir):
        f = sel(ir, CSR + '::from_adjacency_list', 1)[0]
        g = sym_root(ex, f['rec'], 'g')
        r = ex.read(g)
        W, F = r.d['vertices'], r.d['edges']
        U = ir.find_type(r'^unsigned long$')[0]
        v, e = ex.sym(U, 'v'), ex.sym(U, 'e')
        ex.assume(And(W.len <= MAXLEN, F.len <= MAXLEN, v >= 0, v < W.len, e >= 0, e < F.len))
        w = lambda x: ex.reflect(z3.Select(W.arr, x), W.el, facts=False)
        ed = ex.reflect(z3.Select(F.arr, e), F.el, facts=False)
        lo, hi = field(w(v), 'start'), Ite(v + 1 < W.len, field(w(v + 1), 'start'), F.len)
        ex.assume(And(lo >= 0, lo <= hi, hi <= F.len))
        mark(ex, 'accessors')
        base = ex.snap()
        src, tgt, dat, vd = field(ed, 'source'), field(ed, 'target'), field(ed, 'data'), field(w(v), 'data')

        def view(r):
            st, en = field(r, '_start'), field(r, '_stop')
            return And(st == lo, en == hi)
        for name, x, spec in (('source', e, lambda r: r == src), ('target', e, lambda r: r == tgt), ('vertex_index', v, lambda r: r == v), ('edge_index', e, lambda r: r == e),
                              ('get_vertex', v, lambda r: And(field(r, 'data') == vd, field(r, 'start') == lo)), ('get_edge', e, lambda r: And(field(r, 'source') == src, field(r, 'target') == tgt, field(r, 'data') == dat)),
                              ('get_vertex_data', v, lambda r: r == vd), ('get_edge_data', e, lambda r: r == dat), ('out_degree', v, lambda r: r == hi - lo), ('out_edges_view', v, view)):
            for f in sel(ir, CSR + '::' + name, 1):
                each(ex, base, f, g, [x], name, spec, keep=[g])
    us.append(PU('compressed graph: accessors', accessors, driver='c', fns=['source', 'target', 'vertex_index', 'edge_index', 'get_vertex', 'get_edge', 'get_vertex_data', 'get_edge_data', 'out_degree', 'out_edges_view', '_out_edges_start_end']))

    def views(ex, ir):
        U, Lg = ir.find_type(r'^unsigned long$')[0], ir.find_type(r'^long$')[0]
        for sub in (False, True):
            q = SV if sub else VW
            rx = r'^std::vector<int'
            fs = [f for f in ir.fns if f['q'].startswith(q + '::') and f.get('body') and re.search('vector<int', ir.tname(f['rec']))]
            ct = next(f for f in fs if f['kind'] == 'ctor' and len(f['p']) == (3 if sub else 1) and re.search('vector<int', ir.tname(ir.deref(f['p'][0]['t']))))
            c = sym_root(ex, ir.deref(ct['p'][0]['t']), 'container%d' % sub)
            V = ex.read(c)
            lo, hi, x, p = (ex.sym(U, 'lo%d' % sub), ex.sym(U, 'hi%d' % sub), ex.sym(U, 'x%d' % sub), ex.sym(Lg, 'p%d' % sub))
            ex.assume(V.len <= MAXLEN)
            mark(ex, 'views')
            base = ex.snap()
            for k, o in outcomes(ex, call(ex, ct, None, [c] + ([lo, hi] if sub else []))):
                if sub:
                    bad = Or(lo > V.len, hi > V.len, lo > hi)
                    ex.oblige('a part outside of the container is refused', bad if k == 'throw' else Not(bad), None, 'post', assume=False)
                if k == 'throw':
                    continue
                this = ex.temp(ex.load(o), 'view', ct['rec'])
                a, b = (lo, hi) if sub else (I(0), V.len)
                n = b - a
                at = lambda i: z3.Select(V.arr, i)
                here = ex.snap()
                i = Ite(p >= 0, a + p, b + p)
                for name, args, spec, thr in (('at', [p], lambda r: r == at(i), Or(p >= n, p < -n)), ('begin', [], lambda r: r == a, None), ('end', [], lambda r: r == b, None), ('size', [], lambda r: r == n, None), ('empty', [], lambda r: r == (n == 0), None),
                                              ('front', [], lambda r: r == at(a), n == 0), ('back', [], lambda r: r == at(b - 1), n == 0)):
                    for f in fs:
                        if f['q'] == q + '::' + name and len(f['p']) == len(args):
                            ex.restore(here)
                            if not sub and name in ('front', 'back'):
                                ex.assume(n > 0)
                                thr = None
                            each(ex, ex.snap(), f, this, args, name, spec, thr, keep=[c])
                if not sub:
                    m = 2 ** 64
                    for name, spec in (('next', lambda r: r == x + p), ('prev', lambda r: r == x - p)):
                        for f in fs:
                            if f['q'] == q + '::' + name:
                                ex.restore(here)
                                ex.assume(And(x <= V.len, x + p >= 0, x + p <= V.len, x - p >= 0, x - p <= V.len))
                                each(ex, ex.snap(), f, this, [x, p], name, spec)
                    for f in fs:
                        if f['q'] == q + '::operator[]':
                            ex.restore(here)
                            ex.assume(x < V.len)
                            each(ex, ex.snap(), f, this, [x], 'operator[]', lambda r: r == at(x), keep=[c])
            ex.restore(base)
    us.append(PU('views of containers and parts', views, driver='c', fns=['container_view', 'container_subview', 'at', 'begin', 'end', 'next', 'prev', 'front', 'back', 'size', 'empty', 'operator[]']))
    return us


HARNESS = dict(src='G02.cpp', time=15, cases=200000, flags=['-fsanitize=address,undefined', '-fno-sanitize-recover=all'], libs=['-lboost_serialization'], rule='random list and vector graphs of all three directions with self loops and parallel edges, converted with and without converters, the compressed graph, its edge views and its copy through serialization compared with the list one by one, under address and undefined behaviour sanitizers; non-trivial: at least two edges; distinct graph')
ASSUMPTIONS = ['the list is well formed as G01 establishes (ends of edges exist, every edge is listed exactly at its source, undirected ones also at their target) and its indices are current', 'the compressed graph converted into is empty', 'graphs have fewer than 2^56 vertices and edges, and no more edges are kept than the list has', 'the capacity of a std::vector does not change while its elements fit', 'contracts are proved for vertices and edges with int data in std::vector containers']
BOUNDED = ['list containers, converters of vertices and edges, data without values, serialization: harness']
