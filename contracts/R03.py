"""R03: attributes of routes always equal their recomputation from the lines they refer to."""
from lib import *
from verify import Unit
import re

NS = 'map_matching_2::geometry::'
RN = NS + 'network::'
DRIVERS = {'rt': ('R03_driver.cpp', [RN + '(route|route_data|eager_route|lazy_route)::.*'], [])}
ELEM = r'^std::variant<std::reference_wrapper<'
FNS = ('_has_length', '_get_length', '_has_azimuth', '_get_azimuth', '_has_directions', '_get_directions', '_get_absolute_directions', '_front', '_back', '_size', '_empty')


def configure(ex):
    ex.pure = [re.compile(NS + x + '$') for x in ('azimuth_deg', 'equals_points', 'direction_deg')] + [re.compile(RN + 'route::(%s)$' % '|'.join(FNS + ('_attaches',)))]
    ex.opaque_types = [re.compile(r'^boost::geometry::model::point<'), re.compile(ELEM), re.compile(r'^std::(__cxx11::)?list<')]
    ex.templates = [templates]


class S:
    """Specification functions over an array of references to lines (what a line answers is a pure function of the reference)."""

    def __init__(self, ex, ir):
        self.ex, self.ir = ex, ir
        self.F = ex.fl.sort
        self.lt = ir.find_type(ELEM)[0]
        self.L = ex.sort_of(self.lt)
        A = z3.ArraySort(z3.IntSort(), self.L)
        B, N = z3.BoolSort(), z3.IntSort()
        free = lambda n: the([f for f in ir.fns if f['q'] == NS + n], n)
        self.feq, self.fazi, self.fdir = free('equals_points'), free('azimuth_deg'), free('direction_deg')

        def meth(n, k):
            return the([f for f in ir.fns if f['q'] == RN + 'route::' + n and len(f['p']) == k], n)
        self.m = {(n, k): meth(n, k + 1) for n, k in [(n, 0) for n in FNS] + [('_has_azimuth', 1), ('_get_azimuth', 1), ('_attaches', 1)]}
        self.sumL = z3.Function('spec_sum_len', A, N, self.F)
        self.hasL = z3.Function('spec_has_len', A, N, B)
        # the first k lines of n together with the turns between the first k + 1 lines
        self.sumD = z3.Function('spec_sum_dir', A, N, N, self.F)
        self.sumAD = z3.Function('spec_sum_absdir', A, N, N, self.F)
        self.hasD = z3.Function('spec_has_dir', A, N, N, B)
        self.conn = z3.Function('spec_connected', A, N, N, B)
        # the first (last) line with points, n (-1) if there is none
        self.fst = z3.Function('spec_first', A, N, N)
        self.lst = z3.Function('spec_last', A, N, N)
        # contracts of the answers of a line: preconditions are obligations at every call
        def ranged(ex, fn, o, args, n):
            v = ex.load(args[0])
            if len(args) == 2:
                ex.oblige('%s is asked for a segment the line has' % fn['q'].split('::')[-1], And(ex.load(args[1]) >= 0, ex.load(args[1]) + 1 < self.c('_size', v)), n, 'pre')
            elif fn['q'].endswith(('_front', '_back')):
                ex.oblige('%s is asked of a line with points' % fn['q'].split('::')[-1], Not(self.c('_empty', v)), n, 'pre')
            return NotImplemented
        ex.contracts.append((lambda f: f['q'].startswith(RN + 'route::_') and f['q'].split('::')[-1] in ('_has_azimuth', '_get_azimuth', '_front', '_back'), ranged))
        self.inf = ex.fl.const('inf')
        self.zero = ex.fl.const('0x0p+0')
        ex.spec = self
        x, y = z3.Const('x', self.F), z3.Const('y', self.F)
        l = z3.Const('l', self.L)
        ex.assume(fa(x, z3.Implies(self.valid(x), ex.fl.op('+', self.zero, x) == x), [ex.fl.op('+', self.zero, x)]))
        ex.assume(And(self.valid(self.zero), Not(self.valid(self.inf)), self.init(self.inf)))
        for h, g in (('_has_length', '_get_length'), ('_has_azimuth', '_get_azimuth'), ('_has_directions', '_get_directions'), ('_has_directions', '_get_absolute_directions')):
            ex.assume(fa(l, z3.Implies(self.c(h, l), self.valid(self.c(g, l))), [self.c(g, l)]))
        ex.assume(fa([x, y], z3.Implies(And(self.valid(x), self.valid(y)), self.valid(ex.fl.op('+', x, y))), [ex.fl.op('+', x, y)]))
        ex.assume(fa(x, z3.Implies(self.valid(x), self.valid(ex.fl.unary('fabs', x))), [ex.fl.unary('fabs', x)]))
        pt = ex.sort_of(ir.deref(self.feq['p'][0]['t']))
        p, q = z3.Const('p', pt), z3.Const('q', pt)
        ex.assume(fa([p, q], z3.Implies(Not(ex.uf_call(self.feq, None, [p, q])), self.valid(ex.uf_call(self.fazi, None, [p, q]))), [ex.uf_call(self.fazi, None, [p, q])]))
        a, n, k = z3.Const('a', A), z3.Int('n'), z3.Int('k')
        ex.assume(fa([a, k], self.valid(self.sumL(a, k)), [self.sumL(a, k)]))
        ex.assume(fa([a, n, k], self.valid(self.sumD(a, n, k)), [self.sumD(a, n, k)]))
        ex.assume(fa([a, n, k], self.valid(self.sumAD(a, n, k)), [self.sumAD(a, n, k)]))

    def c(self, n, l, *a):
        return self.ex.uf_call(self.m[(n, len(a))], None, [l] + list(a))

    def init(self, x):
        return Not(self.ex.fl.isnan(x))

    def valid(self, x):
        return And(Not(self.ex.fl.isnan(x)), Not(self.ex.fl.isinf(x)))

    def both(self, a, i):
        l, r = z3.Select(a, i), z3.Select(a, i + 1)
        return And(Not(self.c('_empty', l)), Not(self.c('_empty', r)))

    def turns(self, a, i):
        """There is a turn between line i and the next one."""
        l, r = z3.Select(a, i), z3.Select(a, i + 1)
        n = self.c('_size', l)
        return And(self.both(a, i), self.c('_attaches', l, r), n >= 2, self.c('_size', r) >= 2, self.c('_has_azimuth', l, n - 2), self.c('_has_azimuth', r, I(0)))

    def turn(self, a, i):
        l, r = z3.Select(a, i), z3.Select(a, i + 1)
        return self.ex.uf_call(self.fdir, None, [self.c('_get_azimuth', l, self.c('_size', l) - 2), self.c('_get_azimuth', r, I(0))])

    def unfold(self, a, n, k):
        ex = self.ex
        l = z3.Select(a, k - 1)
        has, hasd = self.c('_has_length', l), self.c('_has_directions', l)
        t = And(k < n, self.turns(a, k - 1))
        ex.assume(And(self.sumL(a, 0) == self.zero, Not(self.hasL(a, 0)), self.sumD(a, n, 0) == self.zero, self.sumAD(a, n, 0) == self.zero, Not(self.hasD(a, n, 0)), self.conn(a, n, 0)))
        d = self.turn(a, k - 1)
        ex.assume(Implies(t, self.valid(d)))
        plus = lambda c, x, y: z3.If(c, ex.fl.op('+', x, y), x)
        gap = And(k < n, self.both(a, k - 1), Not(self.c('_attaches', l, z3.Select(a, k))))
        ex.assume(Implies(k > 0, And(
            self.sumL(a, k) == plus(has, self.sumL(a, k - 1), self.c('_get_length', l)),
            self.hasL(a, k) == z3.Or(self.hasL(a, k - 1), has),
            self.sumD(a, n, k) == plus(hasd, plus(t, self.sumD(a, n, k - 1), d), self.c('_get_directions', l)),
            self.sumAD(a, n, k) == plus(hasd, plus(t, self.sumAD(a, n, k - 1), ex.fl.unary('fabs', d)), self.c('_get_absolute_directions', l)),
            self.hasD(a, n, k) == z3.Or(self.hasD(a, n, k - 1), hasd, t),
            self.conn(a, n, k) == z3.And(self.conn(a, n, k - 1), Not(gap)))))

    def azi_has(self, a, n):
        f, b = z3.Select(a, self.fst(a, n)), z3.Select(a, self.lst(a, n))
        return And(n > 0, z3.If(n == 1, self.c('_has_azimuth', z3.Select(a, 0)), And(self.fst(a, n) < n, Not(self.ex.uf_call(self.feq, None, [self.c('_front', f), self.c('_back', b)])))))

    def azi_val(self, a, n):
        f, b = z3.Select(a, self.fst(a, n)), z3.Select(a, self.lst(a, n))
        return z3.If(n == 1, self.c('_get_azimuth', z3.Select(a, 0)), self.ex.uf_call(self.fazi, None, [self.c('_front', f), self.c('_back', b)]))

    def len_spec(self, a, n):
        return z3.If(self.hasL(a, n), self.sumL(a, n), self.inf)

    def azi_spec(self, a, n):
        return z3.If(self.azi_has(a, n), self.azi_val(a, n), self.inf)

    def dir_spec(self, a, n, f):
        return z3.If(self.hasD(a, n, n), f(a, n, n), self.inf)


def templates(ctx):
    ex = ctx.ex
    s = getattr(ex, 'spec', None)
    if s is None:
        return
    k = z3.Int('k')
    lvecs = ctx.of(cls=Vec, el=s.L)
    floats = [l for l in ctx.of(sort=s.F) if l.mod]
    bools = [l for l in ctx.of(sort=z3.BoolSort()) if l.mod]
    ints = ctx.ints(True)
    for v in lvecs:
        for n, cur, pre, _ in ints:
            # the last two lines may be taken in one step
            for nm, idx in ((n, cur), ('%s or all' % n, lambda cur=cur, v=v: z3.If(cur() + 1 < v.cur().len, cur(), v.cur().len))):
                def un(idx=idx, v=v, cur=cur):
                    w = v.cur()
                    s.unfold(w.arr, w.len, idx())
                    s.unfold(w.arr, w.len, cur() + 1)
                    s.unfold(w.arr, w.len, w.len)
                    return w.arr, w.len, idx()
                for l in floats:
                    def th(l=l, un=un):
                        a, m, i = un()
                        return l.cur() == s.sumL(a, i)
                    yield ('%s is the length of the first %s lines' % (l.name, nm), th, True)
                    for g, gn in ((s.sumD, 'directions'), (s.sumAD, 'absolute directions')):
                        def th(l=l, g=g, un=un):
                            a, m, i = un()
                            return l.cur() == g(a, m, i)
                        yield ('%s are the %s of the first %s lines' % (l.name, gn, nm), th, True)
                for l in bools:
                    def th(l=l, un=un):
                        a, m, i = un()
                        return l.cur() == s.hasL(a, i)
                    yield ('%s: some length in the first %s lines' % (l.name, nm), th, True)
                    for g, gn in ((s.hasD, 'some direction in'), (s.conn, 'no gap after')):
                        def th(l=l, g=g, un=un):
                            a, m, i = un()
                            return l.cur() == g(a, m, i)
                        yield ('%s: %s the first %s lines' % (l.name, gn, nm), th, True)

                def th(un=un):
                    a, m, i = un()
                    return Not(s.hasL(a, i))
                yield ('no length in the first %s lines' % nm, th, True)

                def th(un=un):
                    a, m, i = un()
                    return Not(s.hasD(a, m, i))
                yield ('no direction in the first %s lines' % nm, th, True)

                def th(un=un):
                    a, m, i = un()
                    return s.conn(a, m, i)
                yield ('no gap after the first %s lines' % nm, th, True)
            yield ('only empty lines before %s' % n, lambda cur=cur, v=v: fa(k, z3.Implies(And(k >= 0, k < cur()), s.c('_empty', z3.Select(v.cur().arr, k))), [z3.Select(v.cur().arr, k)]), True)
            yield ('only empty lines from %s' % n, lambda cur=cur, v=v: fa(k, z3.Implies(And(k >= cur(), k < v.cur().len), s.c('_empty', z3.Select(v.cur().arr, k))), [z3.Select(v.cur().arr, k)]), True)
            yield ('only empty lines after %s' % n, lambda cur=cur, v=v: And(cur() >= -1, cur() < v.cur().len, fa(k, z3.Implies(And(k > cur(), k < v.cur().len), s.c('_empty', z3.Select(v.cur().arr, k))), [z3.Select(v.cur().arr, k)])), True)


K = z3.Int('k')


def parts(ex, v):
    return find_base(ex, v, r'network::route_data$'), find_base(ex, v, r'network::route$').d['_rich_lines']


def totals(s, data, v):
    a, n = v.arr, v.len
    return [('length equals recomputation', '_length', s.len_spec(a, n)), ('azimuth equals recomputation', '_azimuth', s.azi_spec(a, n)),
            ('directions equal recomputation', '_directions', s.dir_spec(a, n, s.sumD)), ('absolute directions equal recomputation', '_absolute_directions', s.dir_spec(a, n, s.sumAD))]


def connected(s, data, v):
    return data.d['_is_connected'] == s.conn(v.arr, v.len, v.len)


def eager_inv(ex, s, w):
    """A route that was made from lines."""
    data, v = parts(ex, w)
    return [(nm, data.d[f] == sp) for nm, f, sp in totals(s, data, v)] + [('the connection equals recomputation', connected(s, data, v))]


def lazy_inv(ex, s, w):
    data, v = parts(ex, w)
    di, ad = s.init(data.d['_directions']), s.init(data.d['_absolute_directions'])
    return [(nm + ' or is not initialised', z3.Or(Not(s.init(data.d[f])), data.d[f] == sp)) for nm, f, sp in totals(s, data, v)] + [
        ('the connection is known with the directions', Implies(And(di, ad), connected(s, data, v)))]


INV = {'eager': eager_inv, 'lazy': lazy_inv, '': lambda ex, s, w: []}


def pre_lines(ex, s, v):
    """What is true of every list of lines."""
    l = z3.Const('l', s.L)
    ex.assume(fa(l, And(s.c('_size', l) >= 0, s.c('_empty', l) == (s.c('_size', l) == 0)), [s.c('_size', l)]))
    ex.assume(fa(l, s.c('_empty', l) == (s.c('_size', l) == 0), [s.c('_empty', l)]))
    a, n = v.arr, v.len
    s.unfold(a, n, I(0))
    s.unfold(a, n, I(1))
    E = lambda i: s.c('_empty', z3.Select(a, i))
    f, b = s.fst(a, n), s.lst(a, n)
    # definition of the first and the last line with points
    ex.assume(And(f >= 0, f <= n, b >= -1, b < n, Implies(f < n, Not(E(f))), Implies(b >= 0, Not(E(b))), (f == n) == (b == -1),
                  fa(K, z3.Implies(And(K >= 0, K < f), E(K)), [z3.Select(a, K)]), fa(K, z3.Implies(And(K > b, K < n), E(K)), [z3.Select(a, K)])))
    # lemmas (by induction over the definitions): one line with a value is enough, one gap disconnects
    gap = And(K + 1 < n, s.both(a, K), Not(s.c('_attaches', z3.Select(a, K), z3.Select(a, K + 1))))
    ex.assume(fa(K, z3.Implies(And(K >= 0, K < n), And(Implies(s.c('_has_length', z3.Select(a, K)), s.hasL(a, n)),
        Implies(Or(s.c('_has_directions', z3.Select(a, K)), And(K + 1 < n, s.turns(a, K))), s.hasD(a, n, n)), Implies(gap, Not(s.conn(a, n, n))))), [z3.Select(a, K)]))


def oblige_all(ex, inv, what):
    for nm, f in inv:
        ex.oblige('%s: %s' % (what, nm), f, None, 'post', assume=False)


def kind_of(ex, t):
    t = ex.ir.T(ex.ir.deref(t))
    m = re.search(r'network::(eager_|lazy_|)route$', t['n'] if t['k'] == 'rec' else '')
    return m.group(1).rstrip('_') if m else None


def units():
    us = []

    def unit(name, prove, **kw):
        us.append(Unit(name, prove, driver='rt', fns=[name], **kw))

    def lines_in(ex, v, t):
        if kind_of(ex, t) is not None:
            return find_base(ex, v, r'network::route$').d['_rich_lines']
        return v if isinstance(v, Vec) and v.arr.sort().range() == ex.spec.L else None

    def setup(ex, ir, fn, this=None):
        s = S(ex, ir)
        args = arg_syms(ex, fn)
        srcs = []
        for p, a in zip(fn['p'], args):
            v = ex.load(a)
            k = kind_of(ex, p['t'])
            ls = lines_in(ex, v, p['t'])
            if ls is not None:
                pre_lines(ex, s, ls)
                srcs.append(ls)
            if k:
                for _, f in INV[k](ex, s, v):
                    ex.assume(f)
        return s, args, srcs

    def same(ex, a, b):
        return And(a.len == b.len, fa(K, z3.Implies(z3.And(K >= 0, K < a.len), z3.Select(a.arr, K) == z3.Select(b.arr, K))))

    def ctor(cls, sg, src=True):
        kind = cls.split('_')[0]

        def prove(ex, ir):
            fn = ir.sel(RN + cls + '::ctor', sg)
            s, args, srcs = setup(ex, ir, fn)
            mark(ex, cls)
            for k, w in outcomes(ex, call(ex, fn, None, args)):
                ex.oblige('%s(%s) does not throw' % (cls, sg), z3.BoolVal(k != 'throw'), None, 'post', assume=False)
                if k == 'throw':
                    continue
                v = parts(ex, w)[1]
                s.unfold(v.arr, v.len, I(0))
                oblige_all(ex, INV[kind](ex, s, w), '%s(%s)' % (cls, sg))
                for x in srcs:
                    ex.oblige('%s(%s): the lines of the source' % (cls, sg), same(ex, v, x), None, 'post', assume=False)
        unit('%s(%s)' % (cls, sg), prove)

    def assign(cls, sg):
        kind = cls.split('_')[0]

        def prove(ex, ir):
            fn = ir.sel(RN + cls + '::operator=', sg)
            s, args, srcs = setup(ex, ir, fn)
            this = sym_root(ex, fn['rec'], 'this')
            v0 = ex.read(this)
            pre_lines(ex, s, parts(ex, v0)[1])
            for _, f in INV[kind](ex, s, v0):
                ex.assume(f)
            mark(ex, cls)
            for k, _ in outcomes(ex, call(ex, fn, this, args)):
                ex.oblige('%s = (%s) does not throw' % (cls, sg), z3.BoolVal(k != 'throw'), None, 'post', assume=False)
                if k == 'throw':
                    continue
                w = ex.read(this)
                v = parts(ex, w)[1]
                s.unfold(v.arr, v.len, I(0))
                oblige_all(ex, INV[kind](ex, s, w), '%s = (%s)' % (cls, sg))
                ex.oblige('%s = (%s): the lines of the source' % (cls, sg), same(ex, v, srcs[0]), None, 'post', assume=False)
        unit('%s::operator=(%s)' % (cls, sg), prove)

    def accessor(cls, name, spec, plain=False):
        kind = '' if plain else cls.split('_')[0]

        def prove(ex, ir):
            fn = ir.sel(RN + cls + '::' + name, '')
            s, args, srcs = setup(ex, ir, fn)
            this = sym_root(ex, fn['rec'], 'this')
            v0 = ex.read(this)
            ls = v0.d['_rich_lines'] if plain else parts(ex, v0)[1]
            pre_lines(ex, s, ls)
            for _, f in INV[kind](ex, s, v0):
                ex.assume(f)
            a, n = ls.arr, ls.len
            mark(ex, name)
            some = False
            has, val = spec(s, a, n)
            for k, r in outcomes(ex, call(ex, fn, this, args)):
                s.unfold(a, n, n)
                if k == 'throw':
                    ex.oblige('%s throws only without a value' % name, And(z3.BoolVal(plain and val is not None), Not(has)), None, 'post', assume=False)
                    continue
                some = True
                r = ex.load(r)
                if val is None:
                    if kind == 'eager':
                        has = z3.If(n > 0, has, r) if name == 'is_connected' else And(n > 0, has)
                    ex.oblige('%s() is the recomputed answer' % name, r == has, None, 'post', assume=False)
                elif plain:
                    ex.oblige('%s() answers with the recomputed value' % name, And(has, r == val), None, 'post', assume=False)
                else:
                    ex.oblige('%s() is the recomputed value' % name, Or(r == z3.If(has, val, s.inf), And(n == 0, Not(s.init(r)))), None, 'post', assume=False)
                if not plain:
                    w = ex.read(this)
                    oblige_all(ex, INV[kind](ex, s, w), name + ' keeps the invariant')
                    ex.oblige('%s keeps the lines' % name, same(ex, ls, parts(ex, w)[1]), None, 'post', assume=False)
            ex.oblige('%s returns a value' % name, z3.BoolVal(some), None, 'post', assume=False)
        unit('%s::%s()' % (cls, name), prove)

    SP = [('has_length', lambda s, a, n: (s.hasL(a, n), None)), ('length', lambda s, a, n: (s.hasL(a, n), s.sumL(a, n))),
          ('has_azimuth', lambda s, a, n: (s.azi_has(a, n), None)), ('azimuth', lambda s, a, n: (s.azi_has(a, n), s.azi_spec(a, n))),
          ('has_directions', lambda s, a, n: (s.hasD(a, n, n), None)), ('directions', lambda s, a, n: (s.hasD(a, n, n), s.sumD(a, n, n))), ('absolute_directions', lambda s, a, n: (s.hasD(a, n, n), s.sumAD(a, n, n))),
          ('is_connected', lambda s, a, n: (s.conn(a, n, n), None))]
    for nm, sp in SP:
        accessor('route', nm, sp, True)
        accessor('lazy_route', nm, sp)
        accessor('eager_route', nm, sp)
    for cls in ('eager_route', 'lazy_route'):
        ctor(cls, 'vector')
        ctor(cls, cls + '&&')
        assign(cls, cls + '&&')
    return us


HARNESS = dict(src='R03.cpp', repo_src=['src/library/src/geometry/cache.cpp'], flags=['-fsanitize=address,undefined', '-fno-sanitize-recover=all'], time=15, cases=200000, rule='random sequences of construction, copying, moving, assignment, merging, joining, cutting and asking on plain, eager and lazy routes over referenced and own lines of all kinds (grid, repeated points, one-point and empty lines, gaps), every attribute compared with its recomputation from the lines; non-trivial: at least two lines, distinct operation sequence')
ASSUMPTIONS = ['what a line answers (length, azimuth, directions, ends, sizes) is a pure function of the reference to it (property R01), valid where it exists', 'azimuth_deg, direction_deg and equals_points are pure functions of their arguments (uninterpreted)', 'floating-point operations are uninterpreted functions, except that 0 + x = x and that sums and absolute values of valid numbers are valid (no overflow)', 'induction lemmas over the definitions: first and last line with points, one value among the lines is enough, one gap disconnects', 'vectors hold fewer than 2^61 elements']
BOUNDED = ['copying, sub_route, merge, join, trim_merge, find_return_line, get_rich_line, get_multi_rich_line, lifetime of own lines: harness only, under sanitizers', 'eager routes made without lines are left out (is_connected is not computed for them)']
