"""R02: attributes of multi lines always equal their recomputation from the lines."""
from lib import *
from verify import Unit
import re

NS = 'map_matching_2::geometry::'
DRIVERS = {'ml': ('R02_driver.cpp', [NS + '(multi_rich_line|multi_rich_line_data|eager_multi_rich_line|lazy_multi_rich_line)::.*'], [])}
LINE = r'^map_matching_2::geometry::rich_line<'
METHODS = ('has_length', 'length', 'has_azimuth', 'azimuth', 'has_directions', 'directions', 'absolute_directions', 'front', 'back', 'size', 'empty')


def configure(ex):
    ex.pure = [re.compile(NS + x + '$') for x in ('point_distance', 'azimuth_deg', 'equals_points', 'direction_deg')] + [re.compile(NS + 'rich_line::(%s)$' % '|'.join(METHODS))]
    ex.opaque_types = [re.compile(r'^boost::geometry::model::point<'), re.compile(LINE)]
    ex.templates = [templates]


class S:
    """Specification functions over an array of lines."""

    def __init__(self, ex, ir):
        self.ex, self.ir = ex, ir
        self.F = ex.fl.sort
        self.lt = ir.find_type(LINE)[0]
        self.L = ex.sort_of(self.lt)
        A = z3.ArraySort(z3.IntSort(), self.L)
        B, N = z3.BoolSort(), z3.IntSort()
        free = lambda n: the([f for f in ir.fns if f['q'] == NS + n], n)
        self.feq, self.fazi, self.fdir = free('equals_points'), free('azimuth_deg'), free('direction_deg')

        def meth(n, k):
            return the([f for f in ir.fns if f['q'] == NS + 'rich_line::' + n and len(f['p']) == k and f.get('const', True)], n)
        self.m = {(n, k): meth(n, k) for n, k in [(n, 0) for n in METHODS] + [('has_azimuth', 1), ('azimuth', 1)]}
        self.sumL = z3.Function('spec_sum_len', A, N, self.F)
        self.hasL = z3.Function('spec_has_len', A, N, B)
        # the first k lines of n together with the turns after them
        self.sumD = z3.Function('spec_sum_dir', A, N, N, self.F)
        self.sumAD = z3.Function('spec_sum_absdir', A, N, N, self.F)
        self.hasD = z3.Function('spec_has_dir', A, N, N, B)
        self.inf = ex.fl.const('inf')
        self.zero = ex.fl.const('0x0p+0')
        ex.spec = self
        x = z3.Const('x', self.F)
        l = z3.Const('l', self.L)
        # adding a number to zero gives the number (the sign of a zero is not looked at)
        ex.assume(fa(x, z3.Implies(self.valid(x), ex.fl.op('+', self.zero, x) == x), [ex.fl.op('+', self.zero, x)]))
        ex.assume(And(self.valid(self.zero), Not(self.valid(self.inf)), self.init(self.inf)))
        # what the lines answer is valid (property R01) and sums of valid numbers stay valid
        for h, g in (('has_length', 'length'), ('has_azimuth', 'azimuth'), ('has_directions', 'directions'), ('has_directions', 'absolute_directions')):
            ex.assume(fa(l, z3.Implies(self.c(h, l), self.valid(self.c(g, l))), [self.c(g, l)]))
        y = z3.Const('y', self.F)
        ex.assume(fa([x, y], z3.Implies(And(self.valid(x), self.valid(y)), self.valid(ex.fl.op('+', x, y))), [ex.fl.op('+', x, y)]))
        ex.assume(fa(x, z3.Implies(self.valid(x), self.valid(ex.fl.unary('fabs', x))), [ex.fl.unary('fabs', x)]))
        p, q = z3.Const('p', ex.sort_of(ir.deref(self.feq['p'][0]['t']))), z3.Const('q', ex.sort_of(ir.deref(self.feq['p'][0]['t'])))
        ex.assume(fa([p, q], z3.Implies(Not(ex.uf_call(self.feq, None, [p, q])), self.valid(ex.uf_call(self.fazi, None, [p, q]))), [ex.uf_call(self.fazi, None, [p, q])]))
        a, n, k = z3.Const('a', A), z3.Int('n'), z3.Int('k')
        ex.assume(fa([a, k], self.valid(self.sumL(a, k)), [self.sumL(a, k)]))
        ex.assume(fa([a, n, k], self.valid(self.sumD(a, n, k)), [self.sumD(a, n, k)]))
        ex.assume(fa([a, n, k], self.valid(self.sumAD(a, n, k)), [self.sumAD(a, n, k)]))

    def c(self, n, l, *a):
        return self.ex.uf_call(self.m[(n, len(a))], l, list(a))

    def init(self, x):
        return Not(self.ex.fl.isnan(x))

    def valid(self, x):
        return And(Not(self.ex.fl.isnan(x)), Not(self.ex.fl.isinf(x)))

    def lenOf(self, a, i):
        l = z3.Select(a, i)
        return z3.If(self.c('has_length', l), self.c('length', l), self.inf)

    def turns(self, a, i):
        """There is a turn between line i and the next one."""
        l, r = z3.Select(a, i), z3.Select(a, i + 1)
        n = self.c('size', l)
        return And(self.ex.uf_call(self.feq, None, [self.c('back', l), self.c('front', r)]), n >= 2, self.c('has_azimuth', l, n - 2), self.c('size', r) >= 2, self.c('has_azimuth', r, I(0)))

    def turn(self, a, i):
        l, r = z3.Select(a, i), z3.Select(a, i + 1)
        return self.ex.uf_call(self.fdir, None, [self.c('azimuth', l, self.c('size', l) - 2), self.c('azimuth', r, I(0))])

    def turnOf(self, a, i):
        return z3.If(self.turns(a, i), self.turn(a, i), self.inf)

    def unfold(self, a, n, k):
        ex = self.ex
        l = z3.Select(a, k - 1)
        has, hasd = self.c('has_length', l), self.c('has_directions', l)
        t = And(k - 1 + 1 < n, self.turns(a, k - 1))
        ex.assume(And(self.sumL(a, 0) == self.zero, Not(self.hasL(a, 0)), self.sumD(a, n, 0) == self.zero, self.sumAD(a, n, 0) == self.zero, Not(self.hasD(a, n, 0))))
        d = self.turn(a, k - 1)
        ex.assume(Implies(And(t), self.valid(d)))
        plus = lambda c, x, y: z3.If(c, ex.fl.op('+', x, y), x)
        ex.assume(Implies(k > 0, And(
            self.sumL(a, k) == plus(has, self.sumL(a, k - 1), self.c('length', l)),
            self.hasL(a, k) == z3.Or(self.hasL(a, k - 1), has),
            self.sumD(a, n, k) == plus(t, plus(hasd, self.sumD(a, n, k - 1), self.c('directions', l)), d),
            self.sumAD(a, n, k) == plus(t, plus(hasd, self.sumAD(a, n, k - 1), self.c('absolute_directions', l)), ex.fl.unary('fabs', d)),
            self.hasD(a, n, k) == z3.Or(self.hasD(a, n, k - 1), hasd, t))))

    def some(self, a, n):
        """The multi line has a point."""
        return self.ex.spec_some(a, n)

    def len_spec(self, a, n):
        return z3.If(self.hasL(a, n), self.sumL(a, n), self.inf)

    def azi_has(self, a, n):
        f, b = z3.Select(a, 0), z3.Select(a, n - 1)
        return And(n > 0, z3.If(n == 1, self.c('has_azimuth', f), Not(self.ex.uf_call(self.feq, None, [self.c('front', f), self.c('back', b)]))))

    def azi_spec(self, a, n):
        f, b = z3.Select(a, 0), z3.Select(a, n - 1)
        return z3.If(self.azi_has(a, n), z3.If(n == 1, self.c('azimuth', f), self.ex.uf_call(self.fazi, None, [self.c('front', f), self.c('back', b)])), self.inf)

    def dir_spec(self, a, n, f):
        return z3.If(self.hasD(a, n, n), f(a, n, n), self.inf)


def templates(ctx):
    ex = ctx.ex
    s = getattr(ex, 'spec', None)
    if s is None:
        return
    k = z3.Int('k')
    lvecs = ctx.of(cls=Vec, el=s.L)
    fvecs = ctx.of(cls=Vec, el=s.F)
    floats = [l for l in ctx.of(sort=s.F) if l.mod]
    bools = [l for l in ctx.of(sort=z3.BoolSort()) if l.mod]
    ints = ctx.ints(True)
    for v in lvecs:
        for n, cur, pre, _ in ints:
            for l in floats:
                def th(l=l, cur=cur, v=v):
                    s.unfold(v.cur().arr, v.cur().len, cur())
                    return l.cur() == s.sumL(v.cur().arr, cur())
                yield ('%s is the length of the first %s lines' % (l.name, n), th, True)
                for g, gn in ((s.sumD, 'directions'), (s.sumAD, 'absolute directions')):
                    def th(l=l, g=g, cur=cur, v=v):
                        s.unfold(v.cur().arr, v.cur().len, cur())
                        return l.cur() == g(v.cur().arr, v.cur().len, cur())
                    yield ('%s are the %s of the first %s lines' % (l.name, gn, n), th, True)
            for l in bools:
                def th(l=l, cur=cur, v=v):
                    s.unfold(v.cur().arr, v.cur().len, cur())
                    return l.cur() == s.hasL(v.cur().arr, cur())
                yield ('%s: some length in the first %s lines' % (l.name, n), th, True)

                def th(l=l, cur=cur, v=v):
                    s.unfold(v.cur().arr, v.cur().len, cur())
                    return l.cur() == s.hasD(v.cur().arr, v.cur().len, cur())
                yield ('%s: some direction in the first %s lines' % (l.name, n), th, True)

            def th(cur=cur, v=v):
                s.unfold(v.cur().arr, v.cur().len, cur())
                return Not(s.hasL(v.cur().arr, cur()))
            yield ('no length in the first %s lines' % n, th, True)

            def th(cur=cur, v=v):
                s.unfold(v.cur().arr, v.cur().len, cur())
                return Not(s.hasD(v.cur().arr, v.cur().len, cur()))
            yield ('no direction in the first %s lines' % n, th, True)

            yield ('no points in the lines before %s' % n, lambda cur=cur, v=v: Implies(cur() > 0, s.c('empty', z3.Select(v.cur().arr, 0))), True)

        for fv in fvecs:
            if not fv.mod:
                continue
            for g, gn in ((s.lenOf, 'lengths'), (s.turnOf, 'turns')):
                def full(fv=fv, g=g, v=v):
                    w = fv.cur()
                    return forall([k], z3.Implies(z3.And(k >= 0, k < w.len), z3.Select(w.arr, k) == g(v.cur().arr, k)), patterns=[z3.Select(w.arr, k)])
                yield ('%s elements are the %s of the lines' % (fv.name, gn), full, True)


K = z3.Int('k')


def parts(ex, v):
    return find_base(ex, v, r'geometry::rich_line_data$'), find_base(ex, v, r'geometry::multi_rich_line$').d['_rich_lines']


def totals(s, data, v):
    a, n = v.arr, v.len
    return [('length equals recomputation', '_length', s.len_spec(a, n)), ('azimuth equals recomputation', '_azimuth', s.azi_spec(a, n)),
            ('directions equal recomputation', '_directions', s.dir_spec(a, n, s.sumD)), ('absolute directions equal recomputation', '_absolute_directions', s.dir_spec(a, n, s.sumAD))]


def el(s, L, g, a):
    return fa(K, z3.Implies(z3.And(K >= 0, K < L.len), z3.Select(L.arr, K) == g(a, K)), [z3.Select(L.arr, K)])


def lists(s, data, v, full):
    L, Z, a, n = data.d['_lengths'], data.d['_azimuths'], v.arr, v.len
    m = z3.If(n >= 1, n - 1, I(0))
    opt = lambda l, c: c if full else z3.Or(l == 0, c)
    return [('one length per line', opt(L.len, L.len == n)), ('one turn between every two lines', opt(Z.len, Z.len == m)),
            ('each cached length is the length of its line', el(s, L, s.lenOf, a)), ('each cached turn is the turn between its lines', el(s, Z, s.turnOf, a))]


def eager_inv(ex, s, w):
    data, v = parts(ex, w)
    return lists(s, data, v, True) + [(nm, z3.Or(data.d[f] == sp, And(v.len == 0, Not(s.init(data.d[f]))))) for nm, f, sp in totals(s, data, v)] + [('directions are known together', s.init(data.d['_directions']) == s.init(data.d['_absolute_directions']))]


def lazy_inv(ex, s, w):
    data, v = parts(ex, w)
    n = v.len
    return lists(s, data, v, False) + [(nm + ' or is not initialised', z3.Or(Not(s.init(data.d[f])), data.d[f] == sp)) for nm, f, sp in totals(s, data, v)] + [
        ('a known length comes with one length per line', Implies(s.init(data.d['_length']), data.d['_lengths'].len == n)),
        ('known directions come with the turns', Implies(And(n >= 1, Or(s.init(data.d['_directions']), s.init(data.d['_absolute_directions']))), data.d['_azimuths'].len == n - 1)),
        ('directions are known together', s.init(data.d['_directions']) == s.init(data.d['_absolute_directions']))]


INV = {'eager': eager_inv, 'lazy': lazy_inv, '': lambda ex, s, w: []}


def pre_lines(ex, s, v):
    """Every line has a point."""
    l = z3.Const('l', s.L)
    ex.assume(fa(l, And(s.c('size', l) >= 0, s.c('empty', l) == (s.c('size', l) == 0)), [s.c('size', l)]))
    ex.assume(fa(l, s.c('empty', l) == (s.c('size', l) == 0), [s.c('empty', l)]))
    ex.assume(fa(K, z3.Implies(And(K >= 0, K < v.len), s.c('size', z3.Select(v.arr, K)) >= 1), [z3.Select(v.arr, K)]))
    s.unfold(v.arr, v.len, I(0))
    # lemma (by induction over the definition): one line with a value is enough
    a, n = v.arr, v.len
    ex.assume(fa(K, z3.Implies(And(K >= 0, K < n), And(Implies(s.c('has_length', z3.Select(a, K)), s.hasL(a, n)),
        Implies(Or(s.c('has_directions', z3.Select(a, K)), And(K + 1 < n, s.turns(a, K))), s.hasD(a, n, n)))), [z3.Select(a, K)]))


def oblige_all(ex, inv, what):
    for nm, f in inv:
        ex.oblige('%s: %s' % (what, nm), f, None, 'post', assume=False)


def kind_of(ex, t):
    t = ex.ir.T(ex.ir.deref(t))
    m = re.search(r'geometry::(eager_|lazy_|)multi_rich_line$', t['n'] if t['k'] == 'rec' else '')
    return m.group(1).rstrip('_') if m else None


def units():
    us = []

    def unit(name, prove, **kw):
        us.append(Unit(name, prove, driver='ml', fns=[name], **kw))

    def lines_in(ex, v, t):
        if kind_of(ex, t) is not None:
            return find_base(ex, v, r'geometry::multi_rich_line$').d['_rich_lines']
        return v if isinstance(v, Vec) and v.arr.sort().range() == ex.spec.L else None

    def setup(ex, ir, fn, this=None):
        s = S(ex, ir)
        args = arg_syms(ex, fn)
        srcs = []
        for p, a in zip(fn['p'], args):
            v = ex.load(a)
            k = kind_of(ex, p['t'])
            ls = lines_in(ex, v, p['t'])
            if ls is not None:
                pre_lines(ex, s, ls)
                srcs.append(ls)
            if k:
                for _, f in INV[k](ex, s, v):
                    ex.assume(f)
        return s, args, srcs

    def same(ex, a, b):
        return And(a.len == b.len, fa(K, z3.Implies(z3.And(K >= 0, K < a.len), z3.Select(a.arr, K) == z3.Select(b.arr, K))))

    def ctor(cls, sg, src=True):
        kind = cls.split('_')[0]

        def prove(ex, ir):
            fn = ir.sel(NS + cls + '::ctor', sg)
            s, args, srcs = setup(ex, ir, fn)
            mark(ex, cls)
            for k, w in outcomes(ex, call(ex, fn, None, args)):
                ex.oblige('%s(%s) does not throw' % (cls, sg), z3.BoolVal(k != 'throw'), None, 'post', assume=False)
                if k == 'throw':
                    continue
                v = parts(ex, w)[1]
                s.unfold(v.arr, v.len, I(0))
                oblige_all(ex, INV[kind](ex, s, w), '%s(%s)' % (cls, sg))
                for x in srcs:
                    ex.oblige('%s(%s): the lines of the source' % (cls, sg), same(ex, v, x), None, 'post', assume=False)
        unit('%s(%s)' % (cls, sg), prove)

    def assign(cls, sg):
        kind = cls.split('_')[0]

        def prove(ex, ir):
            fn = ir.sel(NS + cls + '::operator=', sg)
            s, args, srcs = setup(ex, ir, fn)
            this = sym_root(ex, fn['rec'], 'this')
            v0 = ex.read(this)
            pre_lines(ex, s, parts(ex, v0)[1])
            for _, f in INV[kind](ex, s, v0):
                ex.assume(f)
            mark(ex, cls)
            for k, _ in outcomes(ex, call(ex, fn, this, args)):
                ex.oblige('%s = (%s) does not throw' % (cls, sg), z3.BoolVal(k != 'throw'), None, 'post', assume=False)
                if k == 'throw':
                    continue
                w = ex.read(this)
                v = parts(ex, w)[1]
                s.unfold(v.arr, v.len, I(0))
                oblige_all(ex, INV[kind](ex, s, w), '%s = (%s)' % (cls, sg))
                ex.oblige('%s = (%s): the lines of the source' % (cls, sg), same(ex, v, srcs[0]), None, 'post', assume=False)
        unit('%s::operator=(%s)' % (cls, sg), prove)

    def accessor(cls, name, spec, plain=False):
        kind = '' if plain else cls.split('_')[0]

        def prove(ex, ir):
            fn = ir.sel(NS + cls + '::' + name, '')
            s, args, srcs = setup(ex, ir, fn)
            this = sym_root(ex, fn['rec'], 'this')
            v0 = ex.read(this)
            ls = v0.d['_rich_lines'] if plain else parts(ex, v0)[1]
            pre_lines(ex, s, ls)
            for _, f in INV[kind](ex, s, v0):
                ex.assume(f)
            a, n = ls.arr, ls.len
            mark(ex, name)
            some = False
            has, val = spec(s, a, n)
            for k, r in outcomes(ex, call(ex, fn, this, args)):
                s.unfold(a, n, n)
                if k == 'throw':
                    ex.oblige('%s throws only without a value' % name, And(z3.BoolVal(plain and val is not None), Not(has)), None, 'post', assume=False)
                    continue
                some = True
                r = ex.load(r)
                if val is None:
                    if kind == 'eager':
                        has = And(n > 0, has)
                    ex.oblige('%s() is the recomputed answer' % name, r == has, None, 'post', assume=False)
                elif plain:
                    ex.oblige('%s() answers with the recomputed value' % name, And(has, r == val), None, 'post', assume=False)
                else:
                    ex.oblige('%s() is the recomputed value' % name, Or(r == z3.If(has, val, s.inf), And(n == 0, Not(s.init(r)))), None, 'post', assume=False)
                if not plain:
                    w = ex.read(this)
                    oblige_all(ex, INV[kind](ex, s, w), name + ' keeps the invariant')
                    ex.oblige('%s keeps the lines' % name, same(ex, ls, parts(ex, w)[1]), None, 'post', assume=False)
            ex.oblige('%s returns a value' % name, z3.BoolVal(some), None, 'post', assume=False)
        unit('%s::%s()' % (cls, name), prove)

    SP = [('has_length', lambda s, a, n: (s.hasL(a, n), None)), ('length', lambda s, a, n: (s.hasL(a, n), s.sumL(a, n))),
          ('has_azimuth', lambda s, a, n: (s.azi_has(a, n), None)), ('azimuth', lambda s, a, n: (s.azi_has(a, n), s.azi_spec(a, n))),
          ('has_directions', lambda s, a, n: (s.hasD(a, n, n), None)), ('directions', lambda s, a, n: (s.hasD(a, n, n), s.sumD(a, n, n))), ('absolute_directions', lambda s, a, n: (s.hasD(a, n, n), s.sumAD(a, n, n)))]
    for nm, sp in SP:
        accessor('multi_rich_line', nm, sp, True)
        accessor('lazy_multi_rich_line', nm, sp)
        accessor('eager_multi_rich_line', nm, sp)
    RL, VL = 'rich_line', 'vector'
    for cls in ('eager_multi_rich_line', 'lazy_multi_rich_line'):
        oth = 'lazy_multi_rich_line' if cls.startswith('eager') else 'eager_multi_rich_line'
        for sg in ['', VL, VL + ', const allocator&', 'const %s&' % cls, '%s&&' % cls, 'const multi_rich_line&', 'const %s&' % oth]:
            ctor(cls, sg)
        for sg in ['const %s&' % cls, '%s&&' % cls, 'const multi_rich_line&', 'const %s&' % oth]:
            assign(cls, sg)
    return us


HARNESS = dict(src='R02.cpp', repo_src=['src/library/src/geometry/cache.cpp'], time=15, cases=400000, rule='random sequences of construction, conversion, assignment, moves and merging on eager and lazy multi lines of plain, lazy and eager lines (grid, repeated and real points, connected and separate lines, cartesian and geographic), every attribute compared with its recomputation from the points; non-trivial: at least two lines, distinct operation sequence')
ASSUMPTIONS = ['the attributes of a single line are pure functions of the line and valid where they exist (property R01)', 'point_distance, azimuth_deg, direction_deg and equals_points are pure functions of their arguments (uninterpreted)', 'floating-point operations are uninterpreted functions, except that 0 + x = x and that sums and absolute values of valid numbers are valid (no overflow)', 'induction lemma over the definition: one line with a length (direction, turn) is enough for the multi line to have one', 'vectors hold fewer than 2^61 elements', 'every line of a multi line has at least one point', 'obligations cover cartesian multi lines of plain lines; the other instantiations of the same templates are covered by the harness only']
BOUNDED = ['merge(lines): harness only', 'multi lines of lazy or eager lines, geographic and spherical instantiations, conversion from multi lines of another line type and from linestrings: harness only']
