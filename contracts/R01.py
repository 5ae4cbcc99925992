"""R01: cached attributes of rich lines always equal their recomputation from the points."""
from lib import *
from verify import Unit
import re

NS = 'map_matching_2::geometry::'
DRIVERS = {'rl': ('R01_driver.cpp', [NS + '(rich_line|rich_line_data|eager_rich_line|lazy_rich_line)::.*'], [])}


def configure(ex):
    ex.pure = [re.compile(NS + x) for x in ('point_distance', 'azimuth_deg', 'equals_points', 'direction_deg')]
    ex.opaque_types = [re.compile(r'^boost::geometry::model::point<')]
    ex.templates = [templates]


class S:
    """Specification functions over an array of points."""

    def __init__(self, ex, ir):
        self.ex, self.ir = ex, ir
        f = lambda n: the([f for f in ir.fns if f['q'] == NS + n], n)
        self.F = ex.fl.sort
        self.pt = ir.find_type(r'^boost::geometry::model::point<')[0]
        self.P = ex.sort_of(self.pt)
        A = z3.ArraySort(z3.IntSort(), self.P)
        B = z3.BoolSort()
        self.fdist = f('point_distance')
        self.fazi = f('azimuth_deg')
        self.feq = f('equals_points')
        self.fdir = f('direction_deg')
        self.A = A
        self.sumL = z3.Function('spec_sum_len', A, z3.IntSort(), self.F)
        self.hasL = z3.Function('spec_has_len', A, z3.IntSort(), B)
        self.sumD = z3.Function('spec_sum_dir', A, z3.IntSort(), self.F)
        self.sumAD = z3.Function('spec_sum_absdir', A, z3.IntSort(), self.F)
        self.hasD = z3.Function('spec_has_dir', A, z3.IntSort(), B)
        self.inf = ex.fl.const('inf')
        self.nan = ex.fl.const('nan')
        self.zero = ex.fl.const('0x0p+0')
        ex.spec = self

    def init(self, x):
        return Not(self.ex.fl.isnan(x))

    def valid(self, x):
        return And(Not(self.ex.fl.isnan(x)), Not(self.ex.fl.isinf(x)))

    def eq(self, p, q):
        return self.ex.uf_call(self.feq, None, [p, q])

    def segL(self, a, i):
        p, q = z3.Select(a, i), z3.Select(a, i + 1)
        return z3.If(self.eq(p, q), self.inf, self.ex.uf_call(self.fdist, None, [p, q]))

    def segA(self, a, i):
        p, q = z3.Select(a, i), z3.Select(a, i + 1)
        return z3.If(self.eq(p, q), self.inf, self.ex.uf_call(self.fazi, None, [p, q]))

    def d(self, a, i):
        return self.ex.uf_call(self.fdir, None, [self.segA(a, i), self.segA(a, i + 1)])

    def unfold(self, a, k):
        """Definition of the folds at index k (from k-1) and at 0."""
        ex = self.ex
        s = self.segL(a, k - 1)
        okd = And(self.valid(self.segA(a, k - 1)), self.valid(self.segA(a, k)))
        ex.assume(And(self.sumL(a, 0) == self.zero, Not(self.hasL(a, 0)), self.sumD(a, 0) == self.zero, self.sumAD(a, 0) == self.zero, Not(self.hasD(a, 0))))
        ex.assume(Implies(k > 0, And(
            self.sumL(a, k) == z3.If(self.valid(s), ex.fl.op('+', self.sumL(a, k - 1), s), self.sumL(a, k - 1)),
            self.hasL(a, k) == z3.Or(self.hasL(a, k - 1), self.valid(s)),
            self.sumD(a, k) == z3.If(okd, ex.fl.op('+', self.sumD(a, k - 1), self.d(a, k - 1)), self.sumD(a, k - 1)),
            self.sumAD(a, k) == z3.If(okd, ex.fl.op('+', self.sumAD(a, k - 1), ex.fl.unary('fabs', self.d(a, k - 1))), self.sumAD(a, k - 1)),
            self.hasD(a, k) == z3.Or(self.hasD(a, k - 1), okd))))

    def ext(self, a, b, n):
        """Extensionality of the folds over the first n points (lemma 'folds depend only on the points they cover')."""
        if a.eq(b):
            return
        d = self.ex.fresh(z3.IntSort(), 'diff')
        same = And(*[g(a, m) == g(b, m) for g, m in ((self.sumL, n - 1), (self.hasL, n - 1), (self.sumD, n - 2), (self.sumAD, n - 2), (self.hasD, n - 2))])
        self.ex.assume(Or(same, And(d >= 0, d < n, z3.Select(a, d) != z3.Select(b, d))))

    def len_spec(self, a, n):
        return z3.If(z3.And(n >= 2, self.hasL(a, n - 1)), self.sumL(a, n - 1), self.inf)

    def azi_spec(self, a, n):
        p, q = z3.Select(a, 0), z3.Select(a, n - 1)
        return z3.If(z3.And(n >= 2, Not(self.eq(p, q))), self.ex.uf_call(self.fazi, None, [p, q]), self.inf)

    def dir_spec(self, a, n, f):
        return z3.If(z3.And(n >= 3, self.hasD(a, n - 2)), f(a, n - 2), self.inf)


def templates(ctx):
    """Candidate invariants: a partially computed fold equals the spec fold so far; element lists agree with the spec."""
    ex = ctx.ex
    s = getattr(ex, 'spec', None)
    if s is None:
        return
    k = z3.Int('k')
    pvecs = ctx.of(cls=Vec, el=s.P)
    fvecs = ctx.of(cls=Vec, el=s.F)
    floats = [l for l in ctx.of(sort=s.F) if l.mod]
    bools = [l for l in ctx.of(sort=z3.BoolSort()) if l.mod]
    ints = ctx.ints(True)
    for pv in pvecs:
        for l in floats:
            for n, cur, pre, _ in ints:
                for g, gn in ((s.sumL, 'length'), (s.sumD, 'directions'), (s.sumAD, 'absolute directions')):
                    def th(l=l, g=g, cur=cur, pv=pv):
                        s.unfold(pv.cur().arr, cur())
                        return l.cur() == g(pv.cur().arr, cur())
                    yield ('%s is the %s of the first %s' % (l.name, gn, n), th, True)
        for l in bools:
            for n, cur, pre, _ in ints:
                for g, gn in ((s.hasL, 'length'), (s.hasD, 'direction')):
                    def th(l=l, g=g, cur=cur, pv=pv):
                        s.unfold(pv.cur().arr, cur())
                        return l.cur() == g(pv.cur().arr, cur())
                    yield ('%s: some %s in the first %s' % (l.name, gn, n), th, True)
        for fv in fvecs:
            if not fv.mod:
                continue
            for g, gn in ((s.segL, 'length'), (s.segA, 'azimuth')):
                def full(fv=fv, g=g, pv=pv):
                    v = fv.cur()
                    return forall([k], z3.Implies(z3.And(k >= 0, k < v.len), z3.Select(v.arr, k) == g(pv.cur().arr, k)), patterns=[z3.Select(v.arr, k)])

                def part(fv=fv, g=g, pv=pv):
                    v = fv.cur()
                    return forall([k], z3.Implies(z3.And(k >= 0, k < v.len), z3.Or(z3.Not(s.init(z3.Select(v.arr, k))), z3.Select(v.arr, k) == g(pv.cur().arr, k))), patterns=[z3.Select(v.arr, k)])
                yield ('%s elements are segment %ss' % (fv.name, gn), full, True)
                yield ('%s elements are uninitialised or segment %ss' % (fv.name, gn), part, True)
                for n, cur, pre, _ in ints:
                    for off in (0, 1):
                        def upto(fv=fv, g=g, pv=pv, cur=cur, off=off):
                            v = fv.cur()
                            if off == 1:
                                return fa(k, z3.Implies(z3.And(k >= 0, k < v.len, k < z3.If(cur() > 0, cur() + 1, 0)), z3.Select(v.arr, k) == g(pv.cur().arr, k)), [z3.Select(v.arr, k)])
                            return forall([k], z3.Implies(z3.And(k >= 0, k < v.len, k < cur() + off), z3.Select(v.arr, k) == g(pv.cur().arr, k)), patterns=[z3.Select(v.arr, k)])
                        yield ('%s elements below %s+%d are segment %ss' % (fv.name, n, off, gn), upto, True)


def parts(ex, v):
    data = find_base(ex, v, r'geometry::rich_line_data$')
    line = find_base(ex, v, r'geometry::rich_line$')
    pts = find_base(ex, line.d['_line'], r'^std::vector$')
    return data, pts


def lists_full(ex, s, data, pts):
    k = z3.Int('k')
    L, Z, a, n = data.d['_lengths'], data.d['_azimuths'], pts.arr, pts.len
    m = z3.If(n >= 1, n - 1, I(0))
    return [('one length per segment', L.len == m), ('one azimuth per segment', Z.len == m),
            ('each cached length is the length of its segment', fa(k, z3.Implies(z3.And(k >= 0, k < L.len), z3.Select(L.arr, k) == s.segL(a, k)), [z3.Select(L.arr, k)])),
            ('each cached azimuth is the azimuth of its segment', fa(k, z3.Implies(z3.And(k >= 0, k < Z.len), z3.Select(Z.arr, k) == s.segA(a, k)), [z3.Select(Z.arr, k)]))]


def totals(ex, s, data, pts):
    a, n = pts.arr, pts.len
    return [('length equals recomputation', '_length', s.len_spec(a, n)), ('azimuth equals recomputation', '_azimuth', s.azi_spec(a, n)),
            ('directions equal recomputation', '_directions', s.dir_spec(a, n, s.sumD)), ('absolute directions equal recomputation', '_absolute_directions', s.dir_spec(a, n, s.sumAD))]


def eager_inv(ex, s, v):
    data, pts = parts(ex, v)
    return lists_full(ex, s, data, pts) + [(nm, z3.Or(data.d[f] == sp, z3.And(pts.len == 0, Not(s.init(data.d[f]))))) for nm, f, sp in totals(ex, s, data, pts)]


def lazy_inv(ex, s, v):
    """Every attribute is either not initialised or equal to its recomputation."""
    k = z3.Int('k')
    data, pts = parts(ex, v)
    a, n = pts.arr, pts.len
    out = [(nm + ' or is not initialised', z3.Or(Not(s.init(data.d[f])), data.d[f] == sp)) for nm, f, sp in totals(ex, s, data, pts)]
    m = z3.If(n >= 1, n - 1, I(0))
    for f, g, nm in (('_lengths', s.segL, 'length'), ('_azimuths', s.segA, 'azimuth')):
        L = data.d[f]
        out.append(('no %s list or one %s per segment' % (nm, nm), z3.Or(L.len == 0, L.len == m)))
        out.append(('each cached %s is not initialised or the %s of its segment' % (nm, nm), fa(k, z3.Implies(z3.And(k >= 0, k < L.len), z3.Or(Not(s.init(z3.Select(L.arr, k))), z3.Select(L.arr, k) == g(a, k))), [z3.Select(L.arr, k)])))
    return out


def rel_inv(ex, s, v):
    """Invariant of lazy lines and of data handed to a line: as lazy_inv, and an initialised total implies its per-segment list."""
    data, pts = parts(ex, v)
    n = pts.len
    return lazy_inv(ex, s, v) + [
        ('a known length comes with one length per segment', Implies(And(s.init(data.d['_length']), n >= 2), data.d['_lengths'].len == n - 1)),
        ('known directions come with one azimuth per segment', Implies(And(Or(s.init(data.d['_directions']), s.init(data.d['_absolute_directions'])), n >= 2), data.d['_azimuths'].len == n - 1)),
        ('a known length comes with known segment lengths', fa(K, z3.Implies(z3.And(K >= 0, K < data.d['_lengths'].len, s.init(data.d['_length'])), z3.Select(data.d['_lengths'].arr, K) == s.segL(pts.arr, K)), [z3.Select(data.d['_lengths'].arr, K)])),
        ('known directions come with known segment azimuths', fa(K, z3.Implies(z3.And(K >= 0, K < data.d['_azimuths'].len, n >= 2, s.init(data.d['_directions']), s.init(data.d['_absolute_directions'])), z3.Select(data.d['_azimuths'].arr, K) == s.segA(pts.arr, K)), [z3.Select(data.d['_azimuths'].arr, K)])),
    ]


K = z3.Int('k')


def assume_inv(ex, inv):
    for _, f in inv:
        ex.assume(f)


def oblige_all(ex, inv, what, kind='post', node=None):
    for nm, f in inv:
        ex.oblige('%s: %s' % (what, nm), f, node, kind, assume=False)


def same_points(ex, v, w):
    a, b = parts(ex, v)[1], parts(ex, w)[1]
    return And(a.len == b.len, a.arr == b.arr)


FIELDS = ['_length', '_azimuth', '_directions', '_absolute_directions', '_lengths', '_azimuths']


def havoc_data(ex, lv, fields):
    """Contract application: the mutable attribute fields take unknown values."""
    dl = base_of(ex, lv, r'geometry::rich_line_data$')
    cur = ex.read(dl)
    for f in fields:
        v = cur.d[f]
        if isinstance(v, Vec):
            l = ex.fresh(z3.IntSort(), f + '.len')
            ex.assume(And(l >= 0, l <= MAXLEN))
            ex.write(dl.sub(f), v.with_(len=l, arr=ex.fresh(v.arr.sort(), f + '.arr')))
        else:
            ex.write(dl.sub(f), ex.fresh(v.sort(), f))


def contracts(ex, skip=()):
    """Contracts of the compute/rebuild methods, used at their call sites (each is proved by a unit of its own)."""
    s = ex.spec

    def isfn(name):
        return lambda fn: fn['q'] == NS + 'rich_line_data::' + name and fn['id'] not in skip and len(fn['p']) >= 1

    def compute(ex, fn, o, args, n):
        oblige_all(ex, rel_inv(ex, s, ex.read(args[0])), 'requires of _compute', 'pre', n)
        havoc_data(ex, args[0], FIELDS)
        assume_inv(ex, eager_inv(ex, s, ex.read(args[0])))

    def rebuild(ex, fn, o, args, n):
        s.flags = [ex.load(a) for a in args[1:]]
        oblige_all(ex, rebuild_pre(ex, s, ex.read(args[0]), s.flags), 'requires of _rebuild', 'pre', n)
        havoc_data(ex, args[0], FIELDS)
        assume_inv(ex, eager_inv(ex, s, ex.read(args[0])))
    ex.contracts.append((isfn('_compute'), compute))
    ex.contracts.append((isfn('_rebuild'), rebuild))


def rebuild_pre(ex, s, v, flags):
    """Lists empty or partially known and right; a total that is not rebuilt is right."""
    data, pts = parts(ex, v)
    a, n = pts.arr, pts.len
    out = lazy_lists(ex, s, data, pts)
    L, Z, m = data.d['_lengths'], data.d['_azimuths'], z3.If(n >= 1, n - 1, I(0))
    fl, fz, fd = flags
    full = lists_full(ex, s, data, pts)
    for nm, f, sp in totals(ex, s, data, pts):
        fl_ = fl if f == '_length' else fz if f == '_azimuth' else fd
        out.append((nm + ' unless rebuilt', Implies(Not(fl_), Or(data.d[f] == sp, And(n == 0, Not(s.init(data.d[f])))))))
    out.append(('lists are known unless rebuilt', Implies(Not(And(fl, fd)), And(*[f for _, f in full[:2]]))))
    out += [(nm + ' unless rebuilt', Implies(Not(And(fl, fd)), f)) for nm, f in full[2:]]
    return out


def lazy_lists(ex, s, data, pts):
    k = z3.Int('k')
    a, n = pts.arr, pts.len
    m = z3.If(n >= 1, n - 1, I(0))
    out = []
    for f, g, nm in (('_lengths', s.segL, 'length'), ('_azimuths', s.segA, 'azimuth')):
        L = data.d[f]
        out.append(('no %s list or one %s per segment' % (nm, nm), z3.Or(L.len == 0, L.len == m)))
        out.append(('each cached %s is not initialised or the %s of its segment' % (nm, nm), fa(k, z3.Implies(z3.And(k >= 0, k < L.len), z3.Or(Not(s.init(z3.Select(L.arr, k))), z3.Select(L.arr, k) == g(a, k))), [z3.Select(L.arr, k)])))
    return out


def data_lv(ex, obj):
    return base_of(ex, obj, r'geometry::rich_line_data$')


def lines_of(ex, fn):
    """Indices of the parameters that are rich lines, with their class."""
    out = []
    for i, p in enumerate(fn['p']):
        m = re.search(r'geometry::(eager|lazy|)_?rich_line$', ex.ir.T(ex.ir.deref(p['t']))['n'] if ex.ir.T(ex.ir.deref(p['t']))['k'] == 'rec' else '')
        if m:
            out.append((i, m.group(1)))
    return out


def units():
    us = []

    def unit(name, prove, **kw):
        us.append(Unit(name, prove, driver='rl', fns=[name], **kw))

    def setup(ex, ir, skip=()):
        s = S(ex, ir)
        contracts(ex, skip)
        return s

    def assume_args(ex, s, fn, args):
        for i, c in lines_of(ex, fn):
            if c == 'eager':
                assume_inv(ex, eager_inv(ex, s, ex.read(args[i])))
            elif c == 'lazy':
                assume_inv(ex, rel_inv(ex, s, ex.read(args[i])))
            if c:
                s.unfold(parts(ex, ex.read(args[i]))[1].arr, I(0))

    INV = {'eager': eager_inv, 'lazy': rel_inv}

    # --- constructors
    def ctor(cls, ssig, data_arg=None):
        kind = cls.split('_')[0]

        def prove(ex, ir):
            s = setup(ex, ir)
            fn = ir.sel(NS + cls + '::ctor', ssig)
            args = arg_syms(ex, fn)
            assume_args(ex, s, fn, args)
            mark(ex, cls + ' ctor')
            srcs = [(i, ex.read(args[i])) for i, c in lines_of(ex, fn)]
            for k, v in outcomes(ex, call(ex, fn, None, args)):
                if k == 'throw':
                    continue
                s.unfold(parts(ex, v)[1].arr, I(0))
                oblige_all(ex, INV[kind](ex, s, v), '%s(%s)' % (cls, ssig))
                for i, src in srcs:
                    pl = find_base(ex, src, r'geometry::rich_line$').d['_line']
                    pts = find_base(ex, pl, r'^std::vector$')
                    p2 = parts(ex, v)[1]
                    ex.oblige('%s(%s): same points as the source' % (cls, ssig), And(p2.len == pts.len, fa(K, z3.Implies(z3.And(K >= 0, K < pts.len), z3.Select(p2.arr, K) == z3.Select(pts.arr, K)))), None, 'post', assume=False)
        unit('%s(%s)' % (cls, ssig or ''), prove)
    for cls in ('eager_rich_line', 'lazy_rich_line'):
        oth = 'lazy_rich_line' if cls.startswith('eager') else 'eager_rich_line'
        for sg in ('', 'linestring', 'linestring, const allocator&', 'const %s&' % cls, 'const %s&, const allocator&' % cls, '%s&&' % cls, '%s&&, const allocator&' % cls, 'const rich_line&', 'const rich_line&, const allocator&', 'const %s&' % oth, 'const %s&, const allocator&' % oth):
            ctor(cls, sg)

    # --- assignments
    def assign(cls, ssig):
        kind = cls.split('_')[0]

        def prove(ex, ir):
            s = setup(ex, ir)
            fn = ir.sel(NS + cls + '::operator=', ssig)
            this = sym_root(ex, fn['rec'], 'this')
            assume_inv(ex, INV[kind](ex, s, ex.read(this)))
            args = arg_syms(ex, fn)
            assume_args(ex, s, fn, args)
            src = ex.read(args[0])
            mark(ex, cls + ' operator=')
            for k, v in outcomes(ex, call(ex, fn, this, args)):
                if k == 'throw':
                    continue
                w = ex.read(this)
                s.unfold(parts(ex, w)[1].arr, I(0))
                oblige_all(ex, INV[kind](ex, s, w), '%s = (%s)' % (cls, ssig))
                b = find_base(ex, src, r'geometry::rich_line$')
                pts = find_base(ex, b.d['_line'] if b is not None else src, r'^std::vector$')
                p2 = parts(ex, w)[1]
                ex.oblige('%s = (%s): same points as the source' % (cls, ssig), And(p2.len == pts.len, fa(K, z3.Implies(z3.And(K >= 0, K < pts.len), z3.Select(p2.arr, K) == z3.Select(pts.arr, K)))), None, 'post', assume=False)
        unit('%s::operator=(%s)' % (cls, ssig), prove)
    for cls in ('eager_rich_line', 'lazy_rich_line'):
        oth = 'lazy_rich_line' if cls.startswith('eager') else 'eager_rich_line'
        for sg in ('const %s&' % cls, '%s&&' % cls, 'linestring&&', 'const rich_line&', 'const %s&' % oth):
            assign(cls, sg)

    # --- compute / rebuild
    def compute(kind, name):
        def prove(ex, ir):
            s = S(ex, ir)
            fs = ir.find(NS + 'rich_line_data::' + name, pred=lambda f: ir.short(f['p'][0]['t']) == 'const %s_rich_line&' % kind)
            fn = the(fs, name)
            contracts(ex, skip=(fn['id'],))
            obj = sym_root(ex, ir.deref(fn['p'][0]['t']), 'line')
            flags = [ex.fresh(z3.BoolSort(), 'flag') for _ in fn['p'][1:]]
            v0 = ex.read(obj)
            assume_inv(ex, rel_inv(ex, s, v0) if name == '_compute' else rebuild_pre(ex, s, v0, flags))
            s.unfold(parts(ex, v0)[1].arr, I(0))
            mark(ex, name)
            for k, v in outcomes(ex, call(ex, fn, data_lv(ex, obj), [obj] + flags)):
                w = ex.read(obj)
                ex.oblige(name + ' does not throw', z3.BoolVal(k != 'throw'), None, 'post', assume=False)
                oblige_all(ex, eager_inv(ex, s, w), name)
                ex.oblige(name + ' keeps the points', same_points(ex, v0, w), None, 'post', assume=False)
        unit('rich_line_data::%s(%s)' % (name, kind), prove)
    compute('eager', '_compute')
    compute('eager', '_rebuild')

    # --- lazy accessors
    def accessor(cls, name, spec, pos):
        kind = cls.split('_')[0]

        def prove(ex, ir):
            s = setup(ex, ir)
            fn = ir.sel(NS + cls + '::' + name, 'unsigned long' if pos else '')
            this = sym_root(ex, fn['rec'], 'this')
            v0 = ex.read(this)
            assume_inv(ex, INV[kind](ex, s, v0))
            pts = parts(ex, v0)[1]
            a, n = pts.arr, pts.len
            s.unfold(a, I(0))
            args = arg_syms(ex, fn)
            i = args[0] if pos else None
            if pos:
                ex.assume(i < 2 ** 62)
            mark(ex, name)
            extra = 2 if 'direction' in name else 1
            some = False
            for k, v in outcomes(ex, call(ex, fn, this, args)):
                if k == 'throw':
                    if pos:
                        ex.oblige('%s(pos) throws only out of range' % name, Not(And(n >= 1, i + extra < n)), None, 'post', assume=False)
                    else:
                        ex.oblige('%s() does not throw' % name, z3.BoolVal(False), None, 'post', assume=False)
                    continue
                some = True
                w = ex.read(this)
                if pos:
                    ex.oblige('%s(pos) answers only in range' % name, i + extra < n, None, 'post', assume=False)
                v = ex.load(v)
                sp = spec(ex, s, a, n, i)
                if name.endswith('direction'):
                    sp = z3.If(And(s.valid(s.segA(a, i)), s.valid(s.segA(a, i + 1))), sp, v)
                ex.oblige('%s is the recomputed value' % name, v == sp if z3.is_bool(v) else z3.Or(v == sp, z3.And(n == 0, Not(s.init(v)))), None, 'post', assume=False)
                oblige_all(ex, INV[kind](ex, s, w), name + ' keeps the invariant')
                ex.oblige(name + ' keeps the points', same_points(ex, v0, w), None, 'post', assume=False)
            ex.oblige('%s returns a value' % name, z3.BoolVal(some), None, 'post', assume=False)
        unit('%s::%s(%s)' % (cls, name, 'pos' if pos else ''), prove)

    def dir_at(s, a, i, f=lambda x: x):
        return z3.If(And(s.valid(s.segA(a, i)), s.valid(s.segA(a, i + 1))), f(s.d(a, i)), s.inf)
    SP = [('has_length', lambda ex, s, a, n, i: s.valid(s.len_spec(a, n)), False), ('length', lambda ex, s, a, n, i: s.len_spec(a, n), False),
          ('has_azimuth', lambda ex, s, a, n, i: s.valid(s.azi_spec(a, n)), False), ('azimuth', lambda ex, s, a, n, i: s.azi_spec(a, n), False),
          ('has_directions', lambda ex, s, a, n, i: And(s.valid(s.dir_spec(a, n, s.sumD)), s.valid(s.dir_spec(a, n, s.sumAD))), False), ('directions', lambda ex, s, a, n, i: s.dir_spec(a, n, s.sumD), False),
          ('absolute_directions', lambda ex, s, a, n, i: s.dir_spec(a, n, s.sumAD), False),
          ('has_length', lambda ex, s, a, n, i: s.valid(s.segL(a, i)), True), ('length', lambda ex, s, a, n, i: s.segL(a, i), True),
          ('has_azimuth', lambda ex, s, a, n, i: s.valid(s.segA(a, i)), True), ('azimuth', lambda ex, s, a, n, i: s.segA(a, i), True),
          ('direction', lambda ex, s, a, n, i: dir_at(s, a, i), True),
          ('absolute_direction', lambda ex, s, a, n, i: dir_at(s, a, i, lambda x: ex.fl.unary('fabs', x)), True)]
    for cls in ('lazy_rich_line', 'eager_rich_line'):
        for nm, sp, pos in SP:
            accessor(cls, nm, sp, pos)

    # --- sub lines
    def sub_line(cls, ssig):
        kind = cls.split('_')[0]

        def prove(ex, ir):
            s = setup(ex, ir)
            fn = ir.sel(NS + cls + '::sub_rich_line', ssig)
            this = sym_root(ex, fn['rec'], 'this')
            v0 = ex.read(this)
            assume_inv(ex, INV[kind](ex, s, v0))
            pts = parts(ex, v0)[1]
            args = arg_syms(ex, fn)
            s.unfold(pts.arr, I(0))
            mark(ex, 'sub_rich_line')
            for k, v in outcomes(ex, call(ex, fn, this, args)):
                ok = And(args[0] <= args[1], args[0] < pts.len, args[1] <= pts.len)
                if k == 'throw':
                    ex.oblige('sub_rich_line throws only out of range', Not(ok), None, 'post', assume=False)
                    continue
                p2 = parts(ex, v)[1]
                s.unfold(p2.arr, I(0))
                s.ext(p2.arr, pts.arr, p2.len)
                ex.oblige('sub_rich_line has the requested points', And(ok, p2.len == args[1] - args[0], fa(K, z3.Implies(z3.And(K >= 0, K < p2.len), z3.Select(p2.arr, K) == z3.Select(pts.arr, K + args[0])))), None, 'post', assume=False)
                oblige_all(ex, INV[kind](ex, s, v), 'sub_rich_line')
        unit('%s::sub_rich_line(%s)' % (cls, ssig), prove)
    for cls in ('eager_rich_line', 'lazy_rich_line'):
        sub_line(cls, 'unsigned long, unsigned long')
        sub_line(cls, 'unsigned long, unsigned long, const allocator&')

    # --- erase
    def erase(cls):
        kind = cls.split('_')[0]

        def prove(ex, ir):
            s = setup(ex, ir)
            fn = ir.sel(NS + cls + '::erase', 'unsigned long, bool')
            this = sym_root(ex, fn['rec'], 'this')
            v0 = ex.read(this)
            assume_inv(ex, INV[kind](ex, s, v0))
            pts = parts(ex, v0)[1]
            args = arg_syms(ex, fn)
            ex.assume(args[1])
            s.unfold(pts.arr, I(0))
            mark(ex, 'erase')
            for k, v in outcomes(ex, call(ex, fn, this, args)):
                w = ex.read(this)
                p2 = parts(ex, w)[1]
                s.unfold(p2.arr, I(0))
                s.ext(p2.arr, pts.arr, p2.len)
                i = args[0]
                ex.oblige('erase does not throw', z3.BoolVal(k != 'throw'), None, 'post', assume=False)
                ex.oblige('erase removes exactly the point', And(p2.len == z3.If(i < pts.len, pts.len - 1, pts.len), fa(K, z3.Implies(z3.And(K >= 0, K < p2.len), z3.Select(p2.arr, K) == z3.Select(pts.arr, z3.If(K < i, K, K + 1))))), None, 'post', assume=False)
                oblige_all(ex, INV[kind](ex, s, w), 'erase')
        unit('%s::erase(index)' % cls, prove)
    erase('eager_rich_line')
    erase('lazy_rich_line')

    # --- merge
    def merge(cls):
        kind = cls.split('_')[0]

        def prove(ex, ir):
            s = setup(ex, ir)
            fn = ir.sel(NS + cls + '::merge', '%s&&' % cls)
            this = sym_root(ex, fn['rec'], 'this')
            v0 = ex.read(this)
            assume_inv(ex, INV[kind](ex, s, v0))
            args = arg_syms(ex, fn)
            v1 = ex.read(args[0])
            assume_inv(ex, INV[kind](ex, s, v1))
            p0, p1 = parts(ex, v0)[1], parts(ex, v1)[1]
            s.unfold(p0.arr, I(0))
            # the joining points compare equal within a tolerance; the contract is for joints that are the same point
            ex.assume(Implies(And(p0.len > 0, p1.len > 0, s.eq(z3.Select(p0.arr, p0.len - 1), z3.Select(p1.arr, 0))), z3.Select(p0.arr, p0.len - 1) == z3.Select(p1.arr, 0)))
            mark(ex, 'merge')
            for k, v in outcomes(ex, call(ex, fn, this, args)):
                joins = s.eq(z3.Select(p0.arr, p0.len - 1), z3.Select(p1.arr, 0))
                if k == 'throw':
                    ex.oblige('merge throws only when the end points differ', And(p0.len > 0, p1.len > 0, Not(joins)), None, 'post', assume=False)
                    continue
                w = ex.read(this)
                p2 = parts(ex, w)[1]
                s.unfold(p2.arr, I(0))
                ex.oblige('merge concatenates the points once', And(p2.len == z3.If(p0.len == 0, p1.len, z3.If(p1.len == 0, p0.len, p0.len + p1.len - 1)),
                          fa(K, z3.Implies(z3.And(K >= 0, K < p2.len), z3.Select(p2.arr, K) == z3.If(K < p0.len, z3.Select(p0.arr, K), z3.If(p0.len == 0, z3.Select(p1.arr, K), z3.Select(p1.arr, K - p0.len + 1)))))), None, 'post', assume=False)
                if kind == 'lazy' or True:
                    oblige_all(ex, INV[kind](ex, s, w), 'merge')
        unit('%s::merge(line)' % cls, prove)
    merge('eager_rich_line')
    merge('lazy_rich_line')
    return us


HARNESS = dict(src='R01.cpp', repo_src=['src/library/src/geometry/cache.cpp'], time=20, cases=400000, rule='random sequences of construction, conversion, assignment, erase, sub-line and merge on eager and lazy lines (grid, repeated and real points, cartesian and geographic), every attribute compared with its recomputation; non-trivial: a first line of at least two points, distinct operation sequence')
ASSUMPTIONS = ['point_distance, azimuth_deg, direction_deg and equals_points are pure functions of their arguments (uninterpreted)', 'floating-point operations are uninterpreted functions: no algebraic law is used', 'vectors hold fewer than 2^61 elements', 'merge: joining points that compare equal are the same point', 'obligations cover the cartesian instantiation; the other coordinate systems instantiate the same templates and are covered by the harness only']
BOUNDED = ['erase(indices), merge(vector) and merge of two or more lines: harness only', 'geographic and spherical instantiations: harness only']
