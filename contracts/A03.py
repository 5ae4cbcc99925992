"""A03: angle differences, per-segment lists, sums over lines and the caches of distances and azimuths."""
from lib import *
from verify import Unit
import re

NS = 'map_matching_2::geometry::'
DRIVERS = {'a': ('A03_driver.cpp', [NS + '(angle_diff|direction_deg|directions_deg|absolute_directions_deg|combined_directions_deg|azimuth_rad|azimuth_deg|azimuth_line_deg|azimuth_segment_deg|segments_.*|point_distance|equals_points|reset_.*_cache|_cache_coordinate_system|use_.*_cache|.*_cache|rad2deg)'], []),
           'c': ('A03_cache_driver.cpp', [NS + '(azimuth_rad|point_distance|reset_.*_cache|_cache_coordinate_system)'], [])}
K = z3.Int('k')


def units():
    us = []

    def unit(name, prove, **kw):
        us.append(Unit(name, prove, driver='a', fns=[name], **kw))

    # --- angle differences, exact IEEE double arithmetic
    for nm in ('angle_diff', 'direction_deg'):
        def prove(ex, ir, nm=nm):
            fn = ir.sel(NS + nm, 'double, double')
            F = ex.fl.sort
            a, b = z3.Const('a', F), z3.Const('b', F)
            lo, hi, m = [z3.FPVal(x, F) for x in (0.0, 360.0, 180.0)]
            for x in (a, b):
                ex.assume(And(z3.fpGEQ(x, lo), z3.fpLEQ(x, hi)))
            mark(ex, nm)
            for k, v in outcomes(ex, call(ex, fn, None, [a, b])):
                ex.oblige(nm + ' lies in [-180, 180]', And(z3.BoolVal(k != 'throw'), z3.fpLEQ(v, m), z3.fpGEQ(v, z3.fpNeg(m))), None, 'post', assume=False)
                d = z3.fpSub(z3.RNE(), a, b)
                ex.oblige(nm + ' is the difference up to a full turn', Or(z3.fpEQ(v, d), z3.fpEQ(v, z3.fpSub(z3.RNE(), d, hi)), z3.fpEQ(v, z3.fpAdd(z3.RNE(), d, hi))), None, 'post', assume=False)
                ex.oblige(nm + ' of equal angles is zero', Implies(z3.fpEQ(a, b), z3.fpEQ(v, lo)), None, 'post', assume=False)
                ex.oblige(nm + ' keeps small differences', Implies(And(z3.fpLT(d, m), z3.fpGT(d, z3.fpNeg(m))), z3.fpEQ(v, d)), None, 'post', assume=False)
        unit(nm + '(double, double)', prove, float_mode='fp', timeout=60)

    def anti(ex, ir):
        fn = ir.sel(NS + 'angle_diff', 'double, double')
        F = ex.fl.sort
        a, b = z3.Const('a', F), z3.Const('b', F)
        for x in (a, b):
            ex.assume(And(z3.fpGEQ(x, z3.FPVal(0.0, F)), z3.fpLEQ(x, z3.FPVal(360.0, F))))
        mark(ex, 'angle_diff')
        # rounding to nearest is symmetric: b - a is -(a - b); the difference is named d
        d = z3.Const('d', F)
        c = z3.FPVal(360.0, F)
        ex.assume(And(Not(z3.fpIsNaN(d)), z3.fpLEQ(d, c), z3.fpGEQ(d, z3.fpNeg(c))))
        for _, v in outcomes(ex, call(ex, fn, None, [a, b])):
            for _, w in outcomes(ex, call(ex, fn, None, [b, a])):
                v = z3.substitute(v, (z3.fpSub(z3.RNE(), a, b), d))
                w = z3.substitute(w, (z3.fpSub(z3.RNE(), b, a), z3.fpNeg(d)))
                ex.oblige('angle_diff is antisymmetric', z3.fpEQ(v, z3.fpNeg(w)), None, 'post', assume=False)
    unit('angle_diff antisymmetric', anti, float_mode='fp', timeout=60)

    # --- lists and sums (uninterpreted floats)
    def cfg(ex):
        ex.pure = [re.compile(x) for x in (NS + 'point_distance', NS + 'azimuth_deg', NS + 'equals_points', NS + 'direction_deg')]
        ex.opaque_types = [re.compile(r'^boost::geometry::model::point<')]
        ex.templates = [templates]

    class S:
        def __init__(self, ex, ir):
            f = lambda n, sg: ir.sel(NS + n, sg)
            self.ex = ex
            self.F = ex.fl.sort
            self.azi = f('azimuth_deg', 'const point&, const point&')
            self.dist = f('point_distance', 'const point&, const point&')
            self.d2 = f('direction_deg', 'double, double')
            self.d3 = f('direction_deg', 'const point&, const point&, const point&')
            self.P = ex.sort_of(ir.find_type(r'^boost::geometry::model::point<')[0])
            self.A = z3.ArraySort(z3.IntSort(), self.P)
            self.sumD = z3.Function('spec_dirs', self.A, z3.IntSort(), self.F)
            self.sumA = z3.Function('spec_absdirs', self.A, z3.IntSort(), self.F)
            self.zero = ex.fl.const('0x0p+0')
            self.lists = []
            ex.spec = self

        def dir3(self, a, i):
            return self.ex.uf_call(self.d3, None, [z3.Select(a, i), z3.Select(a, i + 1), z3.Select(a, i + 2)])

        def unfold(self, a, k):
            ex = self.ex
            ex.assume(And(self.sumD(a, 0) == self.zero, self.sumA(a, 0) == self.zero))
            ex.assume(Implies(k > 0, And(self.sumD(a, k) == ex.fl.op('+', self.sumD(a, k - 1), self.dir3(a, k - 1)),
                                         self.sumA(a, k) == ex.fl.op('+', self.sumA(a, k - 1), ex.fl.unary('fabs', self.dir3(a, k - 1))))))

    def templates(ctx):
        ex = ctx.ex
        s = ex.spec
        for l in [l for l in ctx.of(sort=s.F) if l.mod]:
            for pv in ctx.of(cls=Vec, el=s.P):
                for n, cur, pre, _ in ctx.ints(True):
                    for g, gn in ((s.sumD, 'directions'), (s.sumA, 'absolute directions')):
                        def th(l=l, g=g, cur=cur, pv=pv):
                            s.unfold(pv.cur().arr, cur())
                            return l.cur() == g(pv.cur().arr, cur())
                        yield ('%s sums the %s below %s' % (l.name, gn, n), th, True)
        for fv in ctx.of(cls=Vec, el=s.F):
            if not fv.mod:
                continue
            for gn, g in s.lists:
                def full(fv=fv, g=g):
                    v = fv.cur()
                    return fa(K, z3.Implies(z3.And(K >= 0, K < v.len), z3.Select(v.arr, K) == g(K)), [z3.Select(v.arr, K)])
                yield ('%s elements are %s' % (fv.name, gn), full, True)

    def line_sum(nm, post):
        def prove(ex, ir):
            s = S(ex, ir)
            fn = ir.sel(NS + nm, 'const linestring&')
            args = arg_syms(ex, fn)
            pts = find_base(ex, ex.read(args[0]), r'^std::vector$')
            if pts is None:
                pts = ex.read(args[0])
            s.unfold(pts.arr, I(0))
            mark(ex, nm)
            for k, v in outcomes(ex, call(ex, fn, None, args)):
                ex.oblige(nm + ' does not throw', z3.BoolVal(k != 'throw'), None, 'post', assume=False)
                if k != 'throw':
                    post(ex, s, pts.arr, z3.If(pts.len >= 2, pts.len - 2, I(0)), pts.len, ex.load(v))
        unit(nm + '(line)', prove, configure=cfg)
    line_sum('directions_deg', lambda ex, s, a, m, n, v: ex.oblige('the sum of the direction of every corner', v == s.sumD(a, m), None, 'post', assume=False))
    line_sum('absolute_directions_deg', lambda ex, s, a, m, n, v: ex.oblige('the sum of the absolute direction of every corner', v == s.sumA(a, m), None, 'post', assume=False))
    line_sum('combined_directions_deg', lambda ex, s, a, m, n, v: ex.oblige('both sums', And(v.d['first'] == s.sumD(a, m), v.d['second'] == s.sumA(a, m)), None, 'post', assume=False))
    line_sum('azimuth_line_deg', lambda ex, s, a, m, n, v: ex.oblige('azimuth from the first to the last point', v == z3.If(n >= 2, ex.uf_call(s.azi, None, [z3.Select(a, 0), z3.Select(a, n - 1)]), s.zero), None, 'post', assume=False))

    def seg_list(nm, specs, with_azimuths):
        def prove(ex, ir):
            s = S(ex, ir)
            fn = ir.sel(NS + nm, 'const vector&, const vector&' if with_azimuths else 'const vector&')
            args = arg_syms(ex, fn)
            sv = ex.read(args[0])
            pt = lambda i, w: ex.get(ex.read(args[0].sub(('i', i))), w)
            if with_azimuths:
                az = ex.read(args[1])
                ex.assume(Or(az.len == 0, az.len == sv.len))
                eqp = ir.sel(NS + 'equals_points', 'const point&, const point&')
                # consecutive segments join
                ex.assume(fa(K, z3.Implies(z3.And(K >= 0, K + 1 < sv.len), ex.uf_call(eqp, None, [pt(K, 'second'), pt(K + 1, 'first')])), [z3.Select(sv.arr, K)]))

                def dirv(i):
                    return z3.If(az.len == 0, ex.uf_call(s.d3, None, [pt(i, 'first'), pt(i, 'second'), pt(i + 1, 'second')]), ex.uf_call(s.d2, None, [z3.Select(az.arr, i), z3.Select(az.arr, i + 1)]))
                g = {'dir': dirv, 'abs': lambda i: ex.fl.unary('fabs', dirv(i))}
                m = z3.If(sv.len >= 1, sv.len - 1, I(0))
            else:
                g = {'azi': lambda i: ex.uf_call(s.azi, None, [pt(i, 'first'), pt(i, 'second')]), 'len': lambda i: ex.uf_call(s.dist, None, [pt(i, 'first'), pt(i, 'second')])}
                m = sv.len
            s.lists = [(k, g[k]) for k in {x for _, x in specs}]
            mark(ex, nm)
            for k, v in outcomes(ex, call(ex, fn, None, args)):
                ex.oblige(nm + ' does not throw', z3.BoolVal(k != 'throw'), None, 'post', assume=False)
                if k == 'throw':
                    continue
                v = ex.load(v)
                for part, what in specs:
                    w = v if part is None else v.d[part]
                    ex.oblige('one value for every %s' % ('corner' if with_azimuths else 'segment'), w.len == m, None, 'post', assume=False)
                    ex.oblige('each value is the %s' % {'dir': 'direction of its corner', 'abs': 'absolute direction of its corner', 'azi': 'azimuth of its segment', 'len': 'length of its segment'}[what], fa(K, z3.Implies(z3.And(K >= 0, K < w.len), z3.Select(w.arr, K) == g[what](K)), [z3.Select(w.arr, K)]), None, 'post', assume=False)
        unit(nm, prove, configure=cfg)
    seg_list('segments_directions_deg', [(None, 'dir')], True)
    seg_list('segments_absolute_directions_deg', [(None, 'abs')], True)
    seg_list('segments_combined_directions_deg', [('first', 'dir'), ('second', 'abs')], True)
    seg_list('segments_azimuths_deg', [(None, 'azi')], False)
    seg_list('segments_lengths', [(None, 'len')], False)

    # --- the caches are transparent: a cached answer is the computed one
    def ccfg(ex):
        ex.pure = [re.compile(x) for x in ('boost::geometry::azimuth$', NS + 'distance$', 'boost::geometry::get$')]
        ex.opaque_types = [re.compile(r'^boost::geometry::model::point<')]

    CS = [('geographic', 'geographic'), ('spherical', 'spherical_equatorial'), ('cartesian', 'cartesian')]

    def cs_fns(ir, q):
        """The instance of q(a, b) for every coordinate system."""
        r = {}
        for c, rx in CS:
            fs = [f for f in ir.byq.get(q, []) if len(f['p']) == 2 and all(re.search(r'point<.*cs::' + rx, ir.T(ir.deref(p['t']))['s']) for p in f['p'])]
            r[c] = the(fs, '%s for %s' % (q, c))
        return r

    def cached(nm, cache, callee, csys):
        def prove(ex, ir):
            fn = cs_fns(ir, NS + nm)[csys]
            direct = cs_fns(ir, callee)
            args = arg_syms(ex, fn)
            mt = the([i for i in ir.find_type(r'^boost::unordered::unordered_flat_map<') if ir.T(i)['k'] != 'lref' and ir.T(i).get('n', '').endswith('flat_map') and 'unordered_flat_map<' in ir.T(i)['s'][:60]], 'cache type')
            table = sym_root(ex, mt, 'cache')
            ex.globals = {NS + 'use_%s_cache' % cache: lambda e, t: z3.Bool('cache_on'), NS + '%s_cache' % cache: lambda e, t: Ptr(table, z3.Bool('cache_null'))}
            m = ex.read(table)
            ks = ex.sort_of(m.kt)
            kl = ex.layout(m.kt)
            if kl[0] != 'rec' or len(kl[1]) != 5 or any(ex.is_float(t) for _, t in kl[1][:1]) or not all(ex.is_float(t) for _, t in kl[1][1:]):
                raise Undecided('the key of the cache is not (coordinate system, x, y, x, y)')
            F = ex.fl.sort
            spec = {c: z3.Function('spec_%s_%s' % (callee.split('::')[-1], c), F, F, F, F, F) for c, _ in CS}
            tags = {c: cs_tag(ex, ir, c) for c, _ in CS}
            ex.oblige('the coordinate systems have different keys', z3.Distinct(*tags.values()), None, 'post', assume=False)
            key = z3.Const('key', ks)
            f = [ks.accessor(0, i)(key) for i in range(5)]
            val = z3.Select(m.val, key)
            body = spec['cartesian'](*f[1:])
            for c in ('spherical', 'geographic'):
                body = z3.If(f[0] == tags[c], spec[c](*f[1:]), body)
            inv = lambda mm: fa(key, z3.Implies(z3.Select(mm.dom, key), z3.Select(mm.val, key) == body), [z3.Select(mm.dom, key)])
            ex.assume(inv(m))
            a, b = [ex.reify(ex.read(x)) for x in args]
            cd = coords(ex, ir, csys, args)
            want = ex.uf_call(direct[csys], None, args)
            ex.assume(spec[csys](*cd) == want)
            mark(ex, nm + ' ' + csys)
            for k, v in outcomes(ex, call(ex, fn, None, args)):
                ex.oblige(nm + ' does not throw', z3.BoolVal(k != 'throw'), None, 'post', assume=False)
                if k == 'throw':
                    continue
                ex.oblige('the answer is the computed %s' % callee.split('::')[-1], ex.load(v) == want, None, 'post', assume=False)
                p = ex.store.get('g:' + NS + cache + '_cache')
                for g in [p] if p is not None else []:
                    if g.lv is not None:
                        ex.oblige('every remembered answer is the computed one', inv(ex.read(g.lv)), None, 'post', assume=False)
        unit('%s (%s) with and without cache' % (nm, csys), prove, configure=ccfg)
        us[-1].driver = 'c'

    def cs_tag(ex, ir, c):
        fs = ir.find(NS + '_cache_coordinate_system')
        rx = dict(CS)[c]
        fs = [f for f in fs if any(re.search('cs::' + rx, str(a)) for a in [ir.tname(x['t']) if isinstance(x, dict) and 't' in x else str(x) for x in f.get('ta', [])])]
        r = ex.invoke(the(fs, '_cache_coordinate_system for ' + c), None, [], None)
        return ex.load(r)

    def coords(ex, ir, c, args):
        rx = dict(CS)[c]
        g = {}
        for f in ir.byq.get('boost::geometry::get', []):
            if re.search(r'point<.*cs::' + rx, ir.T(ir.deref(f['p'][0]['t']))['s']):
                d = [x for x in f.get('ta', []) if isinstance(x, dict) and 'i' in x]
                g[int(d[0]['i'])] = f
        return [ex.uf_call(g[d], None, [a]) for a in args for d in (0, 1)]

    for c, _ in CS:
        cached('azimuth_rad', 'azimuth', 'boost::geometry::azimuth', c)
        cached('point_distance', 'distance', NS + 'distance', c)
    return us


HARNESS = dict(src='A03.cpp', repo_src=['src/library/src/geometry/cache.cpp'], time=15, cases=2000000, rule='random and special angles; random lines of 0 to 11 points in the three coordinate systems against independent formulas; shared coordinates asked with and without caches in all coordinate systems; non-trivial: an angle or cache case, or a line with a corner; distinct input')
ASSUMPTIONS = ['boost::geometry::azimuth, distance and get are pure functions of the points (uninterpreted); points with the same coordinates have the same azimuth and distance', 'sums over lines: floating-point operations are uninterpreted functions, no algebraic law is used', 'angle differences: exact IEEE-754 double arithmetic for 0 <= angle <= 360; antisymmetry uses that rounding to nearest is symmetric (fl(b-a) = -fl(a-b))', 'neighbouring segments of a list join (equals_points)', 'the caches are used by one thread each (thread_local); enabling and disabling them happens outside']
BOUNDED = ['numeric accuracy of boost azimuth and distance against independent formulas: harness only', 'lists and sums in geographic and spherical coordinates, float instances: harness only', 'boost::geometry::length of whole lines: harness only']
