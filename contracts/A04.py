"""A04: medians, median absolute deviations and median points."""
from lib import *
from verify import Unit
import re
from stdmodel import order_stat, permuted

NS = 'map_matching_2::geometry::'
DRIVERS = {'m': ('A04_driver.cpp', [NS + '(median|median_absolute_deviation|median_point)'], [])}
K = z3.Int('k')


def units():
    us = []

    def cfg(ex):
        ex.pure = [re.compile('boost::geometry::get$')]
        ex.opaque_types = []
        ex.templates = [templates]
        ex.goals = []

    def templates(ctx):
        ex = ctx.ex
        for fv in ctx.of(cls=Vec, el=ex.fl.sort):
            if not fv.mod:
                continue
            for gn, g in ex.goals:
                def full(fv=fv, g=g):
                    v = fv.cur()
                    return fa(K, z3.Implies(z3.And(K >= 0, K < v.len), z3.Select(v.arr, K) == g(K)), [z3.Select(v.arr, K)])
                yield ('%s elements are %s' % (fv.name, gn), full, True)
                for n, cur, pre, _ in ctx.ints(True):
                    def below(fv=fv, g=g, cur=cur):
                        v = fv.cur()
                        return fa(K, z3.Implies(z3.And(K >= 0, K < cur(), K < v.len), z3.Select(v.arr, K) == g(K)), [z3.Select(v.arr, K)])
                    yield ('%s elements below %s are %s' % (fv.name, n, gn), below, True)

                    def above(fv=fv, cur=cur):
                        v, o = fv.cur(), fv.pre
                        return fa(K, z3.Implies(z3.And(K >= cur(), K < v.len), z3.Select(v.arr, K) == z3.Select(o.arr, K)), [z3.Select(v.arr, K)])
                    yield ('%s elements from %s on are untouched' % (fv.name, n), above, True)

    def prove(ex, ir):
        fn = ir.sel(NS + 'median', 'vector&')
        args = arg_syms(ex, fn)
        v = ex.read(args[0])
        ex.assume(v.len > 0)
        S = order_stat(ex, v.el)
        mid = v.len / 2
        hi, lo = S(v.arr, 0, v.len, mid), S(v.arr, 0, v.len, mid - 1)
        want = z3.If(v.len % 2 == 1, hi, ex.fl.op('/', ex.fl.op('+', lo, hi), ex.fl.const('0x1p+1')))
        alt = z3.If(v.len % 2 == 1, hi, ex.fl.op('/', ex.fl.op('+', hi, lo), ex.fl.const('0x1p+1')))
        mark(ex, 'median')
        for k, r in outcomes(ex, call(ex, fn, None, args)):
            ex.oblige('median does not throw', z3.BoolVal(k != 'throw'), None, 'post', assume=False)
            if k != 'throw':
                r = ex.load(r)
                ex.oblige('the middle element, or half the sum of the two middle elements', Or(r == want, r == alt), None, 'post', assume=False)
                w = ex.read(args[0])
                ex.oblige('the container keeps its size', w.len == v.len, None, 'post', assume=False)
                p = z3.Const('p', z3.ArraySort(z3.IntSort(), z3.IntSort()))
                ex.oblige('and its elements: the sorted contents stay the same', fa(K, S(w.arr, 0, v.len, K) == S(v.arr, 0, v.len, K)), None, 'post', assume=False)
    us.append(Unit('median', prove, driver='m', fns=['median'], configure=cfg))

    def med_contract(ex, ir, seen):
        """median(container): returns a value named after the call, permutes the container."""
        def h(ex, fn, o, args, n):
            v = ex.read(args[0])
            ex.oblige('median of a non-empty list', v.len > 0, n, 'pre')
            r = ex.fresh(ex.fl.sort, 'median')
            seen.append((v, r))
            a, p = permuted(ex, v, I(0), v.len, 'median')
            ex.write(args[0], v.with_(arr=a))
            seen[-1] += (p,)
            return r
        ex.contracts.append((lambda f: f['q'] == NS + 'median', h))

    def dev(name, sig, with_center):
        def prove(ex, ir):
            fn = ir.sel(NS + 'median_absolute_deviation', sig)
            args = arg_syms(ex, fn)
            v = ex.read(args[-1])
            ex.assume(v.len > 0)
            seen = []
            med_contract(ex, ir, seen)
            cur = {}

            def g(k):
                if with_center:
                    return ex.fl.unary('fabs', ex.fl.op('-', z3.Select(v.arr, k), ex.load(args[0])))
                p, c = seen[0][2], seen[0][1]
                return ex.fl.unary('fabs', ex.fl.op('-', z3.Select(v.arr, z3.Select(p, k)), c))
            ex.goals = [('deviations from the center', g)]
            mark(ex, name)
            for k, r in outcomes(ex, call(ex, fn, None, args)):
                ex.oblige(name + ' does not throw', z3.BoolVal(k != 'throw'), None, 'post', assume=False)
                if k == 'throw':
                    continue
                if len(seen) != (1 if with_center else 2):
                    raise Undecided('the calls of median are not the expected ones')
                lst, res = seen[-1][:2]
                ex.oblige('the median of the last list', ex.load(r) == res, None, 'post', assume=False)
                ex.oblige('one deviation for every element', lst.len == v.len, None, 'post', assume=False)
                ex.oblige('each is the absolute deviation from the %s' % ('center' if with_center else 'median'), fa(K, z3.Implies(z3.And(K >= 0, K < v.len), z3.Select(lst.arr, K) == g(K)), [z3.Select(lst.arr, K)]), None, 'post', assume=False)
                if not with_center:
                    ex.oblige('the center is the median of the given list', And(seen[0][0].len == v.len, seen[0][0].arr == v.arr), None, 'post', assume=False)
        us.append(Unit(name, prove, driver='m', fns=['median_absolute_deviation'], configure=cfg))
    dev('median_absolute_deviation(center, list)', 'double, vector&', True)
    dev('median_absolute_deviation(list)', 'vector&', False)

    def point(dim):
        def prove(ex, ir):
            fn = the([f for f in ir.find(NS + 'median_point') if re.search('point<double, %d,' % dim, ir.T(ir.deref(f['ret']))['s'])], 'median_point')
            args = arg_syms(ex, fn)
            v = ex.read(args[0])
            ex.assume(v.len > 0)
            seen = []
            med_contract(ex, ir, seen)
            gets = {}
            for f in ir.byq.get('boost::geometry::get', []):
                if re.search('point<double, %d,' % dim, ir.T(ir.deref(f['p'][0]['t']))['s']):
                    gets[int(f['ta'][0]['i'])] = f

            def g(d):
                return lambda k: ex.uf_call(gets[d], None, [z3.Select(v.arr, k)])
            ex.goals = [('coordinate %d' % d, g(d)) for d in range(dim)]
            built = []

            def pctor(ex, f, o, a, n):
                built.append([ex.load(x) for x in a])
                return ex.fresh(ex.sort_of(f['rec']), 'pt')
            ex.contracts.append((lambda f: f['q'] == 'boost::geometry::model::point::ctor' and len(f['p']) == dim, pctor))
            mark(ex, 'median_point')
            for k, r in outcomes(ex, call(ex, fn, None, args)):
                ex.oblige('median_point does not throw', z3.BoolVal(k != 'throw'), None, 'post', assume=False)
                if k == 'throw':
                    continue
                if len(seen) != dim or len(built) != 1:
                    raise Undecided('the calls of median are not the expected ones')
                for d in range(dim):
                    lst = [s for s in seen if s[1].eq(built[0][d])]
                    ex.oblige('coordinate %d of the result is a median' % d, z3.BoolVal(len(lst) == 1), None, 'post', assume=False)
                    if len(lst) == 1:
                        l = lst[0][0]
                        ex.oblige('of coordinate %d of every point' % d, And(l.len == v.len, fa(K, z3.Implies(z3.And(K >= 0, K < v.len), z3.Select(l.arr, K) == g(d)(K)), [z3.Select(l.arr, K)])), None, 'post', assume=False)
        us.append(Unit('median_point %dd' % dim, prove, driver='m', fns=['median_point'], configure=lambda ex: (cfg(ex), ex.opaque_types.append(re.compile(r'^boost::geometry::model::point<')))))
    for d in (1, 2, 3):
        point(d)
    return us


HARNESS = dict(src='A04.cpp', time=12, cases=2000000, rule='random lists (few distinct values, reals, infinities) of 1 to 40 elements against sorting; random point lists in one, two and three dimensions; non-trivial: at least two elements; distinct input')
ASSUMPTIONS = ['no element is NaN (std::nth_element needs a strict weak order)', 'std::nth_element, std::sort, std::max_element follow the standard: order statistics of the range']
BOUNDED = ['float and long double instances, other containers: harness only']
