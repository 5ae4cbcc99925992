"""Trusted contracts of standard-library and Boost functions (each is listed in the evidence when used)."""
import z3, re
from values import *
import ir as irmod
from engine import ThrowEx, PathEnd, ReturnEx, BreakEx, ContinueEx

REG = {}
PREF = []


def reg(*names):
    def d(f):
        for n in names:
            REG[n] = f
        return f
    return d


VECN = ('std::vector', 'std::deque', 'std::list', 'std::initializer_list', 'boost::container::vector', 'std::array', 'std::__cxx11::list')


def vreg(*ms):
    return reg(*['%s::%s' % (c, m) for c in VECN for m in ms])


def lookup(ex, fn):
    q = fn['q']
    if q in REG:
        return REG[q]
    for rx, f in PREF:
        if rx.fullmatch(q):
            return f
    return None


def pref(rx):
    def d(f):
        PREF.append((re.compile(rx), f))
        return f
    return d


def mapped_arr(ex, el, f, hint='arr', sources=()):
    """Fresh array with arr[k] == f(k) for all k."""
    a = ex.fresh(z3.ArraySort(z3.IntSort(), ex.sort_of(el)), hint)
    k = z3.Int('k')
    ex.assume(forall([k], z3.Select(a, k) == f(k), patterns=[z3.Select(a, k)]))
    for src, g in sources:
        # src[j] also triggers the corresponding fact about a
        j = z3.Int('j')
        ex.assume(forall([j], z3.Select(a, g(j)) == f(g(j)), patterns=[z3.Select(src, j)]))
    return a


def slice_vec(ex, tid, v, lo, hi):
    n = sub(hi, lo)
    if cint(lo) == 0:
        return Vec(tid, v.el, n, v.arr)
    a = mapped_arr(ex, v.el, lambda k: z3.Select(v.arr, k + lo), 'slice', [(v.arr, lambda j: j - lo)])
    return Vec(tid, v.el, n, a)


def append_vec(ex, d, s):
    """Value of d with all of s appended."""
    n = add(d.len, s.len)
    if cint(d.len) == 0:
        return Vec(d.tid, d.el, n, s.arr)
    if cint(s.len) == 0:
        return d
    a = mapped_arr(ex, d.el, lambda k: z3.If(k < d.len, z3.Select(d.arr, k), z3.Select(s.arr, k - d.len)), 'append', [(d.arr, lambda j: j), (s.arr, lambda j: j + d.len)])
    return Vec(d.tid, d.el, n, a)


def vec_of(ex, o):
    v = ex.load(o)
    if not isinstance(v, Vec):
        raise Undecided('container expected, got %r' % type(v))
    return v


def range_vec(ex, a, b, n=None):
    """Contents of the iterator range [a, b) as (Vec, lo, hi)."""
    a, b = ex.load(a), ex.load(b)
    if not (isinstance(a, It) and isinstance(b, It)):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            raise Undecided('pointer range')
        raise Undecided('iterator range of %r' % type(a))
    if not a.cont.same(b.cont) or a.rev != b.rev:
        raise Undecided('range over different containers')
    v = ex.read(a.cont)
    if a.rev:
        raise Undecided('reverse range')
    ex.oblige('valid iterator range', And(a.idx >= 0, a.idx <= b.idx, b.idx <= v.len), n, 'safety')
    return v, a.idx, b.idx


def subrange(ex, tid, a, b, n=None):
    a, b = ex.load(a), ex.load(b)
    if isinstance(a, It) and a.rev:
        v = ex.read(a.cont)
        ex.oblige('valid iterator range', And(a.idx < v.len, a.idx >= b.idx, b.idx >= -1), n, 'safety')
        arr = mapped_arr(ex, v.el, lambda k: z3.Select(v.arr, a.idx - k), 'rev', [(v.arr, lambda j: a.idx - j)])
        return Vec(tid, v.el, sub(a.idx, b.idx), arr)
    v, lo, hi = range_vec(ex, a, b, n)
    return slice_vec(ex, tid, v, lo, hi)


# ---------------------------------------------------------------- sequences
@vreg('ctor')
def vec_ctor(ex, fn, o, args, n):
    tid = fn['rec']
    base = ex.default(tid)
    ps = [p['t'] for p in fn['p']]
    vals = [(ex.load(a), t) for a, t in zip(args, ps)]
    vals = [(a, t) for a, t in vals if not (ex.is_unit(ex.ir.deref(t)) and not z3.is_expr(a))]
    if not vals:
        return base
    a0 = vals[0][0]
    if isinstance(a0, Vec) and len(vals) == 1:
        t0 = ex.ir.T(ps[0])
        if t0['k'] == 'rref' and isinstance(args[0], LV):
            moved_from(ex, args[0], exact_empty=True)
        return Vec(tid, a0.el, a0.len, a0.arr)
    if isinstance(a0, IList):
        return ex.adapt(a0, tid)
    if isinstance(a0, (It,)) and len(vals) == 2:
        return subrange(ex, tid, a0, vals[1][0], n)
    if z3.is_expr(a0) and a0.sort() == z3.IntSort() and ex.ir.T(ex.ir.deref(ps[0]))['k'] == 'b':
        if len(vals) == 2:
            x = ex.reify(vals[1][0], base.el)
        else:
            x = ex.reify(ex.zero(base.el), base.el)
        return base.with_(len=a0, arr=z3.K(z3.IntSort(), x))
    raise Undecided('vector constructor %s' % ex.ir.sig(fn))


def moved_from(ex, lv, exact_empty=False):
    v = ex.read(lv)
    if isinstance(v, Vec):
        if exact_empty:
            ex.write(lv, v.with_(len=I(0)))
        else:
            l = ex.fresh(z3.IntSort(), 'moved')
            ex.assume(And(l >= 0, l <= MAXLEN))
            ex.write(lv, v.with_(len=l, arr=ex.fresh(v.arr.sort(), 'moved')))


@vreg('operator=')
def vec_assign_op(ex, fn, o, args, n):
    v = ex.load(args[0])
    if isinstance(v, IList):
        v = ex.adapt(v, fn['rec'])
    if isinstance(v, Vec):
        tgt = ex.read(o)
        same = isinstance(args[0], LV) and args[0].same(o)
        ex.write(o, Vec(tgt.tid if isinstance(tgt, Vec) else v.tid, v.el, v.len, v.arr))
        if ex.ir.T(fn['p'][0]['t'])['k'] == 'rref' and isinstance(args[0], LV) and not same and not args[0].root.startswith('mat#'):
            moved_from(ex, args[0])
        return o
    if z3.is_expr(v):
        # a container kept opaque: assigned from another one
        same = isinstance(args[0], LV) and args[0].same(o)
        ex.write(o, v)
        if ex.ir.T(fn['p'][0]['t'])['k'] == 'rref' and isinstance(args[0], LV) and not same and not args[0].root.startswith('mat#'):
            ex.write(args[0], ex.fresh(v.sort(), 'moved'))
        return o
    raise Undecided('vector assignment')


@vreg('size')
def vec_size(ex, fn, o, args, n):
    return vec_of(ex, o).len


@vreg('max_size', 'capacity')
def vec_cap(ex, fn, o, args, n):
    c = ex.fresh(z3.IntSort(), 'cap')
    ex.assume(And(c >= vec_of(ex, o).len, c <= MAXLEN))
    return c


@vreg('empty')
def vec_empty(ex, fn, o, args, n):
    return vec_of(ex, o).len == 0


@vreg('clear')
def vec_clear(ex, fn, o, args, n):
    ex.write(o, vec_of(ex, o).with_(len=I(0)))


@vreg('reserve', 'shrink_to_fit')
def vec_noop(ex, fn, o, args, n):
    if args:
        # reserve(n) throws length_error for n > max_size()
        a = ex.load(args[0])
        if not ex.branch(a <= 2 ** 60):
            raise ThrowEx('std::length_error')
    return None


@reg('std::_Vector_base::get_allocator')
@vreg('get_allocator')
def vec_alloc(ex, fn, o, args, n):
    return Unit(fn['ret'])


@vreg('begin', 'cbegin')
def vec_begin(ex, fn, o, args, n):
    if not isinstance(o, LV):
        o = ex.temp(o)
    vec_of(ex, o)
    return It(o, I(0))


@vreg('end', 'cend')
def vec_end(ex, fn, o, args, n):
    if not isinstance(o, LV):
        o = ex.temp(o)
    return It(o, vec_of(ex, o).len)


@vreg('rbegin', 'crbegin')
def vec_rbegin(ex, fn, o, args, n):
    return It(o, sub(vec_of(ex, o).len, I(1)), True)


@vreg('rend', 'crend')
def vec_rend(ex, fn, o, args, n):
    vec_of(ex, o)
    return It(o, I(-1), True)


@vreg('operator[]')
def vec_index(ex, fn, o, args, n):
    i = ex.load(args[0])
    v = vec_of(ex, o)
    ex.oblige('index in range', And(i >= 0, i < v.len), n, 'safety')
    if not isinstance(o, LV):
        o = ex.temp(o)
    return o.sub(('i', i))


@vreg('at')
def vec_at(ex, fn, o, args, n):
    i = ex.load(args[0])
    v = vec_of(ex, o)

    def run():
        if ex.branch(i < v.len):
            return o.sub(('i', i))
        raise ThrowEx('std::out_of_range')
    return ex.merge_explore(run)


@vreg('front')
def vec_front(ex, fn, o, args, n):
    ex.oblige('front of non-empty container', vec_of(ex, o).len > 0, n, 'safety')
    return o.sub(('i', I(0)))


@vreg('back')
def vec_back(ex, fn, o, args, n):
    v = vec_of(ex, o)
    ex.oblige('back of non-empty container', v.len > 0, n, 'safety')
    return o.sub(('i', sub(v.len, I(1))))


@vreg('push_back', 'emplace_back', 'emplace_front', 'push_front')
def vec_push(ex, fn, o, args, n):
    v = vec_of(ex, o)
    x = build(ex, v.el, args, n)
    v = vec_of(ex, o)
    if fn['q'].endswith('_front'):
        y = ex.reify(x, v.el)
        arr = mapped_arr(ex, v.el, lambda k: z3.If(k < 1, y, z3.Select(v.arr, k - 1)), 'front', [(v.arr, lambda j: j + 1)])
        ex.write(o, v.with_(len=add(v.len, I(1)), arr=arr))
        return o.sub(('i', I(0)))
    if ex.emplace_fails:
        # strong guarantee: a failed allocation leaves the sequence as it was
        c = ex.fresh(z3.BoolSort(), 'allocation_fails')
        if ex.branch(c):
            raise ThrowEx('std::bad_alloc')
    ex.write(o, v.with_(len=add(v.len, I(1)), arr=z3.Store(v.arr, v.len, ex.reify(x, v.el))))
    return o.sub(('i', v.len))


def build(ex, tid, args, n):
    """Element value constructed from emplace-style arguments."""
    t = ex.ir.T(tid)
    vals = [ex.load(a) for a in args]
    if len(vals) == 1:
        v = vals[0]
        if z3.is_expr(v) and v.sort().eq(ex.sort_of(tid)):
            return v
        if isinstance(v, (Rec, Vec, MapV)) and v.tid == tid:
            return v
    lay = ex.layout(tid)
    if t['k'] == 'b' and len(vals) == 1:
        if z3.is_expr(vals[0]) and vals[0].sort() == z3.IntSort() and ex.sort_of(tid) == z3.IntSort():
            return ex.wrap(vals[0], tid, n)
        return vals[0]
    if not vals and lay:
        return ex.default(tid)
    if lay and lay[0] == 'rec' and t['n'] in ('std::pair', 'std::tuple') and len(vals) == 1 and isinstance(vals[0], Rec) and ex.ir.T(vals[0].tid).get('n') == t['n'] and len(vals[0].d) == len(lay[1]):
        return Rec(tid, {k: build(ex, ft, [v], n) for (k, ft), v in zip(lay[1], vals[0].d.values())})
    if lay and lay[0] == 'rec' and t['n'] in ('std::pair', 'std::tuple') and len(vals) == len(lay[1]):
        return Rec(tid, {k: (v if z3.is_expr(v) or isinstance(v, Uninit) else build(ex, ft, [v], n)) for (k, ft), v in zip(lay[1], vals)})
    if lay and lay[0] == 'vec':
        if not vals:
            return ex.default(tid)
        if isinstance(vals[0], Vec):
            return Vec(tid, vals[0].el, vals[0].len, vals[0].arr)
        if isinstance(vals[0], It):
            return subrange(ex, tid, vals[0], vals[1], n)
        if z3.is_expr(vals[0]) and vals[0].sort() == z3.IntSort():
            b = ex.default(tid)
            x = ex.reify(vals[1] if len(vals) > 1 else ex.zero(b.el), b.el)
            return b.with_(len=vals[0], arr=z3.K(z3.IntSort(), x))
    cands = [f for f in ex.ir.fns if f.get('rec') == tid and f['kind'] == 'ctor' and len(f['p']) == len(args) and (f.get('body') or 'inits' in f) and f.get('special') not in ('copyctor', 'movector')]
    good = []
    for f in cands:
        if all(fits(ex, p['t'], v) for p, v in zip(f['p'], vals)):
            good.append(f)
    if len(good) == 1:
        return ex.construct(tid, good[0], args, n)
    if lay and lay[0] == 'rec' and t.get('def') and not cands and len(vals) == len(lay[1]):
        return Rec(tid, dict((k, v) for (k, _), v in zip(lay[1], vals)))
    raise Undecided('emplace of %s from %d arguments (%d constructors)' % (t['s'], len(vals), len(good)))


def fits(ex, tid, v):
    tid = ex.ir.deref(tid)
    if isinstance(v, (Rec, Vec, MapV)):
        return v.tid == tid
    if z3.is_expr(v):
        try:
            return ex.sort_of(tid).eq(v.sort())
        except Undecided:
            return False
    if isinstance(v, Unit):
        return ex.is_unit(tid)
    return False


@vreg('pop_back')
def vec_pop(ex, fn, o, args, n):
    v = vec_of(ex, o)
    ex.oblige('pop_back of non-empty container', v.len > 0, n, 'safety')
    ex.write(o, v.with_(len=sub(v.len, I(1))))


@vreg('pop_front')
def vec_popf(ex, fn, o, args, n):
    v = vec_of(ex, o)
    ex.oblige('pop_front of non-empty container', v.len > 0, n, 'safety')
    ex.write(o, slice_vec(ex, v.tid, v, I(1), v.len))


@vreg('resize')
def vec_resize(ex, fn, o, args, n):
    v = vec_of(ex, o)
    m = ex.load(args[0])
    x = ex.reify(ex.load(args[1]) if len(args) > 1 else ex.zero(v.el), v.el)
    if cint(v.len) == 0:
        ex.write(o, v.with_(len=m, arr=z3.K(z3.IntSort(), x)))
        return
    a = mapped_arr(ex, v.el, lambda k: z3.If(k < v.len, z3.Select(v.arr, k), x), 'resize', [(v.arr, lambda j: j)])
    ex.write(o, v.with_(len=m, arr=a))


@vreg('assign')
def vec_assign(ex, fn, o, args, n):
    v = vec_of(ex, o)
    a, b = ex.load(args[0]), ex.load(args[1]) if len(args) > 1 else None
    if isinstance(a, It):
        ex.write(o, subrange(ex, v.tid, a, b, n))
    elif isinstance(a, IList):
        ex.write(o, ex.adapt(a, v.tid))
    else:
        ex.write(o, v.with_(len=a, arr=z3.K(z3.IntSort(), ex.reify(b, v.el))))


@vreg('swap')
def vec_swap(ex, fn, o, args, n):
    a, b = vec_of(ex, o), vec_of(ex, args[0])
    ex.write(o, b)
    ex.write(args[0], a)


@vreg('erase')
def vec_erase(ex, fn, o, args, n):
    v = vec_of(ex, o)
    a = ex.load(args[0])
    if not isinstance(a, It):
        raise Undecided('erase argument')
    if len(args) == 1:
        ex.oblige('erase position in range', And(a.idx >= 0, a.idx < v.len), n, 'safety')
        lo, w = a.idx, I(1)
    else:
        b = ex.load(args[1])
        ex.oblige('erase range valid', And(a.idx >= 0, a.idx <= b.idx, b.idx <= v.len), n, 'safety')
        lo, w = a.idx, sub(b.idx, a.idx)
    arr = mapped_arr(ex, v.el, lambda k: z3.If(k < lo, z3.Select(v.arr, k), z3.Select(v.arr, k + w)), 'erase', [(v.arr, lambda j: j), (v.arr, lambda j: j - w)])
    ex.write(o, v.with_(len=sub(v.len, w), arr=arr))
    return It(o, lo)


@vreg('insert', 'emplace')
def vec_insert(ex, fn, o, args, n):
    v = vec_of(ex, o)
    p = ex.load(args[0])
    ex.oblige('insert position in range', And(p.idx >= 0, p.idx <= v.len), n, 'safety')
    if len(args) == 2:
        x = ex.load(args[1])
        if isinstance(x, IList):
            s = ex.adapt(x, v.tid)
        else:
            s = Vec(v.tid, v.el, I(1), z3.Store(ex.empty_arr(v.el), I(0), ex.reify(build(ex, v.el, args[1:], n), v.el)))
    elif len(args) == 3 and isinstance(ex.load(args[1]), It):
        s = subrange(ex, v.tid, args[1], args[2], n)
    else:
        raise Undecided('insert overload')
    arr = mapped_arr(ex, v.el, lambda k: z3.If(k < p.idx, z3.Select(v.arr, k), z3.If(k < p.idx + s.len, z3.Select(s.arr, k - p.idx), z3.Select(v.arr, k - s.len))), 'insert', [(v.arr, lambda j: j), (v.arr, lambda j: j + s.len)])
    ex.write(o, v.with_(len=add(v.len, s.len), arr=arr))
    return It(o, p.idx)


@vreg('data')
def vec_data(ex, fn, o, args, n):
    vec_of(ex, o)
    return It(o, I(0))


# ---------------------------------------------------------------- free range access
@reg('std::begin', 'std::cbegin', 'std::ranges::begin', 'std::ranges::cbegin')
def f_begin(ex, fn, o, args, n):
    return range_end(ex, args[0], True)


@reg('std::end', 'std::cend')
def f_end(ex, fn, o, args, n):
    return range_end(ex, args[0], False)


def range_end(ex, a, first):
    v = ex.load(a)
    if not isinstance(a, LV):
        a = ex.temp(a)
    p = find_container(ex, a)
    v = ex.read(p)
    if isinstance(v, MapV):
        if first:
            raise Undecided('begin of associative container')
        return MIt(p, None, z3.BoolVal(False))
    return It(p, I(0) if first else v.len)


def find_container(ex, a):
    """The standard container an object is or derives from."""
    v = ex.read(a)
    while isinstance(v, Rec):
        bs = [k for k in v.d if isinstance(k, int)]
        if len(bs) != 1:
            raise Undecided('begin() of a class with its own begin')
        a = a.sub(bs[0])
        v = ex.read(a)
    if isinstance(v, (Vec, MapV)):
        return a
    raise Undecided('begin of %r' % type(v))


@reg('std::rbegin', 'std::crbegin')
def f_rbegin(ex, fn, o, args, n):
    p = find_container(ex, args[0])
    return It(p, sub(ex.read(p).len, I(1)), True)


@reg('std::rend', 'std::crend')
def f_rend(ex, fn, o, args, n):
    p = find_container(ex, args[0])
    return It(p, I(-1), True)


@reg('std::size', 'std::ssize')
def f_size(ex, fn, o, args, n):
    return ex.read(find_container(ex, args[0])).len


@reg('std::empty')
def f_empty(ex, fn, o, args, n):
    return ex.read(find_container(ex, args[0])).len == 0


@reg('std::next', 'std::prev')
def f_next(ex, fn, o, args, n):
    it = ex.load(args[0])
    d = ex.load(args[1]) if len(args) > 1 else I(1)
    if isinstance(it, It):
        return ex.it_move(it, d if fn['q'] == 'std::next' else z3.simplify(-d))
    raise Undecided('next')


@reg('std::advance')
def f_advance(ex, fn, o, args, n):
    it = ex.load(args[0])
    ex.write(args[0], ex.it_move(it, ex.load(args[1])))


@reg('std::distance')
def f_distance(ex, fn, o, args, n):
    return ex.it_binop('-', ex.load(args[1]), ex.load(args[0]), n)


@pref(r'__gnu_cxx::__normal_iterator::ctor|std::reverse_iterator::ctor|std::_(List|Deque|Rb_tree)_(const_)?iterator::ctor|boost::container::vec_iterator::ctor')
def it_ctor(ex, fn, o, args, n):
    if not args:
        return Uninit(fn['rec'])
    return ex.load(args[0])


@pref(r'(__gnu_cxx::(__normal_iterator::)?|std::(reverse_iterator|_List_iterator|_List_const_iterator|_Deque_iterator)::|std::|boost::container::(vec_iterator::)?)operator(\+|-|==|!=|<|>|<=|>=|<=>)')
def it_ops(ex, fn, o, args, n):
    op = fn['q'].split('operator')[-1]
    xs = ([ex.load(o)] if o is not None else []) + [ex.load(a) for a in args]
    if len(xs) == 2 and isinstance(xs[0], MIt):
        a, b = xs
        e = Or(And(a.valid, b.valid, a.key == b.key) if a.key is not None and b.key is not None else z3.BoolVal(False), And(Not(a.valid), Not(b.valid)))
        return e if op == '==' else Not(e)
    if len(xs) == 2 and (isinstance(xs[0], It) or isinstance(xs[1], It)):
        if op == '<=>':
            return Cmp3(*xs)
        return ex.it_binop(op, xs[0], xs[1], n)
    return generic_op(ex, fn, op, xs, n)


class Cmp3:
    def __init__(self, a, b):
        self.a, self.b = a, b


def generic_op(ex, fn, op, xs, n):
    if len(xs) == 2 and all(isinstance(x, Ptr) for x in xs):
        return ex.binop(op, xs[0], xs[1], fn['ret'], None, n)
    if len(xs) == 2 and isinstance(xs[0], Cmp3):
        return ex.it_binop(op, xs[0].a, xs[0].b, n)
    if len(xs) == 2 and all(z3.is_expr(x) for x in xs) and op in ('==', '!='):
        if xs[0].sort().eq(xs[1].sort()):
            return xs[0] == xs[1] if op == '==' else xs[0] != xs[1]
    if len(xs) == 2 and op in ('==', '!=') and all(isinstance(x, Vec) for x in xs):
        a, b = xs
        r = ex.fresh(z3.BoolSort(), 'veceq')
        k = z3.Int('k')
        w = ex.fresh(z3.IntSort(), 'w')
        ex.assume(Implies(r, a.len == b.len))
        ex.assume(forall([k], z3.Implies(z3.And(r, k >= 0, k < a.len), z3.Select(a.arr, k) == z3.Select(b.arr, k)), patterns=[z3.Select(a.arr, k), z3.Select(b.arr, k)]))
        ex.assume(Implies(Not(r), Or(a.len != b.len, And(w >= 0, w < a.len, z3.Select(a.arr, w) != z3.Select(b.arr, w)))))
        return r if op == '==' else Not(r)
    if len(xs) == 2 and op in ('==', '!=') and all(isinstance(x, Rec) for x in xs) and xs[0].tid == xs[1].tid:
        e = ex.reify(xs[0]) == ex.reify(xs[1])
        t = ex.ir.T(xs[0].tid)
        if t['n'] in ('std::pair', 'std::tuple'):
            return e if op == '==' else Not(e)
    if len(xs) == 2 and isinstance(xs[0], Rec) and '$has' in xs[0].d:
        pass
    raise Undecided('operator%s of %s' % (op, ex.ir.sig(fn)))


@pref(r'(__gnu_cxx::__normal_iterator|std::reverse_iterator|std::_List_iterator|std::_List_const_iterator|boost::container::vec_iterator)::operator(\+\+|--|\*|->|\+=|-=|\[\])')
def it_mut(ex, fn, o, args, n):
    op = fn['q'].split('operator')[-1]
    it = ex.load(o)
    if op == '*':
        return ex.deref_ptr(it, n)
    if op == '->':
        return Ptr(ex.deref_ptr(it, n))
    if op == '[]':
        return ex.deref_ptr(ex.it_move(it, ex.load(args[0])), n)
    if op in ('++', '--'):
        nv = ex.it_move(it, I(1 if op == '++' else -1))
        ex.write(o, nv)
        return it if args else o
    ex.write(o, ex.it_move(it, ex.load(args[0]) if op == '+=' else z3.simplify(-ex.load(args[0]))))
    return o


@pref(r'(__gnu_cxx::__normal_iterator|std::reverse_iterator)::(base|operator=)')
def it_misc(ex, fn, o, args, n):
    if fn['q'].endswith('operator='):
        ex.write(o, ex.load(args[0]))
        return o
    it = ex.load(o)
    if it.rev:
        return It(it.cont, add(it.idx, I(1)))
    return it


# ---------------------------------------------------------------- utilities
@reg('std::move', 'std::forward', 'std::as_const', 'std::exchange')
def f_move(ex, fn, o, args, n):
    if len(args) == 3:
        return alg_copy(ex, fn, o, args, n)
    if fn['q'] == 'std::exchange':
        old = ex.load(args[0])
        ex.write(args[0], ex.load(args[1]))
        return old
    return args[0]


@reg('std::addressof')
def f_addr(ex, fn, o, args, n):
    return Ptr(args[0])


@reg('std::swap')
def f_swap(ex, fn, o, args, n):
    a, b = ex.load(args[0]), ex.load(args[1])
    ex.write(args[0], b)
    ex.write(args[1], a)


@reg('std::make_pair', 'std::make_tuple')
def f_mkpair(ex, fn, o, args, n):
    return build(ex, ex.ir.deref(fn['ret']), args, n)


@reg('std::pair::ctor', 'std::tuple::ctor')
def f_pair_ctor(ex, fn, o, args, n):
    tid = fn['rec']
    lay = ex.layout(tid)
    if not args:
        return ex.default(tid)
    if len(args) == 1 and len(lay[1]) != 1 or (len(args) == 1 and isinstance(ex.load(args[0]), Rec)):
        v = ex.load(args[0])
        if isinstance(v, Rec):
            return Rec(tid, {k: v.d[k2] for (k, _), k2 in zip(lay[1], v.d)})
    if len(args) == len(lay[1]):
        d = {}
        for (k, ft), a in zip(lay[1], args):
            d[k] = a if ex.ir.isref(ft) else (ex.load(a))
        return Rec(tid, d)
    raise Undecided('pair/tuple constructor')


@reg('std::pair::operator=', 'std::tuple::operator=')
def f_pair_asg(ex, fn, o, args, n):
    v = ex.load(args[0])
    cur = ex.read(o)
    if isinstance(cur, Rec) and any(isinstance(x, LV) for x in cur.d.values()):
        vals = [ex.load(v.d[k]) for k in v.d]
        for k, x in zip(cur.d, vals):
            ex.write(cur.d[k], x)
        return o
    ex.write(o, Rec(cur.tid if isinstance(cur, Rec) else v.tid, dict(zip(cur.d if isinstance(cur, Rec) else v.d, [ex.load(x) for x in v.d.values()]))))
    return o


@reg('std::tie', 'std::forward_as_tuple')
def f_tie(ex, fn, o, args, n):
    return Rec(fn['ret'], {str(i): a for i, a in enumerate(args)})


@reg('std::get')
def f_get(ex, fn, o, args, n):
    a = args[0]
    ta = fn.get('ta', [{}])[0]
    if 'i' not in ta:
        raise Undecided('get by type')
    i = int(ta['i'])
    v = ex.load(a)
    if isinstance(v, Rec):
        k = list(v.d)[i]
        if isinstance(v.d[k], LV):
            return v.d[k]
        return a.sub(k) if isinstance(a, LV) else v.d[k]
    if isinstance(v, Vec):
        return a.sub(('i', I(i)))
    raise Undecided('std::get')


@reg('std::min', 'std::max')
def f_minmax(ex, fn, o, args, n):
    a, b = ex.load(args[0]), ex.load(args[1])
    if len(args) == 3:
        raise Undecided('min with comparator')
    mn = fn['q'] == 'std::min'
    lt = (lambda x, y: ex.fl.cmp('<', x, y)) if a.sort() == ex.fl.sort and ex.fl.sort != z3.IntSort() else (lambda x, y: x < y)
    # std::min(a, b): (b < a) ? b : a ; std::max(a, b): (a < b) ? b : a
    return ex.temp(Ite(lt(b, a), b, a) if mn else Ite(lt(a, b), b, a), 'minmax')


@reg('std::clamp')
def f_clamp(ex, fn, o, args, n):
    v, lo, hi = [ex.load(a) for a in args]
    lt = (lambda x, y: ex.fl.cmp('<', x, y)) if v.sort() == ex.fl.sort and ex.fl.sort != z3.IntSort() else (lambda x, y: x < y)
    return ex.temp(Ite(lt(v, lo), lo, Ite(lt(hi, v), hi, v)))


@pref(r'(std::)?(fabs|sqrt|sin|cos|tan|asin|acos|atan|exp|log|log2|floor|ceil|round|trunc|cbrt)')
def f_math1(ex, fn, o, args, n):
    v = ex.load(args[0])
    if v.sort() == z3.IntSort():
        v = ex.fl.from_int(v)
    return ex.fl.unary(fn['q'].split('::')[-1], v)


@reg('std::abs', 'abs')
def f_abs(ex, fn, o, args, n):
    v = ex.load(args[0])
    if v.sort() == z3.IntSort() and ex.fl.sort != z3.IntSort():
        return z3.If(v >= 0, v, -v)
    return ex.fl.unary('fabs', v)


@pref(r'(std::)?(fmod|pow|atan2|fmin|fmax|hypot|remainder)')
def f_math2(ex, fn, o, args, n):
    xs = [ex.load(a) for a in args]
    xs = [ex.fl.from_int(x) if x.sort() == z3.IntSort() else x for x in xs]
    return ex.fl.binary(fn['q'].split('::')[-1], *xs)


@reg('std::isnan', 'isnan')
def f_isnan(ex, fn, o, args, n):
    return ex.fl.isnan(ex.load(args[0]))


@reg('std::isinf', 'isinf')
def f_isinf(ex, fn, o, args, n):
    return ex.fl.isinf(ex.load(args[0]))


@reg('std::isfinite', 'isfinite')
def f_isfinite(ex, fn, o, args, n):
    v = ex.load(args[0])
    return And(Not(ex.fl.isinf(v)), Not(ex.fl.isnan(v)))


@reg('__assert_fail', '__assert')
def f_assert(ex, fn, o, args, n):
    ex.oblige('assertion holds', z3.BoolVal(False), n, 'assert', assume=False)
    raise PathEnd()


@reg('std::abort', 'std::terminate', 'std::exit', 'exit', 'abort')
def f_abort(ex, fn, o, args, n):
    raise PathEnd()


@pref(r'std::(format|vformat|to_string|basic_format_string::ctor|make_format_args|basic_string::.*|operator""s|__cxx11::basic_string::.*)')
def f_string(ex, fn, o, args, n):
    t = ex.ir.T(ex.ir.deref(fn['ret']))
    if t['k'] == 'b' and t['n'] != 'void':
        raise Undecided('string operation %s' % fn['q'])
    if any(r.search('basic_string') for r in ex.opaque_types):
        # strings as values without structure: copies are equal, anything else gives an unknown string
        rt = fn['rec'] if fn['kind'] == 'ctor' else ex.ir.deref(fn['ret'])
        if 'basic_string' not in ex.ir.tname(rt) or 'basic_string_view' in ex.ir.tname(rt):
            return Unit(None)
        vals = [ex.load(a) for a in args]
        if fn['kind'] == 'ctor' and vals and z3.is_expr(vals[0]) and vals[0].sort() == ex.sort_of(rt):
            return vals[0]
        if fn['q'].endswith('::operator='):
            ex.write(o, vals[0])
            return o
        return ex.sym(rt, 'string')
    return Unit(None)


@pref(r'std::(out_of_range|runtime_error|logic_error|invalid_argument|exception|bad_alloc|length_error|domain_error)::(ctor|what)')
def f_exc(ex, fn, o, args, n):
    return Unit(None)


@reg('std::back_inserter')
def f_backins(ex, fn, o, args, n):
    return BackIns(find_container(ex, args[0]))


# ---------------------------------------------------------------- optional / unique_ptr / shared_ptr / atomic
@reg('std::optional::ctor')
def opt_ctor(ex, fn, o, args, n):
    tid = fn['rec']
    if not args:
        return ex.default(tid)
    v = ex.load(args[0])
    if isinstance(v, Unit):
        return ex.default(tid)
    if isinstance(v, Rec) and '$has' in v.d:
        return Rec(tid, dict(v.d))
    return Rec(tid, {'$has': z3.BoolVal(True), '$val': v})


@reg('std::optional::operator=')
def opt_asg(ex, fn, o, args, n):
    v = ex.load(args[0])
    cur = ex.read(o)
    if isinstance(v, Unit):
        ex.write(o, ex.default(cur.tid))
    elif isinstance(v, Rec) and '$has' in v.d:
        ex.write(o, Rec(cur.tid, dict(v.d)))
    else:
        ex.write(o, Rec(cur.tid, {'$has': z3.BoolVal(True), '$val': v}))
    return o


@reg('std::optional::has_value', 'std::optional::operator bool', 'std::optional::conv')
def opt_has(ex, fn, o, args, n):
    return ex.load(o).d['$has']


@reg('std::optional::operator*', 'std::optional::value', 'std::optional::operator->')
def opt_val(ex, fn, o, args, n):
    v = ex.load(o)
    if fn['q'].endswith('value'):
        def run():
            if not ex.branch(v.d['$has']):
                raise ThrowEx('std::bad_optional_access')
        ex.merge_explore(run)
    else:
        ex.oblige('optional has a value', v.d['$has'], n, 'safety')
    if not isinstance(o, LV):
        o = ex.temp(o)
    lv = o.sub('$val')
    return Ptr(lv) if fn['q'].endswith('->') else lv


@reg('std::optional::reset')
def opt_reset(ex, fn, o, args, n):
    ex.write(o, ex.default(ex.read(o).tid))


@reg('std::optional::emplace')
def opt_emplace(ex, fn, o, args, n):
    cur = ex.read(o)
    t = ex.ir.T(cur.tid)['a'][0]['t']
    ex.write(o, Rec(cur.tid, {'$has': z3.BoolVal(True), '$val': build(ex, t, args, n)}))
    return o.sub('$val')


@reg('std::make_unique', 'std::make_shared')
def up_make(ex, fn, o, args, n):
    t = ex.ir.T(ex.ir.deref(fn['ret']))['a'][0]['t']
    v = build(ex, t, args, n)
    r = ex.newroot('heap')
    ex.store[r] = v
    ex.rtype[r] = t
    return Ptr(LV(r))


@reg('std::unique_ptr::operator=', 'std::shared_ptr::operator=')
def up_asg(ex, fn, o, args, n):
    v = ex.load(args[0])
    if not isinstance(v, Ptr):
        raise Undecided('smart pointer assignment')
    ex.write(o, v)
    return o


@reg('std::unique_ptr::reset', 'std::shared_ptr::reset')
def up_reset(ex, fn, o, args, n):
    if any(isinstance(ex.load(a), Ptr) and ex.load(a).lv is not None for a in args):
        raise Undecided('reset to another object')
    ex.write(o, Ptr(None))


@reg('std::unique_ptr::operator->', 'std::shared_ptr::operator->', 'std::__shared_ptr_access::operator->', 'std::unique_ptr::get', 'std::shared_ptr::get', 'std::__shared_ptr::get')
def up_arrow(ex, fn, o, args, n):
    v = ex.load(o)
    if not isinstance(v, Ptr):
        raise Undecided('smart pointer')
    return v


@reg('std::unique_ptr::operator*', 'std::shared_ptr::operator*', 'std::__shared_ptr_access::operator*')
def up_deref(ex, fn, o, args, n):
    return ex.deref_ptr(ex.load(o), n)


@reg('std::unique_ptr::conv', 'std::shared_ptr::conv', 'std::__shared_ptr::conv', 'std::unique_ptr::operator bool')
def up_bool(ex, fn, o, args, n):
    return ex.as_bool(ex.load(o))


@pref(r'std::(__atomic_base|atomic)::(load|conv|store|fetch_add|fetch_sub|operator.*|exchange|ctor)')
def atomic_ops(ex, fn, o, args, n):
    m = fn['q'].split('::')[-1]
    if m == 'ctor':
        return Rec(fn['rec'], {'$v': ex.load(args[0]) if args else ex.zero(ex.ir.T(fn['rec'])['a'][0]['t'])})
    if isinstance(o, LV):
        v = ex.read(o)
        lv = o.sub('$v') if isinstance(v, Rec) else o
    else:
        raise Undecided('atomic')
    cur = ex.read(lv)
    if m in ('load', 'conv'):
        return cur
    w = lambda e: ex.wrap(e, fn['ret']) if ex.ir.T(ex.ir.deref(fn['ret']))['k'] == 'b' and 'bits' in ex.ir.T(ex.ir.deref(fn['ret'])) and not z3.is_bool(e) else e
    if m in ('store', 'operator='):
        ex.write(lv, ex.load(args[0]))
        return ex.load(args[0])
    if m == 'exchange':
        ex.write(lv, ex.load(args[0]))
        return cur
    if m in ('fetch_add', 'operator+='):
        ex.write(lv, w(add(cur, ex.load(args[0]))))
        return cur if m == 'fetch_add' else ex.read(lv)
    if m in ('fetch_sub', 'operator-='):
        ex.write(lv, w(sub(cur, ex.load(args[0]))))
        return cur if m == 'fetch_sub' else ex.read(lv)
    if m in ('operator++', 'operator--'):
        ex.write(lv, w(add(cur, I(1 if m == 'operator++' else -1))))
        return cur if args else ex.read(lv)
    raise Undecided('atomic ' + m)


# ---------------------------------------------------------------- associative containers
MAPN = ('std::map', 'std::unordered_map', 'boost::unordered::unordered_flat_map', 'boost::unordered::unordered_map', 'boost::unordered::unordered_node_map', 'absl::flat_hash_map', 'absl::lts_20220623::flat_hash_map',
        'std::set', 'std::unordered_set', 'boost::unordered::unordered_flat_set', 'boost::unordered::unordered_set', 'absl::flat_hash_set')


def mreg(*ms):
    return reg(*['%s::%s' % (c, m) for c in MAPN for m in ms])


@mreg('ctor')
def map_ctor(ex, fn, o, args, n):
    vals = [ex.load(a) for a in args]
    vals = [v for v in vals if not isinstance(v, Unit)]
    if len(vals) == 1 and isinstance(vals[0], MapV):
        return vals[0]
    if all(z3.is_expr(v) for v in vals) and len(vals) <= 1:
        return ex.default(fn['rec'])
    raise Undecided('map constructor')


@mreg('operator=')
def map_asg(ex, fn, o, args, n):
    ex.write(o, ex.load(args[0]))
    return o


def key_of(ex, m, a):
    return ex.reify(ex.load(a), m.kt)


@mreg('find')
def map_find(ex, fn, o, args, n):
    m = ex.load(o)
    k = key_of(ex, m, args[0])
    return MIt(o, k, ex.select(m.dom, k))


@mreg('end', 'cend')
def map_end(ex, fn, o, args, n):
    return MIt(o, None, z3.BoolVal(False))


@mreg('contains')
def map_contains(ex, fn, o, args, n):
    m = ex.load(o)
    return ex.select(m.dom, key_of(ex, m, args[0]))


@mreg('count')
def map_count(ex, fn, o, args, n):
    m = ex.load(o)
    return Ite(ex.select(m.dom, key_of(ex, m, args[0])), I(1), I(0))


@mreg('size')
def map_size(ex, fn, o, args, n):
    return ex.load(o).n


@mreg('empty')
def map_empty(ex, fn, o, args, n):
    return ex.load(o).n == 0


@mreg('clear')
def map_clear(ex, fn, o, args, n):
    m = ex.load(o)
    ex.write(o, m.with_(dom=z3.K(m.dom.sort().domain(), z3.BoolVal(False)), n=I(0)))


@mreg('reserve', 'rehash', 'max_load_factor')
def map_reserve(ex, fn, o, args, n):
    return None


def map_put(ex, o, m, k, v, overwrite):
    """Insert; returns the was-present flag."""
    had = ex.select(m.dom, k)
    nm = m.with_(dom=z3.Store(m.dom, k, z3.BoolVal(True)), n=Ite(had, m.n, add(m.n, I(1))))
    if m.vt is not None:
        x = ex.reify(v, m.vt)
        nm = nm.with_(val=z3.Store(m.val, k, x if overwrite else Ite(had, ex.select(m.val, k), x)))
    ex.write(o, nm)
    return had


@mreg('operator[]')
def map_index(ex, fn, o, args, n):
    m = ex.load(o)
    k = key_of(ex, m, args[0])
    try:
        d = ex.reify(ex.zero(m.vt), m.vt)
    except Undecided:
        d = z3.Const('mapdefault_%d' % m.vt, ex.sort_of(m.vt))
    map_put(ex, o, m, k, d, False)
    return o.sub(('k', k))


@mreg('at')
def map_at(ex, fn, o, args, n):
    m = ex.load(o)
    k = key_of(ex, m, args[0])

    def run():
        if ex.branch(ex.select(m.dom, k)):
            return o.sub(('k', k))
        raise ThrowEx('std::out_of_range')
    return ex.merge_explore(run)


@mreg('emplace', 'insert', 'try_emplace', 'insert_or_assign', 'emplace_hint')
def map_emplace(ex, fn, o, args, n):
    m = ex.load(o)
    if len(args) == 1 and isinstance(ex.load(args[0]), Rec) and m.vt is not None:
        p = ex.load(args[0])
        k, v = [ex.load(x) for x in p.d.values()]
        k = ex.reify(k, m.kt)
    elif m.vt is None:
        k, v = ex.reify(build(ex, m.kt, args, n), m.kt), None
    elif len(args) == 2 and not isinstance(ex.load(args[0]), It):
        k = ex.reify(build(ex, m.kt, args[:1], n), m.kt)
        v = build(ex, m.vt, args[1:], n)
    elif fn['q'].endswith('try_emplace'):
        k = ex.reify(ex.load(args[0]), m.kt)
        v = build(ex, m.vt, args[1:], n)
    else:
        raise Undecided('map insertion %s' % ex.ir.sig(fn))
    if ex.emplace_fails and ex.branch(ex.fresh(z3.BoolSort(), 'allocation_fails')):
        raise ThrowEx('std::bad_alloc')
    had = map_put(ex, o, m, k, v, fn['q'].endswith('insert_or_assign'))
    rt = ex.ir.deref(fn['ret'])
    it = MIt(o, k, z3.BoolVal(True))
    if ex.ir.T(rt)['n'] == 'std::pair':
        return Rec(rt, {'first': it, 'second': Not(had)})
    return it


@mreg('erase')
def map_erase(ex, fn, o, args, n):
    m = ex.load(o)
    a = ex.load(args[0])
    if isinstance(a, MIt):
        ex.oblige('erase of a valid iterator', a.valid, n, 'safety')
        k = a.key
    else:
        k = ex.reify(a, m.kt)
    had = ex.select(m.dom, k)
    ex.write(o, m.with_(dom=z3.Store(m.dom, k, z3.BoolVal(False)), n=Ite(had, sub(m.n, I(1)), m.n)))
    return Ite(had, I(1), I(0))


@pref(r'(std::|boost::unordered::detail::foa::|absl::.*)?(table_iterator::|_Rb_tree_(const_)?iterator::|__detail::_Node_(const_)?iterator(_base)?::|raw_hash_set::.*iterator::)?operator(!=|==|->|\*)')
def mit_ops(ex, fn, o, args, n):
    op = fn['q'].split('operator')[-1]
    xs = ([o] if o is not None else []) + list(args)
    vs = [ex.load(x) for x in xs]
    if op in ('->', '*') and len(vs) == 1:
        lv = ex.deref_ptr(vs[0], n)
        return Ptr(lv) if op == '->' else lv
    return it_ops(ex, fn, o, args, n)


def enumeration(ex, m):
    """Vec of the keys of a map or set in some order (a function of the set of keys), with the place of each key."""
    ks = m.dom.sort().domain()
    el = m.kt
    f = z3.Function('keys_of_%d' % el, m.dom.sort(), z3.ArraySort(z3.IntSort(), ks))
    g = z3.Function('place_of_%d' % el, m.dom.sort(), z3.ArraySort(ks, z3.IntSort()))
    arr, inv = f(m.dom), g(m.dom)
    i, k = z3.Int('i'), z3.Const('k', ks)
    x, y = z3.Select(arr, i), z3.Select(inv, k)
    ex.assume(m.n >= 0)
    ex.assume(forall([i], z3.Implies(z3.And(i >= 0, i < m.n), z3.And(z3.Select(m.dom, x), z3.Select(inv, x) == i)), patterns=[x]))
    ex.assume(forall([k], z3.Implies(z3.Select(m.dom, k), z3.And(y >= 0, y < m.n, z3.Select(arr, y) == k)), patterns=[z3.Select(m.dom, k), y]))
    vt = next((t for t in range(len(ex.ir.types)) if ex.ir.T(t).get('n') == 'std::vector'), el)
    return Vec(vt, el, m.n, arr)


def map_range_for(ex, s, rng, v):
    """for (x : container): every key once in some order; the container must not change on the way."""
    en = ex.temp(enumeration(ex, v), 'order')
    at = ex.temp(I(0), 'place')
    ex.rtype[at.root] = ex.ir.find_type(r'^unsigned long$')[0]
    d = v.dom

    def same():
        m = ex.read(rng)
        if not m.dom.eq(d):
            raise Undecided('iteration over a container that changes')
        return m

    def body():
        same()
        i = ex.read(at)
        vd = s['v']['d'][0]
        if v.vt is None:
            src = en.sub(('i', i))
        else:
            src = rng.sub(('kv', z3.Select(v_arr(), i)))
        if ex.ir.isref(vd['t']):
            ex.fr.env[vd['id']] = src
        else:
            ex.fr.env[vd['id']] = ex.temp(ex.load(src), vd.get('n') or 'item', vd['t'])
        ex.ex(s['b'])
        same()

    def v_arr():
        return ex.read(en).arr

    def inc():
        ex.write(at, ex.read(at) + 1)
    ex.loop(lambda: ex.read(at) < ex.read(en).len, body, inc, s)


# ---------------------------------------------------------------- algorithms
@reg('std::copy', 'std::ranges::copy')
def alg_copy(ex, fn, o, args, n):
    src, lo, hi = range_vec(ex, args[0], args[1], n) if not ex.load(args[0]).rev else (None, None, None)
    out = ex.load(args[2])
    if isinstance(out, BackIns):
        d = ex.read(out.lv)
        s = slice_vec(ex, d.tid, src, lo, hi) if src is not None else subrange(ex, d.tid, args[0], args[1], n)
        ex.write(out.lv, append_vec(ex, d, s))
        return out
    if isinstance(out, It) and src is not None:
        d = ex.read(out.cont)
        w = sub(hi, lo)
        ex.oblige('destination range large enough', And(out.idx >= 0, out.idx + w <= d.len), n, 'safety')
        arr = mapped_arr(ex, d.el, lambda k: z3.If(z3.And(k >= out.idx, k < out.idx + w), z3.Select(src.arr, k - out.idx + lo), z3.Select(d.arr, k)), 'copy')
        ex.write(out.cont, d.with_(arr=arr))
        return It(out.cont, add(out.idx, w))
    raise Undecided('copy destination')


@reg('std::reverse')
def alg_reverse(ex, fn, o, args, n):
    v, lo, hi = range_vec(ex, args[0], args[1], n)
    it = ex.load(args[0])
    arr = mapped_arr(ex, v.el, lambda k: z3.If(z3.And(k >= lo, k < hi), z3.Select(v.arr, lo + hi - 1 - k), z3.Select(v.arr, k)), 'reverse', [(v.arr, lambda j: lo + hi - 1 - j)])
    ex.write(it.cont, v.with_(arr=arr))


@reg('std::fill')
def alg_fill(ex, fn, o, args, n):
    v, lo, hi = range_vec(ex, args[0], args[1], n)
    it = ex.load(args[0])
    x = ex.reify(ex.load(args[2]), v.el)
    arr = mapped_arr(ex, v.el, lambda k: z3.If(z3.And(k >= lo, k < hi), x, z3.Select(v.arr, k)), 'fill')
    ex.write(it.cont, v.with_(arr=arr))


def each(ex, args, n, body, hint='i'):
    """Loop over [args0, args1) through the loop rule; body(element lvalue)."""
    a, b = ex.load(args[0]), ex.load(args[1])
    if not isinstance(a, It):
        raise Undecided('algorithm over %r' % type(a))
    r = ex.temp(a, hint)
    if ex.frames:
        ex.fr.env[('alg', r.root)] = r

    def cond():
        return ex.it_binop('!=', ex.read(r), b, n)

    def bd():
        body(ex.deref_ptr(ex.read(r), n), ex.read(r))

    def inc():
        ex.write(r, ex.it_move(ex.read(r), I(1)))
    node = {'l': n.get('l', '') if n else '', 'k': 'alg'}
    ex.loop(cond, bd, inc, node)
    return r


def constants(e):
    seen, todo, out = set(), [e], set()
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(t.decl().name())
        todo += [t.body()] if z3.is_quantifier(t) else t.children()
    return out


def find_fn(ex, v):
    """Place of the first element equal to x in [lo, hi), else hi."""
    A = z3.ArraySort(z3.IntSort(), ex.sort_of(v.el))
    f = z3.Function('find_%s' % ex.sort_of(v.el).name(), A, z3.IntSort(), z3.IntSort(), ex.sort_of(v.el), z3.IntSort())
    x, k = z3.Const('x', ex.sort_of(v.el)), z3.Int('k')

    def at(lo, hi):
        r = f(v.arr, lo, hi, x)
        ex.assume(forall([x], z3.Implies(lo <= hi, z3.And(lo <= r, r <= hi, z3.Implies(r < hi, z3.Select(v.arr, r) == x))), patterns=[r]))
        ex.assume(forall([x, k], z3.Implies(z3.And(lo <= k, k < hi, z3.Select(v.arr, k) == x), r <= k), patterns=[z3.MultiPattern(r, z3.Select(v.arr, k))]))
        return lambda y: f(v.arr, lo, hi, y)
    return at


@reg('std::find')
def alg_find(ex, fn, o, args, n):
    if ex.is_float(fn['p'][2]['t']):
        raise Undecided('find of a float')
    v, lo, hi = range_vec(ex, args[0], args[1], n)
    return It(ex.load(args[0]).cont, find_fn(ex, v)(lo, hi)(ex.reify(ex.load(args[2]), v.el)))


@reg('std::remove_copy_if', 'std::copy_if')
def alg_filter(ex, fn, o, args, n):
    out = ex.load(args[2])
    if not isinstance(out, BackIns):
        raise Undecided('filter into a range')
    v, lo, hi = range_vec(ex, args[0], args[1], n)
    x = ex.fresh(ex.sort_of(v.el), 'filtered')
    made = set()
    orig = ex.fresh

    def recording(sort, hint='v'):
        c = orig(sort, hint)
        made.add(c.decl().name())
        return c
    ex.fresh = recording
    try:
        lv = ex.temp(ex.reflect(x, v.el), 'el', v.el)
        keep = ex.as_bool(ex.load(ex.apply(args[3], [lv], n)))
    finally:
        del ex.fresh
    if made & constants(keep):
        raise Undecided('predicate of a filter is not a function of the element')
    if 'remove' in fn['q']:
        keep = z3.Not(keep)
    kp = lambda y: z3.substitute(keep, (x, y))
    d = ex.read(out.lv)
    m = ex.fresh(z3.IntSort(), 'kept')
    g = ex.fresh(z3.ArraySort(z3.IntSort(), z3.IntSort()), 'kept.from')
    p = ex.fresh(z3.ArraySort(z3.IntSort(), z3.IntSort()), 'kept.to')
    k, j = z3.Ints('k j')
    ex.assume(And(m >= 0, m <= hi - lo))
    src = lambda q: z3.Select(v.arr, q)
    arr = mapped_arr(ex, d.el, lambda q: z3.If(q < d.len, z3.Select(d.arr, q), src(z3.Select(g, q - d.len))), 'filtered', [(d.arr, lambda q: q)])
    ex.assume(forall([k], z3.Implies(z3.And(k >= 0, k < m), z3.And(z3.Select(g, k) >= lo, z3.Select(g, k) < hi, kp(src(z3.Select(g, k))), z3.Select(p, z3.Select(g, k)) == k, z3.Select(arr, d.len + k) == src(z3.Select(g, k)))), patterns=[z3.Select(g, k)]))
    ex.assume(forall([j], z3.Implies(z3.And(j >= lo, j < hi, kp(src(j))), z3.And(z3.Select(p, j) >= 0, z3.Select(p, j) < m, z3.Select(g, z3.Select(p, j)) == j)), patterns=[src(j)]))
    ex.assume(forall([k, j], z3.Implies(z3.And(k >= 0, k < j, j < m), z3.Select(g, k) < z3.Select(g, j)), patterns=[z3.MultiPattern(z3.Select(g, k), z3.Select(g, j))]))
    ex.write(out.lv, d.with_(arr=arr, len=add(d.len, m)))
    return out


@reg('std::for_each')
def alg_for_each(ex, fn, o, args, n):
    f = args[2]
    each(ex, args, n, lambda lv, it: ex.apply(f, [lv], n))
    return ex.load(f)


@reg('std::transform')
def alg_transform(ex, fn, o, args, n):
    if len(args) != 4:
        raise Undecided('binary transform')
    f = args[3]
    out = ex.load(args[2])
    ol = ex.temp(out, 'out') if isinstance(out, It) else None
    if ol is not None and ex.frames:
        ex.fr.env[('alg', ol.root)] = ol

    def body(lv, it):
        v = ex.load(ex.apply(f, [lv], n))
        if isinstance(out, BackIns):
            d = ex.read(out.lv)
            ex.write(out.lv, d.with_(len=add(d.len, I(1)), arr=z3.Store(d.arr, d.len, ex.reify(v, d.el))))
        else:
            o2 = ex.read(ol)
            ex.write(ex.it_deref(o2, n), v)
            ex.write(ol, ex.it_move(o2, I(1)))
    each(ex, args, n, body)
    return out if ol is None else ex.read(ol)


@reg('std::accumulate')
def alg_accumulate(ex, fn, o, args, n):
    acc = ex.temp(ex.load(args[2]), 'acc', fn['p'][2]['t'])
    if ex.frames:
        ex.fr.env[('alg', acc.root)] = acc

    def body(lv, it):
        a = ex.read(acc)
        if len(args) == 4:
            v = ex.load(ex.apply(args[3], [ex.temp(a), lv], n))
        else:
            x = ex.load(lv)
            t = ex.ir.deref(fn['p'][2]['t'])
            v = ex.fl.op('+', a, x) if ex.is_float(t) else ex.wrap(add(a, x), t)
        ex.write(acc, v)
    each(ex, args, n, body)
    return ex.read(acc)


# ---------------------------------------------------------------- Boost.Geometry value types
@reg('boost::geometry::model::segment::ctor', 'boost::geometry::model::referring_segment::ctor')
def seg_ctor(ex, fn, o, args, n):
    if not args:
        return ex.default(fn['rec'])
    if len(args) == 1:
        return ex.load(args[0])
    return Rec(fn['rec'], {'first': ex.load(args[0]), 'second': ex.load(args[1])})


# ---------------------------------------------------------------- ordering algorithms
# sorted_T(array, lo, hi, k): the element at position k of the sorted contents of [lo, hi) (order statistics, as in the standard's specification of nth_element)
def order_stat(ex, el):
    s = ex.sort_of(el)
    A = z3.ArraySort(z3.IntSort(), s)
    return z3.Function('sorted_%s' % s.name(), A, z3.IntSort(), z3.IntSort(), z3.IntSort(), s)


def permuted(ex, v, lo, hi, hint):
    """Fresh contents: a permutation of [lo, hi), unchanged outside; returns (array, permutation)."""
    a = ex.fresh(z3.ArraySort(z3.IntSort(), ex.sort_of(v.el)), hint)
    p = ex.fresh(z3.ArraySort(z3.IntSort(), z3.IntSort()), hint + '.perm')
    q = ex.fresh(z3.ArraySort(z3.IntSort(), z3.IntSort()), hint + '.inv')
    k = z3.Int('k')
    inr = And(k >= lo, k < hi)
    ex.assume(forall([k], z3.Select(a, k) == z3.Select(v.arr, z3.Select(p, k)), patterns=[z3.Select(a, k)]))
    ex.assume(forall([k], z3.If(inr, z3.And(z3.Select(p, k) >= lo, z3.Select(p, k) < hi, z3.Select(q, z3.Select(p, k)) == k), z3.Select(p, k) == k), patterns=[z3.Select(p, k)]))
    ex.assume(forall([k], z3.If(inr, z3.And(z3.Select(q, k) >= lo, z3.Select(q, k) < hi, z3.Select(p, z3.Select(q, k)) == k), z3.Select(q, k) == k), patterns=[z3.Select(q, k), z3.Select(v.arr, k)] if False else [z3.Select(q, k)]))
    S = order_stat(ex, v.el)
    L, H = z3.Ints('L H')
    ex.assume(forall([L, H, k], z3.Implies(z3.And(L <= lo, hi <= H), S(a, L, H, k) == S(v.arr, L, H, k)), patterns=[S(a, L, H, k)]))
    return a, p


@reg('std::nth_element')
def alg_nth(ex, fn, o, args, n):
    if len(args) != 3:
        raise Undecided('nth_element with comparator')
    v, lo, hi = range_vec(ex, args[0], args[2], n)
    m = ex.load(args[1]).idx
    ex.oblige('nth lies in the range', And(m >= lo, m <= hi), n, 'safety')
    a, p = permuted(ex, v, lo, hi, 'nth')
    S = order_stat(ex, v.el)
    k = z3.Int('k')
    ex.assume(Implies(m < hi, z3.Select(a, m) == S(v.arr, lo, hi, m - lo)))
    # what stands before the nth position are the smallest elements, what stands behind it the largest
    ex.assume(forall([k], z3.Implies(z3.And(k >= 0, k < m - lo), S(a, lo, m, k) == S(v.arr, lo, hi, k)), patterns=[S(a, lo, m, k)]))
    ex.assume(forall([k], z3.Implies(z3.And(k >= 0, k < hi - m), S(a, m, hi, k) == S(v.arr, lo, hi, k + m - lo)), patterns=[S(a, m, hi, k)]))
    ex.write(ex.load(args[0]).cont, v.with_(arr=a))


@reg('std::sort', 'std::stable_sort', 'std::partial_sort')
def alg_sort(ex, fn, o, args, n):
    part = fn['q'].endswith('partial_sort')
    if len(args) != (3 if part else 2):
        raise Undecided('sort with comparator')
    v, lo, hi = range_vec(ex, args[0], args[-1], n)
    m = ex.load(args[1]).idx
    a, p = permuted(ex, v, lo, hi, 'sort')
    S = order_stat(ex, v.el)
    k = z3.Int('k')
    ex.assume(forall([k], z3.Implies(z3.And(k >= lo, k < m), z3.Select(a, k) == S(v.arr, lo, hi, k - lo)), patterns=[z3.Select(a, k)]))
    ex.write(ex.load(args[0]).cont, v.with_(arr=a))


@reg('std::max_element', 'std::min_element')
def alg_extreme(ex, fn, o, args, n):
    if len(args) != 2:
        raise Undecided('extreme element with comparator')
    v, lo, hi = range_vec(ex, args[0], args[1], n)
    S = order_stat(ex, v.el)
    i = ex.fresh(z3.IntSort(), 'extreme')
    w = hi - 1 - lo if fn['q'].endswith('max_element') else I(0)
    ex.assume(z3.If(lo < hi, z3.And(i >= lo, i < hi, z3.Select(v.arr, i) == S(v.arr, lo, hi, w)), i == hi))
    return It(ex.load(args[0]).cont, i)
