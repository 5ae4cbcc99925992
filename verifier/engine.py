"""Symbolic executor / obligation generator over the extracted IR."""
import z3, re, subprocess, time, sys
from values import *
import ir as irmod

sys.setrecursionlimit(20000)

U64 = 2 ** 64

VEC_TYPES = {'std::vector', 'std::deque', 'std::list', 'std::initializer_list', 'boost::container::vector', 'std::array', 'std::stack_c'}
MAP_TYPES = {'std::map', 'std::unordered_map', 'boost::unordered::unordered_flat_map', 'boost::unordered::unordered_map', 'boost::unordered::unordered_node_map', 'absl::flat_hash_map'}
SET_TYPES = {'std::set', 'std::unordered_set', 'boost::unordered::unordered_flat_set', 'boost::unordered::unordered_set', 'absl::flat_hash_set'}


class Outcome(Exception):
    pass


class BreakEx(Outcome):
    pass


class ContinueEx(Outcome):
    pass


class PathEnd(Outcome):
    pass


class ReturnEx(Outcome):
    def __init__(self, v):
        self.v = v


class ThrowEx(Outcome):
    def __init__(self, t, v=None):
        self.t, self.v = t, v


class Frame:
    def __init__(self, fn, this, parent=None):
        self.fn, self.this, self.env, self.parent = fn, this, {}, parent
        self.own = set()


class Obligation:
    def __init__(self, name, loc, pc, goal, kind):
        self.name, self.loc, self.pc, self.goal, self.kind = name, loc, pc, goal, kind
        self.status = None


class Floats:
    """Float semantics: 'uf' uninterpreted IEEE operations, 'fp' IEEE-754 double, 'real' mathematical reals (with nan/inf sentinels as distinguished values)."""

    def __init__(self, mode):
        self.mode = mode
        if mode == 'uf':
            self.sort = z3.DeclareSort('F64')
            F, B = self.sort, z3.BoolSort()
            self.fn = {o: z3.Function('f' + o, F, F, F) for o in ('add', 'sub', 'mul', 'div', 'fmod', 'atan2', 'fmin', 'fmax', 'hypot', 'pow', 'rem')}
            self.un = {}
            self.lt = z3.Function('flt', F, F, B)
            self.le = z3.Function('fle', F, F, B)
            self.eqf = z3.Function('feq', F, F, B)
            self.isnan_ = z3.Function('fisnan', F, B)
            self.isinf_ = z3.Function('fisinf', F, B)
            self.consts = {}
            self.ofint = z3.Function('f_of_int', z3.IntSort(), F)
            self.toint = z3.Function('f_to_int', F, z3.IntSort())
        elif mode == 'fp':
            self.sort = z3.Float64()
            self.rm = z3.RNE()
        else:
            self.sort = z3.RealSort()
        self.unf = {}

    def const(self, hx):
        f = float.fromhex(hx) if hx not in ('inf', '-inf', 'nan', '-nan') else float(hx.replace('-nan', 'nan'))
        if self.mode == 'fp':
            return z3.FPVal(f, self.sort)
        if self.mode == 'real':
            if f != f or f in (float('inf'), float('-inf')):
                return z3.Const('real_' + ('nan' if f != f else 'inf' if f > 0 else 'ninf'), self.sort)
            n, d = f.as_integer_ratio()
            return z3.RealVal(n) / d if d != 1 else z3.RealVal(n)
        key = 'nan' if f != f else f.hex()
        if key not in self.consts:
            self.consts[key] = z3.Const('fc_' + key, self.sort)
        return self.consts[key]

    def axioms(self):
        if self.mode != 'uf':
            return []
        ax = []
        cs = list(self.consts.items())
        if len(cs) > 1:
            ax.append(z3.Distinct(*[c for _, c in cs]))
        for k, c in cs:
            ax.append(self.isnan_(c) if k == 'nan' else z3.Not(self.isnan_(c)))
            ax.append(self.isinf_(c) if k in ('inf', '-inf') else z3.Not(self.isinf_(c)))
        for k, c in cs:
            for l, d in cs:
                if k != 'nan' and l != 'nan':
                    a, b = float.fromhex(k), float.fromhex(l)
                    ax.append(self.lt(c, d) == z3.BoolVal(a < b))
                    ax.append(self.le(c, d) == z3.BoolVal(a <= b))
                    ax.append(self.eqf(c, d) == z3.BoolVal(a == b))
        return ax

    def op(self, o, a, b):
        m = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'div'}.get(o)
        if self.mode == 'uf':
            return self.fn[m](a, b)
        if self.mode == 'fp':
            return {'add': z3.fpAdd, 'sub': z3.fpSub, 'mul': z3.fpMul, 'div': z3.fpDiv}[m](self.rm, a, b)
        return {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'div': lambda: a / b}[m]()

    def cmp(self, o, a, b):
        if self.mode == 'uf':
            if self.isconst(a) and self.isconst(b):
                x, y = [float.fromhex(n) if n != 'nan' else float('nan') for n in (a.decl().name()[3:], b.decl().name()[3:])]
                return z3.BoolVal({'<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y, '==': x == y, '!=': x != y}[o])
            for u, v, fl in ((a, b, False), (b, a, True)):
                if z3.is_app_of(u, z3.Z3_OP_ITE) and self.isconst(u.arg(1)) and self.isconst(u.arg(2)) and self.isconst(v):
                    f = (lambda x: self.cmp(o, v, x)) if fl else (lambda x: self.cmp(o, x, v))
                    return Ite(u.arg(0), f(u.arg(1)), f(u.arg(2)))
            if o == '<':
                return self.lt(a, b)
            if o == '>':
                return self.lt(b, a)
            if o == '<=':
                return self.le(a, b)
            if o == '>=':
                return self.le(b, a)
            return self.eqf(a, b) if o == '==' else z3.Not(self.eqf(a, b))
        if self.mode == 'fp':
            return {'<': z3.fpLT, '>': z3.fpGT, '<=': z3.fpLEQ, '>=': z3.fpGEQ, '==': z3.fpEQ, '!=': lambda x, y: z3.Not(z3.fpEQ(x, y))}[o](a, b)
        return {'<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b, '==': a == b, '!=': a != b}[o]

    def neg(self, a):
        if self.mode == 'fp':
            return z3.fpNeg(a)
        if self.mode == 'real':
            return -a
        return self.unary('neg', a)

    def unary(self, n, a):
        if self.mode == 'fp' and n == 'fabs':
            return z3.fpAbs(a)
        if self.mode == 'fp' and n == 'sqrt':
            return z3.fpSqrt(self.rm, a)
        if self.mode == 'real' and n == 'fabs':
            return z3.If(a >= 0, a, -a)
        if n not in self.unf:
            self.unf[n] = z3.Function('f' + n, self.sort, self.sort)
        return self.unf[n](a)

    def binary(self, n, a, b):
        if ('2', n) not in self.unf:
            self.unf[('2', n)] = z3.Function('f2' + n, self.sort, self.sort, self.sort)
        return self.unf[('2', n)](a, b)

    def isnan(self, a):
        if self.mode == 'uf':
            return self.isnan_(a)
        if self.mode == 'fp':
            return z3.fpIsNaN(a)
        return a == z3.Const('real_nan', self.sort)

    def isinf(self, a):
        if self.mode == 'uf':
            return self.isinf_(a)
        if self.mode == 'fp':
            return z3.fpIsInf(a)
        return z3.Or(a == z3.Const('real_inf', self.sort), a == z3.Const('real_ninf', self.sort))

    def isconst(self, x):
        return self.mode == 'uf' and z3.is_const(x) and x.decl().name().startswith('fc_')

    def from_int(self, i):
        c = cint(i)
        if z3.is_app_of(i, z3.Z3_OP_ITE) and cint(i.arg(1)) is not None and cint(i.arg(2)) is not None:
            return Ite(i.arg(0), self.from_int(i.arg(1)), self.from_int(i.arg(2)))
        if c is not None and self.mode != 'fp':
            return self.const(float(c).hex())
        if self.mode == 'uf':
            return self.ofint(i)
        if self.mode == 'fp':
            if c is not None:
                return z3.FPVal(float(c), self.sort)
            return z3.fpRealToFP(self.rm, z3.ToReal(i), self.sort)
        return z3.ToReal(i)

    def to_int(self, a):
        if self.mode == 'uf':
            return self.toint(a)
        if self.mode == 'real':
            return z3.If(a >= 0, z3.ToInt(a), -z3.ToInt(-a))
        return z3.If(z3.fpToReal(a) >= 0, z3.ToInt(z3.fpToReal(a)), -z3.ToInt(-z3.fpToReal(a)))


class ResList(list):
    dead = False


class Ex:
    def __init__(self, ir, float_mode='uf', safety=True):
        self.ir = ir
        self.fl = Floats(float_mode)
        self.store = {}
        self.rtype = {}
        self.pc = []          # entries (formula, is_branch)
        self.frames = []
        self.modsonly = 0
        self.warm, self.warm_next, self.final_warm = [], [], {}
        self.cand_filter = None
        self.cut = False      # this path took one of several non-exhaustive alternatives
        self.dead = set()      # roots of locals whose scope has ended
        self.events = ()
        self.k = 0
        self.intern = {}
        self.memo = {}
        self.script, self.pos, self.pending = [], 0, None
        self.obls = []
        self.emitted = set()
        self.muted = 0
        self.wlogs = []
        self.emplace_fails = False
        self.ptr_shapes = {}    # where a pointer variable has pointed to
        self.on_call = []       # like contracts, told about calls without replacing them
        self.contracts = []     # list of (predicate(fn, ir) , handler)
        self.pure = []          # compiled regexes of callee names that become uninterpreted functions
        self.opaque_types = []  # compiled regexes of type names that become uninterpreted sorts
        self.templates = []     # generators of candidate invariants
        self.axioms = []
        self.sorts = {}
        self.ufs = {}
        self.safety = safety
        self.inlined = set()
        self.used_models = set()
        self.used_contracts = set()
        self.used_uf = set()
        self.loops_seen = {}
        self.depth = 0
        self.qt = {'n': 0, 't': 0.0}
        self.globals = {}
        self.budget = None
        self.inv_hint = {}
        self.fp_ground = None
        self.unsafe_notes = set()
        self.entry_marks = []
        self.loop_reports = []
        self.loop_ids = {}
        self.hints = None

    # ------------------------------------------------------------------ keys, names
    def key(self):
        kk = (self.events, self.k)
        self.k += 1
        i = self.intern.get(kk)
        if i is None:
            i = self.intern[kk] = len(self.intern)
        return i

    def fresh(self, sort, hint='v'):
        return z3.Const('%s!%d' % (hint, self.key()), sort)

    def newroot(self, hint='t'):
        return '%s#%d' % (hint, self.key())

    # ------------------------------------------------------------------ sorts
    def opaque(self, t):
        return any(r.search(t['s']) for r in self.opaque_types)

    def sort_of(self, tid):
        if tid in self.sorts:
            return self.sorts[tid]
        t = self.ir.T(tid)
        k = t['k']
        if k == 'b':
            if t['n'] == 'bool':
                s = z3.BoolSort()
            elif 'fl' in t:
                s = self.fl.sort
            elif 'bits' in t:
                s = z3.IntSort()
            else:
                raise Undecided('sort of ' + t['s'])
        elif k == 'enum':
            s = z3.IntSort()
        elif k in ('lref', 'rref'):
            return self.sort_of(t['to'])
        elif k == 'rec':
            lay = self.layout(tid)
            if lay is None:
                s = z3.DeclareSort('S_' + re.sub(r'\W+', '_', t['s'])[:60] + '_%d' % tid)
            else:
                dt = z3.Datatype('D_' + re.sub(r'\W+', '_', t['n']) + '_%d' % tid)
                if lay[0] == 'vec':
                    dt.declare('mk_%d' % tid, ('len_%d' % tid, z3.IntSort()), ('arr_%d' % tid, z3.ArraySort(z3.IntSort(), self.sort_of(lay[1]))))
                elif lay[0] == 'map':
                    ks = self.sort_of(lay[1])
                    fs = [('dom_%d' % tid, z3.ArraySort(ks, z3.BoolSort()))]
                    if lay[2] is not None:
                        fs.append(('val_%d' % tid, z3.ArraySort(ks, self.sort_of(lay[2]))))
                    fs.append(('n_%d' % tid, z3.IntSort()))
                    dt.declare('mk_%d' % tid, *fs)
                else:
                    dt.declare('mk_%d' % tid, *[('f_%s_%d' % (n, tid), self.sort_of(ft)) for n, ft in lay[1]])
                s = dt.create()
        elif k == 'ptr':
            s = z3.DeclareSort('Ptr_%d' % tid)
        else:
            raise Undecided('sort of ' + t['s'])
        self.sorts[tid] = s
        return s

    def targs(self, t):
        out = []
        for a in t.get('a', []):
            if 'pack' in a:
                out += a['pack']
            else:
                out.append(a)
        return out

    def layout(self, tid):
        """('vec', el) | ('map', k, v|None) | ('rec', [(key, type)]) | ('unit',) | None (opaque)."""
        t = self.ir.T(tid)
        if t['k'] != 'rec':
            return None
        n = t['n']
        if self.opaque(t):
            return None
        if n in VEC_TYPES:
            return ('vec', t['a'][0]['t'])
        if n == 'boost::container::vector' or n == 'boost::container::small_vector':
            return ('vec', t['a'][0]['t'])
        if n in MAP_TYPES:
            return ('map', t['a'][0]['t'], t['a'][1]['t'])
        if n in SET_TYPES:
            return ('map', t['a'][0]['t'], None)
        if n in ('boost::geometry::model::segment', 'boost::geometry::model::referring_segment'):
            return ('rec', [('first', t['a'][0]['t']), ('second', t['a'][0]['t'])])
        if n == 'std::pair':
            return ('rec', [('first', t['a'][0]['t']), ('second', t['a'][1]['t'])])
        if n == 'std::tuple':
            return ('rec', [(str(i), a['t']) for i, a in enumerate(self.targs(t))])
        if n == 'std::optional':
            return ('rec', [('$has', self.bool_t()), ('$val', t['a'][0]['t'])])
        if n == 'std::atomic':
            return ('rec', [('$v', t['a'][0]['t'])])
        if t.get('def') and not t.get('lambda'):
            return ('rec', [(b, b) for b in t['ba']] + [(f['n'], f['t']) for f in t['f']])
        return None

    def bool_t(self):
        for i, t in enumerate(self.ir.types):
            if t['k'] == 'b' and t['n'] == 'bool':
                return i
        self.ir.types.append({'k': 'b', 'n': 'bool', 's': 'bool', 'bits': 8, 'sg': False})
        return len(self.ir.types) - 1

    def is_unit(self, tid):
        t = self.ir.T(tid)
        return t['k'] == 'rec' and (t['n'] in ('std::allocator', 'std::less', 'std::greater', 'std::equal_to', 'std::hash', 'std::nullopt_t', 'std::piecewise_construct_t') or 'allocator' in t['n'] or t['n'].startswith('boost::interprocess'))

    # ------------------------------------------------------------------ symbolic values
    def sym(self, tid, hint):
        t = self.ir.T(tid)
        k = t['k']
        if k in ('lref', 'rref'):
            return self.sym(t['to'], hint)
        if self.is_unit(tid):
            return Unit(tid)
        lay = self.layout(tid)
        if lay is None:
            if k == 'ptr':
                raise Undecided('symbolic pointer ' + t['s'])
            e = self.fresh(self.sort_of(tid), hint)
            self.assume_type(tid, e)
            return e
        if lay[0] == 'vec':
            l = self.fresh(z3.IntSort(), hint + '.len')
            self.assume(And(l >= 0, l <= MAXLEN))
            if self.ir.T(tid)['n'] == 'std::array':
                l = I(int(t['a'][1]['i']))
            return Vec(tid, lay[1], l, self.fresh(z3.ArraySort(z3.IntSort(), self.sort_of(lay[1])), hint + '.arr'))
        if lay[0] == 'map':
            ks = self.sort_of(lay[1])
            n = self.fresh(z3.IntSort(), hint + '.n')
            self.assume(And(n >= 0, n <= MAXLEN))
            return MapV(tid, lay[1], lay[2], self.fresh(z3.ArraySort(ks, z3.BoolSort()), hint + '.dom'),
                        self.fresh(z3.ArraySort(ks, self.sort_of(lay[2])), hint + '.val') if lay[2] is not None else None, n)
        d = {}
        for key, ft in lay[1]:
            if self.ir.T(ft)['k'] in ('ptr',) or self.ir.isref(ft):
                d[key] = Uninit(ft)
            else:
                d[key] = self.sym(ft, '%s.%s' % (hint, key))
        return Rec(tid, d)

    def assume_type(self, tid, e):
        t = self.ir.T(tid)
        if t['k'] == 'b' and 'bits' in t and t['n'] != 'bool' and z3.is_expr(e) and not z3.is_int_value(e):
            lo, hi = (-(2 ** (t['bits'] - 1)), 2 ** (t['bits'] - 1) - 1) if t['sg'] else (0, 2 ** t['bits'] - 1)
            self.assume(And(e >= lo, e <= hi))

    def reify(self, v, tid=None):
        if z3.is_expr(v):
            return v
        if isinstance(v, Vec):
            s = self.sort_of(v.tid)
            return s.constructor(0)(v.len, v.arr)
        if isinstance(v, MapV):
            s = self.sort_of(v.tid)
            return s.constructor(0)(v.dom, v.n) if v.vt is None else s.mk(v.dom, v.val, v.n)
        if isinstance(v, Rec):
            s = self.sort_of(v.tid)
            lay = self.layout(v.tid)
            if lay is None:
                raise Undecided('reify opaque record')
            if not lay[1]:
                return s.constructor(0)()
            return s.constructor(0)(*[self.reify(v.d[key], ft) for key, ft in lay[1]])
        if isinstance(v, Uninit):
            return self.fresh(self.sort_of(v.tid), 'uninit')
        if isinstance(v, LV):
            return self.reify(self.read(v), tid)
        if isinstance(v, Unit) and tid is not None:
            return z3.Const('unit_%d' % tid, self.sort_of(tid))
        raise Undecided('reify %r' % (type(v),))

    def acc(self, s, i, e):
        """Accessor i of datatype value e, simplified on constructor applications and ite."""
        if z3.is_app(e) and e.decl().eq(s.constructor(0)):
            return e.arg(i)
        if z3.is_app_of(e, z3.Z3_OP_ITE):
            a, b = e.arg(1), e.arg(2)
            ca = z3.is_app(a) and a.decl().eq(s.constructor(0))
            cb = z3.is_app(b) and b.decl().eq(s.constructor(0))
            if ca or cb:
                return Ite(e.arg(0), self.acc(s, i, a), self.acc(s, i, b))
        return s.accessor(0, i)(e)

    def reflect(self, e, tid, facts=True):
        t = self.ir.T(tid)
        lay = self.layout(tid)
        if lay is None:
            if facts:
                self.assume_type(tid, e)
            return e
        s = self.sort_of(tid)
        if lay[0] == 'vec':
            l = self.acc(s, 0, e)
            if facts and cint(l) is None:
                self.assume(And(l >= 0, l <= MAXLEN))
            return Vec(tid, lay[1], l, self.acc(s, 1, e))
        if lay[0] == 'map':
            n = self.acc(s, 2 if lay[2] is not None else 1, e)
            if facts and cint(n) is None:
                self.assume(And(n >= 0, n <= MAXLEN))
            return MapV(tid, lay[1], lay[2], self.acc(s, 0, e), self.acc(s, 1, e) if lay[2] is not None else None, n)
        return Rec(tid, {key: self.reflect(self.acc(s, i, e), ft, facts) for i, (key, ft) in enumerate(lay[1])})

    def select(self, arr, i):
        """Select with light simplification over store chains with syntactically decidable indices."""
        a = arr
        while z3.is_store(a):
            j = a.arg(1)
            if j.eq(i):
                return a.arg(2)
            ci, cj = cint(i), cint(j)
            if ci is not None and cj is not None:
                a = a.arg(0)
                continue
            d = sub(i, j) if i.sort() == z3.IntSort() else None
            if d is not None and cint(d) is not None and cint(d) != 0:
                a = a.arg(0)
                continue
            break
        if z3.is_const_array(a):
            return a.arg(0)
        if z3.is_quantifier(a) and a.is_lambda():
            return z3.substitute_vars(a.body(), i)
        return z3.Select(a, i)

    # ------------------------------------------------------------------ store
    def get(self, v, s):
        if isinstance(s, tuple):
            if s[0] == 'i':
                if not isinstance(v, Vec):
                    raise Undecided('index into %r' % type(v))
                return self.reflect(self.select(v.arr, s[1]), v.el)
            if s[0] == 'k':
                return self.reflect(self.select(v.val, s[1]), v.vt)
            if s[0] == 'kk':
                return self.reflect(s[1], v.kt)
            if s[0] == 'kv':
                r = Rec(None, {'first': self.reflect(s[1], v.kt), 'second': self.reflect(self.select(v.val, s[1]), v.vt)})
                return r
        if isinstance(v, Uninit):
            lay = self.layout(v.tid)
            if lay and lay[0] == 'rec':
                return Uninit(dict(lay[1])[s])
            raise Undecided('field of uninit')
        if isinstance(v, Rec):
            if s in v.d:
                return v.d[s]
            raise Undecided('no field %s in %s' % (s, self.ir.T(v.tid)['s'] if v.tid is not None else '?'))
        raise Undecided('get %r of %r' % (s, type(v)))

    def put(self, v, sels, x):
        if not sels:
            return x
        s = sels[0]
        if isinstance(s, tuple):
            if s[0] == 'i':
                cur = None if len(sels) == 1 else self.get(v, s)
                nv = self.put(cur, sels[1:], x)
                return v.with_(arr=z3.Store(v.arr, s[1], self.reify(nv, v.el)))
            if s[0] == 'k':
                cur = None if len(sels) == 1 else self.get(v, s)
                nv = self.put(cur, sels[1:], x)
                return v.with_(val=z3.Store(v.val, s[1], self.reify(nv, v.vt)))
            if s[0] == 'kv':
                if sels[1] != 'second':
                    raise Undecided('write to map key')
                cur = None if len(sels) == 2 else self.get(v, ('k', s[1]))
                nv = self.put(cur, sels[2:], x)
                return v.with_(val=z3.Store(v.val, s[1], self.reify(nv, v.vt)))
            raise Undecided('put')
        if isinstance(v, Uninit):
            v = self.blank(v.tid)
        return v.set(s, self.put(v.d[s] if len(sels) > 1 else None, sels[1:], x))

    def blank(self, tid):
        lay = self.layout(tid)
        if not lay or lay[0] != 'rec':
            return Uninit(tid)
        return Rec(tid, {k: self.blank(ft) for k, ft in lay[1]})

    def read(self, lv):
        v = self.store[lv.root]
        if callable(v):
            v = v()
        for s in lv.sels:
            v = self.get(v, s)
        return v

    def write(self, lv, x):
        for log in self.wlogs:
            log.add(self.wkey(lv))
        cur = self.store.get(lv.root)
        if isinstance(x, Ptr) and x.lv is not None:
            self.ptr_shapes[lv.root, tuple(lv.sels)] = x.lv
        if lv.root.startswith('const:'):
            raise Undecided('write to constant')
        self.store[lv.root] = self.put(cur, lv.sels, x)

    def wkey(self, lv):
        pre = []
        for s in lv.sels:
            if isinstance(s, tuple):
                return (lv.root, tuple(pre), 'elem')
            pre.append(s)
        return (lv.root, tuple(pre), 'whole')

    def load(self, x):
        """Rvalue of an evaluated expression."""
        if isinstance(x, LV):
            v = self.read(x)
            return v
        return x

    def temp(self, v, hint='tmp', tid=None):
        if isinstance(v, LV):
            return v
        r = self.newroot(hint)
        self.store[r] = v
        if tid is not None:
            self.rtype[r] = self.ir.deref(tid)
        return LV(r)

    # ------------------------------------------------------------------ path condition
    def assume(self, f, branch=False):
        if z3.is_true(f):
            return
        self.pc.append((f, branch))

    def facts(self):
        return [f for f, _ in self.pc]

    def ground(self):
        return [f for f, _ in self.pc if not has_quant(f)]

    def check_sat(self, extra, timeout=400, quant=False, mbqi=True):
        t0 = time.time()
        s = z3.SimpleSolver() if self.fl.mode != 'fp' else z3.Solver()
        if not mbqi:
            s.set('auto_config', False)
            s.set('mbqi', False)
        s.set('timeout', timeout)
        s.add(*self.fl.axioms())
        s.add(*(self.facts() if quant else self.ground()))
        if quant:
            s.add(*self.axioms)
        s.add(*extra)
        r = s.check()
        self.qt['n'] += 1
        self.qt['t'] += time.time() - t0
        if self.budget and time.time() > self.budget:
            raise Undecided('time budget exceeded')
        return r

    def proves(self, f, timeout=300, quant=False):
        if z3.is_true(f):
            return True
        if z3.is_false(f) and not self.pc:
            return False
        if quant and timeout >= 1000 and self.check_sat([Not(f)], 1000, True, False) == z3.unsat:
            return True
        if quant and self.cvc5 and timeout >= 1000:
            r = self.check_sat([Not(f)], 700, quant)
            if r != z3.unknown:
                return r == z3.unsat
            return self.cvc5_unsat([Not(f)], timeout)
        r = self.check_sat([Not(f)], timeout, quant)
        if r == z3.unknown and quant and self.cli and timeout >= 1000:
            return self.cli_unsat([Not(f)], 3000)
        return r == z3.unsat

    cli = False  # quantified candidates recorded as provable: ask another z3 release before giving up
    cvc5 = False  # quantified candidates that z3 leaves open go to cvc5

    def cli_unsat(self, extra, timeout):
        return self.cvc5_unsat(extra, timeout, ['z3', '-in', '-t:%d' % timeout, 'smt.mbqi=false'])

    def cvc5_unsat(self, extra, timeout, cmd=None):
        t0 = time.time()
        s = z3.Solver()
        s.add(*self.fl.axioms())
        s.add(*self.facts())
        s.add(*self.axioms)
        s.add(*extra)
        try:
            p = subprocess.run(cmd or ['cvc5', '-q', '--tlimit=%d' % timeout, '-'], input='(set-logic ALL)\n' + s.to_smt2(), capture_output=True, text=True, timeout=timeout / 1000 + 10)
        except subprocess.TimeoutExpired:
            return False
        self.qt['n'] += 1
        self.qt['t'] += time.time() - t0
        if self.budget and time.time() > self.budget:
            raise Undecided('time budget exceeded')
        return p.stdout.startswith('unsat')

    def feasible(self, f, timeout=300):
        if z3.is_false(f):
            return False
        return self.check_sat([f], timeout) != z3.unsat

    def branch(self, cond):
        c = z3.simplify(cond) if not (z3.is_true(cond) or z3.is_false(cond)) else cond
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.pos < len(self.script):
            d = self.script[self.pos]
            forced = isinstance(d, tuple)
            if forced:
                d = d[0]
        else:
            forced = True
            if self.pending is None:
                raise Undecided('branch outside exploration')
            t, f = self.feasible(cond), None
            if not t:
                d = False
            else:
                f = self.feasible(Not(cond))
                if not f:
                    d = True
                else:
                    d, forced = True, False
                    self.pending.append(self.script[:self.pos] + [False])
            self.script = self.script[:self.pos] + [(d,) if forced else d]
        self.pos += 1
        if forced:
            self.assume(cond if d else Not(cond))
        else:
            self.assume(cond if d else Not(cond), True)
        self.events = self.events + ((d, self.k),)
        self.k = 0
        return d

    def choose(self, n):
        """n-way outer decision (all alternatives already known feasible)."""
        if n == 1:
            return 0
        if self.pos < len(self.script):
            d = self.script[self.pos]
        else:
            if self.pending is None:
                raise Undecided('choice outside exploration')
            d = 0
            for j in range(1, n):
                self.pending.append(self.script[:self.pos] + [j])
            self.script = self.script[:self.pos] + [0]
        self.pos += 1
        self.events = self.events + (('c', d, self.k),)
        self.k = 0
        return d

    # ------------------------------------------------------------------ exploration
    def snap(self):
        return (dict(self.store), list(self.pc), dict(self.rtype))

    def restore(self, s):
        self.store, self.pc, self.rtype = dict(s[0]), list(s[1]), dict(s[2])

    def explore(self, thunk, limit=4000):
        """Run thunk on every feasible path from the current state. Returns [(kind, value, store, pc, rtype)]; state unchanged."""
        kk = self.key()
        if kk in self.memo:
            return self.memo[kk]
        sv = (self.script, self.pos, self.pending, self.events, self.k, self.cut)
        base = self.snap()
        nframes = len(self.frames)
        envs = [dict(f.env) for f in self.frames]
        res = ResList()
        work = [[]]
        try:
            while work:
                self.restore(base)
                self.script, self.pos, self.pending = work.pop(), 0, work
                self.events, self.k = (('x', kk),), 0
                self.cut = False
                try:
                    v = thunk()
                    kind = 'norm'
                except ReturnEx as e:
                    kind, v = 'ret', e.v
                except BreakEx:
                    kind, v = 'brk', None
                except ContinueEx:
                    kind, v = 'cont', None
                except ThrowEx as e:
                    kind, v = 'throw', (e.t, e.v)
                except PathEnd:
                    kind = None
                    res.dead = True
                del self.frames[nframes:]
                res.dead = res.dead or self.cut
                if kind is not None:
                    res.append((kind, v, self.store, self.pc, self.rtype))
                for f, e in zip(self.frames, envs):
                    pass
                if len(res) > limit:
                    raise Undecided('path explosion')
        finally:
            del self.frames[nframes:]
            self.restore(base)
            self.script, self.pos, self.pending, self.events, self.k, self.cut = sv
        self.memo[kk] = res
        return res

    def merge_explore(self, thunk):
        """Explore thunk, merge outcomes of the same kind where values allow, continue on one group."""
        base_n = len(self.pc)
        base_store = self.store
        res = self.explore(thunk)
        if not res:
            raise PathEnd()
        groups = []
        for r in res:
            for g in groups:
                if g[0][0] == r[0] and (r[0] != 'throw' or g[0][1][0] == r[1][0]):
                    m = self.try_merge(g, r, base_store)
                    if m:
                        g.append(r)
                        break
            else:
                groups.append([r])
        i = self.choose(len(groups))
        g = groups[i]
        return self.adopt(g, base_n, base_store, total=len(groups) == 1, dead=res.dead)

    def try_merge(self, g, r, base_store):
        # compatibility test only (cheap): all pairwise values must be mergeable
        try:
            a = g[0]
            c = z3.Bool('mergetest')
            keys = set(base_store)
            for k in keys:
                x, y = a[2].get(k), r[2].get(k)
                if x is not y and x is not None and y is not None:
                    self.merge(c, x, y)
            if a[0] in ('norm', 'ret'):
                if a[1] is not r[1]:
                    self.merge(c, a[1], r[1], a[2], r[2])
            return True
        except MergeFail:
            return False

    def adopt(self, g, base_n, base_store, total, dead):
        if dead and not total:
            self.cut = True      # the alternatives are not exhaustive: the enclosing merge must keep their disjunction
        if len(g) == 1:
            kind, v, st, pc, rt = g[0]
            if total:
                pc = pc[:base_n] + [(f, False) for f, _ in pc[base_n:]]
            self.store, self.pc, self.rtype = dict(st), list(pc), dict(rt)
        else:
            conds = []
            for r in g:
                conds.append(And(*[f for f, b in r[3][base_n:] if b]))
            pc = list(g[0][3][:base_n])
            seen = {}
            for i, r in enumerate(g):
                for f, b in r[3][base_n:]:
                    if not b:
                        seen.setdefault(f.get_id(), [f, set()])[1].add(i)
            if not total or dead:
                pc.append((Or(*conds), not total))
            for f, idxs in seen.values():
                if len(idxs) == len(g):
                    pc.append((f, False))
                else:
                    pc.append((Implies(Or(*[conds[i] for i in sorted(idxs)]), f), False))
            st = {}
            rt = {}
            for r in g:
                rt.update(r[4])
            keys = set()
            for r in g:
                keys |= set(r[2])
            for k in sorted(keys):
                vals = [(i, r[2][k]) for i, r in enumerate(g) if k in r[2]]
                v0 = vals[-1][1]
                for i, x in reversed(vals[:-1]):
                    if x is not v0:
                        try:
                            v0 = self.merge(conds[i], x, v0)
                        except MergeFail:
                            if k in base_store:
                                raise Undecided('merge')
                            v0 = None
                            break
                if v0 is not None:
                    st[k] = self.name_arrays(v0, pc)
            kind = g[0][0]
            v = g[-1][1]
            if kind in ('norm', 'ret'):
                for i in range(len(g) - 2, -1, -1):
                    if g[i][1] is not v:
                        v = self.merge(conds[i], g[i][1], v, g[i][2], st)
            self.store, self.pc, self.rtype = st, pc, rt
        if kind == 'norm':
            return v
        if kind == 'ret':
            raise ReturnEx(v)
        if kind == 'brk':
            raise BreakEx()
        if kind == 'cont':
            raise ContinueEx()
        raise ThrowEx(*v)

    def name_arrays(self, v, pc):
        """Arrays merged by if-then-else get a name, so that they can occur in triggers."""
        if isinstance(v, Vec):
            if z3.is_app_of(v.arr, z3.Z3_OP_ITE):
                a = self.fresh(v.arr.sort(), 'join')
                pc.append((a == v.arr, False))
                return v.with_(arr=a)
            return v
        if isinstance(v, MapV):
            for f in ('dom', 'val'):
                x = getattr(v, f)
                if x is not None and z3.is_app_of(x, z3.Z3_OP_ITE):
                    a = self.fresh(x.sort(), 'join')
                    pc.append((a == x, False))
                    v = v.with_(**{f: a})
            return v
        if isinstance(v, Rec):
            d, ch = {}, False
            for k, x in v.d.items():
                y = self.name_arrays(x, pc) if isinstance(x, (Vec, Rec, MapV)) else x
                ch = ch or y is not x
                d[k] = y
            return Rec(v.tid, d) if ch else v
        return v

    def merge(self, c, a, b, sa=None, sb=None):
        if a is b:
            return a
        if isinstance(a, Uninit):
            return b
        if isinstance(b, Uninit):
            return a
        if z3.is_expr(a) and z3.is_expr(b):
            if not a.sort().eq(b.sort()):
                raise MergeFail()
            return Ite(c, a, b)
        if isinstance(a, Rec) and isinstance(b, Rec):
            if a.tid != b.tid:
                raise MergeFail()
            return Rec(a.tid, {k: self.merge(c, a.d[k], b.d[k]) for k in a.d})
        if isinstance(a, Vec) and isinstance(b, Vec):
            if a.tid != b.tid:
                raise MergeFail()
            return Vec(a.tid, a.el, Ite(c, a.len, b.len), Ite(c, a.arr, b.arr))
        if isinstance(a, MapV) and isinstance(b, MapV):
            return MapV(a.tid, a.kt, a.vt, Ite(c, a.dom, b.dom), None if a.val is None else Ite(c, a.val, b.val), Ite(c, a.n, b.n))
        if isinstance(a, LV) and isinstance(b, LV):
            if a.same(b):
                return a
            if a.root == b.root and len(a.sels) == len(b.sels):
                ss = []
                for x, y in zip(a.sels, b.sels):
                    if seleq(x, y):
                        ss.append(x)
                    elif isinstance(x, tuple) and isinstance(y, tuple) and x[0] == y[0]:
                        ss.append((x[0], Ite(c, x[1], y[1])))
                    else:
                        raise MergeFail()
                return LV(a.root, ss)
            raise MergeFail()
        if isinstance(a, It) and isinstance(b, It):
            if a.cont.same(b.cont) and a.rev == b.rev:
                return It(a.cont, Ite(c, a.idx, b.idx), a.rev)
            raise MergeFail()
        if isinstance(a, MIt) and isinstance(b, MIt):
            if a.cont.same(b.cont):
                if a.key is None or b.key is None:
                    return MIt(a.cont, a.key if b.key is None else b.key, Ite(c, a.valid, b.valid))
                return MIt(a.cont, Ite(c, a.key, b.key), Ite(c, a.valid, b.valid))
            raise MergeFail()
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.lv is None or b.lv is None or a.lv.same(b.lv):
                return Ptr(a.lv if a.lv is not None else b.lv, Ite(c, a.isnull, b.isnull))
            return Ptr(self.merge(c, a.lv, b.lv), Ite(c, a.isnull, b.isnull))
        if isinstance(a, Unit) and isinstance(b, Unit):
            return a
        if isinstance(a, BackIns) and isinstance(b, BackIns) and a.lv.same(b.lv):
            return a
        if isinstance(a, FnVal) and isinstance(b, FnVal) and a.fn == b.fn:
            return a
        if isinstance(a, Closure) and isinstance(b, Closure) and a.tid == b.tid:
            if (a.this is b.this or (a.this is not None and b.this is not None and a.this.same(b.this))) and all((a.caps[k] is b.caps[k]) or (isinstance(a.caps[k], LV) and a.caps[k].same(b.caps[k])) for k in a.caps):
                return a
        if a is None and b is None:
            return None
        if callable(a) or callable(b):
            if a is b:
                return a
        raise MergeFail()

    # ------------------------------------------------------------------ obligations
    def oblige(self, name, goal, node=None, kind='contract', assume=True):
        if kind == 'safety' and not self.safety:
            self.assume(goal)
            return
        kk = self.key()
        if not self.muted and kk not in self.emitted:
            self.emitted.add(kk)
            if not z3.is_true(goal):
                self.obls.append(Obligation(name, irmod.loc(node) if node else (self.cur_loc or ''), self.facts(), goal, kind))
            else:
                o = Obligation(name, irmod.loc(node) if node else (self.cur_loc or ''), [], goal, kind)
                o.status = 'trivial'
                self.obls.append(o)
        if assume:
            self.assume(goal)

    cur_loc = ''

    # ------------------------------------------------------------------ expressions
    @property
    def fr(self):
        return self.frames[-1]

    def rv(self, n):
        return self.load(self.ev(n))

    def ev(self, n):
        return getattr(self, 'e_' + n['k'])(n)

    def e_unsup(self, n):
        raise Undecided('unsupported node %s at %s' % (n.get('what'), irmod.loc(n)))

    def e_int(self, n):
        t = self.ir.T(n['t'])
        if t['k'] == 'b' and t['n'] == 'bool':
            return z3.BoolVal(n['v'] not in ('0', 'false'))
        return I(int(n['v']))

    def e_flt(self, n):
        return self.fl.const(n['v'])

    def e_str(self, n):
        return Unit(('str', n['v']))

    def e_null(self, n):
        return Ptr(None)

    def e_ref(self, n):
        i = n['id']
        f = self.fr
        if i in f.env:
            return f.env[i]
        if 'cv' in n:
            v = self.ev(n['cv'])
            r = 'const:%s' % n.get('g', n['n']) + str(i)
            self.store[r] = v
            return LV(r)
        if 'g' in n:
            r = 'g:%s' % n['g']
            if r not in self.store:
                if n['g'] in self.globals:
                    self.store[r] = self.globals[n['g']](self, n['t'])
                elif self.is_unit(self.ir.deref(n['t'])):
                    self.store[r] = Unit(n['t'])
                else:
                    raise Undecided('global ' + n['g'])
                self.rtype[r] = self.ir.deref(n['t'])
            return LV(r)
        raise Undecided('unbound variable %s at %s' % (n['n'], irmod.loc(n)))

    def e_fnref(self, n):
        return FnVal(n['fn'])

    def e_this(self, n):
        return Ptr(self.fr.this)

    def e_mem(self, n):
        b = self.ev(n['b'])
        if n.get('arrow'):
            b = self.deref_ptr(self.load(b), n)
        if isinstance(b, LV):
            v = b.sub(n['n'])
            # references stored as fields
            cur = self.read(b)
            if isinstance(cur, Rec) and isinstance(cur.d.get(n['n']), LV):
                return cur.d[n['n']]
            return v
        r = self.get(b, n['n'])
        return r

    def deref_ptr(self, p, n):
        if isinstance(p, Ptr):
            if p.lv is None:
                self.oblige('non-null pointer', z3.BoolVal(False), n, 'safety')
                raise PathEnd()
            self.oblige('non-null pointer', Not(p.isnull), n, 'safety')
            return p.lv
        if isinstance(p, It):
            return self.it_deref(p, n)
        if isinstance(p, MIt):
            return self.mit_deref(p, n)
        raise Undecided('deref of %r at %s' % (type(p), irmod.loc(n)))

    def it_deref(self, it, n=None):
        v = self.read(it.cont)
        self.oblige('iterator in range', And(it.idx >= 0, it.idx < v.len), n, 'safety')
        return it.cont.sub(('i', it.idx))

    def mit_deref(self, it, n=None):
        self.oblige('iterator not end', it.valid, n, 'safety')
        v = self.read(it.cont)
        return it.cont.sub(('kk' if v.vt is None else 'kv', it.key))

    def e_idx(self, n):
        b = self.ev(n['b'])
        i = self.rv(n['i'])
        if isinstance(b, LV):
            v = self.read(b)
            if isinstance(v, Vec):
                self.oblige('index in range', And(i >= 0, i < v.len), n, 'safety')
                return b.sub(('i', i))
        raise Undecided('subscript at %s' % irmod.loc(n))

    # -------- integer helpers
    def itype(self, tid):
        t = self.ir.T(tid)
        if t['k'] == 'enum':
            return self.itype(t['u'])
        return t

    def is_float(self, tid):
        t = self.ir.T(tid)
        return t['k'] == 'b' and 'fl' in t

    def wrap(self, e, tid, node=None):
        """Exact machine integer of mathematical value e at type tid."""
        t = self.itype(tid)
        if t['k'] != 'b' or 'bits' not in t or t['n'] == 'bool':
            return e
        c = cint(e)
        m = 2 ** t['bits']
        if not t['sg']:
            if c is not None:
                return I(c % m)
            rng = And(e >= 0, e < m)
            if self.proves(rng):
                return e
            # one-step wrap is exact for + and - of in-range operands
            return z3.If(e < 0, e + m, z3.If(e >= m, e - m, e)) if self.proves(And(e >= -m, e < 2 * m)) else e % m
        if c is not None:
            return I((c + m // 2) % m - m // 2)
        rng = And(e >= -(m // 2), e < m // 2)
        if self.proves(rng):
            return e
        if self.unbounded:
            return e
        if self.signed_overflow:
            self.oblige('no signed overflow', rng, node, 'safety')
            return e
        return (e + m // 2) % m - m // 2

    signed_overflow = True
    unbounded = False  # signed integers are mathematical integers (an assumption of the unit that sets it)

    def conv_int(self, e, src, dst, node=None):
        td, ts = self.itype(dst), self.itype(src)
        if td['n'] == 'bool':
            return e if z3.is_bool(e) else e != 0
        if z3.is_bool(e):
            return Ite(e, I(1), I(0))
        if td['bits'] > ts['bits'] and (td['sg'] or not ts['sg']):
            return e
        if td['bits'] == ts['bits'] and td['sg'] == ts['sg']:
            return e
        c = cint(e)
        m = 2 ** td['bits']
        if c is not None:
            return I(c % m) if not td['sg'] else I((c + m // 2) % m - m // 2)
        if not td['sg']:
            if self.proves(And(e >= 0, e < m)):
                return e
            return z3.If(e < 0, e + m, e) if td['bits'] >= ts['bits'] else e % m
        if self.proves(And(e >= -(m // 2), e < m // 2)):
            return e
        return (e + m // 2) % m - m // 2

    def e_un(self, n):
        op = n['op']
        if op == '*':
            return self.deref_ptr(self.rv(n['e']), n)
        if op == '&':
            lv = self.ev(n['e'])
            if not isinstance(lv, LV):
                raise Undecided('address of rvalue')
            return Ptr(lv)
        if op in ('++', '--'):
            lv = self.ev(n['e'])
            v = self.load(lv)
            if isinstance(v, It):
                nv = self.it_move(v, I(1) if op == '++' else I(-1))
            elif isinstance(v, Uninit):
                raise Undecided('inc uninit')
            elif self.is_float(n['t']):
                nv = self.fl.op('+' if op == '++' else '-', v, self.fl.const('0x1p+0'))
            else:
                nv = self.wrap(add(v, I(1)) if op == '++' else sub(v, I(1)), n['t'], n)
            self.write(lv, nv)
            return v if n.get('post') else lv
        v = self.rv(n['e'])
        if op == '!':
            return Not(self.as_bool(v))
        if op == '-':
            if self.is_float(n['t']):
                return self.fl.neg(v)
            return self.wrap(-v, n['t'], n)
        if op == '+':
            return v
        if op == '~':
            t = self.itype(n['t'])
            return self.wrap(-v - 1, n['t'])
        if op == '__extension__':
            return v
        raise Undecided('unary ' + op)

    def as_bool(self, v):
        if z3.is_bool(v):
            return v
        if isinstance(v, Ptr):
            return Not(v.isnull)
        if z3.is_expr(v) and v.sort() == z3.IntSort():
            return v != 0
        raise Undecided('as_bool %r' % (v,))

    SIMPLE = {'int', 'flt', 'ref', 'this', 'mem', 'null'}

    def simple(self, n):
        k = n['k']
        if k in ('int', 'flt', 'ref', 'this', 'null'):
            return True
        if k == 'mem':
            return self.simple(n['b']) and not n.get('arrow') or n['b']['k'] == 'this'
        if k == 'cast':
            return n['ck'] in ('LValueToRValue', 'NoOp', 'IntegralCast', 'IntegralToBoolean', 'UncheckedDerivedToBase', 'DerivedToBase') and self.simple(n['e'])
        if k == 'bin':
            return n['op'] in ('+', '<', '>', '<=', '>=', '==', '!=', '&&', '||', '=') and n['op'] != '=' and self.simple(n['a']) and self.simple(n['b'])
        if k == 'un':
            return n['op'] == '!' and self.simple(n['e'])
        if k == 'mcall':
            q = self.ir.fns[n['fn']]['q'] if 'fn' in n else ''
            return q.startswith('std::') and q.split('::')[-1] in ('size', 'empty', 'begin', 'end', 'cbegin', 'cend', 'has_value') and self.simple(n['o'])
        return False

    def e_bin(self, n):
        op = n['op']
        if op in ('&&', '||'):
            if self.simple(n['b']):
                a = self.as_bool(self.rv(n['a']))
                b = self.as_bool(self.rv(n['b']))
                return And(a, b) if op == '&&' else Or(a, b)
            a = self.as_bool(self.rv(n['a']))
            if z3.is_true(a):
                return z3.BoolVal(True) if op == '||' else self.as_bool(self.rv(n['b']))
            if z3.is_false(a):
                return z3.BoolVal(False) if op == '&&' else self.as_bool(self.rv(n['b']))

            def run():
                d = self.branch(a)
                if op == '&&':
                    return self.as_bool(self.rv(n['b'])) if d else z3.BoolVal(False)
                return z3.BoolVal(True) if d else self.as_bool(self.rv(n['b']))
            return self.merge_explore(run)
        if op == '=':
            v = self.rv(n['b'])
            lv = self.ev(n['a'])
            self.write(lv, v)
            return lv
        if op == ',':
            self.ev(n['a'])
            return self.ev(n['b'])
        a = self.rv(n['a'])
        b = self.rv(n['b'])
        return self.binop(op, a, b, n['t'], n['a'].get('t'), n)

    def binop(self, op, a, b, tid, at, n):
        if isinstance(a, Uninit) or isinstance(b, Uninit):
            raise Undecided('use of uninitialised value at %s' % irmod.loc(n))
        if isinstance(a, (Ptr,)) and isinstance(b, Ptr):
            if a.lv is None or b.lv is None:
                e = And(a.isnull, b.isnull) if False else (a.isnull == b.isnull if (a.lv is None and b.lv is None) else (b.isnull if a.lv is None else a.isnull))
                if a.lv is None and b.lv is None:
                    e = z3.BoolVal(True)
            elif a.lv.same(b.lv):
                e = z3.BoolVal(True)
            elif a.lv.root != b.lv.root:
                e = z3.BoolVal(False)
            elif len(a.lv.sels) == len(b.lv.sels) and all(seleq(x, y) or (isinstance(x, tuple) and isinstance(y, tuple)) for x, y in zip(a.lv.sels, b.lv.sels)):
                e = And(*[x[1] == y[1] for x, y in zip(a.lv.sels, b.lv.sels) if isinstance(x, tuple) and not seleq(x, y)])
            else:
                raise Undecided('pointer comparison')
            return e if op == '==' else Not(e)
        if isinstance(a, It) or isinstance(b, It):
            return self.it_binop(op, a, b, n)
        if not (z3.is_expr(a) and z3.is_expr(b)):
            raise Undecided('binop %s on %r %r at %s' % (op, type(a), type(b), irmod.loc(n)))
        if a.sort() == self.fl.sort and self.fl.sort != z3.IntSort():
            if op in ('+', '-', '*', '/'):
                return self.fl.op(op, a, b)
            return self.fl.cmp(op, a, b)
        if z3.is_bool(a) and z3.is_bool(b):
            if op == '==':
                return a == b
            if op == '!=':
                return z3.Xor(a, b)
            if op == '&':
                return And(a, b)
            if op == '|':
                return Or(a, b)
        if z3.is_bool(a):
            a = Ite(a, I(1), I(0))
        if z3.is_bool(b):
            b = Ite(b, I(1), I(0))
        if op in ('==', '!=') and not (a.sort() == z3.IntSort()):
            return a == b if op == '==' else a != b
        if op == '<':
            return a < b
        if op == '>':
            return a > b
        if op == '<=':
            return a <= b
        if op == '>=':
            return a >= b
        if op == '==':
            return a == b
        if op == '!=':
            return a != b
        t = self.itype(tid)
        if op == '+':
            return self.wrap(add(a, b), tid, n)
        if op == '-':
            return self.wrap(sub(a, b), tid, n)
        if op == '*':
            return self.wrap(a * b, tid, n)
        if op in ('/', '%'):
            self.oblige('divisor non-zero', b != 0, n, 'safety')
            if not t['sg'] or self.proves(And(a >= 0, b > 0)):
                return a / b if op == '/' else a % b
            q = z3.If(a >= 0, z3.If(b > 0, a / b, -(a / -b)), z3.If(b > 0, -(-a / b), (-a) / (-b)))
            return q if op == '/' else a - q * b
        if op in ('<<', '>>', '&', '|', '^'):
            cb = cint(b)
            if op == '<<' and cb is not None:
                return self.wrap(a * (2 ** cb), tid, n)
            if op == '>>' and cb is not None:
                return a / I(2 ** cb)
            w = t['bits']
            x, y = z3.Int2BV(a, w), z3.Int2BV(b, w)
            r = {'<<': lambda: x << y, '>>': lambda: (x >> y if t['sg'] else z3.LShR(x, y)), '&': lambda: x & y, '|': lambda: x | y, '^': lambda: x ^ y}[op]()
            return z3.BV2Int(r, t['sg'])
        raise Undecided('binary ' + op)

    def it_move(self, it, d):
        return It(it.cont, sub(it.idx, d) if it.rev else add(it.idx, d), it.rev)

    def it_binop(self, op, a, b, n):
        if isinstance(a, It) and isinstance(b, It):
            if not a.cont.same(b.cont):
                if op in ('==', '!='):
                    self.oblige('iterators of the same container', z3.BoolVal(False), n, 'safety')
                raise Undecided('iterators of different containers at %s' % irmod.loc(n))
            x, y = (b.idx, a.idx) if a.rev else (a.idx, b.idx)
            if op == '-':
                return sub(x, y)
            return {'==': lambda: x == y, '!=': lambda: x != y, '<': lambda: x < y, '>': lambda: x > y, '<=': lambda: x <= y, '>=': lambda: x >= y}[op]()
        if isinstance(a, It) and op in ('+', '-'):
            return self.it_move(a, b if op == '+' else z3.simplify(-b))
        if isinstance(b, It) and op == '+':
            return self.it_move(b, a)
        raise Undecided('iterator op')

    def e_cas(self, n):
        b = self.rv(n['b'])
        lv = self.ev(n['a'])
        a = self.load(lv)
        if isinstance(a, It):
            v = self.it_binop(n['op'], a, b, n)
        else:
            at, ct = n['a']['t'], n['ct']
            if self.is_float(ct) and not self.is_float(at):
                v = self.fl.to_int(self.fl.op(n['op'], self.fl.from_int(a), b))
            else:
                if not self.is_float(ct) and z3.is_expr(a) and not z3.is_bool(a):
                    a = self.conv_int(a, at, ct)
                v = self.binop(n['op'], a, b, ct, at, n)
                if not self.is_float(ct) and ct != at:
                    v = self.conv_int(v, ct, at) if not (z3.is_bool(v) and self.ir.T(at)['n'] == 'bool') else v
        self.write(lv, v)
        return lv

    def e_cond(self, n):
        c = self.as_bool(self.rv(n['c']))
        if z3.is_true(c):
            return self.ev(n['a'])
        if z3.is_false(c):
            return self.ev(n['b'])
        if n['t'] >= 0 and self.ir.T(n['t'])['s'] == 'void':
            # assert expansion
            def runv():
                self.ev(n['a'] if self.branch(c) else n['b'])
                return None
            return self.merge_explore(runv)
        if n['a']['k'] == 'throw' or n['b']['k'] == 'throw':
            def rune():
                return self.ev(n['a'] if self.branch(c) else n['b'])
            return self.merge_explore(rune)

        def run():
            return self.ev(n['a'] if self.branch(c) else n['b'])
        if n.get('lv'):
            # keep lvalues when both sides denote the same object shape; otherwise materialise the value
            def runl():
                r = self.ev(n['a'] if self.branch(c) else n['b'])
                return r
            res = self.explore(runl)
            try:
                return self.merge_explore_val(runl)
            except MergeFail:
                pass
            return self.temp(self.merge_explore(lambda: self.load(runl())), 'cond', n['t'])
        return self.merge_explore(lambda: self.load(run()))

    def merge_explore_val(self, thunk):
        res = self.explore(thunk)
        vals = [r[1] for r in res if r[0] == 'norm']
        c = z3.Bool('mergetest')
        for v in vals[1:]:
            self.merge(c, vals[0], v)
        return self.merge_explore(thunk)

    def base_path(self, v, path):
        for b in path:
            if re.match(r'std::(__cxx11::)?_(Vector|List|Deque|Fwd_list)_base', self.ir.T(b).get('n') or ''):
                continue
            if isinstance(v, LV):
                if self.ir.T(b)['n'] == 'std::pair' and isinstance(self.read(v), Rec) and b not in self.read(v).d:
                    continue
                v = v.sub(b)
            elif isinstance(v, Ptr):
                v = Ptr(v.lv.sub(b) if v.lv is not None else None, v.isnull)
            else:
                v = self.get(v, b)
        return v

    def e_cast(self, n):
        ck = n['ck']
        if ck == 'LValueToRValue':
            return self.rv(n['e'])
        if ck in ('NoOp', 'ConstructorConversion', 'UserDefinedConversion', 'FunctionToPointerDecay', 'BuiltinFnToFnPtr', 'ArrayToPointerDecay', 'LValueBitCast', 'BitCast'):
            return self.ev(n['e'])
        if ck in ('DerivedToBase', 'UncheckedDerivedToBase'):
            v = self.ev(n['e'])
            try:
                return self.base_path(v, n['path'])
            except Undecided:
                return v
        if ck == 'BaseToDerived':
            v = self.ev(n['e'])
            p = v.lv if isinstance(v, Ptr) else v
            for b in reversed(n['path']):
                if isinstance(p, LV) and p.sels and p.sels[-1] == b:
                    p = LV(p.root, p.sels[:-1])
                elif isinstance(p, LV) and p.sels and isinstance(p.sels[-1], int):
                    p = LV(p.root, p.sels[:-1])
                else:
                    raise Undecided('BaseToDerived at %s' % irmod.loc(n))
            return Ptr(p) if isinstance(v, Ptr) else p
        if ck == 'ToVoid':
            self.ev(n['e'])
            return None
        v = self.rv(n['e'])
        if isinstance(v, Uninit):
            raise Undecided('cast of uninit')
        src = self.ir.deref(n['e']['t'])
        if ck == 'IntegralCast':
            return self.conv_int(v, src, n['t'], n)
        if ck == 'IntegralToBoolean':
            return self.as_bool(v)
        if ck == 'PointerToBoolean':
            return self.as_bool(v)
        if ck == 'IntegralToFloating':
            return self.fl.from_int(Ite(v, I(1), I(0)) if z3.is_bool(v) else v)
        if ck == 'FloatingToIntegral':
            return self.fl.to_int(v)
        if ck == 'FloatingToBoolean':
            return Not(self.fl.cmp('==', v, self.fl.const('0x0p+0')))
        if ck == 'FloatingCast':
            return v
        if ck == 'NullToPointer':
            return Ptr(None)
        raise Undecided('cast %s at %s' % (ck, irmod.loc(n)))

    def e_mat(self, n):
        v = self.ev(n['e'])
        return self.temp(v, 'mat', n['t'])

    def e_stdil(self, n):
        return self.ev(n['e'])

    def e_zero(self, n):
        return self.zero(n['t'])

    def zero(self, tid):
        t = self.ir.T(tid)
        if t['k'] == 'b':
            if t['n'] == 'bool':
                return z3.BoolVal(False)
            return self.fl.const('0x0p+0') if 'fl' in t else I(0)
        if t['k'] == 'enum':
            return I(0)
        if t['k'] == 'ptr':
            return Ptr(None)
        if t['k'] == 'rec':
            return self.default(tid)
        raise Undecided('zero init ' + t['s'])

    def empty_arr(self, el):
        s = self.sort_of(el)
        return z3.Const('arr0_%d' % el, z3.ArraySort(z3.IntSort(), s))

    def default(self, tid, value_init=True):
        """Value of default initialisation for std/unit/aggregate records."""
        if self.is_unit(tid):
            return Unit(tid)
        lay = self.layout(tid)
        t = self.ir.T(tid)
        if lay is None:
            return z3.Const('default_%d' % tid, self.sort_of(tid)) if t['k'] == 'rec' else self.zero(tid)
        if lay[0] == 'vec':
            l = I(int(t['a'][1]['i'])) if t['n'] == 'std::array' else I(0)
            return Vec(tid, lay[1], l, self.empty_arr(lay[1]))
        if lay[0] == 'map':
            ks = self.sort_of(lay[1])
            return MapV(tid, lay[1], lay[2], z3.K(ks, z3.BoolVal(False)), None if lay[2] is None else z3.Const('mapval0_%d' % tid, z3.ArraySort(ks, self.sort_of(lay[2]))), I(0))
        if t['n'] == 'std::optional':
            return Rec(tid, {'$has': z3.BoolVal(False), '$val': Uninit(lay[1][1][1])})
        d = {}
        for k, ft in lay[1]:
            d[k] = self.default(ft) if self.ir.T(ft)['k'] == 'rec' else (self.zero(ft) if value_init and self.ir.T(ft)['k'] in ('b', 'enum', 'ptr') else Uninit(ft))
        return Rec(tid, d)

    def e_ilist(self, n):
        t = self.ir.T(n['t'])
        if t['k'] == 'arr':
            return IList([self.rv(x) for x in n['a']], t['of'])
        if t['k'] in ('b', 'enum', 'ptr'):
            return self.rv(n['a'][0]) if n['a'] else self.zero(n['t'])
        if t['k'] in ('lref', 'rref'):
            return self.ev(n['a'][0])
        if len(n['a']) == 1 and self.ir.deref(n['a'][0]['t']) == self.ir.deref(n['t']):
            return self.ev(n['a'][0])
        lay = self.layout(n['t'])
        if lay and lay[0] == 'rec':
            d = {}
            for (k, ft), x in zip(lay[1], n['a']):
                d[k] = self.ev(x) if self.ir.isref(ft) else self.rv(x)
            for k, ft in lay[1][len(n['a']):]:
                d[k] = self.default(ft) if self.ir.T(ft)['k'] == 'rec' else self.zero(ft)
            return Rec(n['t'], d)
        if lay and lay[0] == 'vec':
            items = [self.rv(x) for x in n['a']]
            if len(items) == 1 and isinstance(items[0], IList):
                items = items[0].items
            v = self.default(n['t'])
            for i, x in enumerate(items):
                v = v.with_(arr=z3.Store(v.arr, I(i), self.reify(x, v.el)))
            return v
        if self.is_unit(n['t']):
            return Unit(n['t'])
        raise Undecided('init list of ' + t['s'])

    def e_lambda(self, n):
        t = self.ir.T(n['t'])
        caps, this = {}, None
        for c, ci in zip(t.get('caps', []), n['ci']):
            if c['this']:
                this = self.fr.this
            else:
                x = self.ev(ci) if ci is not None else None
                caps[c['v']] = x if c['ref'] else self.load(x)
        return Closure(n['t'], caps, this)

    def e_throw(self, n):
        v = None
        tn = 'rethrow'
        if n.get('e'):
            tn = self.ir.T(self.ir.deref(n['e']['t']))['s']
            v = None
        elif self.cur_exc:
            raise ThrowEx(*self.cur_exc[-1])
        raise ThrowEx(tn, v)

    cur_exc = ()

    def e_new(self, n):
        if n.get('e'):
            v = self.rv(n['e'])
        else:
            v = Uninit(self.ir.T(n['t'])['to'])
        return Ptr(self.temp(v, 'heap', self.ir.T(n['t'])['to']))

    def e_del(self, n):
        self.rv(n['e'])
        return None

    # ------------------------------------------------------------------ calls
    def e_mcall(self, n):
        if 'fn' not in n:
            raise Undecided('member pointer call')
        fn = self.ir.fns[n['fn']]
        o = self.ev(n['o'])
        if n.get('arrow'):
            o = self.deref_ptr(self.load(o), n)
        return self.call(fn, o, n['a'], n)

    def e_ocall(self, n):
        if 'fn' not in n:
            raise Undecided('operator call')
        fn = self.ir.fns[n['fn']]
        if n.get('member') and not fn.get('static'):
            if n['op'] in ('=', '+=') or True:
                pass
            if n['op'] == '=':
                # right operand is sequenced before the left
                args = [self.ev(x) for x in n['a'][1:]]
                o = self.ev(n['a'][0])
                return self.callv(fn, o, args, n, n['a'][1:])
            o = self.ev(n['a'][0])
            return self.call(fn, o, n['a'][1:], n)
        return self.call(fn, None, n['a'], n)

    def e_call(self, n):
        if 'fn' in n:
            fn = self.ir.fns[n['fn']]
            return self.call(fn, None, n['a'], n)
        f = self.rv(n['ce'])
        args = [self.ev(x) for x in n['a']]
        return self.apply(f, args, n)

    def apply(self, f, args, n=None):
        """Call a callable value (closure, function reference, abstract functor)."""
        if isinstance(f, LV):
            f = self.read(f)
        if isinstance(f, PyFn):
            return f.f(self, args)
        if isinstance(f, FnVal):
            return self.callv(self.ir.fns[f.fn], None, args, n, None)
        if isinstance(f, Closure):
            t = self.ir.T(f.tid)
            if 'op' not in t:
                raise Undecided('generic lambda')
            return self.invoke(self.ir.fns[t['op']], f.this, args, n, closure=f)
        if isinstance(f, Ptr) and f.lv is not None:
            return self.apply(self.read(f.lv), args, n)
        raise Undecided('call of %r' % type(f))

    def e_ctor(self, n):
        fn = self.ir.fns[n['fn']]
        args = [self.ev(x) for x in n['a']]
        return self.construct(n['t'], fn, args, n)

    def e_inhctor(self, n):
        raise Undecided('inherited ctor')

    def call(self, fn, o, argn, n):
        args = [self.ev(x) for x in argn]
        return self.callv(fn, o, args, n, argn)

    def callv(self, fn, o, args, n, argn=None):
        import stdmodel
        q = fn['q']
        for pred, h in self.contracts:
            if pred(fn):
                r = h(self, fn, o, args, n)
                if r is not NotImplemented:
                    self.used_contracts.add(q)
                    return r
        for rx in self.pure:
            if rx.fullmatch(q):
                return self.uf_call(fn, o, args)
        if isinstance(self.load(o) if isinstance(o, LV) else o, Closure):
            c = self.load(o) if isinstance(o, LV) else o
            if q.split('::')[-1] == 'operator()':
                return self.invoke(fn, c.this, args, n, closure=c)
        if isinstance(self.load(o) if isinstance(o, LV) else o, PyFn):
            return (self.load(o) if isinstance(o, LV) else o).f(self, args)
        m = stdmodel.lookup(self, fn)
        if m is not None:
            self.used_models.add(q)
            return m(self, fn, o, args, n)
        if fn.get('body') is not None:
            if o is not None and not isinstance(o, LV):
                o = self.temp(o, 'obj', fn.get('rec'))
            return self.invoke(fn, o, args, n)
        if fn.get('defaulted') and fn.get('special') in ('copyassign', 'moveassign'):
            return self.default_assign(fn, o, args[0], n)
        if fn.get('defaulted') and q.split('::')[-1] == 'operator==':
            return self.reify(self.load(args[0])) == self.reify(self.load(args[1])) if o is None else self.reify(self.load(o)) == self.reify(self.load(args[0]))
        raise Undecided('no model or contract for %s(%s) at %s' % (q, self.ir.sig(fn), irmod.loc(n) if n else ''))

    def default_assign(self, fn, o, src, n):
        """Memberwise (defaulted) assignment; bases and members with user-provided operators are called through their own code."""
        v = self.load(src)
        self.write(o, v)
        return o

    def uf_call(self, fn, o, args):
        name = fn['q'] + '(' + self.ir.sig(fn) + ')'
        self.used_uf.add(fn['q'])
        xs = []
        if o is not None:
            xs.append(self.reify(self.load(o), fn.get('rec')))
        for p, a in zip(fn['p'], args):
            v = self.load(a)
            if isinstance(v, Unit) or isinstance(v, Ptr) and v.lv is None:
                continue
            xs.append(self.reify(v, self.ir.deref(p['t'])))
        rt = self.ir.deref(fn['ret'])
        f = self.uf(re.sub(r'^.*::', '', fn['q']) + '_%d' % fn['id'], [x.sort() for x in xs], self.sort_of(rt))
        r = f(*xs) if xs else f
        v = self.reflect(r, rt)
        return v

    def uf(self, name, dom, rng):
        key = (name, tuple(str(d) for d in dom), str(rng))
        if key not in self.ufs:
            self.ufs[key] = z3.Function(name, *dom, rng) if dom else z3.Const(name, rng)
        return self.ufs[key]

    def bind(self, fr, p, a):
        pt = self.ir.T(p['t'])
        if pt['k'] in ('lref', 'rref'):
            fr.env[p['id']] = a if isinstance(a, LV) else self.temp(a, p['n'] or 'arg', p['t'])
        else:
            r = self.newroot(p['n'] or 'arg')
            self.store[r] = self.load(a)
            self.rtype[r] = p['t']
            fr.env[p['id']] = LV(r)

    def invoke(self, fn, this, args, n, closure=None):
        """Inline a function body."""
        if fn.get('body') is None:
            raise Undecided('no body for %s' % fn['q'])
        self.inlined.add(fn['id'])
        for pred, h in self.on_call:
            if pred(fn):
                h(self, fn, this, args, n)
        self.depth += 1
        if self.depth > 60:
            self.depth = 0
            raise Undecided('recursion through %s' % fn['q'])
        kk = self.key()

        def run():
            self.frames.append(Frame(fn, this))
            fr = self.fr
            if closure is not None:
                for vid, x in closure.caps.items():
                    fr.env[vid] = x if isinstance(x, LV) else self.temp(x, 'cap')
            for p, a in zip(fn['p'], args):
                self.bind(fr, p, a)
            depth = self.depth
            try:
                try:
                    self.ex(fn['body'])
                    r = None
                except ReturnEx as e:
                    r = e.v
            finally:
                self.depth = depth
                if self.frames and self.frames[-1] is fr:
                    self.frames.pop()
            return r
        try:
            return self.merge_explore(run)
        finally:
            self.depth -= 1

    def construct(self, tid, fn, args, n):
        """Value of a constructor call."""
        import stdmodel
        t = self.ir.T(tid)
        for pred, h in self.contracts:
            if pred(fn):
                r = h(self, fn, None, args, n)
                if r is not NotImplemented:
                    self.used_contracts.add(fn['q'])
                    return r
        if self.is_unit(tid):
            return Unit(tid)
        if self.opaque(t):
            if fn.get('special') in ('copyctor', 'movector'):
                return self.load(args[0])
        m = stdmodel.lookup(self, fn)
        if m is not None:
            self.used_models.add(fn['q'])
            return m(self, fn, None, args, n)
        sp = fn.get('special')
        if sp in ('copyctor', 'movector') and (fn.get('defaulted') or not fn.get('repo')) and 'body' not in fn:
            return self.load(args[0])
        if fn.get('defaulted') and sp == 'defctor' or (sp == 'defctor' and 'body' not in fn and 'inits' not in fn):
            if 'inits' not in fn:
                return self.default(tid, False)
        if fn.get('body') is None and 'inits' not in fn:
            if fn.get('special') in ('copyctor', 'movector'):
                return self.load(args[0])
            raise Undecided('no model for constructor %s(%s) at %s' % (fn['q'], self.ir.sig(fn), irmod.loc(n) if n else ''))
        if sp in ('copyctor', 'movector') and fn.get('defaulted'):
            return self.load(args[0])
        r = self.newroot('new')
        self.store[r] = self.blank(tid)
        self.rtype[r] = tid
        self.run_ctor(fn, LV(r), args, n)
        return self.read(LV(r))

    def run_ctor(self, fn, this, args, n):
        self.inlined.add(fn['id'])

        def run():
            self.frames.append(Frame(fn, this))
            fr = self.fr
            for p, a in zip(fn['p'], args):
                self.bind(fr, p, a)
            try:
                for i in fn.get('inits', []):
                    if 'm' in i:
                        mt = self.ir.T(i['mt'])
                        if i['e'] is None:
                            continue
                        v = self.ev(i['e']) if mt['k'] in ('lref', 'rref') else self.rv(i['e'])
                        if mt['k'] in ('lref', 'rref'):
                            self.write(this.sub(i['m']), v if isinstance(v, LV) else self.temp(v))
                        else:
                            self.write(this.sub(i['m']), self.adapt(v, i['mt']))
                    elif 'b' in i:
                        e = i['e']
                        if e['k'] == 'ctor':
                            bfn = self.ir.fns[e['fn']]
                            self.write(this.sub(i['b']), self.rv(e))
                        elif e['k'] == 'inhctor':
                            self.write(this.sub(i['b']), self.construct(i['b'], self.ir.fns[e['fn']], args, n))
                        else:
                            self.write(this.sub(i['b']), self.rv(e))
                    elif i.get('d'):
                        self.write(this, self.rv(i['e']))
                if fn.get('body'):
                    try:
                        self.ex(fn['body'])
                    except ReturnEx:
                        pass
            finally:
                if self.frames and self.frames[-1] is fr:
                    self.frames.pop()
            return None
        return self.merge_explore(run)

    def adapt(self, v, tid):
        if isinstance(v, IList):
            lay = self.layout(tid)
            if lay and lay[0] == 'vec':
                r = self.default(tid)
                for i, x in enumerate(v.items):
                    r = r.with_(len=I(i + 1), arr=z3.Store(r.arr, I(i), self.reify(x, r.el)))
                return r
        return v

    # ------------------------------------------------------------------ statements
    def ex(self, s):
        if s is None:
            return
        if s.get('l'):
            self.cur_loc = irmod.loc(s)
        return getattr(self, 's_' + s['k'])(s)

    def s_unsup(self, s):
        raise Undecided('unsupported statement %s at %s' % (s.get('what'), irmod.loc(s)))

    def scoped(self, run):
        """Runs a statement and forgets the names it declared."""
        fr = self.fr
        before = set(fr.env)
        try:
            return run()
        finally:
            for k in [k for k in fr.env if k not in before]:
                lv = fr.env.pop(k)
                if isinstance(lv, LV) and not lv.sels and k in fr.own:
                    self.dead.add(lv.root)

    def s_block(self, s):
        def run():
            for x in s['b']:
                self.ex(x)
        return self.scoped(run)

    def s_null(self, s):
        pass

    def s_expr(self, s):
        self.ev(s['e'])

    def s_decl(self, s):
        for v in s['d']:
            self.declare(v)

    def declare(self, v):
        t = self.ir.T(v['t'])
        if v.get('st'):
            r = 'static:%d' % v['id']
            if r not in self.store:
                self.store[r] = self.sym(v['t'], v['n'])
                self.rtype[r] = v['t']
            self.fr.env[v['id']] = LV(r)
            return
        if t['k'] in ('lref', 'rref'):
            x = self.ev(v['e'])
            self.fr.env[v['id']] = x if isinstance(x, LV) else self.temp(x, v['n'] or 'ref', v['t'])
        else:
            if v.get('e') is not None:
                x = self.adapt(self.rv(v['e']), v['t'])
            else:
                x = self.blank(v['t']) if t['k'] == 'rec' else Uninit(v['t'])
            r = self.newroot(v['n'] or 'var')
            self.store[r] = x
            self.rtype[r] = v['t']
            self.fr.env[v['id']] = LV(r)
            self.fr.own.add(v['id'])
            self.dead.discard(r)
        for b in v.get('bind', []):
            if 'hv' in b:
                self.declare(b['hv'])
                self.fr.env[b['id']] = self.fr.env[b['hv']['id']]
            elif 'e' in b:
                x = self.ev(b['e'])
                self.fr.env[b['id']] = x if isinstance(x, LV) else self.temp(x, b['n'])

    def s_if(self, s):
        if s.get('i'):
            self.ex(s['i'])
        if s.get('cv'):
            self.declare(s['cv'])
        c = self.as_bool(self.rv(s['c']))
        if z3.is_true(c):
            return self.ex(s['t'])
        if z3.is_false(c):
            return self.ex(s['e'])

        def run():
            if self.branch(c):
                self.ex(s['t'])
            else:
                self.ex(s['e'])
        return self.merge_explore(run)

    def s_ret(self, s):
        if not s.get('e'):
            raise ReturnEx(None)
        rt = self.ir.T(self.fr.fn['ret'])
        v = self.ev(s['e'])
        if rt['k'] in ('lref', 'rref'):
            if not isinstance(v, LV):
                v = self.temp(v, 'ret')
            raise ReturnEx(v)
        raise ReturnEx(self.adapt(self.load(v), self.fr.fn['ret']))

    def s_brk(self, s):
        raise BreakEx()

    def s_cont(self, s):
        raise ContinueEx()

    def s_try(self, s):
        def run():
            try:
                self.ex(s['b'])
            except ThrowEx as e:
                if not s['h']:
                    raise
                # handlers are tried in order; a handler for a base class or (...) catches
                for h in s['h']:
                    ht = self.ir.T(self.ir.deref(h['v']['t']))['s'] if h.get('v') else None
                    if ht is None or ht == e.t or self.exc_base(e.t, ht):
                        self.cur_exc = tuple(self.cur_exc) + ((e.t, e.v),)
                        if h.get('v'):
                            r = self.newroot('exc')
                            self.store[r] = Unit(None)
                            self.fr.env[h['v']['id']] = LV(r)
                        try:
                            self.ex(h['b'])
                        finally:
                            self.cur_exc = self.cur_exc[:-1]
                        return
                raise
        return self.merge_explore(run)

    def exc_base(self, t, base):
        std = {'std::out_of_range': ['std::logic_error', 'std::exception'], 'std::invalid_argument': ['std::logic_error', 'std::exception'], 'std::runtime_error': ['std::exception'], 'std::logic_error': ['std::exception'], 'std::bad_alloc': ['std::exception']}
        if base in std.get(t, []):
            return True
        for tt in self.ir.types:
            if tt['s'] == t and tt['k'] == 'rec':
                return any(self.ir.T(b)['s'] == base or self.exc_base(self.ir.T(b)['s'], base) for b in tt.get('ba', []))
        return False

    def s_switch(self, s):
        c = self.rv(s['c'])
        body = s['b']['b'] if s['b']['k'] == 'block' else [s['b']]
        # flatten labels
        flat = []
        for x in body:
            labels = []
            while x is not None and x['k'] in ('case', 'default'):
                labels.append(('d', None) if x['k'] == 'default' else ('c', x['v']))
                x = x['b']
            flat.append((labels, x))

        def run():
            start = None
            for i, (ls, _) in enumerate(flat):
                for k, v in ls:
                    if k == 'c' and start is None and self.branch(c == self.rv(v)):
                        start = i
            if start is None:
                for i, (ls, _) in enumerate(flat):
                    if any(k == 'd' for k, _ in ls):
                        start = i
            if start is None:
                return
            try:
                for _, x in flat[start:]:
                    self.ex(x)
            except BreakEx:
                pass
        return self.merge_explore(run)

    def s_while(self, s):
        self.loop(lambda: self.as_bool(self.rv(s['c'])), lambda: self.ex(s['b']), None, s)

    def s_do(self, s):
        first = self.newroot('do')
        self.store[first] = z3.BoolVal(True)
        self.rtype[first] = self.bool_t()

        def cond():
            f = self.store[first]
            if z3.is_true(f):
                self.write(LV(first), z3.BoolVal(False))
                return z3.BoolVal(True)
            if z3.is_false(f):
                return self.as_bool(self.rv(s['c']))
            if self.branch(f):
                self.write(LV(first), z3.BoolVal(False))
                return z3.BoolVal(True)
            return self.as_bool(self.rv(s['c']))
        self.loop(cond, lambda: self.ex(s['b']), None, s)

    def s_for(self, s):
        return self.scoped(lambda: self.s_for_(s))

    def s_for_(self, s):
        if s.get('i'):
            self.ex(s['i'])
        self.loop((lambda: self.as_bool(self.rv(s['c']))) if s.get('c') else (lambda: z3.BoolVal(True)), lambda: self.ex(s['b']), (lambda: self.ev(s['n'])) if s.get('n') else None, s)

    def s_rfor(self, s):
        return self.scoped(lambda: self.s_rfor_(s))

    def s_rfor_(self, s):
        if s.get('i'):
            self.ex(s['i'])
        self.ex(s['r'])
        rng = self.fr.env[s['r']['d'][0]['id']]
        v = self.load(rng)
        if isinstance(v, MapV):
            import stdmodel
            return stdmodel.map_range_for(self, s, rng, v)
        if isinstance(v, IList):
            for x in v.items:
                r = self.temp(x, 'il', v.el)
                vd = s['v']['d'][0]
                self.fr.env[vd['id']] = r
                try:
                    self.ex(s['b'])
                except ContinueEx:
                    pass
                except BreakEx:
                    break
            return
        self.ex(s['be'])
        self.ex(s['en'])

        def body():
            self.ex(s['v'])
            self.ex(s['b'])
        self.loop(lambda: self.as_bool(self.rv(s['c'])), body, lambda: self.ev(s['n']), s)

    # ------------------------------------------------------------------ loops
    def loop(self, cond, body, inc, node):
        import loops
        return loops.run(self, cond, body, inc, node)


class MergeFail(Exception):
    pass
