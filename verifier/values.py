"""Symbolic values and their z3 sorts."""
import z3, re

z3.set_param("warning", False)
MAXLEN = 2 ** 56


class Undecided(Exception):
    """The code left the verifier's reach; never a violation."""


class Rec:
    __slots__ = ('tid', 'd')

    def __init__(self, tid, d):
        self.tid, self.d = tid, d

    def set(self, k, v):
        d = dict(self.d)
        d[k] = v
        return Rec(self.tid, d)

    def __repr__(self):
        return 'Rec%d%r' % (self.tid, self.d)


class Vec:
    __slots__ = ('tid', 'el', 'len', 'arr')

    def __init__(self, tid, el, len, arr):
        self.tid, self.el, self.len, self.arr = tid, el, len, arr

    def with_(self, len=None, arr=None):
        return Vec(self.tid, self.el, self.len if len is None else len, self.arr if arr is None else arr)

    def __repr__(self):
        return 'Vec(%s,%s)' % (self.len, self.arr)


class MapV:
    """Associative container: dom: K->Bool, val: K->V (None for sets), n: size."""
    __slots__ = ('tid', 'kt', 'vt', 'dom', 'val', 'n')

    def __init__(self, tid, kt, vt, dom, val, n):
        self.tid, self.kt, self.vt, self.dom, self.val, self.n = tid, kt, vt, dom, val, n

    def with_(self, dom=None, val=None, n=None):
        return MapV(self.tid, self.kt, self.vt, self.dom if dom is None else dom, self.val if val is None else val, self.n if n is None else n)


class LV:
    """Lvalue: a store root plus selectors."""
    __slots__ = ('root', 'sels')

    def __init__(self, root, sels=()):
        self.root, self.sels = root, tuple(sels)

    def sub(self, *s):
        return LV(self.root, self.sels + s)

    def same(self, o):
        return isinstance(o, LV) and self.root == o.root and len(self.sels) == len(o.sels) and all(seleq(a, b) for a, b in zip(self.sels, o.sels))

    def __repr__(self):
        return 'LV(%s%s)' % (self.root, ''.join('.%s' % (s,) for s in self.sels))


def seleq(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return a[0] == b[0] and (a[1] is b[1] or (z3.is_expr(a[1]) and z3.is_expr(b[1]) and a[1].eq(b[1])))
    return not isinstance(a, tuple) and not isinstance(b, tuple) and a == b


class It:
    """Iterator: container lvalue + index (sequence) or key (associative, key None = end)."""
    __slots__ = ('cont', 'idx', 'rev')

    def __init__(self, cont, idx, rev=False):
        self.cont, self.idx, self.rev = cont, idx, rev

    def __repr__(self):
        return 'It(%s,%s)' % (self.cont, self.idx)


class MIt:
    """Associative-container iterator: key + validity (valid False = end())."""
    __slots__ = ('cont', 'key', 'valid')

    def __init__(self, cont, key, valid):
        self.cont, self.key, self.valid = cont, key, valid


class Ptr:
    __slots__ = ('lv', 'isnull')

    def __init__(self, lv, isnull=None):
        self.lv = lv
        self.isnull = isnull if isnull is not None else z3.BoolVal(lv is None)


class Closure:
    __slots__ = ('tid', 'caps', 'this')

    def __init__(self, tid, caps, this):
        self.tid, self.caps, self.this = tid, caps, this


class FnVal:
    __slots__ = ('fn',)

    def __init__(self, fn):
        self.fn = fn


class PyFn:
    """Callable supplied by a contract (e.g. an abstract functor argument)."""
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = f


class Uninit:
    __slots__ = ('tid',)

    def __init__(self, tid):
        self.tid = tid


class IList:
    __slots__ = ('items', 'el')

    def __init__(self, items, el):
        self.items, self.el = items, el


class BackIns:
    __slots__ = ('lv',)

    def __init__(self, lv):
        self.lv = lv


class Unit:
    """A value with no observable content (allocators, tags, strings used only for messages)."""
    __slots__ = ('tid',)

    def __init__(self, tid=None):
        self.tid = tid


def is_true(e):
    return z3.is_true(e)


def is_false(e):
    return z3.is_false(e)


def And(*xs):
    r = []
    for x in xs:
        if z3.is_false(x):
            return x
        if not z3.is_true(x):
            r.append(x)
    if not r:
        return z3.BoolVal(True)
    return r[0] if len(r) == 1 else z3.And(*r)


def Or(*xs):
    r = []
    for x in xs:
        if z3.is_true(x):
            return x
        if not z3.is_false(x):
            r.append(x)
    if not r:
        return z3.BoolVal(False)
    return r[0] if len(r) == 1 else z3.Or(*r)


def Not(x):
    if z3.is_true(x):
        return z3.BoolVal(False)
    if z3.is_false(x):
        return z3.BoolVal(True)
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


def Implies(a, b):
    if z3.is_true(a):
        return b
    if z3.is_false(a) or z3.is_true(b):
        return z3.BoolVal(True)
    if z3.is_quantifier(b) and b.is_forall():
        # pull the guard inside so that the quantifier stays at top level
        n = b.num_vars()
        vs = [z3.FreshConst(b.var_sort(i), b.var_name(i)) for i in range(n)]
        body = z3.substitute_vars(b.body(), *reversed(vs))
        pats = [z3.substitute_vars_pat(b.pattern(i), vs) if False else None for i in range(b.num_patterns())]
        if b.num_patterns() == 0:
            return z3.ForAll(vs, z3.Implies(a, body))
        mp = []
        for i in range(b.num_patterns()):
            p = b.pattern(i)
            ch = [z3.substitute_vars(p.arg(j), *reversed(vs)) for j in range(p.num_args())]
            mp.append(z3.MultiPattern(*ch) if len(ch) > 1 else ch[0])
        return forall(vs, z3.Implies(a, body), patterns=mp)
    return z3.Implies(a, b)


def Ite(c, a, b):
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a.eq(b):
        return a
    if z3.is_bool(a):
        if z3.is_true(a) and z3.is_false(b):
            return c
        if z3.is_false(a) and z3.is_true(b):
            return Not(c)
    return z3.If(c, a, b)


def forall(vs, body, patterns=None):
    if patterns:
        try:
            return z3.ForAll(vs, body, patterns=patterns)
        except z3.Z3Exception:
            pass
    return z3.ForAll(vs, body)


def I(n):
    return z3.IntVal(n)


def cint(e):
    """Concrete Python int of an Int term, or None."""
    return e.as_long() if z3.is_int_value(e) else None


def add(a, b):
    """Int addition with light normalisation of constants: keeps index terms syntactically close."""
    ca, cb = cint(a), cint(b)
    if ca is not None and cb is not None:
        return I(ca + cb)
    if ca == 0:
        return b
    if cb == 0:
        return a
    if ca is not None:
        a, b, ca, cb = b, a, cb, ca
    if cb is not None and z3.is_add(a) and a.num_args() == 2 and cint(a.arg(1)) is not None:
        return add(a.arg(0), I(cint(a.arg(1)) + cb))
    return a + b


def sub(a, b):
    cb = cint(b)
    if cb is not None:
        return add(a, I(-cb))
    if a.eq(b):
        return I(0)
    if z3.is_add(a) and a.num_args() == 2:
        if a.arg(0).eq(b):
            return a.arg(1)
        if a.arg(1).eq(b):
            return a.arg(0)
    return a - b


def has_quant(e, cache={}):
    k = e.get_id()
    if k in cache and cache[k][0].eq(e):
        return cache[k][1]
    if z3.is_quantifier(e):
        r = True
    elif z3.is_app(e):
        r = any(has_quant(c) for c in e.children())
    else:
        r = False
    cache[k] = (e, r)
    return r
