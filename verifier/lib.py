"""Helpers shared by the contract files."""
import z3
from values import *
from engine import Ex, ThrowEx, PathEnd


def sym_root(ex, tid, name):
    """Fresh object of a type in its own storage; returns its lvalue."""
    r = ex.newroot(name)
    ex.store[r] = ex.sym(tid, name)
    ex.rtype[r] = ex.ir.deref(tid)
    return LV(r)


def the(fs, what):
    if len(fs) != 1:
        raise Undecided('expected exactly one function for %s, found %d' % (what, len(fs)))
    return fs[0]


def mark(ex, name):
    ex.entry_marks.append((name, ex.facts()))


def outcomes(ex, thunk):
    """Run thunk on all paths; yields (kind, value) with the executor positioned in each final state."""
    res = ex.explore(thunk)
    base = ex.snap()
    if not res:
        raise Undecided('no feasible outcome')
    for kind, v, st, pc, rt in res:
        ex.restore((st, pc, rt))
        yield kind, v
    ex.restore(base)


def call(ex, fn, this, args):
    if fn['kind'] == 'ctor':
        return lambda: ex.construct(fn['rec'], fn, args, None)
    return lambda: ex.invoke(fn, this, args, None)


def fa(vs, body, pats=None):
    if not isinstance(vs, (list, tuple)):
        vs = [vs]
    if pats is None:
        return z3.ForAll(vs, body)
    return forall(vs, body, patterns=pats)


def arg_syms(ex, fn):
    """Symbolic arguments for all parameters of fn (references get their own storage)."""
    out = []
    for p in fn['p']:
        t = ex.ir.deref(p['t'])
        if ex.is_unit(t):
            out.append(Unit(t))
        elif ex.ir.isref(p['t']):
            out.append(sym_root(ex, t, p['n'] or 'arg'))
        else:
            out.append(ex.sym(t, p['n'] or 'arg'))
    return out


def base_of(ex, lv, rx):
    """Lvalue of the (transitive) base subobject whose type matches rx."""
    import re
    v = ex.read(lv)
    if isinstance(v, Rec):
        for k in v.d:
            if isinstance(k, int):
                if re.search(rx, ex.ir.T(k)['n']):
                    return lv.sub(k)
                r = base_of(ex, lv.sub(k), rx)
                if r is not None:
                    return r
    return None


def find_base(ex, v, rx):
    import re
    if isinstance(v, Rec):
        if v.tid is not None and re.search(rx, ex.ir.T(v.tid)['n']):
            return v
        for k in v.d:
            if isinstance(k, int):
                if re.search(rx, ex.ir.T(k)['n']):
                    return v.d[k]
                r = find_base(ex, v.d[k], rx)
                if r is not None:
                    return r
    return None
