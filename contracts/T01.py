"""T01: every tag has one number, numbers give the tags back, and nodes and edges keep the tags they were given."""
from lib import *
from verify import Unit as PU
import re

NS = 'map_matching_2::io::helper::tag_helper'
ST = 'map_matching_2::io::memory_mapped::storage::tag_storage'
DRIVERS = {'t': ('T01_driver.cpp', [NS + '::.*', ST + '::.*', 't_.*'], [])}
MAPS = ('_id_key_map', '_key_id_map', '_id_value_map', '_value_id_map', '_tags_map', '_ids_map', '_nodes_map', '_edges_map', '_empty_tags')
i_, k_, j_ = z3.Ints('i k j')


def string(ex, fn, o, args, n):
    if ex.emplace_fails and ex.branch(ex.fresh(z3.BoolSort(), 'allocation_fails')):
        raise ThrowEx('std::bad_alloc')
    return ex.load(args[0])


def configure(fails=False):
    def cfg(ex):
        ex.opaque_types = [re.compile(r'^(const )?std::(__cxx11::)?basic_string<'), re.compile(r'^std::unique_ptr<'), re.compile(r'^std::allocator<')]
        ex.emplace_fails = fails
        ex.templates = [templates]
        # the string of the storage has the characters of the one given
        ex.contracts.append((lambda f: f['q'] == ST + '::string', string))
    return cfg


class S:
    """A tag helper whose storage lies in objects of its own."""

    def __init__(self, ex, ir, name='h', finalized=False):
        self.ex, self.ir = ex, ir
        f = the([f for f in ir.fns if f['q'] == NS + '::id'], 'id')
        self.rec = f['rec']
        self.lv = sym_root(ex, self.rec, name)
        self.st = self.lv.sub('_tag_storage')
        self.at = {}
        stt = ex.read(self.st)
        lay = dict(ex.layout(stt.tid)[1])
        for m in MAPS:
            t = ir.T(ir.deref(lay[m]))['a'][0]['t']
            self.at[m] = sym_root(ex, t, name + m)
            ex.write(self.st.sub(m), Ptr(self.at[m]))
        ex.write(self.st.sub('_finalized'), z3.BoolVal(finalized))
        a = ir.T(ir.deref(lay['_allocator']))['a'][0]['t']
        ex.write(self.st.sub('_allocator'), Ptr(sym_root(ex, a, name + '_alloc')))
        ex.assume(ex.read(self.at['_empty_tags']).len == 0)
        self.pt = ex.read(self.at['_tags_map']).vt
        self.string = ex.read(self.at['_id_key_map']).vt

    def rd(self, m):
        return self.ex.read(self.at[m])

    def state(self):
        return {m: self.rd(m) for m in MAPS}

    def pair(self, a, b):
        return self.ex.reify(Rec(self.pt, {'first': a, 'second': b}), self.pt)

    def key(self, q, st=None):
        """(number of key, number of value) of tag q"""
        r = self.ex.reflect(z3.Select((st or self.state())['_tags_map'].val, q), self.pt, facts=False).d
        return r['first'], r['second']

    def text(self, q, st=None):
        """key and value of tag q"""
        st = st or self.state()
        a, b = self.key(q, st)
        return z3.Select(st['_id_key_map'].val, a), z3.Select(st['_id_value_map'].val, b)

    def known(self, q, st=None):
        return z3.Select((st or self.state())['_tags_map'].dom, q)

    def inv(self, st=None, finalized=False):
        st = st or self.state()
        out = []
        s_ = z3.Const('s', self.ex.sort_of(self.string))
        for what, back, fwd in (('keys', '_id_key_map', '_key_id_map'), ('values', '_id_value_map', '_value_id_map')):
            b, f = st[back], st[fwd]
            bd, bv = z3.Select(b.dom, i_), z3.Select(b.val, i_)
            fd, fv = z3.Select(f.dom, s_), z3.Select(f.val, s_)
            out.append((what + ' are numbered from zero', fa(i_, bd == z3.And(i_ >= 0, i_ < b.n), [bd])))
            if not finalized:
                out += [(what + ': as many', f.n == b.n),
                        (what + ': every number names one', fa(i_, z3.Implies(bd, z3.And(z3.Select(f.dom, bv), z3.Select(f.val, bv) == i_)), [bd])),
                        (what + ': every one is found', fa(s_, z3.Implies(fd, z3.And(fv >= 0, fv < b.n, z3.Select(b.val, fv) == s_)), [fd]))]
        t, q = st['_tags_map'], st['_ids_map']
        ka, va = self.key(i_, st)
        td = z3.Select(t.dom, i_)
        p = z3.Const('p', self.ex.sort_of(self.pt))
        out += [('tags are numbered from zero', fa(i_, td == z3.And(i_ >= 0, i_ < t.n), [td])),
                ('tags have a key and a value', fa(i_, z3.Implies(td, z3.And(ka >= 0, ka < st['_id_key_map'].n, va >= 0, va < st['_id_value_map'].n)), [z3.Select(t.val, i_)])),
                ('tags have a key and a value 2', fa(i_, z3.Implies(td, z3.And(ka >= 0, ka < st['_id_key_map'].n, va >= 0, va < st['_id_value_map'].n)), [td]))]
        if not finalized:
            qd, qv = z3.Select(q.dom, p), z3.Select(q.val, p)
            out += [('tags: as many', q.n == t.n),
                    ('tags: every number names one', fa(i_, z3.Implies(td, z3.And(z3.Select(q.dom, z3.Select(t.val, i_)), z3.Select(q.val, z3.Select(t.val, i_)) == i_)), [td])),
                    ('tags: every one is found', fa(p, z3.Implies(qd, z3.And(qv >= 0, qv < t.n, z3.Select(t.val, qv) == p)), [qd]))]
        return out

    def assume_inv(self, finalized=False):
        for _, f in self.inv(finalized=finalized):
            self.ex.assume(f)
        st = self.state()
        for m in ('_id_key_map', '_id_value_map', '_tags_map'):
            self.ex.assume(st[m].n < 2 ** 60)

    def oblige_inv(self, tag=''):
        for n, f in self.inv():
            self.ex.oblige('%sinvariant: %s' % (tag, n), f, None, 'post', assume=False)

    def keeps(self, old):
        """every tag known before keeps its number, key and value"""
        new = self.state()
        a, b = self.text(i_, new)
        c, d = self.text(i_, old)
        return fa(i_, z3.Implies(self.known(i_, old), z3.And(self.known(i_, new), a == c, b == d)), [self.known(i_, old)])

    def same_map(self, m, old, but=None):
        """same lists of tags (except of one id)"""
        a, b = self.rd(m), old[m]
        x, y = self.ex.reflect(z3.Select(a.val, i_), a.vt, facts=False), self.ex.reflect(z3.Select(b.val, i_), b.vt, facts=False)
        c = z3.And(z3.Select(a.dom, i_) == z3.Select(b.dom, i_), z3.Implies(z3.Select(b.dom, i_), z3.And(x.len == y.len, z3.ForAll([k_], z3.Implies(z3.And(k_ >= 0, k_ < y.len), z3.Select(x.arr, k_) == z3.Select(y.arr, k_))))))
        if but is not None:
            c = z3.Implies(i_ != but, c)
        return fa(i_, c, [z3.Select(a.dom, i_)])

    def lst(self, m, q, st=None):
        v = (st or self.state())[m]
        return z3.Select(v.dom, q), self.ex.reflect(z3.Select(v.val, q), v.vt, facts=False)


def numbers(ex, s):
    """Contract of id(key, value): proved in its own unit."""
    def id_(ex, fn, o, args, n):
        k, v = ex.load(args[0]), ex.load(args[1])
        old = s.state()
        ex.oblige('tags are only added before the end', Not(ex.as_bool(ex.read(s.st.sub('_finalized')))), n, 'pre', assume=False)
        for nm, f in s.inv():
            ex.oblige('before id(): ' + nm, f, n, 'pre', assume=False)
        for m in MAPS[:6]:
            ex.write(s.at[m], ex.sym(old[m].tid, 'id' + m))
        r = ex.fresh(z3.IntSort(), 'id')
        for nm, f in s.inv():
            ex.assume(f)
        new = s.state()
        a, b = s.text(r, new)
        ex.assume(And(s.known(r, new), a == k, b == v, r >= 0, r < 2 ** 60))
        ex.assume(s.keeps(old))
        return r
    ex.contracts.append((lambda f: f['q'] == NS + '::id', id_))


def templates(ctx):
    ex = ctx.ex
    s = getattr(ex, 'spec', None)
    if s is None:
        return
    yield ('invariants', lambda: z3.And(*[f for _, f in s.inv()]), True)
    if getattr(ex, 'before', None) is not None:
        yield ('tags keep their numbers', lambda: s.keeps(ex.before), True)
    if getattr(ex, 'want', None) is not None:
        for l in ctx.of(cls=Vec):
            if not l.mod or l.pre.el not in ex.idt:
                continue
            for nm, cur, pre, md in ctx.ints(True):
                if not nm.endswith('.size'):
                    yield ('%s: %s numbers' % (l.name, nm), lambda l=l, cur=cur: l.cur().len == cur(), False)

            def same(l=l):
                x = z3.Select(l.cur().arr, k_)
                a, b = s.text(x)
                c, d = ex.want(k_)
                return fa(k_, z3.Implies(z3.And(k_ >= 0, k_ < l.cur().len), z3.And(s.known(x), a == c, b == d)), [x])
            yield ('%s: same tags' % l.name, same, True)


def units():
    us = []

    def unit(name, prove, fns, fails=False):
        us.append(PU(name, prove, driver='t', fns=fns, configure=configure(fails)))

    def fn(ir, name, np, ty=None):
        return the([f for f in ir.fns if f['q'] == NS + '::' + name and f.get('body') and len(f['p']) == np and (ty is None or re.search(ty, ir.sig(f)))], name)

    def idu(ex, ir, fails=False):
        s = S(ex, ir)
        ex.spec = s
        s.assume_inv()
        f = fn(ir, 'id', 3)
        k, v = ex.sym(s.string, 'key'), ex.sym(s.string, 'value')
        old = s.state()
        # the number of the tag if it is known already
        q0 = z3.Int('q0')
        a0, b0 = s.text(q0, old)
        mark(ex, 'id')
        kinds = set()
        for kd, r in outcomes(ex, call(ex, f, s.lv, [ex.temp(k, 'k', s.string), ex.temp(v, 'v', s.string), z3.BoolVal(True)])):
            kinds.add(kd)
            s.oblige_inv('after a failed allocation, ' if kd == 'throw' else '')
            ex.oblige('known tags keep number, key and value', s.keeps(old), None, 'post', assume=False)
            for m in ('_nodes_map', '_edges_map'):
                ex.oblige('tags of nodes and edges are left alone', z3.BoolVal(s.rd(m).val.eq(old[m].val) and s.rd(m).dom.eq(old[m].dom)), None, 'post', assume=False)
            if kd == 'throw':
                ex.oblige('throws only when memory runs out', z3.BoolVal(fails), None, 'post', assume=False)
                ex.oblige('no tag is added without its number', s.rd('_tags_map').n == old['_tags_map'].n, None, 'post', assume=False)
                continue
            r = ex.load(r)
            a, b = s.text(r)
            ex.oblige('the number is known', s.known(r), None, 'post', assume=False)
            ex.oblige('the number stands for key and value', And(a == k, b == v), None, 'post', assume=False)
            ex.oblige('a known tag is found again', Implies(And(s.known(q0, old), a0 == k, b0 == v), And(r == q0, s.rd('_tags_map').n == old['_tags_map'].n)), None, 'post', assume=False)
            ex.oblige('a new tag gets the next number', Implies(Not(s.known(r, old)), And(r == old['_tags_map'].n, s.rd('_tags_map').n == r + 1)), None, 'post', assume=False)
        ex.oblige('a number is returned', z3.BoolVal('norm' in kinds or bool(kinds - {'throw'})), None, 'post', assume=False)
    unit('id(key, value)', idu, ['id'])
    unit('id(key, value), allocations failing anywhere', lambda ex, ir: idu(ex, ir, True), ['id'], fails=True)

    def finalized(ex, ir):
        s = S(ex, ir, finalized=True)
        ex.spec = s
        old = s.state()
        f = fn(ir, 'id', 3)
        k, v = ex.sym(s.string, 'key'), ex.sym(s.string, 'value')
        mark(ex, 'id')
        for kd, r in outcomes(ex, call(ex, f, s.lv, [ex.temp(k, 'k', s.string), ex.temp(v, 'v', s.string), z3.BoolVal(True)])):
            ex.oblige('no number after the end', z3.BoolVal(kd == 'throw'), None, 'post', assume=False)
            ex.oblige('nothing changes', z3.BoolVal(all(s.rd(m).val.eq(old[m].val) and s.rd(m).dom.eq(old[m].dom) for m in MAPS[:8])), None, 'post', assume=False)
    unit('id(key, value) after finalize()', finalized, ['id'])

    def tag(ex, ir, fin=False):
        s = S(ex, ir, finalized=fin)
        ex.spec = s
        s.assume_inv(fin)
        f = fn(ir, 'tag', 1)
        q = ex.sym(ir.find_type(r'^unsigned long$')[0], 'tag_id')
        a, b = s.text(q)
        old = s.state()
        mark(ex, 'tag')
        for kd, r in outcomes(ex, call(ex, f, s.lv, [q])):
            if kd == 'throw':
                ex.oblige('tag() throws for unknown numbers only', Not(s.known(q, old)), None, 'post', assume=False)
                continue
            r = ex.load(r)
            ex.oblige('tag() knows the number', s.known(q, old), None, 'post', assume=False)
            ex.oblige('tag() gives key and value of the number', And(r.d['first'] == a, r.d['second'] == b), None, 'post', assume=False)
            ex.oblige('tag() changes nothing', z3.BoolVal(all(s.rd(m).val.eq(old[m].val) and s.rd(m).dom.eq(old[m].dom) for m in MAPS[:8])), None, 'post', assume=False)
    unit('tag(id)', tag, ['tag'])
    unit('tag(id) after finalize()', lambda ex, ir: tag(ex, ir, True), ['tag'])

    def finalize(ex, ir):
        s = S(ex, ir)
        ex.spec = s
        s.assume_inv()
        old = s.state()
        mark(ex, 'finalize')
        for kd, r in outcomes(ex, call(ex, fn(ir, 'finalize', 0), s.lv, [])):
            ex.oblige('finalize() ends the adding of tags', And(z3.BoolVal(kd != 'throw'), ex.as_bool(ex.read(s.st.sub('_finalized')))), None, 'post', assume=False)
            for m in ('_id_key_map', '_id_value_map', '_tags_map', '_nodes_map', '_edges_map'):
                p = ex.read(s.st.sub(m))
                ex.oblige('finalize() keeps ' + m, z3.BoolVal(isinstance(p, Ptr) and p.lv is not None and ex.read(p.lv).val.eq(old[m].val) and ex.read(p.lv).dom.eq(old[m].dom)), None, 'post', assume=False)
    unit('finalize()', finalize, ['finalize'])

    def listed(ex, s, m, q, old, spec, what):
        """the list of id q in map m: spec(list before) -> formula over the list afterwards; other ids and the other map as before"""
        o = '_edges_map' if m == '_nodes_map' else '_nodes_map'
        ex.oblige(what + ': other ids keep their tags', s.same_map(m, old, q), None, 'post', assume=False)
        ex.oblige(what + ': the other kind keeps its tags', z3.BoolVal(s.rd(o).val.eq(old[o].val) and s.rd(o).dom.eq(old[o].dom)), None, 'post', assume=False)
        had, ol = s.lst(m, q, old)
        has, nl = s.lst(m, q)
        for n, f in spec(had, ol, has, nl):
            ex.oblige('%s: %s' % (what, n), f, None, 'post', assume=False)

    def stored(v):
        def spec(had, ol, has, nl):
            same = lambda x, y: And(x.len == y.len, fa(k_, z3.Implies(z3.And(k_ >= 0, k_ < y.len), z3.Select(x.arr, k_) == z3.Select(y.arr, k_)), None))
            return [('an id with tags keeps them', Implies(had, And(has, same(nl, ol)))),
                    ('an id without tags gets exactly these', Implies(And(Not(had), v.len > 0), And(has, same(nl, v)))),
                    ('no tags leave none', Implies(And(Not(had), v.len == 0), Not(has)))]
        return spec

    for what in ('node', 'edge'):
        m = '_%ss_map' % what

        def setter(ex, ir, what=what, m=m, name='set'):
            s = S(ex, ir)
            ex.spec = s
            f = fn(ir, '%s_%s_tags' % (name, what), 2, None if name == 'copy' else 'vector')
            vt = ex.read(s.at[m]).vt
            v = sym_root(ex, vt, 'tags')
            q = ex.sym(ir.find_type(r'^unsigned long$')[0], 'id')
            old, ov = s.state(), ex.read(v)
            mark(ex, f['q'])
            for kd, r in outcomes(ex, call(ex, f, s.lv, [q, v])):
                ex.oblige(name + ' does not throw', z3.BoolVal(kd != 'throw'), None, 'post', assume=False)
                listed(ex, s, m, q, old, stored(ov), name)
                ex.oblige('tags are left alone', z3.BoolVal(all(s.rd(x).val.eq(old[x].val) for x in MAPS[:6])), None, 'post', assume=False)
        unit('set_%s_tags(id, tags)' % what, setter, ['set_%s_tags' % what, 'set_map_tags', 'get_map'])
        unit('copy_%s_tags(id, tags)' % what, lambda ex, ir, st=setter: st(ex, ir, name='copy'), ['copy_%s_tags' % what, 'copy_map_tags', 'copy_tags', 'get_map'])

        def getter(ex, ir, what=what, m=m):
            s = S(ex, ir)
            ex.spec = s
            f = fn(ir, '%s_tags' % what, 1)
            q = ex.sym(ir.find_type(r'^unsigned long$')[0], 'id')
            has, l = s.lst(m, q)
            mark(ex, f['q'])
            for kd, r in outcomes(ex, call(ex, f, s.lv, [q])):
                r = ex.load(r)
                ex.oblige('the tags of the id, none if it has none', And(z3.BoolVal(kd != 'throw'), r.len == z3.If(has, l.len, 0), fa(k_, z3.Implies(z3.And(k_ >= 0, k_ < r.len), z3.Select(r.arr, k_) == z3.Select(l.arr, k_)), None)), None, 'post', assume=False)
        unit('%s_tags(id)' % what, getter, ['%s_tags' % what, 'map_tags', 'get_map'])

        def clone(ex, ir, what=what, m=m):
            s = S(ex, ir)
            o = S(ex, ir, 'o')
            ex.spec = s
            s.assume_inv()
            o.assume_inv()
            f = fn(ir, 'clone_%s_tags' % what, 2)
            q = ex.sym(ir.find_type(r'^unsigned long$')[0], 'id')
            had2, l2 = o.lst(m, q)
            x = z3.Select(l2.arr, k_)
            # the other helper only lists tags it knows
            ex.assume(Implies(had2, And(l2.len >= 0, l2.len < 2 ** 60, fa(k_, z3.Implies(z3.And(k_ >= 0, k_ < l2.len), o.known(x)), [x]))))
            old, oo = s.state(), o.state()
            ex.before = old
            ex.want = lambda k: o.text(z3.Select(l2.arr, k), oo)
            ex.idt = [ex.read(s.at['_empty_tags']).el]
            numbers(ex, s)
            mark(ex, f['q'])
            for kd, r in outcomes(ex, call(ex, f, s.lv, [q, o.lv])):
                ex.oblige('clone does not throw', z3.BoolVal(kd != 'throw'), None, 'post', assume=False)
                if kd == 'throw':
                    continue
                s.oblige_inv()
                ex.oblige('known tags keep number, key and value', s.keeps(old), None, 'post', assume=False)

                def spec(had, ol, has, nl):
                    same = lambda x, y: And(x.len == y.len, fa(k_, z3.Implies(z3.And(k_ >= 0, k_ < y.len), z3.Select(x.arr, k_) == z3.Select(y.arr, k_)), None))
                    y = z3.Select(nl.arr, k_)
                    a, b = s.text(y)
                    c, d = ex.want(k_)
                    cl = fa(k_, z3.Implies(z3.And(k_ >= 0, k_ < nl.len), z3.And(s.known(y), a == c, b == d)), [y])
                    return [('an id with tags keeps them', Implies(had, And(has, same(nl, ol)))),
                            ('an id without tags gets as many', Implies(And(Not(had), had2, l2.len > 0), And(has, nl.len == l2.len))),
                            ('the same keys and values in the same order', Implies(And(Not(had), had2, l2.len > 0), cl)),
                            ('no tags leave none', Implies(And(Not(had), Or(Not(had2), l2.len == 0)), Not(has)))]
                listed(ex, s, m, q, old, spec, 'clone')
                ex.oblige('the other helper is left alone', z3.BoolVal(all(o.rd(x).val.eq(oo[x].val) and o.rd(x).dom.eq(oo[x].dom) for x in MAPS[:8])), None, 'post', assume=False)
        unit('clone_%s_tags(id, other)' % what, clone, ['clone_%s_tags' % what, 'clone_map_tags', 'clone_tags', 'tag'])

    def merge(ex, ir):
        s = S(ex, ir)
        ex.spec = s
        f = fn(ir, 'merge_edge_tags', 2)
        U = ir.find_type(r'^unsigned long$')[0]
        q, p = ex.sym(U, 'id'), ex.sym(U, 'other_id')
        old = s.state()
        m = '_edges_map'
        had2, l2 = s.lst(m, p, old)
        had1, l1 = s.lst(m, q, old)
        for l in (l1, l2):
            ex.assume(And(l.len >= 0, l.len < 2 ** 60))
        mark(ex, f['q'])
        for kd, r in outcomes(ex, call(ex, f, s.lv, [q, ex.temp(p, 'p', U)])):
            ex.oblige('merge does not throw', z3.BoolVal(kd != 'throw'), None, 'post', assume=False)

            def spec(had, ol, has, nl):
                same = lambda x, y: And(x.len == y.len, fa(k_, z3.Implies(z3.And(k_ >= 0, k_ < y.len), z3.Select(x.arr, k_) == z3.Select(y.arr, k_)), None))
                x = z3.Select(nl.arr, k_)
                within = lambda l, t: z3.Exists([j_], z3.And(j_ >= 0, j_ < l.len, z3.Select(l.arr, j_) == t))
                both = And(had, had2, q != p)
                y = z3.Select(l2.arr, i_)
                return [('nothing to merge changes nothing', Implies(Or(q == p, Not(had2)), And(has == had, Implies(had, same(nl, ol))))),
                        ('an id without tags gets those of the other', Implies(And(Not(had), had2, q != p), And(has, same(nl, l2)))),
                        ('the tags it had stay first', Implies(both, And(has, nl.len >= ol.len, fa(k_, z3.Implies(z3.And(k_ >= 0, k_ < ol.len), x == z3.Select(ol.arr, k_)), None)))),
                        ('what is added are tags of the other it had not', Implies(both, fa(k_, z3.Implies(z3.And(k_ >= ol.len, k_ < nl.len), z3.And(within(l2, x), Not(within(ol, x)))), None))),
                        ('no tag of the other is missing', Implies(both, fa(i_, z3.Implies(z3.And(i_ >= 0, i_ < l2.len), within(nl, y)), None)))]
            listed(ex, s, m, q, old, spec, 'merge')
            ex.oblige('tags are left alone', z3.BoolVal(all(s.rd(x).val.eq(old[x].val) for x in MAPS[:6])), None, 'post', assume=False)
    unit('merge_edge_tags(id, other id)', merge, ['merge_edge_tags', 'merge_map_tags', 'copy_tags'])
    return us


HARNESS = dict(src='T01.cpp', repo_src=['src/library/src/util/compiler.cpp'], flags=['-fsanitize=address,undefined', '-fno-sanitize-recover=all'], time=12, cases=200000, rule='random histories of numbering, setting, copying, cloning from another helper, merging, setting from OSM tags, moving and finalizing, allocation failing now and then while a tag is numbered, on helpers in memory and in a memory mapped file against plain lists, every number and every id asked afterwards, under sanitizers; non-trivial: at least three tags; distinct history')
ASSUMPTIONS = ['the string of the storage has the characters of the string given (strings hold no zero characters); strings have value semantics', 'a failed allocation throws before a map changes (strong guarantee of emplace)', 'maps behave as finite maps, std::find and std::remove_copy_if as the standard says; fewer than 2^60 keys, values and tags', 'clone: the other helper lists only numbers it knows; id(key, value) behaves as proved for it (its contract)']
BOUNDED = ['tags from an OSM tag list, moving helpers, helpers in memory mapped files: harness only', 'growing and reopening memory mapped files: not covered (boost 1.83 of this sandbox cannot map unordered_flat_map at another address)']
