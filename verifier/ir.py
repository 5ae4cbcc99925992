"""Loader and helpers for the JSON IR written by extract/cxx2ir."""
import json, re


class IR:
    def __init__(self, path):
        d = json.load(open(path))
        self.types = d['types']
        self.fns = d['fns']
        self.roots = d['roots']
        self.errors = d['errors']
        self.byq = {}
        for f in self.fns:
            self.byq.setdefault(f['q'], []).append(f)
        self._bys = {t['s']: i for i, t in enumerate(self.types)}

    def T(self, tid):
        return self.types[tid]

    def tname(self, tid):
        return self.types[tid]['s']

    def deref(self, tid):
        t = self.types[tid]
        return t['to'] if t['k'] in ('lref', 'rref') else tid

    def isref(self, tid):
        return self.types[tid]['k'] in ('lref', 'rref')

    def find(self, q, sig=None, rec=None, pred=None):
        """Functions by qualified name; sig: regex over the comma-joined parameter types; rec: regex on the record."""
        out = []
        for f in self.byq.get(q, []):
            if 'body' not in f and 'inits' not in f:
                continue
            if sig is not None and not re.search(sig, self.sig(f)):
                continue
            if rec is not None and not re.search(rec, self.types[f['rec']]['s'] if 'rec' in f else ''):
                continue
            if pred is not None and not pred(f):
                continue
            out.append(f)
        return out

    def sig(self, f):
        return ', '.join(self.types[p['t']]['s'] for p in f['p'])

    def short(self, tid):
        """Type name without template arguments and namespaces, e.g. 'const rich_line &'."""
        s = self.types[tid]['s']
        out, d = '', 0
        for c in s:
            if c == '<':
                d += 1
            elif c == '>':
                d -= 1
            elif d == 0:
                out += c
        return re.sub(r'[\w]+::', '', out).replace(' &', '&').replace(' *', '*')

    def ssig(self, f):
        return ', '.join(self.short(p['t']) for p in f['p'])

    def sel(self, q, ssig=None, rec=None):
        """The unique function with this name and short signature."""
        fs = self.find(q, rec=rec, pred=None if ssig is None else (lambda f: self.ssig(f) == ssig))
        if len(fs) != 1:
            from values import Undecided
            raise Undecided('expected one function %s(%s), found %d' % (q, ssig, len(fs)))
        return fs[0]

    def typeid(self, s):
        return self._bys[s]

    def find_type(self, rx):
        return [i for i, t in enumerate(self.types) if re.search(rx, t['s'])]


def loc(n):
    l = n.get('l', '') if isinstance(n, dict) else ''
    return l.replace('/repo/', '')


def show(n, ir=None, ind=0):
    """Readable rendering of an IR node, for reports and debugging."""
    p = '  ' * ind
    if n is None:
        return ''
    k = n['k']
    s = lambda x: show(x, ir, ind)
    if k == 'block':
        return p + '{\n' + ''.join(show(x, ir, ind + 1) for x in n['b'] if x) + p + '}\n'
    if k == 'decl':
        return p + '; '.join('%s %s = %s' % (ir.tname(v['t'])[-40:] if ir else '', v['n'], s(v.get('e')) if v.get('e') else '') for v in n['d']) + '\n'
    if k == 'if':
        return p + 'if (' + s(n['c']) + ')\n' + show(n['t'], ir, ind + 1) + (p + 'else\n' + show(n['e'], ir, ind + 1) if n.get('e') else '')
    if k in ('while', 'do'):
        return p + k + ' (' + s(n['c']) + ')\n' + show(n['b'], ir, ind + 1)
    if k == 'for':
        return p + 'for (' + (s(n['i']).strip() if n.get('i') else '') + '; ' + (s(n['c']) if n.get('c') else '') + '; ' + (s(n['n']) if n.get('n') else '') + ')\n' + show(n['b'], ir, ind + 1)
    if k == 'rfor':
        return p + 'for (' + s(n['v']).strip() + ' : ' + s(n['r']).strip() + ')\n' + show(n['b'], ir, ind + 1)
    if k == 'ret':
        return p + 'return ' + (s(n['e']) if n.get('e') else '') + '\n'
    if k == 'expr':
        return p + s(n['e']) + '\n'
    if k in ('brk', 'cont'):
        return p + k + '\n'
    if k == 'null':
        return p + ';\n' if 't' not in n else 'nullptr'
    if k in ('int', 'flt'):
        return n['v']
    if k == 'str':
        return repr(n['v'])
    if k == 'ref':
        return n['n']
    if k == 'fnref':
        return ir.fns[n['fn']]['q'] if ir else 'fn'
    if k == 'mem':
        return s(n['b']) + '.' + n['n']
    if k == 'idx':
        return s(n['b']) + '[' + s(n['i']) + ']'
    if k == 'un':
        return '(' + (s(n['e']) + n['op'] if n.get('post') else n['op'] + s(n['e'])) + ')'
    if k == 'bin':
        return '(' + s(n['a']) + ' ' + n['op'] + ' ' + s(n['b']) + ')'
    if k == 'cas':
        return '(' + s(n['a']) + ' ' + n['op'] + '= ' + s(n['b']) + ')'
    if k == 'cond':
        return '(' + s(n['c']) + ' ? ' + s(n['a']) + ' : ' + s(n['b']) + ')'
    if k == 'cast':
        return s(n['e']) if n['ck'] in ('LValueToRValue', 'NoOp', 'FunctionToPointerDecay') else n['ck'] + '<' + s(n['e']) + '>'
    if k in ('mcall',):
        return s(n['o']) + '.' + (ir.fns[n['fn']]['q'].split('::')[-1] if ir and 'fn' in n else '?') + '(' + ', '.join(s(x) for x in n['a']) + ')'
    if k in ('ocall', 'call', 'ctor'):
        return (ir.fns[n['fn']]['q'] if ir and 'fn' in n else '?') + ('' if k != 'ctor' else '!') + '(' + ', '.join(s(x) for x in n['a']) + ')'
    if k in ('mat', 'stdil'):
        return s(n['e'])
    if k == 'this':
        return 'this'
    if k == 'throw':
        return 'throw ' + (s(n['e']) if n.get('e') else '')
    if k == 'lambda':
        return '[lambda]'
    if k == 'ilist':
        return '{' + ', '.join(s(x) for x in n['a']) + '}'
    if k == 'try':
        return p + 'try\n' + show(n['b'], ir, ind + 1)
    return p + '<' + k + '>'


if __name__ == '__main__':
    import sys
    ir = IR(sys.argv[1])
    for f in ir.fns:
        if re.search(sys.argv[2], f['q']) and ('body' in f):
            print('//', f['id'], f['q'], '(' + ir.sig(f) + ')', ir.tname(f['rec']) if 'rec' in f else '', f.get('loc'))
            for i in f.get('inits', []):
                print('   :', i.get('m') or i.get('b'), show(i['e'], ir))
            print(show(f['body'], ir))
