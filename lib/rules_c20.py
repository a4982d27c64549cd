"""C20: start systems have exactly the advertised start points."""
import itertools, cmath
from flow import *
from facts import walk
from rules_c16 import Flow16
from denote import _Throw
GROUPS = ['algorithms', 'core']
TECHNIQUE = 'abstract interpretation of the start systems: counting, index decoding and the partition search by constant propagation over all small degree patterns, start points and start functions as terms evaluated at sample points, constructors over path shapes'
NOTE = 'degree patterns up to three functions (degrees up to three) and up to three variable groups; that the random coefficients are generic is probabilistic'
S = 'bertini::start_system::'

def fold(t):
    if isinstance(t, tuple) and len(t) == 3 and t[0] in ('+', '-', '*', '/', 'quot', '%') and t[1][:1] == ('int',) and t[2][:1] == ('int',):
        a, b = t[1][1], t[2][1]
        if t[0] == '/': return t
        if t[0] in ('quot', '%') and b == 0: raise Undecided('division by zero')
        return ('int', {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, 'quot': lambda: int(a / b) if a * b < 0 else a // b, '%': lambda: a % b}[t[0]]())
    if isinstance(t, tuple) and len(t) == 4 and t[0] == 'cmp' and t[2][:1] == ('int',) and t[3][:1] == ('int',):
        a, b = t[2][1], t[3][1]
        return ('bool', {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b, '==': a == b, '!=': a != b}[t[1]])
    if isinstance(t, tuple) and len(t) == 2 and t[0] == 'neg' and t[1][:1] == ('int',): return ('int', -t[1][1])
    return t
def integral(t): return bool(t) and t.replace('const ', '').replace('&', '').strip() in ('int', 'unsigned int', 'long', 'unsigned long', 'long long', 'unsigned long long', 'short', 'unsigned short')
WIDTH = {'int': (32, True), 'unsigned int': (32, False), 'short': (16, True), 'unsigned short': (16, False), 'long': (64, True), 'unsigned long': (64, False), 'unsigned long long': (64, False), 'long long': (64, True), 'char': (8, True), 'unsigned char': (8, False)}
class Flow20(Flow16):
    """constant propagation through small containers"""
    sizes = {}
    def binop(self, e):
        if e['op'] == '[]' and len(e['a']) == 2 or e['op'] == '()' and len(e['a']) == 2:
            try: l = self.lval(e['a'][0])
            except Undecided: l = None
            if l is not None and self.lst(l) is not None: return self.index(self.lst(l), self.val(e['a'][1]))
        if e['op'] in ('/=', '%=') and len(e['a']) == 2 and integral(e['a'][0].get('t')):
            l = self.lval(e['a'][0]); a, b = self.read(l), self.val(e['a'][1])
            if a[0] == b[0] == 'int': v = fold(('quot' if e['op'] == '/=' else '%', a, b)); self.write(l, v); return v
        if e['op'] == '()' and len(e['a']) == 3:
            l = self.lval(e); 
            if l[0] == 'el' and l[1][0] == 'el':
                r = self.lst(l[1])
                if r is not None: return self.index(r, l[2])
        v = super().binop(e)
        if v[0] == '/' and len(v) == 3 and integral(e.get('t')): v = ('quot',) + v[1:]
        if v[0] in ('+', '-') and len(v) == 3:
            a, b = v[1], v[2]
            if a[0] == b[0] == 'it' and a[1] == b[1] and v[0] == '-': return fold(('-', a[2], b[2]))
            if a[0] == 'rit' and b[0] == 'int': return ('rit', a[1], fold((v[0], a[2], b)))
            if a[0] == 'it' and b[0] == 'int': return ('it', a[1], fold((v[0], a[2], b)))
        if v[0] == 'cmp' and v[1] in ('==', '!=') and v[2][0] == v[3][0] == 'var': return ('bool', (v[2] == v[3]) == (v[1] == '=='))
        if v[0] == 'cmp' and v[1] in ('==', '!=') and concrete(v[2]) and concrete(v[3]) and v[2][0] == v[3][0] == 'list': return ('bool', (v[2] == v[3]) == (v[1] == '=='))
        if v[0] == '*' and len(v) == 3:
            for a, b in ((v[1], v[2]), (v[2], v[1])):
                if a[0] == 'int' and b[0] == 'list': return ('list',) + tuple(fold(('*', a, x)) for x in b[1:])
        return fold(v)
    def types(self):
        F = self.F
        if not hasattr(F, '_types20'):
            F._types20 = {}
            for q, fs in F.fns.items():
                for f in fs if isinstance(fs, list) else [fs]:
                    if '/start/' not in f['file']: continue
                    t = F._types20.setdefault(f['id'], {})
                    for p in f['params']: t[p['id']] = (p['t'] or '').replace('const ', '').strip()
                    for e in walk(f['body']) if f.get('body') else ():
                        if e.get('k') == 'var' and e.get('id') is not None: t[e['id']] = (e.get('t') or '').replace('const ', '').strip()
        return F._types20.get((getattr(self, 'stack', None) or (None,))[-1], {})
    def index(self, b, i):
        if b[0] == 'list' and i[0] == 'int' and not 0 <= i[1] < len(b) - 1: self.fault('an element past the end is used'); return ('sym', 'past')
        return super().index(b, i)
    def write(self, loc, v):
        v = fold(v) if isinstance(v, tuple) else v
        if loc[0] == 'v' and loc[1] == self.frame and v[:1] == ('int',):
            w = WIDTH.get(self.types().get(loc[2]))
            if w: v = ('int', v[1] % (1 << w[0]) if not w[1] else (v[1] + (1 << w[0] - 1)) % (1 << w[0]) - (1 << w[0] - 1))
        if loc[0] == 'el' and isinstance(loc[2], tuple) and loc[2][0] == 'int':
            c = self.lst(loc[1])
            if c is not None:
                i = loc[2][1]
                if not 0 <= i < len(c) - 1: self.fault('an element past the end is written'); return
                return super().write(loc[1], c[:1 + i] + (v,) + c[2 + i:])
        super().write(loc, v)
    def val(self, e):
        k = e['k']
        if k == 'cast' and len(e['a']) == 1 and e.get('t') and 'int' in e['t'] + ' ':
            v = self.val(e['a'][0])
            return v
        if k == 'ctor' and ((e.get('t') or '').startswith(('std::vector<', 'const std::vector<', 'std::deque<')) or (e.get('t') or '').replace('const ', '').startswith('Eigen::Matrix<')):
            A = [a for a in e['a'] if a['k'] not in ('null', 'defarg')]
            if 'vector' in e['t'] and len(A) > 1 and ('allocator' in (A[-1].get('t') or '') or len(A) == 3 and 'allocator' in e['t'] or A[-1]['k'] in ('ctor', 'tmp', 'init', 'ilist') and not A[-1].get('a')): A = A[:-1]
            if len(A) in (1, 2):
                v = [self.val(a) for a in A]
                if v[0][0] == 'list' and len(v) == 1: return v[0]
                if len(v) == 2 and 'Eigen' in e['t'] and v[0][0] == v[1][0] == 'int' and v[0][1] < 50 and v[1][1] < 50: return ('list',) + (('list',) + (('sym', 'unset'),) * v[1][1],) * v[0][1]
                if v[0][0] == 'int' and 0 <= v[0][1] < 50 and not ('Eigen' in e['t'] and len(v) == 2): return ('list',) + ((v[1] if len(v) == 2 and v[1][0] == 'int' else ('int', 0) if 'vector' in e['t'] else ('sym', 'unset')),) * v[0][1]
            if not A: return ('list',)
        return super().val(e)
    def lval(self, e):
        if e['k'] == 'call' and e.get('n') in ('back', 'front') and e.get('o') is not None:
            l = self.lval(e['o']); c = self.lst(l)
            if c is not None: return ('el', l, ('int', len(c) - 2 if e['n'] == 'back' else 0))
        if e['k'] == 'call' and e.get('n') in ('row', 'at') and e.get('o') is not None and len(e.get('a') or []) == 1:
            l = self.lval(e['o'])
            if self.lst(l) is not None:
                i = self.val(e['a'][0])
                if e['n'] == 'at' and i[0] == 'int' and not 0 <= i[1] < len(self.lst(l)) - 1: raise _Throw()
                return ('el', l, i)
        if e['k'] == 'op' and e['op'] == '()' and len(e['a']) == 3:
            l = self.lval(e['a'][0]); c = self.lst(l)
            if c is not None:
                i, j = self.val(e['a'][1]), self.val(e['a'][2])
                return ('el', ('el', l, i), j)
        if e['k'] == 'op' and e['op'] in ('()', '[]') and len(e['a']) == 2:
            l = self.lval(e['a'][0])
            if self.lst(l) is not None:
                i = self.val(e['a'][1])
                if i[0] == 'int' and not 0 <= i[1] < len(self.lst(l)) - 1: self.fault('an element past the end is used')
                return ('el', l, i)
        return super().lval(e)
    def call(self, e):
        n = e.get('n') or ''; A = e.get('a') or []; o = e.get('o')
        if n in ('Zero', 'Ones', 'Constant') and o is None and A:
            v = [self.val(a) for a in A]
            if n == 'Zero' and len(v) == 2 and v[0][0] == v[1][0] == 'int': return ('list',) + (('list',) + (('int', 0),) * v[1][1],) * v[0][1]
            if v[0][0] == 'int' and (n != 'Constant' or len(v) == 2) and len(v) < 3 and not (n != 'Constant' and len(v) == 2): return ('list',) + (v[1] if n == 'Constant' else ('int', int(n == 'Ones')),) * v[0][1]
        if o is not None and n in ('back', 'front', 'at'):
            try: l = self.lval(o)
            except Undecided: l = None
            c = self.lst(l) if l is not None else None
            if c is not None:
                if n == 'at':
                    i = self.val(A[0])
                    if i[0] == 'int': 
                        if not 0 <= i[1] < len(c) - 1: raise _Throw()
                        return c[1 + i[1]]
                elif len(c) > 1: return c[-1] if n == 'back' else c[1]
        if o is not None and n in ('rows', 'cols'):
            try: l = self.lval(o)
            except Undecided: l = None
            d = self.sizes.get(l)
            if d: return ('int', d[n == 'cols'])
            c = self.lst(l) if l is not None else None
            if c is not None and n == 'rows': return ('int', len(c) - 1)
            if c is not None and n == 'cols' and len(c) > 1 and c[1][0] == 'list': return ('int', len(c[1]) - 1)
        if n in self.consts and not (o is not None and n in ('size',)):
            c = self.consts[n]
            if not callable(c): return c
            r = c(self, [self.val(a) for a in A], self.val(o) if o is not None and o['k'] != 'this' else None, e)
            if r is not None: return r
        if n in ('Precision', 'precision') and (len(A) == 2 or o is not None and len(A) == 1): return ('none',)
        if n == 'setZero' and o is not None and not A:
            l = self.lval(o); c = self.lst(l)
            if c is not None: self.write(l, ('list',) + tuple(('list',) + (('int', 0),) * (len(x) - 1) if x[0] == 'list' else ('int', 0) for x in c[1:])); return ('none',)
        if n in ('transpose', 'row', 'eval') and o is not None:
            v = self.val(o)
            if v[0] == 'list' and (n != 'row'): return v
            if v[0] == 'list': return self.index(v, self.val(A[0]))
        if (e.get('f') or '').startswith('std::') and o is None and A:
            r = self.algorithm(n, A)
            if r is not None: return r
        if (e.get('f') or '').startswith('std::') and o is None and n in ('sort', 'stable_sort', 'reverse', 'rotate', 'shuffle', 'random_shuffle', 'partial_sort', 'next_permutation', 'prev_permutation', 'iota', 'swap_ranges', 'transform', 'unique', 'remove'):
            v = [self.val(a) for a in A]
            if n == 'rotate' and len(v) == 3 and all(x[0] == 'rit' and x[2][0] == 'int' for x in v) and len({x[1] for x in v}) == 1:
                l = v[0][1][1]; c = self.lst(l)
                if c is None or v[0][2][1] != 0 or v[2][2][1] != len(c) - 1: raise Lost(n)
                m = list(c[:0:-1]); k = v[1][2][1]; m = m[k:] + m[:k]
                self.write(l, ('list',) + tuple(reversed(m))); return ('none',)
            r = self.rng(v[0], v[-1] if n == 'rotate' else v[1]) if len(v) > 1 else None
            if not r or n not in ('sort', 'stable_sort', 'reverse', 'rotate') or n != 'rotate' and len(v) != 2 or not concrete(r[1]) and n.endswith('sort'): raise Lost(n)
            l, c, i, j = r; m = list(c[1 + i:1 + j])
            if n.endswith('sort'): m.sort(key=lambda x: x[1])
            elif n == 'reverse': m.reverse()
            else:
                if v[1][0] != 'it' or v[1][2][0] != 'int': raise Lost(n)
                k = v[1][2][1] - i; m = m[k:] + m[:k]
            self.write(l, c[:1 + i] + tuple(m) + c[1 + j:]); return ('none',)
        if (e.get('f') or '').startswith('std::') and n in ('max', 'min') and len(A) == 2:
            a, b = self.val(A[0]), self.val(A[1])
            if a[0] == b[0] == 'int': return ('int', (max if n == 'max' else min)(a[1], b[1]))
        if n in ('rbegin', 'rend', 'crbegin', 'crend') and (o is not None or len(A) == 1):
            l = self.lval(o if o is not None else A[0]); c = self.lst(l)
            if c is not None: return ('rit', ('loc', l), ('int', 0 if 'begin' in n else len(c) - 1))
        if n in ('insert', 'emplace') and o is not None and len(A) == 2:
            l = self.lval(o); c = self.lst(l); p = self.val(A[0])
            if c is not None and p[0] == 'it' and p[2][0] == 'int' and p[1] == ('loc', l): i = p[2][1]; self.write(l, c[:1 + i] + (self.val(A[1]),) + c[1 + i:]); return ('none',)
        if n in ('insert',) and o is not None and len(A) == 3:
            l = self.lval(o); c = self.lst(l); p, a, b = (self.val(x) for x in A); r = self.rng(a, b)
            if c is not None and r and p[0] == 'it' and p[2][0] == 'int' and p[1] == ('loc', l):
                i = p[2][1]; self.write(l, c[:1 + i] + r[1][1 + r[2]:1 + r[3]] + c[1 + i:]); return ('none',)
        if n in ('solve',) and o is not None and len(A) == 1 and self.sample:
            m, b = self.val(o), self.val(A[0]); r = self.linsolve(m, b)
            if r is not None: return r
        if n.endswith('Lu') or n.endswith('Qr') or n in ('lu', 'ldlt'):
            if o is not None and self.sample and not A: return self.val(o)
        if n in ('resize', 'assign') and o is not None and A:
            try: l = self.lval(o)
            except Undecided: l = None
            v = self.val(A[0])
            if l is not None and v[0] == 'int' and (self.lst(l) is not None or l in self.st.env or l[0] == 'f'):
                c = self.lst(l) or ('list',)
                self.write(l, (c + (('sym', 'unset'),) * v[1])[:1 + v[1]]); return ('none',)
        return super().call(e)
    def algorithm(self, n, A):
        """standard algorithms over concrete ranges"""
        if n == 'back_inserter' and len(A) == 1: return ('bins', self.lval(A[0]))
        if n in ('transform', 'copy', 'copy_if', 'accumulate', 'iota', 'fill', 'max_element', 'min_element', 'generate'):
            v = [self.val(a) for a in A]; r = self.rng(v[0], v[1]) if len(v) > 1 else None
            if not r: raise Lost(n)
            l, c, i, j = r; xs = c[1 + i:1 + j]
            if j > len(c) - 1 or i > j: raise Lost(n)
            if n in ('transform', 'copy', 'copy_if'):
                f = v[-1] if n != 'copy' else None; out = v[-2] if n != 'copy' else v[-1]
                if n == 'transform' and len(v) == 5:
                    if v[2][0] != 'it' or v[2][2][0] != 'int': raise Lost(n)
                    c2 = self.lst(v[2][1][1]) if v[2][1][0] == 'loc' else None; k = v[2][2][1]
                    if c2 is None or k + len(xs) > len(c2) - 1: raise Lost(n)
                    ys = [self.pred(f, [x, y]) for x, y in zip(xs, c2[1 + k:])]
                elif len(v) != (3 if n == 'copy' else 4): raise Lost(n)
                else: ys = [self.pred(f, x) for x in xs] if n == 'transform' else [x for x in xs if n == 'copy' or self.yes(f, x)]
                if out[0] == 'bins':
                    o = self.lst(out[1])
                    if o is None: raise Lost(n)
                    self.write(out[1], o + tuple(ys)); return ('none',)
                if out[0] != 'it' or out[1][0] != 'loc' or out[2][0] != 'int': raise Lost(n)
                o = self.lst(out[1][1]); k = out[2][1]
                if o is None: raise Lost(n)
                if k + len(ys) > len(o) - 1: self.fault('an element past the end is written'); return ('none',)
                self.write(out[1][1], o[:1 + k] + tuple(ys) + o[1 + k + len(ys):]); return ('it', out[1], ('int', k + len(ys)))
            if n == 'accumulate':
                acc = v[2]
                for x in xs:
                    if len(v) == 4: acc = self.pred(v[3], [acc, x])
                    elif acc[0] == x[0] == 'int': acc = ('int', acc[1] + x[1])
                    else: raise Lost(n)
                return acc
            if n in ('iota', 'fill'):
                if n == 'iota' and v[2][0] != 'int': raise Lost(n)
                self.write(l, c[:1 + i] + tuple(('int', v[2][1] + k) if n == 'iota' else v[2] for k in range(len(xs))) + c[1 + j:]); return ('none',)
            if n in ('max_element', 'min_element') and len(v) == 2 and xs and all(x[0] == 'int' for x in xs):
                b = (max if n[:3] == 'max' else min)(x[1] for x in xs)
                return ('it', ('loc', l), ('int', i + [x[1] for x in xs].index(b)))
            if not xs and n.endswith('element'): return v[1]
            raise Lost(n)
        if n in ('distance', 'next', 'prev') and A:
            v = [self.val(a) for a in A]
            if n == 'distance' and v[0][0] == v[1][0] == 'it' and v[0][1] == v[1][1]: return fold(('-', v[1][2], v[0][2]))
            if n != 'distance' and v[0][0] == 'it' and v[0][2][0] == 'int':
                k = v[1] if len(v) > 1 else ('int', 1)
                if k[0] == 'int': return ('it', v[0][1], ('int', v[0][2][1] + (k[1] if n == 'next' else -k[1])))
        if n in ('sort', 'find', 'for_each', 'stable_sort', 'reverse', 'rotate', 'begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend', 'crbegin', 'crend', 'move', 'forward', 'size', 'get', 'max', 'min', 'advance', 'swap', 'iter_swap', 'find_if', 'find_if_not', 'any_of', 'none_of', 'all_of', 'count_if', 'remove_if', 'remove', 'count', 'addressof', '__addressof', 'ref', 'cref', 'distance', 'next', 'prev'): return None
        if len(A) > 1:
            v = self.val(A[0])
            if v[:1] in (('it',), ('rit',)): raise Lost(n)
        return None
    consts = {}
    sample = None
    def linsolve(self, m, b):
        if m[0] != 'list' or b[0] != 'list' or any(r[0] != 'list' for r in m[1:]): return None
        n = len(m) - 1
        if any(x == ('sym', 'unset') for r in m[1:] + (b,) for x in r[1:]): self.fault('the linear system for the point has entries which were never set'); return ('sym', 'past')
        if n != len(b) - 1 or any(len(r) - 1 != n for r in m[1:]): self.fault('a linear system which is not square is solved'); return ('sym', 'past')
        M = [[value(x, self.sample) for x in r[1:]] + [value(y, self.sample)] for r, y in zip(m[1:], b[1:])]
        if any(x is None or isinstance(x, list) for r in M for x in r): return None
        for i in range(n):
            k = max(range(i, n), key=lambda k: abs(M[k][i]))
            if abs(M[k][i]) < 1e-12: self.fault('the linear system for the point is singular'); return ('sym', 'past')
            M[i], M[k] = M[k], M[i]
            M[i] = [x / M[i][i] for x in M[i]]
            for k in range(n):
                if k != i: M[k] = [x - M[k][i] * y for x, y in zip(M[k], M[i])]
        return ('list',) + tuple(('cplx', M[i][n]) for i in range(n))
def concrete(t): return t[0] == 'int' or t[0] == 'list' and all(concrete(x) for x in t[1:])
def mk(F, P, consts=None, sizes=None, opq=(), unroll=60):
    d = Flow20(F, P, opaque=set(opq)); d.unroll = unroll; d.consts = consts or {}; d.sizes = sizes or {}; return d
def ilist(xs): return ('list',) + tuple(('int', x) for x in xs)
def name(f): return f['q'].replace('bertini::', '') + f"/{len(f['params'])}"
MH = [([[1, 2], [3, 0]], [(1, 0)]), ([[2, 1], [1, 1]], [(0, 1), (1, 0)]), ([[1, 1], [1, 1], [2, 3]], [(0, 0, 1), (0, 1, 0), (1, 0, 0)]), ([[3]], [(0,)])]
BIG = ([[70000, 3], [2, 70000]], [(0, 1), (1, 0)])
DT = 'std::deque<Eigen::Matrix<std::complex<double>, -1, 1>>'
MT = 'std::deque<Eigen::Matrix<boost::multiprecision::number<boost::multiprecision::backends::mpc_complex_backend<0>>, -1, 1>>'
def mat(rows): return ('list',) + tuple(ilist(r) for r in rows)
def group(ns): return ('list',) + tuple(('var', x) for x in ns)
def groups(gs): return ('list',) + tuple(group(g) for g in gs)
def faults(p): return [e.q for e in p.ev if e.n == '$fault']
def known(ps): return all(not p.facts for p in ps)
def num(t, p=None):
    """value of a term over sample values; every unknown stays unknown"""
    ev = {e.i: e for e in p.ev} if p else {}
    def leaf(x):
        if x[0] == 'cplx': return x[1]
        if x == ('I',): return 1j
        if x[0] == 'q': return float(x[1])
        if x[0] == 'r' and len(x) == 3 and isinstance(x[2], int) and x[2] in ev and ev[x[2]].obj is None: return value(('r', x[1]) + tuple(ev[x[2]].args), leaf)
    return value(t, leaf)
class Case:
    """runs of one function over many concrete inputs; an instance is skipped when any run of it is not decided"""
    def __init__(s, R, rid, fn, F): s.R, s.rid, s.fn, s.F, s.bad, s.why, s.n = R, rid, fn, F, None, None, 0
    def run(s, d, args, env, what, judge):
        s.n += 1
        try: ps = d.run(s.fn, args, st=St(env=dict(env)))
        except Undecided as e: s.why = s.why or f'{what}: {e}'; return None
        if ps and all(faults(p) for p in ps): s.bad = s.bad or (f'{what}: {faults(ps[0])[0]}', ps[0]); return None
        if len(ps) != 1 or ps[0].kind not in ('ret', 'fall', 'throw') or not known(ps) and len(ps) != 1:
            s.why = s.why or f'{what}: the run depends on what is not known'; return None
        p = ps[0]
        r = faults(p)[0] if faults(p) else judge(p)
        if r == 'unknown' and p.ret and any(x == ('sym', 'unset') for t in [p.ret] + [a for e in p.ev if e.n == 'RescalePointToFitPatchInPlace' for a in e.args if isinstance(a, tuple)] if t[0] == 'list' for x in t[1:]): r = 'an entry of the result is never set'
        if r == 'unknown': s.why = s.why or f'{what}: a value is not understood'
        elif r: s.bad = s.bad or (f'{what}: {r}', p)
        return p
    def done(s, inst=None):
        inst = inst or name(s.fn)
        if s.bad: s.R.bad(s.rid, inst, s.F.loc(s.fn), s.bad[0], [])
        elif s.why: s.R.skip(s.rid, inst, s.why)
        else: s.R.ok(s.rid, f'{inst}: {s.n} inputs')
def refused(p): return None if p.kind == 'throw' else 'the index lies beyond the start points, and is not refused'

def check(F, P, R):
    import sys
    quick = sys.argv[-1] != 'thorough'
    T, M, U = S + 'TotalDegree::', S + 'MHomogeneous::', S + 'User::'
    from fractions import Fraction
    # radix
    R.rule('radix', 'the decoding of an index into one position per dimension is a bijection from the indices below the product of the dimensions, and refuses the others', 1)
    for f in F.need('bertini::IndexToSubscript'):
        R.fn(f); c = Case(R, 'radix', f, F)
        for dims in [x for n in (1, 2, 3) for x in itertools.product((1, 2, 3), repeat=n)] + ([(2, 3, 1, 2), (4, 5), (7,), (5, 1, 4)]):
            tot = 1; seen = {}
            for x in dims: tot *= x
            for i in range(tot + 2):
                def judge(p):
                    if i >= tot: return None if p.kind == 'throw' else f'index {i} of {tot} is not refused'
                    if p.kind == 'throw': return f'index {i} of {tot} is refused'
                    r = p.ret
                    if not concrete(r): return 'unknown'
                    if r[0] != 'list' or len(r) - 1 != len(dims): return 'the result does not have one position per dimension'
                    if any(not 0 <= a[1] < b for a, b in zip(r[1:], dims)): return f'index {i}: position {[a[1] for a in r[1:]]} lies outside'
                    if r in seen: return f'indices {seen[r]} and {i} have the same position {[a[1] for a in r[1:]]}'
                    seen[r] = i
                c.run(mk(F, P), [('int', i), ilist(dims)], {}, f'dimensions {list(dims)}', judge)
                if c.bad or c.why: break
            if c.bad or c.why: break
        c.done(name(f) + '<' + ','.join(f.get('ta') or []) + '>')
    # count
    R.rule('count', 'the advertised number of start points is the product of the degrees; the sum over the valid partitions of the product of the chosen degrees; the number of given points', 3)
    f = F.need(T + 'NumStartPoints')[0]; R.fn(f); c = Case(R, 'count', f, F)
    for dg in [x for n in (1, 2, 3) for x in itertools.product((1, 2, 3), repeat=n)] + [(200, 300, 400, 500), (70000, 70000)]:
        w = 1
        for x in dg: w *= x
        c.run(mk(F, P), [], {('f', 'degrees_'): ilist(dg)}, f'degrees {list(dg)}', lambda p: 'unknown' if not p.ret or p.ret[0] != 'int' else None if p.ret[1] == w else f'{p.ret[1]} points are advertised instead of {w}')
    c.done()
    f = F.need(M + 'NumStartPoints')[0]; R.fn(f); c = Case(R, 'count', f, F)
    for D, parts in MH + [BIG]:
        w = 0
        for q in parts:
            k = 1
            for i, j in enumerate(q): k *= D[i][j]
            w += k
        c.run(mk(F, P), [], {('f', 'degree_matrix_'): mat(D), ('f', 'valid_partitions_'): mat(parts)}, f'degrees {D}', lambda p: 'unknown' if not p.ret or p.ret[0] != 'int' else None if p.ret[1] == w else f'{p.ret[1]} points are advertised instead of {w}')
    c.done()
    sd = [[complex(1, 2), complex(3, 4)], [complex(5, 6), complex(7, 8)], [complex(9, 1), complex(2, 2)]]
    cl = lambda rows: ('list',) + tuple(('list',) + tuple(('cplx', x) for x in r) for r in rows)
    def userenv(dbl): return {('f', 'solns_in_dbl_'): ('bool', dbl), ('f', f'solns_<{DT}>'): cl(sd if dbl else []), ('f', f'solns_<{MT}>'): cl([] if dbl else sd)}
    f = F.need(U + 'NumStartPoints')[0]; R.fn(f); c = Case(R, 'count', f, F)
    for dbl in (True, False):
        c.run(mk(F, P), [], userenv(dbl), 'three points given in ' + ('double' if dbl else 'multiple') + ' precision', lambda p: 'unknown' if not p.ret or p.ret[0] != 'int' else None if p.ret[1] == 3 else f'{p.ret[1]} points are advertised instead of 3')
    c.done()
    # user points
    R.rule('user', 'the user start system gives exactly the points it was given, in the order of their indices, in either precision, and refuses other indices', 2)
    for f in F.need(U + 'GenerateStartPoint'):
        R.fn(f); c = Case(R, 'user', f, F)
        for dbl in (True, False):
            for i in range(5):
                def judge(p):
                    if i >= 3: return refused(p)
                    if p.kind == 'throw': return f'point {i} of 3 is refused'
                    v = num(p.ret, p)
                    if not isinstance(v, list): return 'unknown'
                    return None if len(v) == 2 and all(abs(a - b) < 1e-9 for a, b in zip(v, sd[i])) else f'point {i} is {v} instead of {sd[i]}'
                c.run(mk(F, P), [('sym', 'z'), ('int', i)], userenv(dbl), 'points given in ' + ('double' if dbl else 'multiple') + ' precision', judge)
        c.done(name(f) + ' ' + ('dbl' if 'double' in f['params'][0]['t'] else 'mpfr'))
    # total degree points
    R.rule('roots', 'every total degree start point solves each start function (also homogenized, then rescaled to the patch), points of different indices differ, and indices beyond the number of points are refused', 2)
    rv = [complex(.7, .4), complex(-.3, 1.2), complex(-1.5, -.2)]
    for f in F.need(T + 'GenerateStartPoint'):
        R.fn(f); c = Case(R, 'roots', f, F)
        for pat in (False, True):
            for dg in [(1,), (2,), (3,), (1, 2), (2, 3), (3, 2), (2, 2), (3, 1, 2), (2, 2, 3)]:
                n = len(dg); tot = 1; seen = {}
                for x in dg: tot *= x
                for i in range(tot + 1):
                    def judge(p):
                        if i >= tot: return refused(p)
                        if p.kind == 'throw': return f'index {i} of {tot} is refused'
                        t = p.ret
                        ev = [e for e in p.ev if e.n == 'RescalePointToFitPatchInPlace']
                        if ev and not pat: return 'the point is rescaled to a patch though there is none'
                        if pat and not ev: return 'the point is not rescaled to the patch'
                        if pat:
                            if t != list(ev[-1].outs.values())[-1] if ev[-1].outs else False: return 'the point returned is not the rescaled one' if t[0] == 'list' else 'unknown'
                            t = ev[-1].args[0]
                        v = num(t, p)
                        if not isinstance(v, list): return 'unknown'
                        if len(v) != n + pat: return f'the point has {len(v)} coordinates, not {n + pat}'
                        h = v[0] if pat else 1
                        if abs(h) < 1e-9: return 'the homogenizing coordinate is zero'
                        for k in range(n):
                            if abs((v[k + pat] / h) ** dg[k] - rv[k]) > 1e-9: return f'the point of index {i} does not solve start function {k}'
                        key = tuple((round((x / h).real, 6), round((x / h).imag, 6)) for x in v)
                        if key in seen: return f'indices {seen[key]} and {i} give the same point'
                        seen[key] = i
                    cs = {'NumVariables': ('int', n + pat), 'NumNaturalVariables': ('int', n), 'NumNaturalFunctions': ('int', n), 'NumFunctions': ('int', n), 'NumHomVariables': ('int', int(pat)), 'IsPatched': ('bool', pat), 'Eval': lambda d, a, o, e: o}
                    c.run(mk(F, P, consts=cs, opq=('RescalePointToFitPatchInPlace',)), [('sym', 'z'), ('int', i)], {('f', 'degrees_'): ilist(dg), ('f', 'random_values_'): ('list',) + tuple(('cplx', x) for x in rv[:n])}, f'degrees {list(dg)}' + (', patched' if pat else ''), judge)
                    if c.bad or c.why: break
                if c.bad or c.why: break
            if c.bad or c.why: break
        c.done(name(f) + ' ' + ('dbl' if 'double' in f['params'][0]['t'] else 'mpfr'))
    # partitions
    R.rule('partitions', 'the valid partitions of an m-homogeneous system are exactly the assignments of functions to groups of nonzero degree which use each group as often as its dimension, each once', 1)
    f = F.need(M + 'GenerateValidPartitions')[0]; R.fn(f); c = Case(R, 'partitions', f, F)
    def patterns():
        for dims in [(1,), (2,), (1, 1), (1, 2), (2, 1), (1, 1, 1), (3,)]:
            n = sum(dims); g = len(dims)
            all_ = list(itertools.product((0, 1), repeat=n * g))
            step = 1 if len(all_) <= 64 else 7 if quick else 1
            for b in all_[::step] + all_[-1:]: yield dims, [[b[i * g + j] * (1 + (i + j) % 3) for j in range(g)] for i in range(n)]
    for dims, D in patterns():
        n = len(D); g = len(dims)
        for nh, pat in [(0, False)] + ([(1, True)] if D == [[1 + (i + j) % 3 for j in range(g)] for i in range(n)] else []) + ([(1, False), (g, True)] if n == 2 else []):
            want = sorted(a for a in itertools.product(range(g), repeat=n) if all(D[i][x] for i, x in enumerate(a)) and all(a.count(j) == dims[j] for j in range(g)))
            def judge(p):
                if p.kind == 'throw': return 'it throws'
                v = p.st.env.get(('f', 'valid_partitions_'))
                v = d.unpush(v) if v and v[0] in ('pushed', 'list') else None
                if v is None or not concrete(v): return 'unknown'
                got = sorted(tuple(x[1] for x in q[1:]) for q in v[1:])
                if got == want: return
                if len(set(got)) < len(got): return 'a partition is found twice'
                x = [a for a in got if a not in want]
                return f'{list(x[0])} is taken for a valid partition' if x else f'the partition {list([a for a in want if a not in got][0])} is not found'
            k = itertools.count()
            vg = [[f'x{next(k)}' for _ in range(m + (pat and j < nh))] for j, m in enumerate(dims)]
            cs = {'NumNaturalFunctions': ('int', n), 'NumFunctions': ('int', n), 'NumTotalVariableGroups': ('int', g), 'NumHomVariableGroups': ('int', nh), 'NumVariableGroups': ('int', g - nh), 'IsPatched': ('bool', pat), 'VariableGroups': groups(vg[nh:]), 'HomVariableGroups': groups(vg[:nh])}
            d = mk(F, P, consts=cs, unroll=4000)
            c.run(d, [('sym', 'target')], {('f', 'degree_matrix_'): mat(D), ('f', 'var_groups_'): groups(vg), ('f', 'valid_partitions_'): ('list',)}, f'degrees {D}, group sizes {[len(x) for x in vg]}' + (f', patched, {nh} homogeneous' if pat else ''), judge)
            if c.bad or c.why: break
        if c.bad or c.why: break
    c.done()
    # m-homogeneous points
    R.rule('mpoint', 'every m-homogeneous start point makes a linear factor of each start function zero, in the ordering of the variables, points of different indices take different factors, and other indices are refused', 2)
    def co(i, j, k, n, hom): return [cmath.exp(1j * (1 + i * 7 + j * 3 + k * 1.7 + m * m * .9 + i * m * 1.3 + k * m * .7)) * (1 + .3 * m + .1 * i) for m in range(n)] + [0 if hom else cmath.exp(1j * (2 + i * 5 + j + k * 2.1)) * 1.3]
    CF = [([[1, 2], [3, 0]], [(1, 0)], ['x', 'y'], 0, False, ['x', 'y']), ([[2, 1], [1, 1]], [(0, 1), (1, 0)], ['x', 'y'], 0, False, ['y', 'x']), ([[1, 1], [1, 1], [2, 3]], [(0, 0, 1), (0, 1, 0), (1, 0, 0)], ['xw', 'y'], 0, False, ['x', 'w', 'y']),
          ([[3]], [(0,)], ['x'], 0, False, ['x']), ([[2, 1], [1, 1]], [(0, 1), (1, 0)], ['x', 'y'], 0, True, ['h', 'x', 'g', 'y']), ([[2, 1], [1, 2]], [(0, 1), (1, 0)], ['pq', 'x'], 1, True, ['h', 'x', 'p', 'q']), ([[2, 1], [1, 2]], [(0, 1), (1, 0)], ['pq', 'rs'], 2, True, ['p', 'q', 'r', 's']), BIG + (['x', 'y'], 0, False, ['x', 'y'])]
    for f in F.need(M + 'GenerateStartPoint'):
        R.fn(f); c = Case(R, 'mpoint', f, F)
        for D, parts, vg, nh, pat, order in CF:
            n = len(D); seen = {}; tot = 0
            for q in parts:
                w = 1
                for i, j in enumerate(q): w *= D[i][j]
                tot += w
            cols = []; nv = 0
            for g in vg: cols.append(list(range(nv, nv + len(g)))); nv += len(g)
            big = tot > 1000
            C = {} if big else {(i, j, k): co(i, j, k, len(vg[j]), j < nh) for i in range(n) for j in range(len(vg)) for k in range(D[i][j])}
            def getc(d, a, o, e):
                if not a or a[0][0] != 'int' or not o: return None
                if o[0] != 'lp': d.fault('coefficients are taken of a factor which does not exist'); return ('sym', 'past')
                q = (o[1], o[2], a[0][1])
                if big and 0 <= q[2] < D[q[0]][q[1]]: C[q] = co(*q, len(vg[q[1]]), q[1] < nh)
                v = C.get(q)
                if v is None: d.fault('a linear factor beyond the degree is used'); return ('sym', 'past')
                return ('list',) + tuple(('cplx', x) for x in v)
            for i in range(tot + 1) if not big else [0, 1, tot - 7, tot - 6, tot - 5, tot - 1, tot]:
                def judge(p):
                    if i >= tot: return refused(p)
                    if p.kind == 'throw': return f'index {i} of {tot} is refused'
                    t = p.ret
                    ev = [e for e in p.ev if e.n == 'RescalePointToFitPatchInPlace']
                    if ev and not pat: return 'the point is rescaled to a patch though there is none'
                    if pat and not ev: return 'the point is not rescaled to the patch'
                    if pat:
                        if t[0] == 'list': return 'the point returned is not the rescaled one'
                        t = ev[-1].args[0]
                    v = num(t, p)
                    if not isinstance(v, list): return 'unknown'
                    if len(v) != len(order): return f'the point has {len(v)} coordinates, not {len(order)}'
                    at = dict(zip(order, v)); hs = [x for x in order if not any(x in g for g in vg)]
                    key = []
                    for a in range(n):
                        z = []
                        for (ii, j, k), cf in C.items():
                            if ii != a: continue
                            h = at[hs[j - nh]] if hs else 1
                            if abs(sum(u * at[x] for u, x in zip(cf, vg[j])) + cf[-1] * h) < 1e-8: z.append((j, k))
                        if not z: return f'the point of index {i} does not solve start function {a}'
                        key.append(tuple(z))
                    for j, g in enumerate(vg):
                        if j < nh and all(abs(at[x]) < 1e-9 for x in g): return 'the coordinates of a homogeneous group are all zero'
                    if any(abs(at[x]) < 1e-9 for x in hs): return 'a homogenizing coordinate is zero'
                    key = tuple(key)
                    if key in seen: return f'indices {seen[key]} and {i} give the same point'
                    seen[key] = i
                cs = {'NumVariables': ('int', len(order)), 'NumNaturalVariables': ('int', nv), 'NumUngroupedVariables': ('int', 0), 'NumHomVariableGroups': ('int', nh), 'NumHomVariables': ('int', len(order) - nv), 'NumTotalVariableGroups': ('int', len(vg)), 'NumNaturalFunctions': ('int', n), 'IsPatched': ('bool', pat), 'Variables': group(order), 'VariableOrdering': group(order), 'GetCoeffs': getc}
                d = mk(F, P, consts=cs, opq=('RescalePointToFitPatchInPlace',), unroll=400); d.sample = lambda t: t[1] if t[0] == 'cplx' else None
                c.run(d, [('sym', 'z'), ('int', i)], {('f', 'degree_matrix_'): mat(D), ('f', 'valid_partitions_'): mat(parts), ('f', 'variable_cols_'): mat(cols), ('f', 'var_groups_'): groups(vg), ('f', 'linprod_matrix_'): ('list',) + tuple(('list',) + tuple(('lp', a, b) if D[a][b] else ('sym', 'unset') for b in range(len(vg))) for a in range(n))}, f'degrees {D}, variables {" ".join(order)}' + (', patched' if pat else ''), judge)
                if c.bad or c.why: break
            if c.bad or c.why: break
        c.done(name(f) + ' ' + ('dbl' if 'double' in f['params'][0]['t'] else 'mpfr'))
    R.rule('coefficients', 'the coefficients reported for a linear factor are those of that factor in the numbers it is evaluated with', 2)
    for f in F.need('bertini::node::LinearProduct::GetCoeffs'):
        R.fn(f); ct = (f.get('ta') or ['?'])[0]; c = Case(R, 'coefficients', f, F)
        key = ('f', f'coeffs_<Eigen::Matrix<{ct}, -1, -1>>')
        rows = [[complex(1 + 3 * i + j, j) for j in range(3)] for i in range(2)]
        other = [k for k in ('std::complex<double>', MT[len('std::deque<Eigen::Matrix<'):-len(', -1, 1>>')]) if k != ct]
        for k in range(2):
            env = {key: cl(rows), ('f', 'num_variables_'): ('int', 2), ('f', 'num_factors_'): ('int', 2)}
            for o in other: env[('f', f'coeffs_<Eigen::Matrix<{o}, -1, -1>>')] = cl([[x * 7 + 1 for x in r] for r in rows])
            def judge(p):
                if p.kind == 'throw': return 'it throws'
                v = num(p.ret, p)
                if not isinstance(v, list): return 'unknown'
                return None if len(v) == 3 and all(abs(a - b) < 1e-9 for a, b in zip(v, rows[k])) else f'the coefficients of factor {k} are {v} instead of {rows[k]}'
            c.run(mk(F, P), [('int', k)], env, 'two variables', judge)
        c.done(name(f) + ' ' + ('dbl' if 'double' in ct else 'mpfr'))
    # construction
    R.rule('suitable', 'a start system is refused for every target it is not made for (not square, with a path variable, not polynomial; total degree: other than one affine group; m-homogeneous: a group or function of no degree), and made for the others', 2)
    R.rule('functions', 'the start functions are x_i^d_i - r_i with the degrees of the target and the numbers r_i the start points are made of, each from a draw of its own; or the products of the linear factors the start points are solved from, one product for each nonzero degree', 2)
    R.rule('shape', 'a start system has the variables of the target; it is homogenized iff the target is homogeneous, and takes the patches iff the target is patched, after its functions are made', 2)
    base = {'HavePathVariable': ('bool', False), 'IsPolynomial': ('bool', True)}
    OPQ = ('CopyVariableStructure', 'Homogenize', 'CopyPatches', 'AddFunction')
    def one(q): 
        r = [f for f in F.need(q) if len(f['params']) == 1 and 'System' in f['params'][0]['t'] and not f['params'][0]['t'].startswith(q.rsplit('::', 1)[0])]
        return [f for f in r if f.get('body')]
    cnt = [0]
    def rnd(d, a, o, e): cnt[0] += 1; return ('rv', cnt[0])
    def td(dg, hom, pat, **k):
        n = len(dg)
        cs = dict(base, NumVariables=('int', n), NumTotalFunctions=('int', n), NumNaturalFunctions=('int', n), NumFunctions=('int', n), NumNaturalVariables=('int', n), NumVariableGroups=('int', 1), NumHomVariableGroups=('int', 0), NumTotalVariableGroups=('int', 1), NumUngroupedVariables=('int', 0), IsHomogeneous=('bool', hom), IsPatched=('bool', pat), Degrees=ilist(dg), AffineVariableGroup=group([f'x{i}' for i in range(n)]), VariableGroups=groups([[f'x{i}' for i in range(n)]]))
        for q in ('Rand', 'RandReal', 'RandomRat', 'RandomInt', 'RandomRational'): cs[q] = rnd
        if pat: cs['NumTotalFunctions'] = cs['NumVariables'] = ('int', n + 1); cs['NumHomVariables'] = ('int', 1); cs['NumPatches'] = ('int', 1)
        cs.update(k); return cs
    def mh(D, vg, nh, hom, pat, **k):
        n = len(D); g = len(vg); nv = sum(map(len, vg)); pt = g if pat else 0
        by = {x: j for j, gr in enumerate(vg) for x in gr}
        def deg(d, a, o, e):
            if not a: return ilist([sum(r) for r in D])
            if a[0][0] != 'list' or len(a[0]) < 2 or a[0][1][0] != 'var': return None
            return ilist([r[by[a[0][1][1]]] for r in D])
        cs = dict(base, NumVariables=('int', nv + (g - nh if pat else 0)), NumTotalFunctions=('int', n + pt), NumNaturalFunctions=('int', n), NumFunctions=('int', n), NumNaturalVariables=('int', nv), NumVariableGroups=('int', g - nh), NumHomVariableGroups=('int', nh), NumTotalVariableGroups=('int', g), NumUngroupedVariables=('int', 0), IsHomogeneous=('bool', hom), IsPatched=('bool', pat), Degrees=deg, VariableGroups=groups(vg[nh:]), HomVariableGroups=groups(vg[:nh]), NumHomVariables=('int', g - nh if pat else 0), NumPatches=('int', pt))
        def make(d, a, o, e):
            if 'LinearProduct' in (e.get('f') or '') + (e.get('cls') or ''): cnt[0] += 1; return ('lp', cnt[0]) + tuple(a)
        cs['Make'] = make
        cs.update(k); return cs
    ENV = {('f', 'degrees_'): ('list',), ('f', 'random_values_'): ('list',), ('f', 'variable_cols_'): ('list',), ('f', 'valid_partitions_'): ('list',), ('f', 'var_groups_'): ('list',)}
    def shape(p, hom, pat):
        ns = [(e.n) for e in p.ev]
        if 'CopyVariableStructure' not in ns: return 'the variables of the target are not taken over'
        if [e for e in p.ev if e.n in ('CopyVariableStructure', 'CopyPatches') and e.args[:1] != [('sym', 'target')]]: return 'unknown'
        if ('Homogenize' in ns) != hom: return 'the target is ' + ('' if hom else 'not ') + 'homogeneous, the start system ' + ('is not' if hom else 'is homogenized')
        if ('CopyPatches' in ns) != pat: return 'the target is ' + ('' if pat else 'not ') + 'patched, the start system ' + ('is not' if pat else 'takes its patches')
        adds = [i for i, x in enumerate(ns) if x == 'AddFunction']
        if not adds: return 'unknown'
        if hom and ns.index('Homogenize') < adds[-1]: return 'the start system is homogenized before its functions are made'
        if hom and pat and ns.index('CopyPatches') < ns.index('Homogenize'): return 'the patches are taken before the start system is homogenized'
        if hom and ns.index('CopyVariableStructure') > ns.index('Homogenize'): return 'the start system is homogenized before it has variables'
    def deref(t):
        while isinstance(t, tuple) and t[0] == 'opq' and t[1] == 'new': t = t[3]
        return t
    def node(t, leaf):
        """value of a function term at a sample point"""
        t = deref(t)
        v = leaf(t)
        if v is not None: return v
        if t[0] == 'new' and t[1].endswith(('IntegerPowerOperator', 'PowerOperator')) and len(t) >= 4:
            a, b = node(t[2], leaf), node(t[3], leaf); return None if a is None or b is None else complex(a) ** b
        if t[0] == 'new' and t[1].endswith(('Integer', 'Rational', 'Float', 'Function')) and len(t) >= 3: return node(t[2], leaf)
        if t[0] in ('+', '-', '*', '/') and len(t) == 3:
            a, b = node(t[1], leaf), node(t[2], leaf)
            if a is None or b is None or t[0] == '/' and b == 0: return None
            return a + b if t[0] == '+' else a - b if t[0] == '-' else a * b if t[0] == '*' else a / b
        if t[0] == 'int': return t[1]
        if t[0] == 'neg': a = node(t[1], leaf); return None if a is None else -a
        if t[0] == 'pow' and len(t) == 3 or t[0] == 'r' and t[1] == 'pow':
            a, b = [node(x, leaf) for x in t[1:] if x != ('none',) and x != 'pow'][-2:]; return None if a is None or b is None else complex(a) ** b
        return None
    def xval(t): return complex(.8 + .3 * int(t[1][1:]), .5 - .2 * int(t[1][1:]))
    for f in one(T + 'TotalDegree'):
        R.fn(f); a, b, c = Case(R, 'suitable', f, F), Case(R, 'functions', f, F), Case(R, 'shape', f, F)
        def start(cs): return mk(F, P, consts=cs, opq=OPQ, unroll=200)
        bad = [('a homogeneous group', dict(NumHomVariableGroups=('int', 1), NumTotalVariableGroups=('int', 2))), ('fewer functions than variables', dict(NumTotalFunctions=('int', 1), NumNaturalFunctions=('int', 1), NumFunctions=('int', 1))), ('more functions than variables', dict(NumTotalFunctions=('int', 3), NumNaturalFunctions=('int', 3), NumFunctions=('int', 3))), ('a path variable', dict(HavePathVariable=('bool', True))), ('two affine groups', dict(NumVariableGroups=('int', 2), NumTotalVariableGroups=('int', 2))), ('no affine group', dict(NumVariableGroups=('int', 0), NumTotalVariableGroups=('int', 0))), ('functions which are not polynomial', dict(IsPolynomial=('bool', False)))]
        for w, k in bad: a.run(start(td((2, 3), False, False, **k)), [('sym', 'target')], ENV, f'a target with {w}', lambda p: None if p.kind == 'throw' else 'is not refused')
        for dg in [(2, 3), (1,), (3, 1, 2)]:
            for hom, pat in ((False, False), (True, True)):
                p = a.run(start(td(dg, hom, pat)), [('sym', 'target')], ENV, f'a suitable target of degrees {list(dg)}', lambda p: 'is refused' if p.kind == 'throw' else None)
                if p is None or p.kind == 'throw': continue
                def judge(p):
                    v = p.st.env.get(('f', 'degrees_')); v = unpush(v) if v else None
                    if v is None or not concrete(v): return 'unknown'
                    if v != ilist(dg): return f'the degrees are {[x[1] for x in v[1:]]} instead of {list(dg)}'
                    rs = p.st.env.get(('f', 'random_values_')); rs = unpush(rs) if rs else None
                    if rs is None: return 'unknown'
                    rs = [deref(x) for x in rs[1:]]
                    if len(rs) != len(dg): return f'there are {len(rs)} random numbers for {len(dg)} functions'
                    draws = [frozenset(x for x in subterms(r) if isinstance(x, tuple) and x[:1] == ('rv',)) for r in rs]
                    if all(draws):
                        if any(draws[i] & draws[j] for i in range(len(rs)) for j in range(i)): return 'two functions share a draw'
                    elif not any(draws) and not any(t[0] in ('r', 'elem', 'sym', 'opq', 'mut', 'hav') for r in rs for t in subterms(r) if isinstance(t, tuple) and t): return 'the numbers of the functions are not random'
                    fs = [e.args[0] for e in p.ev if e.n == 'AddFunction']
                    if len(fs) != len(dg): return f'{len(fs)} functions are made, not {len(dg)}'
                    rval = {r: complex(.31 + .11 * i, .17 - .07 * i) for i, r in enumerate(rs)}
                    leaf = lambda t: rval.get(t) if t in rval else xval(t) if t[0] == 'var' else None
                    for i, t in enumerate(fs):
                        v = node(t, leaf)
                        if v is None: return 'unknown'
                        if abs(v - (xval(('var', f'x{i}')) ** dg[i] - rval[rs[i]])) > 1e-9: return f'function {i} is not x_{i}^{dg[i]} - r_{i}'
                b.run(start(td(dg, hom, pat)), [('sym', 'target')], ENV, f'degrees {list(dg)}', judge)
        for hom in (False, True):
            for pat in (False, True): c.run(start(td((2, 3), hom, pat)), [('sym', 'target')], ENV, f'a target which is {"" if hom else "not "}homogeneous and {"" if pat else "not "}patched', lambda p: 'it throws' if p.kind == 'throw' else shape(p, hom, pat))
        a.done(); b.done(); c.done()
    for f in one(M + 'MHomogeneous'):
        R.fn(f); a, b, c = Case(R, 'suitable', f, F), Case(R, 'functions', f, F), Case(R, 'shape', f, F)
        def start(cs): return mk(F, P, consts=cs, opq=OPQ, unroll=4000)
        vg2 = [['x0'], ['x1']]; D2 = [[2, 1], [1, 2]]
        bad = [('fewer functions than variables', dict(NumTotalFunctions=('int', 1))), ('more functions than variables', dict(NumTotalFunctions=('int', 3))), ('a path variable', dict(HavePathVariable=('bool', True))), ('functions which are not polynomial', dict(IsPolynomial=('bool', False)))]
        for w, k in bad: a.run(start(mh(D2, vg2, 0, False, False, **k)), [('sym', 'target')], ENV, f'a target with {w}', lambda p: None if p.kind == 'throw' else 'is not refused')
        for w, D in [('a group in which all functions have degree zero', [[2, 0], [1, 0]]), ('a function of degree zero', [[1, 1], [0, 0]])]:
            a.run(start(mh(D, vg2, 0, False, False)), [('sym', 'target')], ENV, f'a target with {w}', lambda p: None if p.kind == 'throw' else 'is not refused')
        for D, vg, nh, hom, pat in [(D2, vg2, 0, False, False), ([[1, 2], [3, 0]], vg2, 0, False, False), (D2, vg2, 0, True, True), ([[1, 0], [1, 1], [0, 3]], [['x0', 'x1'], ['x2']], 0, False, False), ([[2, 1], [1, 2]], [['x0', 'x1'], ['x2']], 1, True, True), ([[2, 1], [1, 2]], [['x0', 'x1'], ['x2', 'x3']], 2, True, True)]:
            p = a.run(start(mh(D, vg, nh, hom, pat)), [('sym', 'target')], ENV, f'a suitable target of degrees {D}', lambda p: 'is refused' if p.kind == 'throw' else None)
            if p is None or p.kind == 'throw': continue
            def judge(p):
                m = p.st.env.get(('f', 'linprod_matrix_'))
                dm, vp, vc, gr = (p.st.env.get(('f', k)) for k in ('degree_matrix_', 'valid_partitions_', 'variable_cols_', 'var_groups_'))
                vp, vc, gr = (unpush(x) if x else None for x in (vp, vc, gr))
                if None in (m, dm, vp, vc, gr) or m[0] != 'list' or not concrete(dm) or not concrete(vp) or not concrete(vc): return 'unknown'
                if dm != mat(D): return f'the degree matrix is {[[x[1] for x in r[1:]] for r in dm[1:]]} instead of {D}'
                if gr != groups(vg): return 'the groups are not in the order of the degree matrix'
                k = itertools.count(); want = [[next(k) for _ in g] for g in vg]
                if vc != mat(want): return f'the columns of the groups are {[[x[1] for x in r[1:]] for r in vc[1:]]} instead of {want}'
                fs = [e.args[0] for e in p.ev if e.n == 'AddFunction']
                if len(fs) != len(D): return f'{len(fs)} functions are made, not {len(D)}'
                lps = sorted(set(t for r in m[1:] for t in subterms(r) if isinstance(t, tuple) and t[:1] == ('lp',)) | set(t for x in fs for t in subterms(x) if isinstance(t, tuple) and t[:1] == ('lp',)), key=str)
                lv = {t: complex(1.1 + .37 * i, .6 - .23 * i) for i, t in enumerate(lps)}
                for i, r in enumerate(m[1:]):
                    w = 1
                    for j, x in enumerate(r[1:]):
                        if not D[i][j]: continue
                        x = deref(x)
                        if x[:1] != ('lp',): return 'unknown'
                        if x[2] != group(vg[j]): return f'the factors of function {i} in group {j} are not in its variables'
                        if x[3] != ('int', D[i][j]): return f'function {i} has {x[3][1] if x[3][0] == "int" else "?"} factors in group {j} instead of {D[i][j]}'
                        hom_ = x[4] if len(x) > 4 else ('bool', False)
                        if hom_[0] not in ('bool', 'int'): return 'unknown'
                        if bool(hom_[1]) != (j < nh): return f'the factors of function {i} in group {j} are ' + ('not ' if j < nh else '') + 'homogeneous'
                        w *= lv[x]
                    v = node(fs[i], lambda t: lv.get(t))
                    if v is None: return 'unknown'
                    if abs(v - w) > 1e-9: return f'function {i} is not the product of its linear factors'
                flat = [deref(x) for i, r in enumerate(m[1:]) for j, x in enumerate(r[1:]) if D[i][j]]
                if len(set(flat)) < len(flat): return 'two functions or groups share their linear factors'
            b.run(start(mh(D, vg, nh, hom, pat)), [('sym', 'target')], ENV, f'degrees {D}', judge)
        for hom in (False, True):
            for pat in (False, True): c.run(start(mh(D2, vg2, 0, hom, pat)), [('sym', 'target')], ENV, f'a target which is {"" if hom else "not "}homogeneous and {"" if pat else "not "}patched', lambda p: 'it throws' if p.kind == 'throw' else shape(p, hom, pat))
        a.done(); b.done(); c.done()
def unpush(b):
    if b[0] == 'list': return b
    if b[0] == 'pushed':
        c = unpush(b[1]); return c and c + (b[2],)
    return None
