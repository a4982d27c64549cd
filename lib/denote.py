"""Denotations: what a piece of code computes, as a term, extracted from its syntax tree.

The walker abstracts a function body to a list of (path condition, result term) pairs over opaque inputs
(operands, flags, derivatives of operands, parameters).  Loops become recurrences: one generic iteration from opaque
carried values to new carried values.  Calls to known vocabulary (node factories, arithmetic, elementary functions,
evaluation of sub-nodes) become term constructors, other calls into the library are inlined.  Nothing is guessed: a
construct outside the vocabulary raises Undecided, and the caller records the function as not decided.

Two terms are compared by evaluating both in a family of small algebraic models (operand lists of length 1..3, all flag
patterns, opaque operands as generic complex numbers, derivatives zero, one or generic): an identity test on the
extracted formulas.
"""
import cmath, math, random, hashlib
from fractions import Fraction
from facts import walk

class Undecided(Exception): pass
class Lost(Exception):
    """a run over constants met an effect it does not model: nothing after it is known"""
class Crash(Exception):
    """the term dereferences a null pointer or leaves a container's range"""
class NoPath(Exception): pass

NODE = 'bertini::node::'
ELEM = {'sin': cmath.sin, 'cos': cmath.cos, 'tan': cmath.tan, 'asin': cmath.asin, 'acos': cmath.acos, 'atan': cmath.atan,
        'exp': cmath.exp, 'log': cmath.log, 'sqrt': cmath.sqrt}
UNARY = {'SqrtOperator': 'sqrt', 'ExpOperator': 'exp', 'LogOperator': 'log', 'SinOperator': 'sin', 'CosOperator': 'cos', 'TanOperator': 'tan',
         'ArcSinOperator': 'asin', 'ArcCosOperator': 'acos', 'ArcTanOperator': 'atan'}
PASS = {'std::move', 'std::forward', 'std::get', 'std::static_pointer_cast', 'std::as_const', 'std::ref', 'std::cref', 'std::addressof'}
SPECIAL = {NODE + 'Zero': 0, NODE + 'One': 1, NODE + 'Two': 2, NODE + 'Pi': math.pi, NODE + 'E': math.e, NODE + 'I': 1j}

class NodeV:
    """a node in a model: its value, its dynamic class, its identity"""
    __slots__ = ('v', 'cls', 'key', 'parts')
    def __init__(s, v, cls, key=None, parts=None): s.v, s.cls, s.key, s.parts = v, cls, key, parts
NULL = NodeV(None, None, 'null')

class _Ret(Exception):
    def __init__(s, v): s.v = v
class _Brk(Exception): pass
class _Cont(Exception): pass
class _Throw(Exception): pass

class St:
    __slots__ = ('env', 'heap', 'facts')
    def __init__(s, env=None, heap=None, facts=None): s.env, s.heap, s.facts = env or {}, heap or {}, facts or []
    def copy(s): return St(dict(s.env), dict(s.heap), list(s.facts))

class Loop:
    n = 0
    def __init__(s): Loop.n += 1; s.uid = Loop.n; s.init = {}; s.paths = []; s.line = 0
    def __hash__(s): return s.uid
    def __repr__(s): return f'L{s.uid}'

class Path:
    def __init__(s, facts, kind, ret, st): s.facts, s.kind, s.ret, s.st = facts, kind, ret, st

class Den:
    """One interpretation context.  hooks: dict qualified name -> function(den, e, args(callable), obj) -> term or None."""
    def __init__(self, F, P, this_fields=None, hooks=None, depth=6, maxpaths=256, node_hook=None):
        self.F, self.P = F, P
        self.hooks = hooks or {}
        self.node_hook = node_hook
        self.fields = this_fields or {}
        self.maxdepth, self.maxpaths = depth, maxpaths
        self.st = St(); self.dec = []; self.pos = 0; self.frame = 0; self.nframe = 0; self.cells = 0; self.depth = 0
        self.wlog = None; self.cut = 0
        self.visited = set()
    # ---------------- path enumeration by replay
    def paths(self, action, st):
        out = []; todo = [[]]
        save = (self.st, self.dec, self.pos, self.cut)
        while todo:
            if len(out) + len(todo) > self.maxpaths: raise Undecided('too many paths')
            pre = todo.pop()
            self.st = st.copy(); self.st.facts = []
            self.cut = 0
            self.dec, self.pos = list(pre), 0
            self.known = dict(st.facts)
            kn = getattr(self, '_known', {})
            self._known = dict(kn); self._known.update(dict(st.facts))
            kind, ret = 'fall', None
            try: action()
            except _Ret as r: kind, ret = 'ret', r.v
            except _Brk: kind = 'break'
            except _Cont: kind = 'fall'
            except _Throw: kind = 'throw'
            self._known = kn
            out.append(Path(self.st.facts, kind, ret, self.st))
            for i in range(len(pre), len(self.dec)): todo.append(self.dec[:i] + [not self.dec[i]])
        self.st, self.dec, self.pos, self.cut = save
        return out
    def decide(self, c):
        c = self.resolve(c)
        neg = False
        while c[0] == 'not': c = c[1]; neg = not neg
        if c[0] == 'bool': return c[1] != neg
        if c[0] == 'int': return (c[1] != 0) != neg
        if c[0] == 'and':
            r = all(self.decide(x) for x in c[1:]); return r != neg
        if c[0] == 'or':
            r = any(self.decide(x) for x in c[1:]); return r != neg
        if c[0] == 'cmp' and c[1] == '!=': c = ('cmp', '==', c[2], c[3]); neg = not neg
        if c[0] == 'null': return neg
        if c[0] == 'cmp' and c[1] == '==':
            for a, b in ((c[2], c[3]), (c[3], c[2])):
                if a[0] == 'mfind' and b == ('mend',): c = ('mhas', a[1], a[2]); neg = not neg; break
        if c[0] in ('sum', 'mk') and not neg: return True
        if c[0] == 'cmp' and c[2] == c[3]: return (c[1] in ('==', '<=', '>=')) != neg
        if c[0] == 'cmp' and c[2][0] in ('int', 'enum', 'str') and c[2][0] == c[3][0]:
            a, b = c[2][1], c[3][1]
            if c[1] == '==': return (a == b) != neg
            if c[2][0] == 'int': return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[c[1]] != neg
        for k, v in self.st.facts:
            if k == c: return v != neg
        if c in getattr(self, '_known', {}): return self._known[c] != neg
        if self.pos < len(self.dec): v = self.dec[self.pos]
        else: v = True; self.dec.append(v)
        self.pos += 1
        self.st.facts.append((c, v))
        return v != neg
    # ---------------- heap
    def newcell(self, t):
        self.cells += 1; k = self.cells
        self.st.heap[k] = t
        return ('cell', k)
    def resolve(self, t, seen=()):
        if not isinstance(t, tuple): return t
        if t and t[0] == 'cell':
            if t[1] in seen: raise Undecided('cyclic object')
            return self.resolve(self.st.heap[t[1]], seen + (t[1],))
        return tuple(self.resolve(x, seen) if isinstance(x, tuple) else x for x in t)
    def read(self, loc):
        if loc[0] == 'v' or loc[0] == 'f':
            if loc in self.st.env: return self.st.env[loc]
            if loc[0] == 'f':
                r = self.fields.get(loc[1])
                if r is None:
                    raise Undecided(f'field {loc[1]}')
                return r
            raise Undecided('variable without value')
        if loc[0] == 'h': return self.st.heap[loc[1]]
        if loc[0] == 'el':
            b = self.read(loc[1])
            return self.index(b, loc[2])
        raise Undecided('location')
    def write(self, loc, v):
        if loc[0] in ('v', 'f'): self.st.env[loc] = v
        elif loc[0] == 'h': self.st.heap[loc[1]] = v
        elif loc[0] == 'el':
            b = self.read(loc[1])
            if b[0] == 'list' and loc[2][0] == 'int' and 0 <= loc[2][1] < len(b) - 1:
                l = list(b); l[1 + loc[2][1]] = v; self.write(loc[1], tuple(l)); return
            b2 = ('upd', b, loc[2], v); self.write(loc[1], b2); return
        else: raise Undecided('write')
        if self.wlog is not None: self.wlog.add(loc)
    def index(self, b, i):
        if b[0] == 'list' and i[0] == 'int':
            if 0 <= i[1] < len(b) - 1: return b[1 + i[1]]
            raise Undecided('index out of list')
        if b[0] == 'upd' and self.resolve(b[2]) == self.resolve(i): return b[3]
        return ('elem', b, i)
    # ---------------- lvalues
    def lval(self, e):
        k = e['k']
        if k == 'ref':
            if e.get('dk') in ('param', 'local', 'slocal'):
                v = self.lookup(e['id'])
                if v is None: raise Undecided(f"unbound {e['n']}")
                val = self.st.env.get(v)
                if isinstance(val, tuple) and val[0] == 'alias': return val[1]
                return v
            raise Undecided(f"lvalue {e.get('n')}")
        if k == 'mem':
            b = e.get('b')
            if b is None or b['k'] == 'this': 
                l = ('f', e['n']); val = self.st.env.get(l)
                return val[1] if isinstance(val, tuple) and val[0] == 'alias' else l
            if b['k'] in ('mem', 'cast'):
                l = self.lval(b)
                if l[0] == 'f': return ('f', l[1] + '.' + e['n'])
            raise Undecided('member of another object')
        if k == 'cast': return self.lval(e['a'][0])
        if k == 'un' and e['op'] == '*' or k == 'op' and e['op'] in ('*', '->') and len(e['a']) == 1:
            v = self.val(e['a'][0])
            if v[0] == 'cell': return ('h', v[1])
            if v[0] == 'ptr': return v[1]
            if v[0] == 'it' and v[1][0] == 'loc': return ('el', v[1][1], v[2])
            raise Undecided('lvalue through a pointer')
        if k == 'op' and e['op'] == '[]': return ('el', self.lval(e['a'][0]), self.val(e['a'][1]))
        if k == 'call':
            f = e.get('f') or ''
            if f == 'std::get': 
                i = (e.get('ta') or ['?'])[0]
                l = self.lval(e['a'][0])
                if l[0] == 'f': return ('f', f'{l[1]}<{i}>')
                if l[0] == 'v': return ('v', l[1], l[2], i)
            if f in PASS: return self.lval(e['a'][0])
            if e.get('n') in ('front', 'back') and e.get('o') is not None:
                l = self.lval(e['o'])
                return ('el', l, ('int', 0) if e['n'] == 'front' else self.sub(self.size(self.read(l)), ('int', 1)))
            if e.get('n') == 'at': return ('el', self.lval(e['o']), self.val(e['a'][0]))
        if k in ('bin', 'op') and e['op'].endswith('=') and e['op'] not in ('==', '!=', '<=', '>='):
            self.val(e); return self.lval(e['a'][0])
        if k == 'cond': return self.lval(e['a'][1] if self.decide(self.val(e['a'][0])) else e['a'][2])
        raise Undecided(f'lvalue {k}')
    def lookup(self, vid):
        f = self.frame
        while f is not None:
            if ('v', f, vid) in self.st.env: return ('v', f, vid)
            f = self.parent.get(f) if hasattr(self, 'parent') else None
        return None
    # ---------------- expressions
    def sub(self, a, b):
        if a[0] == 'int' and b[0] == 'int': return ('int', a[1] - b[1])
        if b == ('int', 0): return a
        return ('-', a, b)
    def size(self, b):
        if b[0] == 'list': return ('int', len(b) - 1)
        if b[0] == 'upd': return self.size(b[1])
        if b[0] == 'pushed': return ('+', self.size(b[1]), ('int', 1))
        return ('size', b)
    def val(self, e):
        k = e['k']
        if k == 'int': return ('int', int(e['v']))
        if k == 'float': return ('q', Fraction(e['v']))
        if k == 'bool': return ('bool', bool(e['v']) if not isinstance(e['v'], str) else e['v'] == 'true')
        if k in ('null',): return ('null',)
        if k == 'str': return ('str', e['v'])
        if k == 'char': return ('int', e['v']) if isinstance(e['v'], int) else ('str', str(e['v']))
        if k == 'this': return ('this',)
        if k == 'ref':
            dk = e.get('dk')
            if dk == 'enum': return ('enum', e['q'])
            if dk in ('param', 'local', 'slocal'): return self.read(self.lval(e))
            if dk in ('global', 'other'):
                r = self.hooks.get(('global', e.get('q')))
                if r is not None: return r
                g = self.F.gvars.get(e.get('q'))
                if g is not None and g.get('init') is not None and 'const' in g.get('t', '') and self.isint({'t': g['t'].replace('const ', '')}): return self.val(g['init'])
                return ('sym', 'global ' + str(e.get('q')))
            raise Undecided(f"name {e.get('n')}")
        if k == 'mem':
            b = e.get('b')
            if e.get('dk') == 'enum': return ('enum', e.get('q'))
            if b is None or b['k'] == 'this': return self.read(self.lval(e))
            try: l = self.lval(e)
            except Undecided: l = None
            if l is not None: return self.read(l)
            o = self.val(b)
            if o == ('this',): return self.read(('f', e['n']))
            return self.attr(o, e['n'])
        if k == 'cast': 
            v = self.val(e['a'][0])
            return v
        if k == 'un':
            op = e['op']; a = e['a'][0]
            if op in ('++', '--'):
                l = self.lval(a); old = self.read(l)
                new = self.bump(old, 1 if op == '++' else -1)
                self.write(l, new)
                return old if e.get('post') else new
            if op == '&':
                try: return ('ptr', self.lval(a))
                except Undecided: return self.val(a)
            if op == '*':
                v = self.val(a)
                return self.deref(v)
            v = self.val(a)
            if op == '-': return ('int', -v[1]) if v[0] == 'int' else ('neg', v)
            if op == '+': return v
            if op == '!': return ('not', self.truth(v))
            raise Undecided(f'unary {op}')
        if k == 'bin' or k == 'op': return self.binop(e)
        if k == 'cond': return self.val(e['a'][1] if self.decide(self.truth(self.val(e['a'][0]))) else e['a'][2])
        if k == 'call': return self.call(e)
        if k == 'ctor': return self.ctor(e)
        if k == 'list':
            if len(e['a']) == 1 and 'vector' not in e.get('t', ''): return self.val(e['a'][0])
            return ('list',) + tuple(self.val(a) for a in e['a'])
        if k == 'lambda': return ('lam', _H(e), self.frame)
        raise Undecided(f'expression {k}')
    def truth(self, v):
        if v[0] in ('cmp', 'not', 'and', 'or', 'bool', 'isa'): return v
        if v[0] == 'flagv': return v
        return v
    def bump(self, v, d):
        if v[0] == 'int': return ('int', v[1] + d)
        if v[0] == 'it': return ('it', v[1], self.bump(v[2], d))
        return ('+', v, ('int', d))
    def deref(self, v):
        if v[0] == 'it':
            c = v[1]
            if c[0] == 'loc': return self.read(('el', c[1], v[2]))
            return self.index(c, v[2])
        if v[0] == 'ptr': return self.read(v[1])
        return v
    def attr(self, o, n): return ('attr', o, n)
    def isint(self, e):
        t = (e.get('t') or '').replace('const ', '').strip()
        return t in ('int', 'unsigned int', 'unsigned', 'long', 'unsigned long', 'size_t', 'short', 'unsigned short', 'char', 'unsigned char', 'bool', 'long long', 'unsigned long long')
    def binop(self, e):
        op = e['op']; A = e['a']
        if op in ('->', '*') and len(A) == 1: return self.deref(self.val(A[0])) if op == '*' else self.arrow(self.val(A[0]))
        if op == '[]':
            h = self.hook(e)
            if h is not None: return h
            try: b = self.read(self.lval(A[0]))
            except Undecided: b = self.val(A[0])
            return self.index(b, self.val(A[1]))
        if op == '()':
            f = self.val(A[0])
            if f[0] == 'lam': return self.inline_lambda(f, A[1:])
            h = self.hook(e)
            if h is not None: return h
            if len(A) == 2: return self.index(f, self.val(A[1]))
            return ('elem2', f) + tuple(self.val(a) for a in A[1:])
        if op == ',':
            self.val(A[0]); return self.val(A[1])
        if op in ('&&', '||'):
            a = self.decide(self.truth(self.val(A[0])))
            if op == '&&': return ('bool', True) if a and self.decide(self.truth(self.val(A[1]))) else ('bool', False)
            return ('bool', True) if a or self.decide(self.truth(self.val(A[1]))) else ('bool', False)
        if op == '=':
            h = self.hook(e)
            if h is not None: return h
            v = self.val(A[1]); l = self.lval(A[0])
            self.write(l, v); return v
        if len(A) == 1:
            h = self.hook(e)
            if h is not None: return h
            if op == '-': 
                v = self.val(A[0]); return ('neg', v)
            if op == '+': return self.val(A[0])
            if op == '!': return ('not', self.truth(self.val(A[0])))
            if op in ('++', '--'):
                l = self.lval(A[0]); v = self.bump(self.read(l), 1 if op == '++' else -1); self.write(l, v); return v
            raise Undecided(f'operator {op}')
        if op in ('++', '--'):
            l = self.lval(A[0]); old = self.read(l); self.write(l, self.bump(old, 1 if op == '++' else -1)); return old
        if op in ('+=', '-=', '*=', '/=', '%=', '^=', '|=', '&='):
            l = self.lval(A[0]); b = self.val(A[1]); a = self.read(l)
            v = self.arith(op[:-1], a, b, self.isint(A[0]) and self.isint(A[1]))
            self.write(l, v); return v
        h = self.hook(e)
        if h is not None: return h
        a, b = self.val(A[0]), self.val(A[1])
        return self.arith(op, a, b, self.isint(e) and self.isint(A[0]) and self.isint(A[1]))
    def arrow(self, v): return v
    def arith(self, op, a, b, ints=False):
        if a[0] == 'it' or b[0] == 'it':
            if op == '-' and a[0] == b[0] == 'it': return self.sub(a[2], b[2])
            if op in '+-' and a[0] == 'it': return ('it', a[1], self.arith(op, a[2], b, True))
            if op == '+' and b[0] == 'it': return ('it', b[1], self.arith('+', a, b[2], True))
            if op in ('==', '!=', '<', '>', '<=', '>='): return ('cmp', op, a[2], b[2])
        if op in ('==', '!=', '<', '>', '<=', '>='): return ('cmp', op, a, b)
        if a[0] == 'int' and b[0] == 'int':
            x, y = a[1], b[1]
            if op in ('+', '-', '*'): return ('int', {'+': x + y, '-': x - y, '*': x * y}[op])
        if op in ('+', '-', '*'): return (op, a, b)
        if op == '/': return ('//', a, b) if ints else ('/', a, b)
        if op == '%': return ('%', a, b)
        if op in ('^', '|', '&'): return ('bit' + op, a, b)
        raise Undecided(f'operator {op}')
    def hook(self, e):
        h = self.hooks.get(e.get('f')) or self.hooks.get(('n', e.get('n')))
        if h is None: return None
        return h(self, e)
    def isnode(self, t): return NODE in (t or '')
    def ctor(self, e):
        h = self.hook(e)
        if h is not None: return h
        t = e.get('t', ''); A = e['a']
        tt = t.replace('const ', '')
        if 'shared_ptr' in tt or 'unique_ptr' in tt:
            if not A: return ('null',)
            v = self.val(A[0])
            return v
        if tt.startswith('std::vector') or tt.startswith('std::deque') or 'allocator' in tt:
            if not A: return ('list',)
            if len(A) == 1: 
                v = self.val(A[0])
                return v
            if len(A) == 2 and self.val(A[0])[0] == 'int' and self.val(A[0])[1] < 8:
                return ('list',) + (self.val(A[1]),) * self.val(A[0])[1]
            raise Undecided('vector constructor')
        if 'number<' in tt:
            A = [a for a in A if not (a['k'] == 'call' and a.get('n') in ('DefaultPrecision', 'precision', 'Precision'))]
            while len(A) > 1 and A[-1]['k'] == 'null': A = A[:-1]
        if 'complex' in tt and len(A) == 2 or 'mpc_complex' in tt and len(A) == 2:
            re, im = self.val(A[0]), self.val(A[1])
            if im in (('int', 0), ('q', Fraction(0))): return re
            return ('+', re, ('*', ('I',), im))
        if ('rational' in tt) and len(A) == 2: return ('/', self.val(A[0]), self.val(A[1]))
        if not A and ('complex' in tt or 'number<' in tt): return ('int', 0)
        if len(A) == 1: return self.val(A[0])
        if len(A) >= 2 and 'number<' in tt: return self.val(A[0])
        raise Undecided(f'constructor {t[:60]}')
    def call(self, e):
        f = e.get('f') or ''; n = e.get('n') or ''; A = e.get('a') or []; o = e.get('o')
        h = self.hook(e)
        if h is not None: return h
        if n == '__assert_fail': raise _Throw()
        if f == 'std::get' and e.get('ta'):
            try: l = self.lval(e)
            except Undecided: l = None
            if l is not None: return self.read(l)
        if f in PASS or n in ('static_pointer_cast', 'real_cast'): return self.val(A[0])
        if e.get('conv') and o is not None: 
            v = self.val(o)
            return ('isnn', v) if n == 'operator bool' else v
        if n in ('dynamic_pointer_cast', 'dynamic_cast'): return ('cast', (e.get('ta') or ['?'])[0], self.val(A[0]))
        if n == 'swap':
            if o is not None: l1, l2 = self.lval(o), self.lval(A[0])
            else: l1, l2 = self.lval(A[0]), self.lval(A[1])
            a, b = self.read(l1), self.read(l2); self.write(l1, b); self.write(l2, a); return ('none',)
        if f.startswith(('std::vector', 'std::deque', 'std::map', 'std::unordered_map', 'std::_Rb_tree')) or (o is not None and n in ('size', 'begin', 'end', 'empty', 'cbegin', 'cend', 'push_back', 'emplace_back', 'clear')) and not f.startswith('bertini'):
            try: l = self.lval(o)
            except Undecided: l = None
            b = self.read(l) if l is not None else self.val(o)
            if n == 'size': return self.size(b)
            if n == 'find': return ('mfind', b, self.val(A[0]))
            if n in ('count', 'contains'): return ('mhas', b, self.val(A[0]))
            if n in ('end', 'cend') and 'map' in f: return ('mend',)
            if n == 'empty': return ('cmp', '==', self.size(b), ('int', 0))
            if n in ('begin', 'cbegin'): return ('it', ('loc', l) if l is not None else b, ('int', 0))
            if n in ('end', 'cend'): return ('it', ('loc', l) if l is not None else b, self.size(b))
            if n in ('push_back', 'emplace_back'):
                v = self.val(A[0])
                self.write(l, b + (v,) if b[0] == 'list' else ('pushed', b, v)); return ('none',)
            if n == 'insert' and len(A) == 3 and b[0] == 'list':
                at, x, y = (self.val(z) for z in A)
                if all(z[0] == 'it' for z in (at, x, y)) and at[1] == ('loc', l) and x[1] == y[1]:
                    c = self.read(x[1][1]) if x[1][0] == 'loc' else x[1]
                    if c[0] == 'list' and all(z[2][0] == 'int' for z in (at, x, y)):
                        i = at[2][1]; self.write(l, ('list',) + b[1:][:i] + c[1:][x[2][1]:y[2][1]] + b[1:][i:]); return ('none',)
            if n == 'clear': self.write(l, ('list',) if 'map' not in f else ('emptymap',)); return ('none',)
            if n == 'reserve': return ('none',)
            if n in ('front', 'back', 'at'): return self.read(self.lval(e))
            raise Undecided(f'vector::{n}')
        if f == 'std::find' and len(A) == 3:
            a, b = self.val(A[0]), self.val(A[1])
            if a[0] == b[0] == 'it' and a[1] == b[1] and a[2] == ('int', 0):
                c = self.read(a[1][1]) if a[1][0] == 'loc' else a[1]
                if b[2] == self.size(c): return ('it', a[1], ('findidx', c, self.val(A[2])))
            raise Undecided('range of std::find')
        if f == 'std::distance' and len(A) == 2: return self.arith('-', self.val(A[1]), self.val(A[0]), True)
        if n == 'get' and o is not None and 'ptr' in f: return self.val(o)
        if n == 'use_count': raise Undecided('use_count')
        if f in SPECIAL: return ('num', SPECIAL[f])
        if n in ELEM and len(A) == 1 and o is None and not self.noelem(e): return ('fn', n, self.val(A[0]))
        if n == 'pow' and len(A) == 2 and o is None and not self.noelem(e): return ('pow', self.val(A[0]), self.val(A[1]))
        if n in ('max', 'min') and len(A) == 2 and f.startswith('std::'): return (n, self.val(A[0]), self.val(A[1]))
        if n == 'abs' and len(A) == 1: return ('abs', self.val(A[0]))
        if f.startswith(NODE) or 'bertini::' in f:
            if self.node_hook:
                r = self.node_hook(self, e)
                if r is not None: return r
            cls = (e.get('cls') or '')
            if n == 'Make' and cls.startswith(NODE):
                return self.newcell(('mk', cls[len(NODE):]) + tuple(self.val(a) for a in A))
            if n == 'Differentiate': return ('D', self.objval(o), self.val(A[0]) if A else ('null',))
            if n == 'Eval' and o is not None: return ('ev', self.objval(o), (e.get('ta') or ['?'])[0], self.val(A[0]) if A else ('null',))
            if n == 'EvalInPlace' and o is not None:
                v = ('ev', self.objval(o), (e.get('ta') or ['?'])[0], self.val(A[1]) if len(A) > 1 else ('null',))
                self.write(self.lval(A[0]), v); return ('none',)
            if n == 'AddOperand' and o is not None and o['k'] != 'this':
                v = self.val(o)
                if v == ('this',): pass
                else:
                    args = tuple(self.val(a) for a in A)
                    c = None; w = v
                    if w[0] == 'cast': c = w[1]; w = w[2]
                    if w[0] != 'cell': raise Undecided('operand added to a foreign node')
                    base = self.st.heap[w[1]]
                    self.write(('h', w[1]), ('addop', cls[len(NODE):], ('cast', c, base) if c else base) + args)
                    return ('none',)
        return self.inline(e)
    def objval(self, o):
        return self.val(o)
    def noelem(self, e): return False
    # ---------------- inlining
    def inline(self, e):
        o = e.get('o')
        ov = None
        isthis = o is None or o['k'] == 'this'
        if not isthis:
            ov = self.val(o)
            if ov == ('this',) or ov == ('sym', 'this'): isthis = True
        c = self.P.resolve(e, None, None) if not isthis or o is None else self.target_this(e)
        if c is None or c.get('pattern') or not c.get('body'): raise Undecided(f"call of {e.get('f') or e.get('n')}")
        if not isthis and c['kind'] in ('method', 'conv') and not c.get('static'):
            g = self.P.getter(c)
            if g is not None and g['k'] == 'mem' and (not e.get('virt') or ov == ('sym', 'this')): return self.attr(ov, g['n'])
            raise Undecided(f"method of another object {e.get('n')}")
        return self.apply(c, e.get('a') or [])
    dyn = None
    def target_this(self, e):
        c = self.P.resolve(e, None, None)
        if c is not None and c.get('virtual') and self.dyn and e.get('virt'):
            for k in [self.dyn] + list(self.F_bases(self.dyn)):
                for f in self.F.fn(f"{k}::{c['n']}"):
                    if [p['t'] for p in f['params']] == [p['t'] for p in c['params']]: return f
        return c
    def F_bases(self, q):
        cs = self.F.cls(q)
        return [b['q'] for b in self.F.bases(cs[0])] if cs else []
    def apply(self, c, args, vals=None):
        if self.depth >= self.maxdepth: raise Undecided('call depth')
        self.visited.add(c['id'])
        binds = {}
        for i, p in enumerate(c['params']):
            if vals is not None: binds[p['id']] = vals[i]; continue
            if i >= len(args):
                if p.get('def') is not None: binds[p['id']] = self.val(p['def']); continue
                raise Undecided('default argument')
            a = args[i]
            isref = p['t'].rstrip().endswith('&') and not p['t'].startswith('const ')
            if isref:
                try: binds[p['id']] = ('alias', self.lval(a)); continue
                except Undecided: pass
            binds[p['id']] = self.val(a)
        if not hasattr(self, 'parent'): self.parent = {}
        self.nframe += 1; fr = self.nframe + 1000 * 0
        while fr in self.parent or fr == 0: self.nframe += 1; fr = self.nframe
        self.parent[fr] = None
        for k, v in binds.items(): self.st.env[('v', fr, k)] = v
        old = self.frame; self.frame = fr; self.depth += 1
        try:
            for ini in c.get('inits') or []: self.init(c, ini)
            self.stmt(c['body']); r = ('none',)
        except _Ret as x:
            r = x.v
            if r is not None and c['ret'].rstrip().endswith('&') and False: pass
        finally:
            self.frame = old; self.depth -= 1
        return r if r is not None else ('none',)
    def inline_lambda(self, f, args):
        L = f[1].e
        if self.depth >= self.maxdepth: raise Undecided('call depth')
        if not hasattr(self, 'parent'): self.parent = {}
        binds = {}
        for p, a in zip(L.get('params') or [], args):
            isref = p['t'].rstrip().endswith('&') and not p['t'].startswith('const ')
            if isref:
                try: binds[p['id']] = ('alias', self.lval(a)); continue
                except Undecided: pass
            binds[p['id']] = self.val(a)
        self.nframe += 1
        while self.nframe in self.parent: self.nframe += 1
        fr = self.nframe; self.parent[fr] = f[2]
        for k, v in binds.items(): self.st.env[('v', fr, k)] = v
        old = self.frame; self.frame = fr; self.depth += 1
        try: self.stmt(L['body']); r = ('none',)
        except _Ret as x: r = x.v
        finally: self.frame = old; self.depth -= 1
        return r if r is not None else ('none',)
    # ---------------- statements
    def stmt(self, s):
        if s is None: return
        k = s['k']
        if k == 'block':
            for x in s['s']: self.stmt(x)
        elif k == 'nop': pass
        elif k == 'decl':
            for v in s['d']: self.vardecl(v)
        elif k == 'if':
            if s.get('init'): self.stmt(s['init'])
            if s.get('var'): self.vardecl(s['var'])
            if self.decide(self.truth(self.val(s['c']))): self.stmt(s['t'])
            else: self.stmt(s.get('e'))
        elif k in ('for', 'while', 'do'):
            if s.get('init'): self.stmt(s['init'])
            self.loop(s)
        elif k == 'rfor': self.rfor(s)
        elif k == 'return': raise _Ret(self.retval(s.get('e')))
        elif k == 'break': raise _Brk()
        elif k == 'continue': raise _Cont()
        elif k == 'throw': raise _Throw()
        elif k == 'switch': self.switch(s)
        elif k in ('case', 'default'): self.stmt(s['s'])
        elif k == 'var': self.vardecl(s)
        elif k in ('try',):
            try: self.stmt(s['b'])
            except _Throw: raise Undecided('try')
        else: self.val(s)
    def retval(self, e): return self.val(e) if e is not None else None
    def vardecl(self, v):
        if v['k'] != 'var': return
        loc = ('v', self.frame, v['id'])
        i = v.get('init')
        if i is None:
            self.st.env[loc] = ('null',) if 'shared_ptr' in v['t'] else ('list',) if v['t'].startswith('std::vector') else ('uninit', v['n']); return
        t = v['t'].rstrip()
        if t.endswith('&') and not t.endswith('&&'):
            try: self.st.env[loc] = ('alias', self.lval(i)); return
            except Undecided: pass
        self.st.env[loc] = self.val(i)
        if self.wlog is not None: self.wlog.add(loc)
    def switch(self, s):
        if s.get('var'): self.vardecl(s['var'])
        v = self.val(s['c'])
        body = s['b']['s'] if s['b'] and s['b']['k'] == 'block' else [s['b']]
        flat = []
        for x in body:
            while x is not None and x['k'] in ('case', 'default'): flat.append(('lab', x)); x = x['s']
            flat.append(('st', x))
        start = None; dflt = None
        for i, (kk, x) in enumerate(flat):
            if kk != 'lab': continue
            if x['k'] == 'default': dflt = i; continue
            if start is None and self.decide(('cmp', '==', v, self.val(x['v']))): start = i
        if start is None: start = dflt
        if start is None: return
        try:
            for kk, x in flat[start:]:
                if kk == 'st': self.stmt(x)
        except _Brk: pass
    def rfor(self, s):
        try: l = self.lval(s['r'])
        except Undecided: l = None
        b = self.read(l) if l is not None else self.val(s['r'])
        vloc = ('v', self.frame, s['var']['id'])
        iloc = ('v', self.frame, ('it', s['var']['id']))
        self.st.env[iloc] = ('int', 0)
        isref = s['var']['t'].rstrip().endswith('&')
        def cond(): return ('cmp', '<', self.read(iloc), self.size(self.read(l) if l is not None else b))
        def body():
            i = self.read(iloc)
            if isref and l is not None: self.st.env[vloc] = ('alias', ('el', l, i))
            else: self.st.env[vloc] = self.index(self.read(l) if l is not None else b, i)
            self.stmt(s['b'])
        def inc(): self.write(iloc, self.bump(self.read(iloc), 1))
        self.genloop(cond, body, inc, s['l'])
    def loop(self, s):
        cond = (lambda: self.truth(self.val(s['c']))) if s.get('c') else (lambda: ('bool', True))
        body = lambda: self.stmt(s['b'])
        inc = (lambda: self.val(s['inc'])) if s.get('inc') else (lambda: None)
        if s['k'] == 'do':
            try: body()
            except _Cont: pass
            except _Brk: return
        self.genloop(cond, body, inc, s['l'])
    def genloop(self, cond, body, inc, line):
        base = self.st.copy()
        L = Loop(); L.line = line
        W = set()
        swl = self.wlog
        def action():
            if not self.decide(cond()): raise _Brk()
            try: body()
            except _Cont: pass
            inc()
        for _ in range(6):
            st = base.copy()
            self.wlog = set()
            for w in W:
                if w[0] == 'h': st.heap[w[1]] = ('acc', L.uid, w)
                else:
                    iv = base.env.get(w)
                    if isinstance(iv, tuple) and (iv[0] in ('cell', 'null', 'num') or iv[0] == 'mk'):
                        self.cells += 1; st.heap[self.cells] = ('acc', L.uid, w); st.env[w] = ('cell', self.cells)
                    elif isinstance(iv, tuple) and iv[0] == 'it': st.env[w] = ('it', iv[1], ('acc', L.uid, w))
                    else: st.env[w] = ('acc', L.uid, w)
            cells0 = self.cells
            ps = self.paths(action, st)
            new = {w for w in self.wlog if (w in base.env or w[0] == 'f' or (w[0] == 'h' and w[1] in base.heap))}
            for w in new:
                if w[0] == 'f' and w not in base.env: 
                    sv = self.st; self.st = base
                    try: base.env[w] = self.read(w)
                    except Undecided: base.env[w] = ('uninit', w[1])
                    finally: self.st = sv
            if new <= W: break
            W |= new
        else: raise Undecided('loop state does not settle')
        self.wlog = swl
        def fin(p, w):
            v = p.st.heap[w[1]] if w[0] == 'h' else p.st.env[w]
            sv = self.st; self.st = p.st
            try: v = self.resolve(v)
            finally: self.st = sv
            if v[0] == 'it': v = v[2]
            return v
        for w in W:
            iv = base.heap[w[1]] if w[0] == 'h' else base.env[w]
            iv = self.resolve(iv)
            L.init[w] = iv[2] if iv[0] == 'it' else iv
        for p in ps:
            ret = p.ret
            if ret is not None:
                sv = self.st; self.st = p.st
                try: ret = self.resolve(ret)
                finally: self.st = sv
            L.paths.append((tuple(p.facts), p.kind, {w: fin(p, w) for w in W}, ret))
        h = _H(L)
        for w in W:
            v = ('loopv', h, w)
            if w[0] == 'h': self.st.heap[w[1]] = v
            else:
                iv = base.env.get(w)
                if isinstance(iv, tuple) and (iv[0] in ('cell', 'null', 'num', 'mk')): v = self.newcell(v)
                elif isinstance(iv, tuple) and iv[0] == 'it': v = ('it', iv[1], v)
                self.st.env[w] = v
            if self.wlog is not None: self.wlog.add(w)
        if any(p.kind == 'ret' for p in ps):
            if self.decide(('loopret', h)): raise _Ret(('loopretv', h))
        if any(p.kind == 'throw' for p in ps):
            if self.decide(('loopthrow', h)): raise _Throw()
    # ---------------- whole functions
    def function(self, fn, args, dyn=None, st=None):
        """args: values for the parameters ('alias', loc) allowed.  Returns paths with resolved results."""
        self.dyn = dyn
        self.parent = {}; self.nframe = 0
        st = st or St()
        def act():
            self.parent = {}; self.nframe = 0
            r = self.apply(fn, [], vals=args)
            raise _Ret(r)
        ps = self.paths(act, st)
        for p in ps:
            sv = self.st; self.st = p.st
            try: p.ret = self.resolve(p.ret) if p.ret is not None else None
            finally: self.st = sv
        return ps
    def init(self, fn, ini):
        e = ini.get('e')
        if ini.get('field'):
            if e is not None and ini.get('written'): self.write(('f', ini['field']), self.val(e))
            return
        if ini.get('base') and e is not None and e['k'] == 'ctor' and e.get('a'):
            c = self.P.resolve(e, None, None)
            if c is None or not c.get('body') and not c.get('inits'): raise Undecided('base constructor')
            self.apply(c, e['a'])
    def final(self, p, v):
        """value of a location (or term) at the end of a path"""
        sv = self.st; self.st = p.st
        try: return self.resolve(self.read(v) if v[0] in ('v', 'f', 'h') else v)
        finally: self.st = sv

class _H:
    """identity wrapper so that syntax nodes and loops can sit inside terms"""
    __slots__ = ('e',)
    def __init__(s, e): s.e = e
    def __eq__(s, o): return isinstance(o, _H) and s.e is o.e
    def __hash__(s): return id(s.e)
    def __repr__(s): return f'<{s.e!r:.20}>'

# ============================================================ models
class Model:
    """A small algebraic model: assigns sizes, flags, node classes and generic complex values to opaque symbols."""
    def __init__(self, seed, n, isa, flags=None, dmode=None, choose=None, evrule=None, lenient=False):
        self.seed, self.n, self.isa = seed, n, isa
        self.memo = {}
        self.flags = flags; self.dmode = dmode; self.choose = choose or {}
        self.evrule = evrule
        self.lcache = {}
    def rnd(self, key, kind=''):
        h = hashlib.md5(f'{self.seed}|{kind}|{key}'.encode()).digest()
        return random.Random(h)
    def gen(self, key):
        r = self.rnd(key, 'g'); return complex(r.uniform(.25, .85), r.uniform(.1, .45))
    def node(self, key):
        if key not in self.memo:
            r = self.rnd(key, 'n')
            cls = self.choose.get('class', lambda m, k, r: None)(self, key, r)
            self.memo[key] = NodeV(self.gen(key), cls, key)
        return self.memo[key]
    def num(self, x):
        if isinstance(x, NodeV):
            if x is NULL or x.v is None: raise Crash('null dereference')
            return x.v
        if isinstance(x, Fraction): return complex(float(x))
        return x
    def size(self, name): return self.n if not callable(self.n) else self.n(name)
    # ---- evaluation
    def ev(self, t, env):
        op = t[0]
        E = lambda x: self.ev(x, env)
        if op == 'int': return t[1]
        if op == 'q': return t[1]
        if op == 'num': return NodeV(complex(t[1]), 'Integer', ('num', t[1])) 
        if op == 'I': return 1j
        if op == 'bool': return t[1]
        if op == 'null': return NULL
        if op == 'enum': return t[1]
        if op == 'str':
            return t[1]
        if op == 'sym':
            return self.sym(t[1])
        if op == 'emptymap': return {}
        if op == 'list': return [E(x) for x in t[1:]]
        if op == 'pushed': return list(E(t[1])) + [E(t[2])]
        if op == 'upd':
            l = E(t[1]); i = E(t[2])
            if isinstance(l, dict):
                l = dict(l); l[i.key if isinstance(i, NodeV) else i] = E(t[3]); return l
            l = list(l)
            if not 0 <= i < len(l): raise Crash('index out of range')
            l[i] = E(t[3]); return l
        if op == 'cont': return [self.element(t[1], i) for i in range(self.size(t[1]))]
        if op == 'elem':
            l = E(t[1]); i = E(t[2])
            if isinstance(l, NodeV): raise Undecided('indexing a node')
            if isinstance(l, dict):
                k = i.key if isinstance(i, NodeV) else i
                if k not in l: raise Crash('looks up the location of something that has none yet')
                return l[k]
            if not 0 <= i < len(l): raise Crash('index out of range')
            return l[i]
        if op == 'size': return len(E(t[1]))
        if op == 'acc':
            k = ('acc', t[1], t[2])
            if k not in env: raise Undecided('carried value outside its loop')
            return env[k]
        if op in ('loopv', 'loopret', 'loopretv', 'loopthrow'):
            r = self.runloop(t[1].e, env)
            if op == 'loopv': return r['vals'][t[2]]
            if op == 'loopret': return r['kind'] == 'ret'
            if op == 'loopthrow': return r['kind'] == 'throw'
            return r['ret']
        if op == 'cast':
            x = E(t[2])
            if x is NULL: return NULL
            if not isinstance(x, NodeV): raise Undecided('cast of a number')
            if t[1] in ('?', None) or x.cls is not None and self.isa(x.cls, t[1].replace('const ', '').strip()): return x
            return NULL
        if op == 'isnn':
            x = E(t[1]); return x is not NULL if isinstance(x, NodeV) else bool(x)
        if op == 'not': return not self.tr(E(t[1]))
        if op == 'and': return all(self.tr(E(x)) for x in t[1:])
        if op == 'or': return any(self.tr(E(x)) for x in t[1:])
        if op == 'cmp':
            a, b = E(t[2]), E(t[3])
            if isinstance(a, NodeV) and isinstance(b, NodeV):
                r = a is b or (a.key is not None and a.key == b.key)
                return r if t[1] == '==' else not r
            if isinstance(a, NodeV) and t[2][0] in ('attr',) or isinstance(b, NodeV) and t[3][0] == 'attr': pass
            a, b = self.num(a), self.num(b)
            if t[1] in ('==', '!='):
                if isinstance(a, (str, list)) or isinstance(b, (str, list)): r = a == b
                else: r = a == b if isinstance(a, (bool, int)) and isinstance(b, (bool, int)) else abs(a - b) < 1e-12
                return r if t[1] == '==' else not r
            if isinstance(a, complex): a = a.real if abs(a.imag) < 1e-12 else self.fail()
            if isinstance(b, complex): b = b.real if abs(b.imag) < 1e-12 else self.fail()
            return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[t[1]]
        if op in ('+', '-', '*', '/', '//', '%'):
            a, b = self.num(E(t[1])), self.num(E(t[2]))
            if op == '+': return a + b
            if op == '-': return a - b
            if op == '*': return a * b
            if isinstance(b, (int, Fraction)) and b == 0 or isinstance(b, complex) and abs(b) < 1e-300: raise ZeroDivisionError
            if op == '/': return complex(a) / complex(b)
            if op == '//': return int(a / b) if not (isinstance(a, int) and isinstance(b, int)) else (abs(a) // abs(b)) * (1 if (a < 0) == (b < 0) else -1)
            return int(math.fmod(a, b))
        if op in ('bit^', 'bit|', 'bit&'):
            a, b = E(t[1]), E(t[2])
            if isinstance(a, bool) and isinstance(b, bool): return {'bit^': a != b, 'bit|': a or b, 'bit&': a and b}[op]
            a, b = int(a), int(b)
            return {'bit^': a ^ b, 'bit|': a | b, 'bit&': a & b}[op]
        if op == 'neg': return -self.num(E(t[1]))
        if op == 'fn': return ELEM[t[1]](complex(self.num(E(t[2]))))
        if op == 'pow': return self.power(E(t[1]), E(t[2]))
        if op in ('max', 'min'): return {'max': max, 'min': min}[op](E(t[1]), E(t[2]))
        if op == 'abs': return abs(self.num(E(t[1])))
        if op == 'mk': return self.make(t[1], [E(x) for x in t[2:]], t)
        if op == 'addop':
            x = E(t[2]); 
            if x is NULL: raise Crash('null dereference')
            a = [E(y) for y in t[3:]]
            flag = self.tr(a[1]) if len(a) > 1 else True
            v = self.num(a[0])
            if t[1] == 'SumOperator': return NodeV(x.v + (v if flag else -v), x.cls)
            if t[1] == 'MultOperator': return NodeV(x.v * v if flag else x.v / v, x.cls)
            raise Undecided(f'AddOperand of {t[1]}')
        if op == 'D':
            x = E(t[1]); 
            if x is NULL: raise Crash('null dereference')
            return self.D(x, t[2])
        if op == 'ev':
            x = E(t[1])
            if x is NULL: raise Crash('null dereference')
            return self.evrule(self, x, t[2], t[3])
        if op == 'attr':
            return self.attrv(E(t[1]), t[2])
        if op == 'mhas':
            d = E(t[1]); i = E(t[2]); return (i.key if isinstance(i, NodeV) else i) in d
        if op == 'findidx':
            l = E(t[1]); x = E(t[2])
            for i, y in enumerate(l):
                if x is y or isinstance(x, NodeV) and isinstance(y, NodeV) and x.key is not None and x.key == y.key or not isinstance(x, NodeV) and x == y: return i
            return len(l)
        if op == 'uninit': return NodeV(None, None, ('uninit', t[1]))
        if op == 'none': return None
        r = self.extra(op, t, env)
        return r
    def extra(self, op, t, env): raise Undecided(f'term {op}')
    def fail(self): raise Undecided('ordering of complex numbers')
    def tr(self, x):
        if isinstance(x, NodeV): return x is not NULL
        return bool(x)
    def sym(self, name): return self.node(name)
    def element(self, cont, i): return self.node(f'{cont}[{i}]')
    def attrv(self, x, n):
        if x is NULL: raise Crash('null dereference')
        if x.parts and n in x.parts: return x.parts[n]
        raise Undecided(f'attribute {n}')
    def D(self, x, v):
        if x.key is None: raise Undecided('derivative of a built expression')
        k = f'D({x.key})' + ('' if v == ('sym', 'v') else f'@{v}')
        if k not in self.memo:
            r = self.rnd(k, 'D')
            mode = r.choice(['gen', 'gen', 'zero', 'one', 'gen'])
            if x.cls in ('Float', 'Integer', 'Rational'): mode = 'zero'
            if mode == 'gen': nv = NodeV(self.gen(k), r.choice([None, None, 'Float', 'Integer']), k)
            else: nv = NodeV(complex(0 if mode == 'zero' else 1), r.choice([None, 'Float', 'Integer', 'Rational', 'Integer']), k)
            self.memo[k] = nv
        return self.memo[k]
    def power(self, a, b):
        a, b = self.num(a), self.num(b)
        if isinstance(b, int) or isinstance(b, complex) and b.imag == 0 and b.real == int(b.real) and abs(b.real) < 1e6:
            b = int(b.real if isinstance(b, complex) else b)
            if a == 0 and b < 0: raise ZeroDivisionError
            return complex(a) ** b
        if a == 0: raise ZeroDivisionError
        return cmath.exp(complex(b) * cmath.log(complex(a)))
    def make(self, cls, a, t):
        n = self.num
        if cls in ('SumOperator', 'MultOperator'):
            items = []; i = 0
            while i < len(a):
                if i + 1 < len(a) and isinstance(a[i + 1], bool): items.append((n(a[i]), a[i + 1])); i += 2
                else:
                    if isinstance(a[i], bool): raise Undecided('factory arguments')
                    items.append((n(a[i]), True)); i += 1
            v = 0 if cls == 'SumOperator' else 1
            for x, f in items:
                if cls == 'SumOperator': v = v + x if f else v - x
                else: v = v * x if f else v / x
            return NodeV(complex(v), cls)
        if cls == 'NegateOperator': return NodeV(-n(a[0]), cls)
        if cls in UNARY: return NodeV(ELEM[UNARY[cls]](complex(n(a[0]))), cls)
        if cls in ('PowerOperator', 'IntegerPowerOperator'): return NodeV(self.power(a[0], a[1]), cls)
        if cls in ('Integer', 'Float', 'Rational'):
            def lit(x):
                if isinstance(x, str):
                    try: return complex(float(Fraction(x)))
                    except ValueError: raise Undecided('literal')
                return complex(n(x))
            if len(a) == 1: return NodeV(lit(a[0]), cls)
            if len(a) == 2: return NodeV(lit(a[0]) + 1j * lit(a[1]), cls)
        if cls in ('Function', 'Handle') and len(a) in (1, 2): return NodeV(n(a[0]), cls)
        raise Undecided(f'factory of {cls}')
    def runloop(self, L, env):
        key = (L.uid, tuple(sorted((k[1], str(k[2]), repr(getattr(v, 'v', v)), repr(getattr(v, 'key', None))) for k, v in env.items())))
        if key in self.lcache: return self.lcache[key]
        vals = {w: self.ev(t, env) for w, t in L.init.items()}
        res = None
        for it in range(40):
            en = dict(env)
            for w, v in vals.items(): en[('acc', L.uid, w)] = v
            for facts, kind, nv, ret in L.paths:
                if not self.holds(facts, en): continue
                new = {w: self.ev(t, en) for w, t in nv.items()}
                if kind == 'fall': break
                res = {'vals': new, 'kind': kind, 'ret': self.ev(ret, en) if ret is not None and kind == 'ret' else None}
                break
            else: raise NoPath(f'line {L.line}')
            vals = new
            if res: break
        if res is None: raise Undecided('loop does not end')
        self.lcache[key] = res
        return res
    def holds(self, facts, env):
        for c, v in facts:
            if self.tr(self.ev(c, env)) != v: return False
        return True
    def pick(self, paths):
        for p in paths:
            if self.holds(p.facts, {}): return p
        raise NoPath('')

def same(a, b, tol=1e-8):
    if isinstance(a, NodeV): a = a.v
    if isinstance(b, NodeV): b = b.v
    if a is None or b is None: return a is b
    if isinstance(a, (bool, str)) or isinstance(b, (bool, str)): return a == b
    a, b = complex(a), complex(b)
    return abs(a - b) <= tol * (1 + abs(a) + abs(b))
