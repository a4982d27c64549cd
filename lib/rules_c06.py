"""C06: symbolic derivatives obey the rules of calculus."""
from denote import *
GROUPS = ['core/function_tree']
TECHNIQUE = 'abstract interpretation of every Differentiate method to a term over opaque operands and their derivatives (loops as recurrences, factories and operators as term constructors), compared with the differentiation rule of the node class as an identity over small algebraic models'
NOTE = 'LinearProduct is decided through its per-factor view (GetLinears, DiffLinear); constructs outside the term vocabulary are reported as not decided, never as violations.'

def flagged(name): return name in ('s',)

class M6(Model):
    def sym(self, name):
        if name == 'v':
            if self.choose['vnull']: return NULL
            if self.choose['cls'] == 'LinearProduct': return NodeV(None, 'Variable', self.lpv())
            return NodeV(None, 'Variable', 'self' if self.choose['vself'] else 'v')
        if name == 'this': return NodeV(self.gen('self'), self.choose['cls'], 'self')
        if name == 'n': return self.choose['n']
        if name == 'rational': return self.seed % 7 < 4
        return self.node(name)
    def lpv(self): return ['x[0]', 'x[1]', 'h', 'other'][self.seed % 4]
    def size(self, name): return 2 if name == 'x' else super().size(name)
    def D(self, x, v):
        if self.choose['cls'] == 'LinearProduct' and isinstance(x.key, str) and x.key.startswith('o[') and not self.choose['vnull']:
            col = {'x[0]': 0, 'x[1]': 1, 'h': 2}.get(self.lpv())
            return NodeV(0j if col is None else self.gen(f'c[{x.key[2:-1]}][{col}]'), None, 'D' + x.key)
        return super().D(x, v)
    def element(self, cont, i):
        if cont == 'x': return NodeV(None, 'Variable', f'x[{i}]')
        if cont == 's': return self.rnd(f's{i}', 'f').random() < .5
        return self.node(f'{cont}[{i}]')
    def extra(self, op, t, env):
        if op == 'elem2' and t[1][0] == 'coef':
            i, j = self.ev(t[2], env), self.ev(t[3], env)
            if not (0 <= i < self.size('o') and 0 <= j <= self.size('x')): raise Crash('coefficient index out of range')
            c = self.gen(f'c[{i}][{j}]')
            return {'re': c.real, 'im': c.imag, 'c': c}[t[1][1]]
        if op == 'deg':
            x = self.ev(t[1], env); d = self.D(x, t[2])
            if d.v == 0 and (x.cls is not None or d.cls is not None): return 0
            return self.rnd(f'deg{x.key}', 'i').choice([1, 2, -1])
        if op == 'lin':
            ids = self.ev(t[1], env)
            ids = ids if isinstance(ids, list) else [ids]
            v = 1
            for i in ids:
                if not 0 <= i < self.size('o'): raise Crash('factor index out of range')
                v *= self.node(f'o[{i}]').v
            return NodeV(complex(v), 'LinearProduct', None, {'ids': list(ids)})
        if op == 'difflin':
            x = self.ev(t[1], env)
            ids = x.parts['ids']
            if len(ids) != 1: raise Undecided('DiffLinear of a product')
            if not self.choose['vnull']: return NodeV(0j if self.D(self.node(f'o[{ids[0]}]'), ('sym', 'v')).v != 0 else 0j, 'DiffLinear')
            return NodeV(self.D(self.node(f'o[{ids[0]}]'), ('sym', 'v')).v, 'DiffLinear')
        if op == 'differential':
            x = self.ev(t[1], env)
            if x.key != 'self': raise Undecided('differential of another variable')
            return NodeV(self.gen('d self'), 'Differential', 'dself')
        return super().extra(op, t, env)

def expected(cls, M):
    n = M.num
    Dn = lambda k: M.D(M.node(k), ('sym', 'v')).v
    N = M.size('o')
    if cls == 'SumOperator': return sum((1 if M.element('s', i) else -1) * Dn(f'o[{i}]') for i in range(N))
    if cls in ('MultOperator', 'LinearProduct'):
        tot = 0
        sg = [1 if cls == 'LinearProduct' or M.element('s', i) else -1 for i in range(N)]
        for i in range(N):
            t = sg[i] * Dn(f'o[{i}]') * M.node(f'o[{i}]').v ** (sg[i] - 1)
            for j in range(N):
                if j != i: t *= M.node(f'o[{j}]').v ** sg[j]
            tot += t
        return tot
    u, du = (M.node('u').v, Dn('u'))
    if cls == 'NegateOperator': return -du
    if cls == 'PowerOperator':
        b, e = M.node('b').v, M.node('e').v
        return M.power(b, e) * (Dn('e') * cmath.log(b) + e * Dn('b') / b)
    if cls == 'IntegerPowerOperator':
        k = M.choose['n']
        return 0 if k == 0 else k * M.power(u, k - 1) * du
    if cls == 'SqrtOperator': return du / (2 * cmath.sqrt(u))
    if cls == 'ExpOperator': return cmath.exp(u) * du
    if cls == 'LogOperator': return du / u
    if cls == 'SinOperator': return cmath.cos(u) * du
    if cls == 'CosOperator': return -cmath.sin(u) * du
    if cls == 'TanOperator': return du / cmath.cos(u) ** 2
    if cls == 'ArcSinOperator': return du / cmath.sqrt(1 - u * u)
    if cls == 'ArcCosOperator': return -du / cmath.sqrt(1 - u * u)
    if cls == 'ArcTanOperator': return du / (1 + u * u)
    if cls == 'Variable': return M.gen('d self') if M.choose['vnull'] else (1 if M.choose['vself'] else 0)
    if cls in ('Number', 'Float', 'Integer', 'Rational', 'Pi', 'E'): return 0
    if cls in ('Handle', 'Function'): return Dn('r')
    return None

FIELDS = {'operands_': ('cont', 'o'), 'signs_': ('cont', 's'), 'mult_or_div_': ('cont', 's'), 'operand_': ('sym', 'u'), 'base_': ('sym', 'b'),
          'entry_node_': ('sym', 'r'), 'num_factors_': ('size', ('cont', 'o')), 'variables_': ('cont', 'x'), 'hom_variable_': ('sym', 'h'),
          'num_variables_': ('size', ('cont', 'x')), 'is_rational_coeffs_': ('sym', 'rational'), 'coeffs_rat_real_': ('coef', 're'), 'coeffs_rat_imag_': ('coef', 'im')}
CLASSES = ['SumOperator', 'MultOperator', 'NegateOperator', 'PowerOperator', 'IntegerPowerOperator', 'SqrtOperator', 'ExpOperator', 'LogOperator',
           'SinOperator', 'CosOperator', 'TanOperator', 'ArcSinOperator', 'ArcCosOperator', 'ArcTanOperator', 'Variable', 'Number', 'Float', 'Integer', 'Rational',
           'Handle', 'Function', 'LinearProduct', 'Pi', 'E']

def node_hook(d, e):
    n = e.get('n'); A = e.get('a') or []; cls = (e.get('cls') or '')
    if n == 'GetLinears': return d.newcell(('lin', d.val(A[0])))
    if n == 'Make' and cls == NODE + 'DiffLinear': return d.newcell(('difflin', d.val(A[0])))
    if n == 'Make' and cls == NODE + 'Differential': return ('differential', d.val(A[0]))
    if n == 'Degree' and e.get('o') is not None and e['o']['k'] != 'this' and len(A) <= 1:
        return ('deg', d.val(e['o']), d.val(A[0]) if A else ('null',))
    if n in ('operator+', 'operator-', 'operator*', 'operator/') and 'shared_ptr' in (e.get('t') or ''): return None
    return None

def isa_of(F):
    memo = {}
    def bases(q):
        if q not in memo:
            cs = F.cls(q)
            memo[q] = {q} | ({b['q'] for b in F.bases(cs[0])} if cs else set())
        return memo[q]
    def isa(c, target):
        if c is None: return target == NODE + 'Node'
        q = NODE + c
        return target in bases(q)
    return isa

def models(cls, isa, count):
    for s in range(count):
        n = 1 + s % 3
        def klass(m, k, r): return r.choice([None, None, None, 'Float', 'Integer', 'Rational', 'SumOperator', 'MultOperator'])
        yield M6(s, n, isa, choose={'class': klass, 'vnull': s % 5 == 4, 'vself': s % 2 == 0, 'cls': cls, 'n': [0, 1, 2, 3, -1, 4, -3, 7][s % 8]},
                 evrule=lambda M, x, T, dv: M.num(x))

def describe(M, cls):
    N = M.size('o')
    if cls in ('SumOperator', 'MultOperator'):
        return f"{N} operand(s), flags {[bool(M.element('s', i)) for i in range(N)]}, operand derivatives {[_d(M, i) for i in range(N)]}"
    if cls == 'IntegerPowerOperator': return f"exponent {M.choose['n']}"
    if cls == 'LinearProduct': return f"{N} factor(s), differentiation variable {'left symbolic' if M.choose['vnull'] else 'given'}"
    if cls == 'Variable': return 'variable ' + ('left symbolic' if M.choose['vnull'] else 'the variable itself' if M.choose['vself'] else 'another variable')
    if cls == 'PowerOperator': return f"derivative of the base {_v(M.D(M.node('b'), ('sym', 'v')))}, of the exponent {_v(M.D(M.node('e'), ('sym', 'v')))}"
    return 'generic operand'
def _v(d): return f'{d.v.real:g}' + (f' ({d.cls} node)' if d.cls else '') if d.v in (0, 1) else 'generic'
def _d(M, i): return _v(M.D(M.node(f'o[{i}]'), ('sym', 'v')))

def check(F, P, R):
    R.rule('derivative', 'for every node class, the expression built by Differentiate equals the derivative of the class operation, for all operand counts, flags, exponents and operand derivatives', 4)
    R.rule('number-zero', 'the derivative of a number is zero and of a variable one or zero', 1)
    isa = isa_of(F)
    owner = {}
    for c in CLASSES:
        q = NODE + c
        cs = F.cls(q)
        if not cs: continue
        fn = next((f for x in [q] + [b['q'] for b in F.bases(cs[0])] for f in F.fn(x + '::Differentiate')), None)
        if fn is None: continue
        owner.setdefault(fn['id'], (fn, []))[1].append(c)
    for fid, (fn, cs) in owner.items():
        for c in cs:
            rid = 'number-zero' if c in ('Number', 'Float', 'Integer', 'Rational', 'Pi', 'E', 'Variable') else 'derivative'
            fields = dict(FIELDS)
            fields['exponent_'] = ('sym', 'n') if c == 'IntegerPowerOperator' else ('sym', 'e')
            d = Den6(F, P, this_fields=fields, node_hook=node_hook)
            R.fn(fn)
            try:
                ps = d.function(fn, [('sym', 'v')], dyn=NODE + c)
                bad = None
                for M in models(c, isa, 480):
                    try: want = expected(c, M)
                    except ZeroDivisionError: continue
                    if want is None: raise Undecided('no rule for this class')
                    try:
                        p = M.pick(ps)
                        if p.kind == 'throw': continue
                        if p.kind != 'ret' or p.ret is None: raise Undecided('no result')
                        got = M.ev(p.ret, {})
                        if got is NULL: bad = (M, 'the result is null'); break
                        if not same(got, want): bad = (M, 'the built expression differs from the derivative'); break
                    except Crash as x: bad = (M, str(x)); break
                    except ZeroDivisionError: bad = (M, 'the built expression divides by zero'); break
                    except NoPath: raise Undecided('no path applies')
                    except (TypeError, KeyError, AttributeError, ValueError, IndexError) as x: raise Undecided(f'term outside the model ({type(x).__name__}: {x})')
            except Undecided as x:
                R.skip(rid, f'{c}: {x}', str(x)); continue
            if bad: R.bad(rid, f'{c}::Differentiate', F.loc(fn), f'{bad[1]} ({describe(bad[0], c)})')
            else: R.ok(rid, f'{c}::Differentiate: {len(ps)} path(s)')

class Den6(Den):
    def read(self, loc):
        if loc[0] == 'f' and loc[1].startswith('coeffs_<') and loc not in self.st.env: return ('coef', 'c')
        return super().read(loc)
    def val(self, e):
        v = super().val(e)
        if v == ('this',): return ('sym', 'this')
        return v
    def call(self, e):
        if e.get('n') == 'shared_from_this': return ('sym', 'this')
        return super().call(e)
    def arith(self, op, a, b, ints=False):
        return super().arith(op, a, b, ints)
