"""C05: every route to the value of an expression computes the operation of its node class."""
from denote import *
from rules_c06 import isa_of, FIELDS
GROUPS = ['core/function_tree', 'core/system/straight_line_program.cpp']
TECHNIQUE = 'abstract interpretation of every evaluation routine, constructor, operator overload, straight-line-program emitter and interpreter case to a term over opaque operands (loops as recurrences, program memory as a map), compared with the operation of the node class as an identity over small algebraic models'
NOTE = 'rounding is outside the term model: identities are over exact complex arithmetic.'

DBL = 'std::complex<double>'
NUMS = {'Integer': ['true_value_'], 'Float': ['highest_precision_value_'], 'Rational': ['true_value_real_', 'true_value_imag_']}

class M5(Model):
    variant = None
    def sym(self, name):
        if name == 'n': return self.choose['n']
        if name == 'this': return NodeV(self.gen('self'), self.choose.get('self'), 'self')
        if name == 'dv':
            return self.choose['dv'](self)
        if name == 'self_var': return self.node('x[0]')
        if name.startswith('num:'): return self.gen(name)
        if name == 'map0':
            d = {}
            for i, k in enumerate(self.children()):
                if self.rnd(k, 'm').random() < .5: d[k] = i
            for k in self.choose.get('pre', []): d[k] = 50
            return d
        if name == 'ints0': return [7, 2]
        if name == 'intmap0': return {7: 0, 2: 1}
        if name == 'mem0':
            return {i: self.node(k).v for i, k in enumerate(self.children()) if k in self.sym('map0')}
        if name == 'next0': return 100
        if name == 'top0': return {}
        return self.node(name)
    def children(self):
        return [f'o[{i}]' for i in range(self.size('o'))] + ['u', 'b', 'e', 'r']
    def element(self, cont, i):
        if cont == 's': return self.rnd(f's{i}', 'f').random() < .5
        return self.node(f'{cont}[{i}]')
    def size(self, c): return self.choose['nv'] if c == 'x' else self.n
    def node(self, key):
        if key in self.memo: return self.memo[key]
        nv = super().node(key)
        if nv.cls == 'IntegerPowerOperator':
            r = self.rnd(key, 'ip')
            op = self.node('pool%d' % r.randrange(2)) if not key.startswith('pool') else None
            if op is None: nv.cls = None
            else:
                ex = r.choice([-2, -1, 0, 1, 2, 3])
                nv.parts = {'operand_': op, 'exponent_': ex}
                nv.v = self.power(op, ex)
        return nv
    def make(self, cls, a, t):
        nv = super().make(cls, a, t)
        nv.key = ('mk', repr(t)); return nv
    def extra(self, op, t, env):
        E = lambda x: self.ev(x, env)
        if op == 'elem2':
            if t[1][0] == 'coef':
                i, j = E(t[2]), E(t[3])
                if not (0 <= i < self.size('o') and 0 <= j <= self.size('x')): raise Crash('coefficient index out of range')
                return self.gen(f'c{t[1][1]}[{i}][{j}]')
        if op == 'mput':
            m = dict(E(t[1])); m[E(t[2])] = self.num(E(t[3])); return m
        if op == 'mop':
            m = dict(E(t[1])); name = t[2]; a = E(t[3]); 
            if a not in m: raise Crash('an instruction reads memory nothing was stored in')
            x = m[a]
            out = E(t[5])
            if name in BIN:
                b = E(t[4])
                if name == 'IntPower':
                    ints = E(t[6])
                    if not 0 <= b < len(ints): raise Crash('an instruction names an integer that is not stored')
                    y = ints[b]
                else:
                    if b not in m: raise Crash('an instruction reads memory nothing was stored in')
                    y = m[b]
                m[out] = BIN[name](self, x, y)
            else: m[out] = UN[name](x)
            return m
        if op == 'elemmem': pass
        return super().extra(op, t, env)

BIN = {'Add': lambda M, x, y: x + y, 'Subtract': lambda M, x, y: x - y, 'Multiply': lambda M, x, y: x * y, 'Divide': lambda M, x, y: x / y,
       'Power': lambda M, x, y: M.power(x, y), 'IntPower': lambda M, x, y: M.power(x, y)}
UN = {'Assign': lambda x: x, 'Negate': lambda x: -x}
for _n, _f in (('Sqrt', 'sqrt'), ('Log', 'log'), ('Exp', 'exp'), ('Sin', 'sin'), ('Cos', 'cos'), ('Tan', 'tan'), ('Asin', 'asin'), ('Acos', 'acos'), ('Atan', 'atan')):
    UN[_n] = (lambda f: lambda x: ELEM[f](complex(x)))(_f)

def expected(cls, M, mp=False):
    v = lambda k: M.node(k).v
    N = M.size('o')
    if cls == 'SumOperator': return sum((1 if M.element('s', i) else -1) * v(f'o[{i}]') for i in range(N))
    if cls == 'MultOperator':
        p = 1
        for i in range(N): p = p * v(f'o[{i}]') if M.element('s', i) else p / v(f'o[{i}]')
        return p
    if cls == 'NegateOperator': return -v('u')
    if cls in UNARY: return ELEM[UNARY[cls]](v('u'))
    if cls == 'PowerOperator': return M.power(v('b'), v('e'))
    if cls == 'IntegerPowerOperator': return M.power(v('u'), M.choose['n'])
    if cls in ('Handle', 'Function'): return v('r')
    if cls == 'Integer': return M.gen('num:true_value_')
    if cls == 'Float': return M.gen('num:highest_precision_value_')
    if cls == 'Rational': return M.gen('num:true_value_real_') + 1j * M.gen('num:true_value_imag_')
    if cls == 'Pi': return math.pi
    if cls == 'E': return math.e
    c = 'mp' if mp else 'd'
    nv = M.choose['nv']
    if cls == 'LinearProduct':
        p = 1
        for i in range(N): p *= sum(M.gen(f'c{c}[{i}][{j}]') * v(f'x[{j}]') for j in range(nv)) + M.gen(f'c{c}[{i}][{nv}]') * v('h')
        return p
    if cls == 'DiffLinear':
        k = M.choose['dv'](M).key
        for j in range(nv):
            if k == f'x[{j}]': return M.gen(f'c{c}[0][{j}]')
        return M.gen(f'c{c}[0][{nv}]') if k == 'h' else 0
    if cls == 'Differential': return 1 if M.choose['dv'](M).key == 'x[0]' else 0
    return None

def klass(m, k, r): return None
def mk_models(isa, count, mp=False, mixed=False, self=None):
    for s in range(count):
        nv = 1 + (s // 3) % 2
        dvs = [f'x[{j}]' for j in range(nv)] + ['h', 'other']
        def dv(M, s=s, dvs=dvs): return M.node(dvs[s % len(dvs)])
        def ev(M, x, T, d, mp=mp):
            right = (T == DBL) != mp
            # an exponent does not involve the differentiation variable's differential: evaluating it for no variable is the same
            if not right or d != ('sym', 'dv') and not (x.key == 'e' and d == ('null',)):
                return M.gen(f'wrong {x.key} {T} {d}')
            return M.num(x)
        kl = klass if not mixed else (lambda m, k, r: r.choice([None, 'IntegerPowerOperator', 'IntegerPowerOperator', 'Float', 'SumOperator']))
        yield M5(s, 1 + s % 3, isa, choose={'class': kl, 'self': self, 'n': [0, 1, 2, 3, -1, 4, -3, 7][s % 8], 'nv': nv, 'dv': dv}, evrule=ev)

class Den5(Den):
    def val(self, e):
        v = super().val(e)
        return ('sym', 'this') if v == ('this',) else v
    def call(self, e):
        n = e.get('n')
        if n == 'shared_from_this':
            o = e.get('o'); return self.val(o) if o is not None and o['k'] != 'this' else ('sym', 'this')
        if n in ('convert_to', 'str') and e.get('o') is not None: return self.val(e['o'])
        if n in ('DefaultPrecision', 'Precision', 'precision') and not e.get('a'): return ('sym', 'prec')
        if n == 'Precision' or n == 'precision': return ('none',)
        return super().call(e)
    def attr(self, o, n):
        if o == ('sym', 'this') and n in self.fields: return self.fields[n]
        return super().attr(o, n)

def fields_for(c):
    f = dict(FIELDS)
    f['exponent_'] = ('sym', 'n') if c == 'IntegerPowerOperator' else ('sym', 'e')
    for k in NUMS.get(c, []): f[k] = ('sym', 'num:' + k)
    for k in ('temp_d_', 'temp_mp_', 'temp_sum_d_', 'temp_sum_mp_'): f[k] = ('uninit', k)
    f.update({'variables_': ('cont', 'x'), 'hom_variable_': ('sym', 'h'), 'num_variables_': ('size', ('cont', 'x')),
              'differential_variable_': ('sym', 'self_var'),
              'temp_var_d_': ('list',) + (('uninit', 'w'),) * 3, 'temp_var_mp_': ('list',) + (('uninit', 'w'),) * 3})
    return f

def field_loc(d, e): return None

def check(F, P, R):
    R.rule('eval-route', 'each of the four evaluation routines (double or multiple precision, returned or in place) of a node class computes the class operation on its operands, evaluated in the same number type and for the same differentiation variable', 20)
    R.rule('construct', 'constructors and AddOperand store the given operands with the given flags, in order', 2)
    R.rule('operator', 'every operator overload and named function on expressions denotes its operation on its arguments in order', 10)
    R.rule('slp-emit', 'the instructions emitted for a node compute the class operation from the locations of its operands into a fresh location recorded for the node', 4)
    R.rule('slp-step', 'each interpreter case of a straight-line program performs the operation its opcode names and the program counter advances over exactly that instruction', 0)
    R.rule('slp-compile', 'compiling a system assigns every variable, function and derivative its own location in the blocks the program reports, and nothing is read before it is computed', 0)
    isa = isa_of(F)
    slp_compile(F, P, R, isa)
    eval_routes(F, P, R, isa)
    constructors(F, P, R, isa)
    operators(F, P, R, isa)
    slp_emit(F, P, R, isa)
    slp_step(F, P, R, isa)

def compare(R, rid, key, F, fn, ps, models, want, got):
    """evaluate got(M, path) against want(M) in every model"""
    bad = None
    for M in models:
        try: w = want(M)
        except ZeroDivisionError: continue
        if w is None: raise Undecided('no rule')
        try:
            p = M.pick(ps)
            if p.kind == 'throw': continue
            g = got(M, p)
            if isinstance(g, str): bad = (M, g); break
            if not same(g, w): bad = (M, 'computes something else'); break
        except Crash as x: bad = (M, str(x)); break
        except ZeroDivisionError: bad = (M, 'divides by zero'); break
        except NoPath: raise Undecided('no path applies')
        except (TypeError, KeyError, AttributeError, ValueError, IndexError) as x: raise Undecided(f'term outside the model ({type(x).__name__}: {x})')
    if bad:
        M = bad[0]
        N = M.size('o')
        R.bad(rid, key, F.loc(fn), f"{bad[1]} (model: {N} operand(s), flags {[bool(M.element('s', i)) for i in range(N)]}, integer {M.choose['n']}, differentiation variable {M.choose['dv'](M).key})")
    else: R.ok(rid, f'{key}: {len(ps)} path(s)')

def eval_routes(F, P, R, isa):
    for mp in (False, True):
        nm = 'FreshEval_mp' if mp else 'FreshEval_d'
        for fn in sorted((f for f in F.fns.values() if f['n'] == nm and f.get('body') and not f['pattern'] and (f.get('cls') or '').startswith(NODE)), key=lambda f: f['id']):
            c = fn['cls'].split('::')[-1]
            inplace = len(fn['params']) == 2
            key = f"{c}::{nm}{' in place' if inplace else ''}"
            if c in ('Variable', 'Jacobian', 'Node'): continue
            R.fn(fn)
            fl = fields_for(c)
            for t, l in (('Eigen::Matrix<std::complex<double>', 'd'), ('Eigen::Matrix<boost', 'mp')): pass
            d = DenC(F, P, this_fields=fl)
            st = St(env={('v', 0, 'out'): ('uninit', 'out')})
            args = ([('alias', ('v', 0, 'out'))] if inplace else []) + [('sym', 'dv')]
            try:
                ps = d.function(fn, args, dyn=fn['cls'], st=st)
                if expected(c, next(mk_models(isa, 1)), mp) is None: raise Undecided('no rule for this class')
                def got(M, p):
                    if not inplace:
                        if p.kind != 'ret' or p.ret is None: raise Undecided('no result')
                        return M.num(M.ev(p.ret, {}))
                    v = M.ev(d.final(p, ('v', 0, 'out')), {})
                    if isinstance(v, NodeV) and v.v is None: return 'the result is never assigned'
                    return M.num(v)
                compare(R, 'eval-route', key, F, fn, ps, mk_models(isa, 96, mp), lambda M: expected(c, M, mp), got)
            except Undecided as x: R.skip('eval-route', key, str(x))

class DenC(Den5):
    """coefficient matrices held in a tuple by number type"""
    def read(self, loc):
        if loc[0] == 'f' and loc[1].startswith('coeffs_<') and loc not in self.st.env:
            return ('coef', 'd' if 'std::complex<double>' in loc[1] or '<dbl' in loc[1] else 'mp')
        return super().read(loc)

def constructors(F, P, R, isa):
    for fn in sorted((f for f in F.fns.values() if f['kind'] == 'ctor' and not f['pattern'] and (f.get('cls') or '').startswith(NODE) and not f.get('copy') and not f.get('move')
                      and not f.get('implicit') and f['params']), key=lambda f: f['id']):
        c = fn['cls'][len(NODE):]
        if c not in UNARY and c not in ('SumOperator', 'MultOperator', 'NegateOperator', 'PowerOperator', 'IntegerPowerOperator'): continue
        key = f"{c}({', '.join('bool' if p['t'] == 'bool' else 'int' if p['t'] in ('int', 'const int &') else 'node' for p in fn['params'])})"
        R.fn(fn)
        env = {('f', 'operands_'): ('list',), ('f', 'signs_'): ('list',), ('f', 'mult_or_div_'): ('list',), ('f', 'operand_'): ('null',), ('f', 'base_'): ('null',)}
        vals = []; names = []
        for i, p in enumerate(fn['params']):
            if p['t'] == 'bool': vals.append(('elem', ('cont', 's'), ('int', i)))
            elif 'shared_ptr' in p['t']: vals.append(('sym', f'p{i}'))
            elif p['t'] in ('int', 'const int &'): vals.append(('sym', 'n'))
            else: vals = None; break
        if vals is None: R.skip('construct', key, 'parameter type'); continue
        d = Den5(F, P)
        try:
            ps = d.function(fn, vals, dyn=fn['cls'], st=St(env=env))
            def flag(M, i): return M.element('s', i)
            def want(M):
                if c in ('SumOperator', 'MultOperator'):
                    r = 0 if c == 'SumOperator' else 1
                    for i, p in enumerate(fn['params']):
                        if 'shared_ptr' not in p['t']: continue
                        f = flag(M, i + 1) if i + 1 < len(vals) and fn['params'][i + 1]['t'] == 'bool' else True
                        x = M.node(f'p{i}').v
                        r = (r + x if f else r - x) if c == 'SumOperator' else (r * x if f else r / x)
                    return r
                if c == 'PowerOperator': return M.power(M.node('p0'), M.node('p1'))
                if c == 'IntegerPowerOperator': return M.power(M.node('p0'), M.choose['n'])
                return M.node('p0').v
            def got(M, p):
                g = lambda f: M.ev(d.final(p, ('f', f)), {})
                if c in ('SumOperator', 'MultOperator'):
                    ops = g('operands_'); fl = g('signs_' if c == 'SumOperator' else 'mult_or_div_')
                    if len(ops) != len(fl): return f'{len(ops)} operand(s) but {len(fl)} flag(s) are stored'
                    r = 0 if c == 'SumOperator' else 1
                    for x, f in zip(ops, fl):
                        x = M.num(x)
                        r = (r + x if f else r - x) if c == 'SumOperator' else (r * x if f else r / x)
                    return r
                if c == 'PowerOperator': return M.power(g('base_'), g('exponent_'))
                if c == 'IntegerPowerOperator': return M.power(g('operand_'), g('exponent_'))
                return M.num(g('operand_'))
            ms = [m for m in mk_models(isa, 64)]
            for m in ms: m.n = 6
            compare(R, 'construct', key, F, fn, ps, ms, want, got)
        except Undecided as x: R.skip('construct', key, str(x))
    for c, fld in (('SumOperator', 'signs_'), ('MultOperator', 'mult_or_div_')):
        for fn in F.fn(NODE + c + '::AddOperand'):
            key = f"{c}::AddOperand({len(fn['params'])})"
            R.fn(fn)
            d = Den5(F, P)
            env = {('f', 'operands_'): ('list', ('sym', 'q0')), ('f', fld): ('list', ('elem', ('cont', 's'), ('int', 0)))}
            try:
                ps = d.function(fn, [('sym', 'p0')] + [('elem', ('cont', 's'), ('int', 1))] * (len(fn['params']) - 1), dyn=NODE + c, st=St(env=env))
                def want(M):
                    r = 0
                    for i, (x, f) in enumerate((('q0', M.element('s', 0)), ('p0', M.element('s', 1) if len(fn['params']) > 1 else True))): r += (i + 1) * (M.node(x).v if f else -M.node(x).v)
                    return r
                def got(M, p):
                    ops = M.ev(d.final(p, ('f', 'operands_')), {}); fl = M.ev(d.final(p, ('f', fld)), {})
                    if len(ops) != len(fl): return f'{len(ops)} operand(s) but {len(fl)} flag(s) are stored'
                    return sum((i + 1) * (M.num(x) if f else -M.num(x)) for i, (x, f) in enumerate(zip(ops, fl)))
                ms = list(mk_models(isa, 32))
                for m in ms: m.n = 6
                compare(R, 'construct', key, F, fn, ps, ms, want, got)
            except Undecided as x: R.skip('construct', key, str(x))

OPS = {'operator+': '+', 'operator-': '-', 'operator*': '*', 'operator/': '/', 'operator+=': '+', 'operator-=': '-', 'operator*=': '*', 'operator/=': '/', 'pow': 'pow'}
def ptr_class(t):
    t = t.replace('const ', '')
    import re
    m = re.search(r'shared_ptr<(?:const )?bertini::node::(\w+)>', t)
    return m.group(1) if m else None

def operators(F, P, R, isa):
    for fn in sorted((f for f in F.fns.values() if f['kind'] == 'func' and f.get('body') and not f['pattern'] and f['q'].startswith(NODE)), key=lambda f: f['id']):
        n = fn['n']
        if 'shared_ptr' not in fn['ret']: continue
        if n in OPS or n in ELEM: pass
        else: continue
        ps_ = fn['params']
        if not any(ptr_class(p['t']) for p in ps_): continue
        short = lambda t: (ptr_class(t) or t.replace('const ', '').replace('boost::multiprecision::', '').replace('backends::', '').split('<')[-1].split('>')[0].split(',')[0].strip())
        key = f"{n}({', '.join(short(p['t']) for p in ps_)})"
        R.fn(fn)
        st = St(); vals = []
        for i, p in enumerate(ps_):
            pc = ptr_class(p['t'])
            if pc:
                st.heap[i + 1] = ('sym', f'p{i}'); v = ('cell', i + 1)
                st.env[('v', 0, f'p{i}')] = v
                isref = p['t'].rstrip().endswith('&') and not p['t'].startswith('const ')
                vals.append(('alias', ('v', 0, f'p{i}')) if isref else v)
            elif p['t'].replace('const ', '').rstrip(' &') in ('int', 'unsigned int', 'long'): vals.append(('sym', 'n'))
            else: vals.append(('sym', f'num:p{i}'))
        d = Den5(F, P); d.cells = 10
        compound = n.endswith('=')
        def arg(M, i):
            t = vals[i]
            if t == ('sym', 'n'): return M.choose['n']
            if t[0] == 'sym': return M.gen(t[1])
            return M.node(f'p{i}').v
        def want(M):
            a = [arg(M, i) for i in range(len(ps_))]
            if n in ELEM: return ELEM[n](complex(a[0]))
            o = OPS[n]
            if o == 'pow': return M.power(a[0], a[1])
            if len(a) == 1: return -a[0] if o == '-' else a[0]
            return a[0] + a[1] if o == '+' else a[0] - a[1] if o == '-' else a[0] * a[1] if o == '*' else complex(a[0]) / a[1]
        def got(M, p):
            r = M.num(M.ev(p.ret, {}))
            if compound:
                l = M.num(M.ev(d.final(p, ('v', 0, 'p0')), {}))
                if not same(l, r): return 'the left operand does not hold the result'
            return r
        pcs = [ptr_class(p['t']) for p in ps_]
        try:
            d.cell_class = pcs
            pths = d.function(fn, vals, st=st)
            def models():
                for M in mk_models(isa, 160, mixed=True):
                    for i, pc in enumerate(pcs):
                        if pc and pc != 'Node': M.memo[f'p{i}'] = NodeV(M.gen(f'p{i}'), pc, f'p{i}')
                    yield M
            compare(R, 'operator', key, F, fn, pths, models(), want, got)
        except Undecided as x: R.skip('operator', key, str(x))

COMP = ('SLPCompiler::',)
class DenS(Den5):
    def call(self, e):
        n = e.get('n'); A = e.get('a') or []
        if n == 'Accept':
            x = self.val(e['o'])
            nx = self.read(('f', 'next_available_complex_'))
            m = self.read(('f', 'locations_encountered_nodes_'))
            self.write(('f', 'locations_encountered_nodes_'), ('upd', m, x, nx))
            self.write(('f', '$mem'), ('mput', self.read(('f', '$mem')), nx, x))
            self.write(('f', 'next_available_complex_'), ('+', nx, ('int', 3)))
            return ('none',)
        if n == 'AddNumber':
            self.write(('f', '$mem'), ('mput', self.read(('f', '$mem')), self.val(A[1]), self.val(A[0]))); return ('none',)
        if n == 'AddInstruction':
            v = [self.val(a) for a in A]
            if v[0][0] != 'enum': raise Undecided('computed opcode')
            op = v[0][1].split('::')[-1]
            if op not in BIN and op not in UN: raise Undecided(f'opcode {op}')
            if (len(v) == 4) != (op in BIN): raise Undecided('arity of an instruction')
            ints = self.read(('f', 'slp_under_construction_.integers_')) if op == 'IntPower' else ('list',)
            self.write(('f', '$mem'), ('mop', self.read(('f', '$mem')), op, v[1], v[2] if len(v) == 4 else ('int', 0), v[-1], ints)); return ('none',)
        return super().call(e)

def slp_emit(F, P, R, isa):
    for fn in sorted(F.fn('bertini::SLPCompiler::Visit'), key=lambda f: f['id']):
        t = fn['params'][0]['t'].replace('const ', '').rstrip(' &')
        c = t.split('::')[-1]
        key = f'SLPCompiler::Visit({c})'
        if c in ('Variable', 'Jacobian', 'Differential'): continue
        R.fn(fn)
        fl = fields_for(c)
        env = {('f', 'locations_encountered_nodes_'): ('sym', 'map0'), ('f', 'next_available_complex_'): ('sym', 'next0'), ('f', '$mem'): ('sym', 'mem0'),
               ('f', 'locations_integers_'): ('sym', 'intmap0'), ('f', 'slp_under_construction_.integers_'): ('sym', 'ints0'),
               ('f', 'locations_top_level_functions_and_derivatives_'): ('sym', 'top0')}
        d = DenS(F, P, this_fields=fl)
        try:
            ps = d.function(fn, [('sym', 'this')], st=St(env=env))
            number = c in NUMS or c in ('Pi', 'E')
            if not number and expected(c, next(mk_models(isa, 1))) is None: raise Undecided('no rule for this class')
            def got(M, p):
                g = lambda f: M.ev(d.final(p, ('f', f)), {})
                mp_, mem, nx = g('locations_encountered_nodes_'), g('$mem'), g('next_available_complex_')
                if 'self' not in mp_: return 'the location of the node is not recorded'
                if mp_['self'] not in mem: return 'nothing is stored at the location recorded for the node'
                if any(l >= nx for l in mem): return 'the next free location is one already in use, so a later instruction overwrites it'
                for k, l in mp_.items():
                    if k in M.children() and not same(mem.get(l), M.node(k).v): return 'the stored value of an operand is overwritten'
                return mem[mp_['self']]
            compare(R, 'slp-emit', key, F, fn, ps, mk_models(isa, 96, self=c), (lambda M: M.gen('self')) if number else (lambda M: expected(c, M)), got)
        except Undecided as x: R.skip('slp-emit', key, str(x))

SYSQ = {'VariableOrdering': ('cont', 'vars'), 'GetNaturalFunctions': ('cont', 'fns'), 'GetSpaceDerivatives': ('cont', 'jac'), 'GetTimeDerivatives': ('cont', 'td'),
        'NumNaturalFunctions': ('size', ('cont', 'fns')), 'NumVariables': ('size', ('cont', 'vars')), 'GetPathVariable': ('sym', 'pathvar'), 'HavePathVariable': ('sym', 'havepath')}
class DenX(DenS):
    def ctor(self, e):
        if 'StraightLineProgram' in e.get('t', ''): return ('none',)
        return super().ctor(e)
    def call(self, e):
        n = e.get('n')
        if n in SYSQ and (e.get('cls') or '') == 'bertini::System': return SYSQ[n]
        if n in ('GetMemory', 'CopyNumbersIntoMemory', 'resize'): return ('none',)
        if n == 'Accept':
            x = self.val(e['o']); m = self.read(('f', 'locations_encountered_nodes_')); top = self.read(('f', 'locations_top_level_functions_and_derivatives_')); nx = self.read(('f', 'next_available_complex_'))
            mem = self.read(('f', '$mem'))
            for k, nm in (('locations_encountered_nodes_', 'map'), ('$mem', 'mem'), ('next_available_complex_', 'next')):
                self.write(('f', k), ('visit', nm, x, m, top, nx, mem))
            return ('none',)
        return super().call(e)

class MX(M5):
    def size(self, c): return {'vars': 2, 'fns': self.choose['nf'], 'jac': 2 * self.choose['nf'], 'td': self.choose['nf']}.get(c, 1)
    def element(self, cont, i):
        if cont == 'fns' and self.choose['dup'] and i == self.size('fns') - 1: i = 0
        return self.node(f'{cont}[{i}]')
    def sym(self, name):
        if name == 'havepath': return self.choose['path']
        if name in ('map0', 'top0', 'mem0', 'intmap0'): return {}
        if name == 'ints0': return []
        if name == 'next0': return 0
        return super().sym(name)
    def children(self): return []
    def extra(self, op, t, env):
        if op == 'visit':
            x, m, top, nx, mem = (self.ev(y, env) for y in t[2:])
            m = dict(m); mem = dict(mem)
            for k, l in m.items():
                if k.startswith(('fns', 'jac', 'td')) and l not in mem: raise Crash('while a function is compiled, one that is not computed yet is already recorded as computed')
                if k.startswith(('vars', 'pathvar')) and l in mem: raise Crash('the location of an input is overwritten')
            for v in [f'vars[{i}]' for i in range(2)] + (['pathvar'] if self.choose['path'] else []):
                if v not in m: raise Crash('a function is compiled before the location of a variable is recorded')
            if x.key in m: l = m[x.key]
            elif x.key in top: l = top[x.key]
            else: l = nx; nx += 1
            # the sub-expressions of x take fresh locations
            mem[nx] = self.gen('sub' + x.key); nx += 1
            m[x.key] = l; mem[l] = x.v
            return {'map': m, 'mem': mem, 'next': nx}[t[1]]
        return super().extra(op, t, env)

def slp_compile(F, P, R, isa):
    for fn in F.fn('bertini::SLPCompiler::Compile'):
        R.fn(fn)
        env = {('f', 'locations_encountered_nodes_'): ('sym', 'map0'), ('f', 'next_available_complex_'): ('sym', 'next0'), ('f', '$mem'): ('sym', 'mem0'),
               ('f', 'next_available_int_'): ('int', 0), ('f', 'locations_integers_'): ('sym', 'intmap0'), ('f', 'slp_under_construction_.integers_'): ('sym', 'ints0'),
               ('f', 'locations_top_level_functions_and_derivatives_'): ('sym', 'top0')}
        d = DenX(F, P)
        key = 'SLPCompiler::Compile'
        try:
            ps = d.function(fn, [('sym', 'sys')], st=St(env=env))
            def models():
                for s in range(12):
                    yield MX(s, 1, isa, choose={'class': klass, 'nf': 1 + s % 3, 'path': bool(s // 3 % 2), 'dup': s >= 6, 'n': 0, 'nv': 1, 'dv': lambda M: M.node('other')}, evrule=None)
            def got(M, p):
                g = lambda f: M.ev(d.final(p, ('f', f)), {})
                U = 'slp_under_construction_.'
                mem, mp_ = g('$mem'), g('locations_encountered_nodes_')
                def num(blk, cont):
                    if g(U + 'number_of_.' + blk) != M.size(cont): return f'the recorded number of {blk} is wrong'
                    base = g(U + 'output_locations_.' + blk)
                    for i in range(M.size(cont)):
                        if base + i not in mem or not same(mem[base + i], M.element(cont, i).v): return f'output {i} of the block {blk} does not hold its value'
                r = num('Functions', 'fns') or num('Jacobian', 'jac') or (M.choose['path'] and num('TimeDeriv', 'td'))
                if r: return r
                if g(U + 'number_of_.Variables') != 2: return 'the recorded number of variables is wrong'
                b = g(U + 'input_locations_.Variables')
                for i in range(2):
                    if mp_.get(f'vars[{i}]') != b + i: return 'the block of input variables is not where the variables are read'
                if M.choose['path'] and mp_.get('pathvar') != g(U + 'input_locations_.Time'): return 'the path variable is not where it is read'
                if any(l >= g('next_available_complex_') for l in mem): return 'memory is smaller than the locations in use'
                return 1
            compare(R, 'slp-compile', key, F, fn, ps, models(), lambda M: 1, got)
        except Undecided as x: R.skip('slp-compile', key, str(x))

class MS(M5):
    def sym(self, name):
        if name == 'mem': return [self.gen(f'm{i}') for i in range(9)]
        if name == 'instr': return self.choose['instr']
        if name == 'ints': return [3, -2, 5]
        if name == 'done': return False
        return super().sym(name)

def slp_step(F, P, R, isa):
    ops = F.enums.get('bertini::Operation')
    un = F.fn('bertini::IsUnary')
    for fn in F.fn('bertini::StraightLineProgram::Eval'):
        if fn['params']: continue
        R.fn(fn)
        mp = DBL not in str(fn.get('ta') or fn['id']) and 'complex>#d' not in fn['id']
        T = 'mp' if mp else 'd'
        names = [c['n'] for c in ops['consts']]
        val = {c['n']: int(c['v']) for c in ops['consts']}
        d = DenE(F, P, this_fields={'instructions_': ('sym', 'instr'), 'integers_': ('sym', 'ints'), 'precision_': ('sym', 'prec')})
        d.vals = val
        key0 = 'double' if not mp else 'multiple precision'
        try: ps = d.function(fn, [], st=St(env={('f', '$done'): ('bool', False)}))
        except Undecided as x:
            for n in names: R.skip('slp-step', f'{n} ({key0})', str(x))
            continue
        for n in names:
            key = f'{n} ({key0})'
            if n not in BIN and n not in UN: R.skip('slp-step', key, 'no rule for this opcode'); continue
            def models():
                for s in range(8):
                    # the opcode under test, then an Assign into cell 8: shows whether the counter advanced over exactly one instruction
                    ins = [val[n]] + ([1, 2, 7] if n in BIN else [1, 7]) + [val['Assign'], 7, 8]
                    if n == 'IntPower': ins[2] = s % 3
                    M = MS(s, 2, isa, choose={'instr': ins, 'n': 0, 'nv': 1, 'dv': lambda M: M.node('other'), 'class': klass}, evrule=None)
                    yield M
            def want(M):
                a, b = M.gen('m1'), M.gen('m2')
                if n == 'IntPower': return M.power(a, [3, -2, 5][M.choose['instr'][2]])
                return BIN[n](M, a, b) if n in BIN else UN[n](a)
            def got(M, p):
                loc = [l for l in p.st.env if l[0] == 'f' and l[1].startswith('memory_<')]
                if len(loc) != 1: raise Undecided('memory')
                mem = M.ev(d.final(p, loc[0]), {})
                if not same(mem[8], mem[7]): return 'the program counter does not advance to the next instruction'
                for i in range(7):
                    if not same(mem[i], M.gen(f'm{i}')): return 'another memory cell changes'
                return mem[7]
            try: compare(R, 'slp-step', key, F, fn, ps, models(), want, got)
            except Undecided as x: R.skip('slp-step', key, str(x))

class DenE(Den5):
    def read(self, loc):
        if loc[0] == 'f' and loc[1].startswith('memory_<') and loc not in self.st.env:
            self.st.env[loc] = ('sym', 'mem')
        return super().read(loc)
    def val(self, e):
        v = super().val(e)
        if v[0] == 'enum' and v[1].split('::')[-1] in self.vals: return ('int', self.vals[v[1].split('::')[-1]])
        return v
    def call(self, e):
        if e.get('n') == 'IsEvaluated': return ('bool', False)
        if e.get('n') == 'Precision': return ('sym', 'prec')
        return super().call(e)
    def lval(self, e):
        if e['k'] == 'call' and e.get('n') == 'IsEvaluated': return ('f', '$done')
        return super().lval(e)
