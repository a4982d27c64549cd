"""C07: a precision change reaches every part of an object."""
from denote import *
from rules_c06 import isa_of
GROUPS = ['core/function_tree', 'core/system', 'algorithms']
TECHNIQUE = 'abstract interpretation of every precision-changing method with numbers abstracted to (origin, correct digits, precision), over all old and new precisions in a small lattice and all container sizes up to three; the final abstract state of every multiple-precision member and child must be at the new precision'
NOTE = 'assumes the protocol that the default precision equals the new precision at the call; the values themselves are abstracted away.'

MPT = ('mpc_complex_backend', 'mpfr_float_backend')
EVALS = {'Eval', 'EvalInPlace'}
# exact sources the working values are taken from: they keep their own precision
SOURCES = {'coefficients_highest_precision_', 'constants_highest_precision_', 'highest_precision_value_', 'endtime_highest_precision_'}
HI = 100

class MPV:
    """a multiple-precision number: where its value comes from, how many digits of it are right, the precision it is held at"""
    __slots__ = ('id', 'digits', 'prec')
    def __init__(s, i, d, p): s.id, s.digits, s.prec = i, d, p
    def __repr__(s): return f'{s.id}:{s.digits}@{s.prec}'
def setprec(x, p):
    if isinstance(x, list): return [setprec(y, p) for y in x]
    if isinstance(x, MPV): return MPV(x.id, min(x.digits, p), p)
    return x
def leaves(x):
    if isinstance(x, list):
        for y in x: yield from leaves(y)
    else: yield x

class M7(Model):
    def sym(self, name):
        c = self.choose
        if name == 'new': return c['new']
        if name == 'old': return c['old']
        if name == 'prec0': return {}
        if name.startswith('mp:'): return MPV(name[3:], c['old'], c['old'])
        if name.startswith('src:'): return MPV(name[4:], HI, HI)
        if name.startswith('rat:'): return MPV(name[4:], 1000, 1000)
        if name.startswith('flag:'): return c['flags'].get(name[5:], False)
        if name.startswith('enum:'): return c['enums'][name[5:]]
        return self.node(name)
    def size(self, name):
        return self.choose['len'](name)
    def element(self, cont, i):
        kind, name, rank = cont.split('|')
        def at(idx, r):
            if r > 1: return [at(idx + [j], r - 1) for j in range(self.choose['len'](cont))]
            s = name + ''.join(f'[{k}]' for k in idx)
            if kind == 'mp': return MPV(s, self.choose['old'], self.choose['old'])
            if kind == 'src': return MPV(s, HI, HI)
            if kind == 'rat': return MPV(s, 1000, 1000)
            if kind == 'int': return self.choose['len'](cont)
            if kind == 'num': return [self.node(s), 2 * idx[0] + 1]
            return self.node(s)
        return at([i], int(rank))
    def extra(self, op, t, env):
        E = lambda x: self.ev(x, env)
        if op == 'setprec': return setprec(E(t[1]), E(t[2]))
        if op == 'precof':
            x = E(t[1])
            while isinstance(x, list):
                if not x: return 0
                x = x[0]
            return x.prec if isinstance(x, MPV) else 16
        if op == 'part':
            x, y = E(t[1]), E(t[2])
            if not isinstance(y, MPV): y = MPV(str(y), 1000, 1000)
            return MPV(y.id if y.id.split('/')[0] != x.id else x.id, min(y.digits, x.prec), x.prec)
        if op == 'fresh':
            p = E(t[2]); return MPV(t[1], p, p)
        if op == 'freshall':
            x = E(t[2]); p = E(t[3])
            f = lambda z: [f(q) for q in z] if isinstance(z, list) else MPV(z.id if isinstance(z, MPV) else t[1], p, p)
            return f(x)
        if op == 'nodeval':
            x = E(t[1]); m = E(t[2]); p = m.get(x.key, self.choose['old']) if isinstance(x, NodeV) else 0
            return MPV('value of ' + str(x.key), p, p)
        if op == 'tomp':
            x = E(t[1]); p = E(t[2])
            f = lambda z: [f(q) for q in z] if isinstance(z, list) else (MPV(z.id, min(z.digits, p), p) if isinstance(z, MPV) else MPV('?', p, p))
            return f(x)
        if op == 'todbl':
            f = lambda z: [f(q) for q in z] if isinstance(z, list) else (MPV(z.id, min(z.digits, 16), 16) if isinstance(z, MPV) else z)
            return f(E(t[1]))
        return super().extra(op, t, env)

def ismp(t): return any(x in t for x in MPT)
OBJ = ('bertini::System', 'bertini::Patch', 'bertini::StraightLineProgram', 'bertini::node::', 'bertini::tracking::predict::', 'bertini::tracking::correct::')

class Den7(Den):
    ids = None
    def lval(self, e):
        if e['k'] == 'op' and e['op'] == '()' and len(e['a']) in (2, 3) and '(lambda at' not in (e['a'][0].get('t') or ''):
            l = self.lval(e['a'][0])
            for a in e['a'][1:]: l = ('el', l, self.val(a))
            return l
        if e['k'] == 'call' and e.get('n') == 'IsEvaluated': return ('f', '$evaluated')
        if e['k'] == 'call' and e.get('f') == 'std::get' and e.get('ta'):
            l = self.lval(e['a'][0])
            if l[0] == 'el': return ('el', l, ('int', 0 if 'ptr' in e['ta'][0] or e['ta'][0] == '0' else 1))
        if e['k'] == 'mem' and e.get('b') is not None and e['n'] in ('first', 'second'):
            l = self.lval(e['b'])
            if l[0] == 'el': return ('el', l, ('int', 0 if e['n'] == 'first' else 1))
        if e['k'] == 'mem' and e.get('b') is not None and e['b']['k'] not in ('this', 'mem', 'cast'):
            l = self.lval(e['b'])
            if l[0] == 'f': return ('f', l[1] + '.' + e['n'])
        return super().lval(e)
    def read(self, loc):
        if loc[0] == 'f' and loc not in self.st.env and loc[1] not in self.fields:
            n = loc[1]
            base = n.split('<')[0].split('.')[0]
            if n.endswith('.second'): return ('bool', True)
            t = n[len(base):]
            if base == 'current_value_' and '.first' in t: return ('sym', 'mp:' + n) if ismp(t) else ('sym', 'dbl:' + n)
            v = self.auto(base, t or None, n)
            if v is not None: return v
        return super().read(loc)
    def auto(self, base, comp, name):
        t = comp or self.ftypes.get(base, '')
        kind = 'src' if base in SOURCES else 'rat' if 'gmp_rational' in t else 'mp' if ismp(t) else None
        if kind is None:
            if 'std::complex<double>' in t: return ('cont', f'mp|{name}|1')
            return None
        rank = t.count('vector<') + t.count('Matrix<') + (1 if 'Matrix<' in t and ', -1, -1' in t or 'PartialPivLU' in t else 0)
        if rank == 0: return ('sym', f'{kind}:{name}')
        return ('cont', f'{kind}|{name}|{rank}')
    def binop(self, e):
        if e['op'] == '()' and len(e['a']) in (2, 3) and '(lambda at' not in (e['a'][0].get('t') or ''):
            try: return self.read(self.lval(e))
            except Undecided: pass
        return super().binop(e)
    def val(self, e):
        if e['k'] == 'cast':
            t = (e.get('t') or '').replace('const ', '')
            if t == 'bool': pass
            v = self.val(e['a'][0])
            if ismp(t) and v[0] in ('elem', 'cont') and 'std::complex<double>' in (e['a'][0].get('t') or ''): return ('tomp', v, self.read(('f', '$default')))
            return v
        v = super().val(e)
        return ('sym', 'this') if v == ('this',) else v
    def ctor(self, e):
        t = (e.get('t') or ''); A = e['a']
        if ismp(t):
            if 'PartialPivLU' in t: return ('freshall', 'LU', ('cont', 'mp|LU_|2'), self.read(('f', '$default')))
            if len(A) >= 1 and not t.startswith('Eigen'):
                v = self.val(A[0])
                if ismp(A[0].get('t') or ''): return v
                return ('tomp', v, self.read(('f', '$default')))
        if 'complex<double>' in t and len(A) == 1 and ismp(A[0].get('t') or ''): return ('todbl', self.val(A[0]))
        return super().ctor(e)
    def obj(self, o):
        try: l = self.lval(o)
        except Undecided: l = None
        if l is not None and l[0] == 'f' and l not in self.st.env and l[1] not in self.fields: return ('sym', l[1])
        return self.val(o)
    def call(self, e):
        n = e.get('n') or ''; A = e.get('a') or []; o = e.get('o'); f = e.get('f') or ''
        if n in ('precision', 'Precision', 'ChangePrecision'):
            if o is not None and o['k'] != 'this':
                if not A: 
                    try: return ('precof', self.read(self.lval(o)))
                    except Undecided: return ('precof', self.val(o))
                cls = e.get('cls') or ''
                x = None
                if not cls:     # a call in a generic lambda: judge by the value
                    x = self.resolve(self.val(o)); t = x
                    while t[0] in ('elem', 'loopv') and isinstance(t[1], tuple): t = t[1]
                    if t[0] == 'cont' and t[1].startswith('obj|') or t[0] == 'sym' and t[1] in self.fields: cls = 'bertini'
                    elif t[0] not in ('cont', 'sym', 'setprec'): raise Undecided('call on an object of unknown type')
                if cls.startswith('bertini'):
                    x = x or self.obj(o)
                    if x != ('sym', 'this'):
                        self.write(('f', '$prec'), ('upd', self.read(('f', '$prec')), x, self.val(A[0]))); return ('none',)
                else:
                    l = self.lval(o); self.write(l, ('setprec', self.read(l), self.val(A[0]))); return ('none',)
            elif o is None and f == 'bertini::Precision':
                if len(A) == 1: return ('precof', self.val(A[0]))
                l = self.lval(A[0]); self.write(l, ('setprec', self.read(l), self.val(A[1]))); return ('none',)
        if n == 'DefaultPrecision':
            if A: self.write(('f', '$default'), self.val(A[0])); return ('none',)
            return self.read(('f', '$default'))
        if n == 'DoublePrecision': return ('int', 16)
        if n in ('real', 'imag') and o is not None and len(A) == 1:
            l = self.lval(o); self.write(l, ('part', self.read(l), self.val(A[0]))); return ('none',)
        if n in ('resize', 'conservativeResize', 'NotifyObservers', 'PrecisionSanityCheck'): return ('none',) if n != 'PrecisionSanityCheck' else ('bool', True)
        if n in ('rows', 'size') and o is not None and f.startswith('Eigen'): return ('size', self.val(o))
        if n == 'cols' and o is not None: return ('size', ('elem', self.val(o), ('int', 0)))
        if n == 'GetSystem': return ('sym', 'system')
        if n == 'NumVariables' and o is not None and o['k'] != 'this': return ('int', 2)
        if n == 'Get': return ('sym', 'config')
        if n == 'PredictorMethod':
            for b, c in self.tableau: self.write(('f', b), ('freshall', b, self.read(('f', b)), self.read(('f', '$default'))))
            return ('none',)
        if n == 'RefineStoredPoint': return ('enum', 'refined')
        if n in EVALS and o is not None and (e.get('cls') or '').startswith(NODE):
            v = ('nodeval', self.val(o), self.read(('f', '$prec')))
            if n == 'Eval': return v
            self.write(self.lval(A[0]), v); return ('none',)
        if n == 'IsEvaluated': return ('none',)
        return super().call(e)
    def mem_attr(self, o, n): return ('attr', o, n)

def ftypes(F, c):
    out = {}
    for k in [c] + F.bases(c):
        for fl in k.get('fields') or []: out.setdefault(fl['n'], fl['t'])
    return out

def virtual(F, c, name, np):
    for k in [c] + F.bases(c):
        ms = [f for f in F.fns.values() if f.get('clsid') == k['id'] and f['n'] == name and f.get('body') is not None and not f['pattern'] and f['kind'] == 'method' and len(f['params']) == np]
        if ms: return ms[0]

PAIRS = [(30, 50), (50, 30), (16, 30), (30, 16), (40, 40), (16, 50)]

def check(F, P, R):
    R.rule('node', 'precision(p) of a node sets its own cached value, its temporaries and coefficients, and every child its evaluation reads, to p; numbers are marked for re-evaluation', 8)
    R.rule('system', 'System::precision(p) reaches every function, variable, derivative in use, program and patch', 0)
    R.rule('program', 'changing the precision of a straight-line program re-evaluates its numbers at the new precision and converts all of its memory', 0)
    R.rule('linear', 'patches and slices take their working coefficients from the exact source when precision rises, and end at exactly the new precision', 0)
    R.rule('tracker', 'changing precision of a predictor, corrector or adaptive tracker converts every member and collaborator', 0)
    R.rule('matrix', 'setting the precision of a matrix or vector sets every entry', 0)
    isa = isa_of(F)
    matrix(F, P, R, isa)
    nodes(F, P, R, isa); system(F, P, R, isa); program(F, P, R, isa); linear(F, P, R, isa); trackers(F, P, R, isa)

def models(isa, flags=None, enums=None, pairs=PAIRS):
    flags = flags or []
    import itertools
    for s, (old, new) in enumerate(pairs):
        for fl in itertools.product((False, True), repeat=len(flags)):
            for en in itertools.product(*[[(k, v) for v in vs] for k, vs in (enums or {}).items()]):
                for ln in (1, 2) if not flags else (2,):
                    yield M7(s, 1, isa, choose={'old': old, 'new': new, 'flags': dict(zip(flags, fl)), 'enums': dict(en), 'len': lambda nm, ln=ln: ln, 'class': lambda m, k, r: None})

def env0(extra=None):
    e = {('f', '$prec'): ('sym', 'prec0'), ('f', '$default'): ('sym', 'new')}
    e.update(extra or {})
    return St(env=e)

def run(R, rid, key, F, fn, d, ps, ms, judge):
    bad = None
    for M in ms:
        try:
            p = M.pick(ps)
            if p.kind == 'throw': continue
            r = judge(M, p)
            if r: bad = (M, r); break
        except Crash as x: bad = (M, str(x)); break
        except NoPath: raise Undecided('no path applies')
        except (TypeError, KeyError, AttributeError, ValueError, IndexError, ZeroDivisionError) as x: raise Undecided(f'term outside the model ({type(x).__name__}: {x})')
    if bad:
        c = bad[0].choose
        st = {**c['flags'], **c['enums']}
        R.bad(rid, key, F.loc(fn), f"{bad[1]} (from {c['old']} to {c['new']} digits{', ' + str(st) if st else ''})")
    else: R.ok(rid, f'{key}: {len(ps)} path(s)')

def at_new(M, what, v, digits=None):
    new = M.choose['new']
    for x in leaves(v):
        if not isinstance(x, MPV): raise Undecided(f'{what} is not a number')
        if x.prec != new: return f'{what} is left at precision {x.prec}'
        if digits is not None and x.digits < digits: return f'{what} is padded from {x.digits} correct digits, not recomputed from its source'

def evaluated_children(F, P, c):
    """fields whose elements the class's evaluation evaluates"""
    kids = {}
    for nm in ('FreshEval_d', 'FreshEval_mp'):
        for k in [c] + F.bases(c):
            ms = [f for f in F.fns.values() if f.get('clsid') == k['id'] and f['n'] == nm and f.get('body') is not None and not f['pattern']]
            if not ms: continue
            for f in ms:
                al = {}
                for n in walk(f['body']):
                    if n['k'] == 'rfor':
                        for m in walk(n['r']):
                            if m['k'] == 'mem': al[n['var']['id']] = m['n']
                    if n['k'] == 'call' and n.get('n') in EVALS and n.get('o'):
                        for m in walk(n['o']):
                            if m['k'] == 'mem' and m['n'].endswith('_') and m['n'] != 'current_value_': kids[m['n']] = 1
                            if m['k'] == 'ref' and m.get('id') in al: kids[al[m['id']]] = 1
            break
    return sorted(kids)

def nodes(F, P, R, isa):
    for c in sorted((c for c in F.derived(NODE + 'Node') if not c.get('abstract')), key=lambda c: c['q']):
        fn = virtual(F, c, 'precision', 1)
        if fn is None: continue
        short = c['q'][len(NODE):]
        key = f'{short}::precision'
        ft = ftypes(F, c)
        kids = [k for k in evaluated_children(F, P, c) if NODE in ft.get(k, '')]
        own = [k for k, t in ft.items() if ismp(t) and k not in SOURCES and k != 'current_value_' and 'gmp' not in t]
        fields = {k: ('cont', f'obj|{k}|1') if 'vector' in ft[k] else ('sym', k) for k in ft if NODE in ft[k] and 'ptr' in ft[k]}
        for b in ('is_rational_coeffs_', 'is_hom_vars_'): 
            if b in ft: fields[b] = ('sym', 'flag:' + b)
        d = Den7(F, P, this_fields=fields); d.ftypes = ft
        R.fn(fn)
        number = isa(short, NODE + 'Number')
        def judge(M, p):
            g = lambda n: M.ev(d.final(p, ('f', n)), {})
            cv = [l for l in p.st.env if l[0] == 'f' and l[1].startswith('current_value_<') and ismp(l[1]) and l[1].endswith('.first')]
            if not cv and M.choose['old'] != M.choose['new']: return 'the cached value keeps its old precision'
            r = cv and at_new(M, 'the cached value', g(cv[0][1]))
            if r: return r
            if number and 'Variable' not in short:
                s = [l for l in p.st.env if l[0] == 'f' and l[1].startswith('current_value_<') and ismp(l[1]) and l[1].endswith('.second')]
                if not s or g(s[0][1]) is not False: return 'a number keeps its value of the old precision: it is not marked for re-evaluation'
            pm = g('$prec')
            for k in kids:
                v = M.ev(fields[k], {})
                for x in v if isinstance(v, list) else [v]:
                    if pm.get(x.key) != M.choose['new']: return f'{x.key} is not set to the new precision'
            for k in own:
                if 'std::tuple' in ft[k]:
                    comps = [l for l in p.st.env if l[0] == 'f' and l[1].startswith(k + '<') and ismp(l[1])]
                    if not comps: return f'{k} keeps its old precision'
                    rat = M.choose['flags'].get('is_rational_coeffs_')
                    for l in comps:
                        r = at_new(M, k, g(l[1]), M.choose['new'] if rat else None)
                        if r: return r
                else:
                    r = at_new(M, k, g(k))
                    if r: return r
        try:
            ps = d.function(fn, [('sym', 'new')], dyn=c['q'], st=env0())
            run(R, 'node', key, F, fn, d, ps, models(isa, [b for b in ('is_rational_coeffs_',) if b in ft]), judge)
        except Undecided as x: R.skip('node', key, str(x))

def objfields(F, c, skip=()):
    ft = ftypes(F, c); fields = {}; objs = {}
    for k, t in ft.items():
        if 'tuple' in t: continue
        if NODE in t and 'ptr' in t:
            r = t.count('vector<') + t.count('deque<')
            objs[k] = fields[k] = ('cont', f'obj|{k}|{r}') if r else ('sym', k)
    return ft, fields, objs

def system(F, P, R, isa):
    c = F.need_cls('bertini::System')
    fn = virtual(F, c, 'precision', 1)
    if fn is None: return
    ft, fields, objs = objfields(F, c)
    for b in ('is_differentiated_', 'have_path_variable_', 'is_patched_', 'assume_uniform_precision_'): fields[b] = ('sym', 'flag:' + b)
    for b in ('eval_method_', 'deriv_method_'): fields[b] = ('sym', 'enum:' + b)
    fields['precision_'] = ('sym', 'old')
    d = Den7(F, P, this_fields=fields); d.ftypes = ft
    R.fn(fn)
    EM = {'eval_method_': ['bertini::EvalMethod::FunctionTree', 'bertini::EvalMethod::SLP'], 'deriv_method_': ['bertini::DerivMethod::JacobianNode', 'bertini::DerivMethod::Derivatives']}
    cond = {'path_variable_': lambda c: c['flags']['have_path_variable_'],
            'jacobian_': lambda c: c['flags']['is_differentiated_'] and c['enums']['eval_method_'].endswith('FunctionTree') and c['enums']['deriv_method_'].endswith('JacobianNode'),
            'space_derivatives_': lambda c: c['flags']['is_differentiated_'] and c['enums']['eval_method_'].endswith('FunctionTree') and c['enums']['deriv_method_'].endswith('Derivatives')}
    cond['time_derivatives_'] = lambda c: cond['space_derivatives_'](c) and c['flags']['have_path_variable_']
    def judge(M, p):
        c = M.choose
        g = lambda n: M.ev(d.final(p, ('f', n)), {})
        if c['old'] == c['new'] and c['flags']['assume_uniform_precision_']: return None
        pm = g('$prec')
        for k, t in objs.items():
            if k in ('variable_ordering_',) or k in cond and not cond[k](c): continue
            for x in leaves(M.ev(t, {})):
                if pm.get(x.key) != c['new']: return f'{x.key} is not set to the new precision'
        if c['flags']['is_patched_'] and pm.get('patch_') != c['new']: return 'the patch is not set to the new precision'
        if c['flags']['is_differentiated_'] and c['enums']['eval_method_'].endswith('SLP') and pm.get('slp_') != c['new']: return 'the straight-line program is not set to the new precision'
        cv = [l for l in p.st.env if l[0] == 'f' and l[1].startswith('current_variable_values_<') and ismp(l[1])]
        if not cv: return 'the stored variable values keep their old precision'
        for l in cv:
            r = at_new(M, 'the stored variable values', g(l[1]))
            if r: return r
        if g('precision_') != c['new']: return 'the system still reports the old precision'
    key = 'System::precision'
    try:
        ps = d.function(fn, [('sym', 'new')], dyn=c['q'], st=env0())
        run(R, 'system', key, F, fn, d, ps, models(isa, ['is_differentiated_', 'have_path_variable_', 'is_patched_', 'assume_uniform_precision_'], EM, pairs=[(30, 50), (50, 30), (40, 40)]), judge)
    except Undecided as x: R.skip('system', key, str(x))

def program(F, P, R, isa):
    c = F.need_cls('bertini::StraightLineProgram')
    fn = virtual(F, c, 'precision', 1)
    if fn is None: return
    ft = ftypes(F, c)
    d = Den7(F, P, this_fields={'precision_': ('sym', 'old'), 'number_of_.Variables': ('int', 1), 'number_of_.Functions': ('int', 1), 'number_of_.Jacobian': ('int', 1), 'true_values_of_numbers_': ('cont', 'num|true_values_of_numbers_|1')}); d.ftypes = ft
    R.fn(fn)
    def judge(M, p):
        g = lambda n: M.ev(d.final(p, ('f', n)), {})
        if M.choose['old'] == M.choose['new']: return None
        if g('precision_') != M.choose['new']: return 'the program still reports the old precision'
        ms = [l for l in p.st.env if l[0] == 'f' and l[1].startswith('memory_<') and ismp(l[1])]
        if not ms: return 'the memory keeps its old precision'
        mem = g(ms[0][1])
        r = at_new(M, 'a memory location', mem)
        if r: return r
        for i in range(M.choose['len']('')):
            x = mem[2 * i + 1]
            if not x.id.startswith('value of'): return 'the value of a number is not re-evaluated'
            if x.digits < M.choose['new']: return f"the value of a number is padded from {x.digits} correct digits, because the number was evaluated before its own precision changed"
    key = 'StraightLineProgram::precision'
    try:
        ps = d.function(fn, [('sym', 'new')], dyn=c['q'], st=env0())
        def ms():
            for M in models(isa):
                ln = M.choose['len'](''); M.choose['len'] = lambda nm, ln=ln: ln if 'true_values' in nm or not nm else 2 * ln + 1
                yield M
        run(R, 'program', key, F, fn, d, ps, ms(), judge)
    except Undecided as x: R.skip('program', key, str(x))

def linear(F, P, R, isa):
    for q, work in (('bertini::Patch', ['coefficients_working_']), ('bertini::LinearSlice', ['coefficients_working_', 'constants_working_'])):
        c = F.need_cls(q)
        fn = virtual(F, c, 'Precision', 1)
        if fn is None: continue
        ft = ftypes(F, c)
        fields = {'precision_': ('sym', 'old'), 'variable_group_sizes_': ('cont', 'int|vgs|1'), 'num_dims_sliced_': ('sym', 'dims'), 'sliced_vars_': ('cont', 'obj|vars|1'), 'is_homogeneous_': ('sym', 'flag:is_homogeneous_')}
        d = Den7(F, P, this_fields=fields); d.ftypes = ft
        R.fn(fn)
        def judge(M, p):
            g = lambda n: M.ev(d.final(p, ('f', n)), {})
            old, new = M.choose['old'], M.choose['new']
            if old == new and not any(l[1].startswith(w) for l in p.st.env if l[0] == 'f' for w in work): return None
            if g('precision_') != new: return 'the object still reports the old precision'
            for w in work:
                if w == 'constants_working_' and M.choose['flags'].get('is_homogeneous_'): continue
                ls = [l for l in p.st.env if l[0] == 'f' and l[1].startswith(w + '<') and ismp(l[1])]
                if not ls: return f'{w} keeps its old precision'
                r = at_new(M, w, g(ls[0][1]), new if new > old else None)
                if r: return r
        key = q.split('::')[-1] + '::Precision'
        class M7L(M7):
            def sym(self, name): return self.choose['len']('') if name == 'dims' else super().sym(name)
        try:
            ps = d.function(fn, [('sym', 'new')], dyn=q, st=env0())
            def ms():
                for M in models(isa, ['is_homogeneous_'] if 'Slice' in q else []): M.__class__ = M7L; yield M
            run(R, 'linear', key, F, fn, d, ps, ms(), judge)
        except Undecided as x: R.skip('linear', key, str(x))

def matrix(F, P, R, isa):
    seen = set()
    for fn in F.fn('bertini::Precision'):
        if len(fn['params']) != 2 or 'Matrix' not in fn['params'][0]['t'] or not fn.get('body') or (fn['file'], fn['line'], fn['params'][0]['t']) in seen: continue
        seen.add((fn['file'], fn['line'], fn['params'][0]['t']))
        R.fn(fn)
        d = Den7(F, P); d.ftypes = {}
        d.free = True
        def judge(M, p):
            x = M.ev(d.final(p, ('v', 0, 'm')), {})
            r, c = M.choose['shape']
            if len(x) != r or any(len(y) != c for y in x): raise Undecided('shape')
            return at_new(M, 'an entry', x)
        key = f"Precision({fn['params'][0]['t'][:60]}…)"
        try:
            st = env0(); st.env[('v', 0, 'm')] = ('sym', 'matrix')
            ps = d.function(fn, [('alias', ('v', 0, 'm')), ('sym', 'new')], st=st)
            def ms():
                for s, (r, c) in enumerate([(1, 1), (2, 1), (1, 2), (2, 3), (3, 2)]):
                    for old, new in PAIRS[:3]:
                        M = M7M(s, 1, isa, choose={'old': old, 'new': new, 'flags': {}, 'enums': {}, 'len': lambda nm: 1, 'shape': (r, c), 'class': lambda m, k, r: None}); yield M
            run(R, 'matrix', key, F, fn, d, ps, ms(), judge)
        except Undecided as x: R.skip('matrix', key, str(x))

class M7M(M7):
    def sym(self, name):
        if name == 'matrix':
            r, c = self.choose['shape']; return [[MPV(f'm[{i}][{j}]', self.choose['old'], self.choose['old']) for j in range(c)] for i in range(r)]
        return super().sym(name)

def comps(F, c):
    """(member, component types) of multiple-precision parts"""
    from rules_c03 import tuple_parts
    out = []
    for k, t in ftypes(F, c).items():
        # factorizations are scratch, recomputed before every use
        if not ismp(t) or k in SOURCES or 'PartialPivLU' in t: continue
        out.append((k, 'tuple<' in t))
    return out

def trackers(F, P, R, isa):
    for q in ('bertini::tracking::predict::ExplicitRKPredictor', 'bertini::tracking::correct::NewtonCorrector'):
        c = F.need_cls(q)
        fn = virtual(F, c, 'ChangePrecision', 1)
        if fn is None: continue
        ft = ftypes(F, c)
        d = Den7(F, P, this_fields={'current_precision_': ('sym', 'old'), 'numTotalFunctions_': ('int', 2), 'predictor_': ('sym', 'method')}); d.ftypes = ft
        T = 'boost::multiprecision'
        cs = comps(F, c)
        d.tableau = []
        # names under which the multiple-precision components of the tableau are addressed
        for n in walk(fn['body']):
            if n['k'] == 'call' and n.get('f') == 'std::get' and n.get('ta') and n['a'][0]['k'] == 'mem' and n['a'][0]['n'] in ('a_', 'b_', 'c_', 'b_minus_bstar_') and ismp(n['ta'][0]):
                d.tableau.append((f"{n['a'][0]['n']}<{n['ta'][0]}>", 0))
        R.fn(fn)
        def judge(M, p):
            g = lambda n: M.ev(d.final(p, ('f', n)), {})
            if M.choose['old'] == M.choose['new'] and g('current_precision_') == M.choose['new'] and len(p.st.env) < 4: return None
            for k, tup in cs:
                ls = [l for l in p.st.env if l[0] == 'f' and (l[1].startswith(k + '<') if tup else l[1] == k) and (not tup or ismp(l[1]))]
                if not ls:
                    if k in ('a_', 'b_', 'c_', 'b_minus_bstar_') and d.tableau == []: continue
                    return f'{k} keeps its old precision'
                r = at_new(M, k, g(ls[0][1]), M.choose['new'] if k in ('a_', 'b_', 'c_', 'b_minus_bstar_') else None)
                if r: return r
            if g('current_precision_') != M.choose['new']: return 'the object still reports the old precision'
        key = q.split('::')[-1] + '::ChangePrecision'
        try:
            ps = d.function(fn, [('sym', 'new')], dyn=q, st=env0())
            run(R, 'tracker', key, F, fn, d, ps, models(isa), judge)
        except Undecided as x: R.skip('tracker', key, str(x))
    q = 'bertini::tracking::AMPTracker'
    c = F.need_cls(q)
    ft = ftypes(F, c)
    seen = set()
    for fn in F.fns.values():
        if fn.get('cls') != q or fn['n'] != 'ChangePrecision' or fn['pattern'] or not fn.get('body') or len(fn['params']) != 1: continue
        R.fn(fn)
        d = Den7(F, P, this_fields={'current_precision_': ('sym', 'old'), 'predictor_': ('sym', 'predictor'), 'corrector_': ('sym', 'corrector'), 'previous_precision_': ('int', 0)}, depth=8); d.ftypes = ft
        key = 'AMPTracker::ChangePrecision'
        def judge(M, p):
            g = lambda n: M.ev(d.final(p, ('f', n)), {})
            old, new = M.choose['old'], M.choose['new']
            if old == new: return None
            if g('current_precision_') != new: return 'the tracker still reports the old precision'
            if g('$default') != new: return 'the default precision is not the new precision'
            pm = g('$prec')
            if pm.get('system') != new: return 'the system is not set to the new precision'
            sp = lambda mp: [l for l in p.st.env if l[0] == 'f' and l[1].startswith('current_space_<') and ismp(l[1]) == mp]
            if new == 16:
                ls = sp(False)
                if not ls: return 'the current point is not converted to double precision'
                for x in leaves(g(ls[0][1])):
                    if not isinstance(x, MPV) or not ismp(x.id): return 'the double-precision point is not taken from the current multiple-precision point'
                return None
            for o in ('predictor', 'corrector'):
                if pm.get(o) != new: return f'the {o} is not set to the new precision'
            for k in ('endtime_', 'current_stepsize_', 'delta_t_', 'current_time_'):
                if k not in ft: raise Undecided(f'no member {k}')
                r = at_new(M, k, g(k), new if k == 'endtime_' else None)
                if r: return r
            for k in ('tentative_space_', 'temporary_space_', 'current_space_'):
                ls = [l for l in p.st.env if l[0] == 'f' and l[1].startswith(k + '<') and ismp(l[1])]
                if not ls: return f'{k} keeps its old precision'
                v = g(ls[0][1]); r = at_new(M, k, v)
                if r: return r
                if k == 'current_space_' and old == 16 and any(ismp(x.id) for x in leaves(v)): return 'the multiple-precision point is not taken from the current double-precision point'
                if k == 'current_space_' and old != 16 and any(not ismp(x.id) for x in leaves(v)): return 'the point is taken from the double-precision copy although multiple precision is current'
        try:
            ps = d.function(fn, [('sym', 'new')], dyn=q, st=St(env={('f', '$prec'): ('sym', 'prec0'), ('f', '$default'): ('sym', 'old')}))
            run(R, 'tracker', key, F, fn, d, ps, models(isa), judge)
        except Undecided as x: R.skip('tracker', key, str(x))
