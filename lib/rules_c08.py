"""C08: non-polynomial input is never treated as polynomial."""
import itertools
from flow import *
from rules_c20 import Flow20, Case, num, ilist, group, groups, fold, concrete, unpush, faults
GROUPS = ['algorithms', 'core']
TECHNIQUE = 'constant propagation of each degree and homogeneity query over all small combinations of operand answers (three operands, every order), and of the guards of homogenizing, start systems and zero-dimensional solves over all small system shapes'
NOTE = 'up to three operands or factors with degrees up to two, exponents from a fixed list, up to two groups of two variables and two functions'
N = 'bertini::node::'
class Flow8(Flow20):
    """constants include complex numbers; queries of opaque nodes are answered from a table"""
    def binop(self, e):
        v = super().binop(e)
        if v[0] == 'cmp' and self.selfv: v = v[:2] + tuple(self.selfv if x == ('this',) else x for x in v[2:])
        if v[0] == 'cmp':
            if v[1] in ('==', '!=') and v[2][0] in ('var', 'null') and v[3][0] in ('var', 'null'): return ('bool', (v[2] == v[3]) == (v[1] == '=='))
            a, b = num(v[2]), num(v[3])
            if a is not None and b is not None and not isinstance(a, list) and not isinstance(b, list):
                if isinstance(a, complex) and a.imag == 0: a = a.real
                if isinstance(b, complex) and b.imag == 0: b = b.real
                if v[1] in ('==', '!='): return ('bool', (a == b) == (v[1] == '=='))
                if not isinstance(a, complex) and not isinstance(b, complex): return ('bool', {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[v[1]])
        return v
    def val(self, e):
        v = super().val(e)
        if isinstance(v, tuple) and v[:1] == ('cplx',) and e['k'] == 'cast' and (e.get('t') or '') == 'int': return ('int', int(complex(v[1]).real))
        return v
    def call(self, e):
        n = e.get('n') or ''; A = e.get('a') or []; o = e.get('o')
        if n in ('imag', 'real', 'fabs', 'abs', 'round', 'floor', 'trunc', 'ceil', 'lround', 'norm') and (len(A) == 1 and o is None or o is not None and not A and n in ('imag', 'real')):
            x = num(self.val(A[0] if A else o))
            if x is not None and not isinstance(x, list):
                import math
                x = complex(x)
                r = x.imag if n == 'imag' else x.real if n == 'real' else abs(x) if n in ('fabs', 'abs') else abs(x) ** 2 if n == 'norm' else None
                if r is None: r = math.floor(x.real) if n == 'floor' else math.ceil(x.real) if n == 'ceil' else math.trunc(x.real) if n == 'trunc' else math.floor(abs(x.real) + .5) * (1 if x.real >= 0 else -1)
                return ('cplx', r)
        if n == 'epsilon' and o is None and not A: return ('cplx', 2.220446049250313e-16)
        if n == 'get' and o is not None and not A and 'shared_ptr' in (e.get('cls') or ''): return self.val(o)
        if n == 'shared_from_this' and self.selfv: return self.selfv
        if n in ('swap', 'iter_swap') and (len(A) == 2 and o is None or len(A) == 1 and o is not None):
            if n == 'iter_swap':
                x, y = (self.val(a) for a in A)
                if not all(z[0] == 'it' and z[1][0] == 'loc' and z[2][0] == 'int' for z in (x, y)): raise Undecided(n)
                l1, l2 = (('el', z[1][1], z[2]) for z in (x, y))
            else: l1, l2 = self.lval(A[0] if o is None else o), self.lval(A[-1])
            a, b = self.read(l1), self.read(l2); self.write(l1, b); self.write(l2, a); return ('none',)
        if n in ('dynamic_pointer_cast',):
            v = self.val(A[0]) if A else ('null',)
            if (e.get('ta') or ['?'])[0].split('::')[-1] == 'Node' or v[:1] == ('var',) and (e.get('ta') or ['?'])[0].split('::')[-1] == 'Variable': return v
            return ('null',)
        return super().call(e)
    selfv = None
    def truth(self, v):
        if v[:1] == ('isnn',): v = v[1]
        if v[:1] in (('var',), ('null',)): return ('bool', v[0] == 'var')
        return super().truth(v)
def mk8(F, P, consts, dyn=None, opq=()):
    d = Flow8(F, P, opaque=set(opq)); d.unroll = 60; d.consts = consts; return d
def isgroup(f): return 'vector' in f['params'][0]['t']
def asint(v):
    if v is None: return None
    if v[0] == 'int': return v[1]
    x = num(v)
    if x is None or isinstance(x, list): return None
    x = complex(x)
    return int(round(x.real)) if abs(x.imag) < 1e-12 else None
def asbool(v): return None if v is None or v[0] not in ('bool', 'int') else bool(v[1])
class Case8(Case):
    def go(s, d, args, env, what, judge, dyn=None):
        s.n += 1
        try: ps = d.run(s.fn, args, dyn=dyn, st=St(env=dict(env)))
        except Undecided as e: s.why = s.why or f'{what}: {e}'; return None
        if ps and all(faults(p) for p in ps): s.bad = s.bad or (f'{what}: {faults(ps[0])[0]}', ps[0]); return None
        if len(ps) != 1: s.why = s.why or f'{what}: the run depends on what is not known'; return None
        r = judge(ps[0])
        if r == 'unknown': s.why = s.why or f'{what}: a value is not understood'
        elif r: s.bad = s.bad or (f'{what}: {r}', ps[0])
        return ps[0]
X, Y = ('var', 'x'), ('var', 'y')
G = ('list', X, Y)
def queries(tab):
    """answers of opaque nodes: tab[i] = dict(x=, y=, g=, hx=, hg=, val=)"""
    def which(a): return 'g' if a and a[0][0] == 'list' else 'y' if a and a[0] == Y else 'x'
    def degree(d, a, o, e):
        if o and o[0] == 'nd': return ('int', tab[o[1]][which(a)])
    def hom(d, a, o, e):
        if o and o[0] == 'nd': return ('bool', tab[o[1]]['h' + which(a)])
    def multi(d, a, o, e):
        if o and o[0] == 'nd': return ilist([tab[o[1]]['x'], tab[o[1]]['y']])
    def ev(d, a, o, e):
        if o and o[0] == 'nd': return ('cplx', tab[o[1]].get('val'))
    def poly(d, a, o, e):
        if o and o[0] == 'nd': return ('bool', tab[o[1]][which(a)] >= 0)
    return {'Degree': degree, 'IsHomogeneous': hom, 'MultiDegree': multi, 'Eval': ev, 'IsPolynomial': poly}
ANS = [dict(x=x, y=y, g=g) for x, y, g in [(-1, 0, -1), (-1, 1, -1), (0, -1, -1), (2, -1, -1), (0, 0, 0), (1, 0, 1), (0, 1, 1), (1, 1, 1), (1, 1, 2), (2, 1, 2)]]
def show(t): return f'(x:{t["x"]}, y:{t["y"]}, together:{t["g"]})'
def degrees(F, P, R):
    """every degree query of every operator class"""
    T = [c for c in ('SqrtOperator', 'ExpOperator', 'LogOperator', 'SinOperator', 'CosOperator', 'TanOperator', 'ArcSinOperator', 'ArcCosOperator', 'ArcTanOperator') if F.cls(N + c)]
    def fns(cls, q):
        for f in resolve(F, P, N + cls, q): yield f
    def ask(cls, q, env, tab, args, what, want, extra=None, rid='degree'):
        pass
    def go(cls, q, cases, rid):
        """cases(group) yields (env, tab, what, judge)"""
        for f in fns(cls, q):
            R.fn(f); g = isgroup(f); c = Case8(R, rid, f, F)
            for env, tab, what, judge in cases(q, g):
                for key, arg in ((('g', G),) if g else (('x', X), ('y', Y))):
                    c.go(mk8(F, P, queries(tab)), [arg], env, what + ', asked in ' + {'g': 'both variables', 'x': 'x', 'y': 'y'}[key], lambda p: 'unknown' if p.kind == 'throw' else judge(p, key), dyn=N + cls)
                    if c.bad or c.why: break
                if c.bad or c.why: break
            c.done(f"{cls}::{q}({'group' if g else 'variable'})" + ('' if f['q'].endswith(f'{cls}::{q}') else f" from {f['cls'].replace(N, '') if f.get('cls') else '?'}"))
    def neg_or(k, want):
        def j(p, key):
            v = asint(p.ret)
            if v is None: return 'unknown'
            w = want(key)
            if w is None: return None
            if w == 'neg': return None if v < 0 else f'the degree is {v}, though the expression is not polynomial'
            if isinstance(w, tuple): return None if v < 0 or v == w[1] else f'the degree is {v} instead of {w[1]}'
            return None if v == w else f'the degree is {v} instead of {w}' if v >= 0 else f'the expression is polynomial of degree {w}, but is not taken for one'
        return j
    def multi(want):
        def j(p, key):
            v = unpush(p.ret) if p.ret else None
            if v is None or any(asint(a) is None for a in v[1:]): return 'unknown'
            if len(v) != 3: return f'{len(v) - 1} degrees are given for two variables'
            for a, k in zip(v[1:], 'xy'):
                a = ('int', asint(a)); w = want(k)
                if w is None: continue
                if w == 'neg':
                    if a[1] >= 0: return f'the degree in {k} is {a[1]}, though the expression is not polynomial in it'
                elif isinstance(w, tuple):
                    if a[1] >= 0 and a[1] != w[1]: return f'the degree in {k} is {a[1]} instead of {w[1]}'
                elif a[1] != w: return f'the degree in {k} is {a[1]} instead of {w}'
        return j
    def mkj(q, want): return multi(want) if q == 'MultiDegree' else neg_or(None, want)
    # unary
    def unary(f1):
        def cases(q, g):
            for t in ANS:
                yield {('f', 'operand_'): ('nd', 0)}, [t], 'operand ' + show(t), mkj(q, lambda k: f1(t[k]))
        return cases
    def ints(q, g):
        for e in (0, 1, 2, 3, -1, -2):
            for t in ANS:
                def want(k):
                    d = t[k]
                    if e == 0: return (0, 0)
                    if e < 0: return 'neg' if d else 0
                    return 'neg' if d < 0 else d * e
                yield {('f', 'operand_'): ('nd', 0), ('f', 'exponent_'): ('int', e)}, [t], f'operand {show(t)} to the power {e}', mkj(q, want)
    def powers(q, g):
        for t in ANS:
            for u, val in [(dict(x=0, y=0, g=0), v) for v in (0, 1, 2, 3, -1, -2, .5, 2.5, 1j, 2 + 1j, -.5)] + [(dict(x=1, y=0, g=1), 2), (dict(x=-1, y=0, g=-1), 2), (dict(x=0, y=1, g=1), 2)]:
                def want(k):
                    d = t[k]
                    if u[k]: return 'neg'
                    if (u['x'], u['y']) != (0, 0) and k != 'g': return None
                    if val == 0: return (0, 0)
                    if isinstance(val, complex) or val != int(val) or val < 0: return 'neg' if d else (0, 0)
                    return 'neg' if d < 0 else d * int(val)
                yield {('f', 'base_'): ('nd', 0), ('f', 'exponent_'): ('nd', 1)}, [t, dict(u, val=val)], f'base {show(t)} to the power {val}' + ('' if u['g'] == 0 else ' which depends on ' + ('x' if u['x'] else 'y')), mkj(q, want)
    def sums(q, g):
        for k in (1, 2, 3):
            for ts in itertools.product(ANS if k < 3 else [ANS[i] for i in (1, 3, 4, 8, 9)], repeat=k):
                yield {('f', 'operands_'): ('list',) + tuple(('nd', i) for i in range(k)), ('f', 'signs_'): ('list',) + (('bool', True),) * k}, list(ts), 'operands ' + ', '.join(map(show, ts)), mkj(q, lambda key: 'neg' if any(t[key] < 0 for t in ts) else max(t[key] for t in ts))
    def mults(q, g):
        for k in (1, 2, 3):
            for ts in itertools.product(ANS if k == 1 else [ANS[i] for i in (0, 1, 3, 4, 8, 9)] if k == 2 else [ANS[i] for i in (1, 4, 8)], repeat=k):
                for fl in itertools.product((True, False), repeat=k):
                    def want(key):
                        if any(t[key] < 0 for t in ts): return 'neg'
                        if any(t[key] and not f for t, f in zip(ts, fl)): return 'neg'
                        return sum(t[key] for t in ts)
                    yield {('f', 'operands_'): ('list',) + tuple(('nd', i) for i in range(k)), ('f', 'mult_or_div_'): ('list',) + tuple(('bool', x) for x in fl)}, list(ts), 'factors ' + ', '.join(('' if f else 'divided by ') + show(t) for t, f in zip(ts, fl)), mkj(q, want)
    R.rule('degree', 'the degree of an expression in a variable or a group is negative whenever an operand is not polynomial in it, a divisor or an exponent depends on it, or a transcendental function is taken of it, and is otherwise the degree of the polynomial', 30)
    for q in ('Degree', 'MultiDegree'):
        go('SumOperator', q, sums, 'degree'); go('MultOperator', q, mults, 'degree'); go('NegateOperator', q, unary(lambda d: 'neg' if d < 0 else d), 'degree')
        go('IntegerPowerOperator', q, ints, 'degree'); go('PowerOperator', q, powers, 'degree')
        for c in T: go(c, q, unary(lambda d: 0 if d == 0 else 'neg'), 'degree')
    def handles(q, g):
        for t in ANS: yield {('f', 'entry_node_'): ('nd', 0)}, [t], 'entry ' + show(t), mkj(q, lambda k: 'neg' if t[k] < 0 else t[k])
    for q in ('Degree', 'MultiDegree'): go('Function', q, handles, 'degree')
    # polynomiality
    R.rule('polynomial', 'an expression is taken for polynomial exactly when its degree is not negative', 2)
    for f in F.need(N + 'Node::IsPolynomial'):
        R.fn(f); c = Case8(R, 'polynomial', f, F)
        for dg in (-3, -2, -1, 0, 1, 2, 5):
            cs = {'Degree': lambda d, a, o, e: ('int', dg)}
            c.go(mk8(F, P, cs), [G if isgroup(f) else X], {}, f'degree {dg}', lambda p: 'unknown' if asbool(p.ret) is None else None if asbool(p.ret) == (dg >= 0) else 'it is taken for ' + ('polynomial' if dg < 0 else 'not polynomial'))
        c.done('Node::IsPolynomial(' + ('group' if isgroup(f) else 'variable') + ')')
    return go, fns
def resolve(F, P, cls, q):
    """the functions that answer q for objects of a class: one for each list of parameters"""
    out = {}; cs = F.cls(cls); cs = cs if isinstance(cs, list) else [cs]
    for c in [cls] + [b['q'] for b in F.bases(cs[0])]:
        for f in F.fn(c + '::' + q):
            if f.get('body') and not f.get('pattern'): out.setdefault(tuple(p['t'] for p in f['params']), f)
    return list(out.values())

def homogeneity(F, P, R, go):
    R.rule('homogeneous', 'an expression is taken for homogeneous exactly when its operands are, with the same degree if they are added; only for powers with constant non-negative integer exponents; a transcendental function only of a constant', 10)
    H = [dict(x=d, y=0, g=d, hx=h, hy=h, hg=h) for d in (-1, 0, 1, 2) for h in (True, False) if not (d == 0 and not h)]
    def s1(t): return f'(degree {t["g"]}, {"" if t["hg"] else "not "}homogeneous)'
    def bj(want):
        def j(p, key):
            v = asbool(p.ret)
            if v is None: return 'unknown'
            w = want(key)
            return None if w is None or v == w else 'it is taken for homogeneous' if v else 'it is homogeneous, but not taken for that'
        return j
    def sums(q, g):
        for k in (1, 2, 3):
            for ts in itertools.product(H if k < 3 else [h for h in H if h['g'] in (1, 2)], repeat=k):
                def want(key):
                    if key == 'y': return None
                    return all(t['hg'] for t in ts) and ts[0]['g'] >= 0 and all(t['g'] == ts[0]['g'] for t in ts)
                yield {('f', 'operands_'): ('list',) + tuple(('nd', i) for i in range(k)), ('f', 'signs_'): ('list',) + (('bool', True),) * k}, list(ts), 'operands ' + ', '.join(map(s1, ts)), bj(want)
    def mults(q, g):
        for k in (1, 2, 3):
            for ts in itertools.product([h for h in H if h['g'] >= 0][:4 if k > 2 else 9], repeat=k):
                yield {('f', 'operands_'): ('list',) + tuple(('nd', i) for i in range(k)), ('f', 'mult_or_div_'): ('list',) + (('bool', True),) * k}, list(ts), 'factors ' + ', '.join(map(s1, ts)), bj(lambda key: all(t['hg'] for t in ts))
    def negs(q, g):
        for t in H: yield {('f', 'operand_'): ('nd', 0)}, [t], 'operand ' + s1(t), bj(lambda key: t['hg'] if t['g'] >= 0 else None)
    def ints(q, g):
        for e in (1, 2, 3):
            for t in H: yield {('f', 'operand_'): ('nd', 0), ('f', 'exponent_'): ('int', e)}, [t], f'operand {s1(t)} to the power {e}', bj(lambda key: t['hg'] if t['g'] >= 0 else None)
    def powers(q, g):
        for t in H:
            if t['g'] <= 0: continue
            for u, val in [(0, v) for v in (1, 2, 3, -1, -2, .5, 2.5, 1j, 2 + 1j)] + [(1, 2), (-1, 2)]:
                w = t['hg'] and u == 0 and not isinstance(val, complex) and val == int(val) and val > 0
                yield {('f', 'base_'): ('nd', 0), ('f', 'exponent_'): ('nd', 1)}, [t, dict(x=u, y=u, g=u, hx=u == 0, hy=u == 0, hg=u == 0, val=val)], f'base {s1(t)} to the power {val}' + (' which is not constant' if u else ''), bj(lambda key: w if key != 'y' else (False if not w else None))
    def trans(q, g):
        for t in H: yield {('f', 'operand_'): ('nd', 0)}, [t], 'operand ' + s1(t), bj(lambda key: t['g'] == 0 if key != 'y' else None)
    q = 'IsHomogeneous'
    go('SumOperator', q, sums, 'homogeneous'); go('MultOperator', q, mults, 'homogeneous'); go('NegateOperator', q, negs, 'homogeneous'); go('IntegerPowerOperator', q, ints, 'homogeneous'); go('PowerOperator', q, powers, 'homogeneous')
    for c in ('SqrtOperator', 'ExpOperator', 'LogOperator', 'SinOperator', 'CosOperator', 'TanOperator', 'ArcSinOperator', 'ArcCosOperator', 'ArcTanOperator'):
        if F.cls(N + c): go(c, q, trans, 'homogeneous')
    def handles(q, g):
        for t in H: yield {('f', 'entry_node_'): ('nd', 0)}, [t], 'entry ' + s1(t), bj(lambda key: t['hg'])
    go('Function', q, handles, 'homogeneous')

SY = 'bertini::System::'
def systems():
    """small system shapes: affine groups, homogeneous groups, whether homogenized"""
    for na, nh in ((1, 0), (2, 0), (0, 1), (1, 1), (0, 2)):
        for hv in ((False, True) if na else (False,)):
            for nf in (1, 2): yield na, nh, hv, nf
def sysenv(na, nh, hv, nf):
    return {('f', 'functions_'): ('list',) + tuple(('nd', i) for i in range(nf)), ('f', 'variable_groups_'): groups([[f'a{j}', f'b{j}'] for j in range(na)]), ('f', 'hom_variable_groups_'): groups([[f'p{j}', f'q{j}'] for j in range(nh)]), ('f', 'homogenizing_variables_'): group([f'h{j}' for j in range(na)] if hv else []), ('f', 'ungrouped_variables_'): ('list',), ('f', 'is_patched_'): ('bool', False)}
def syskey(a):
    """which group a list of variables stands for, and whether its homogenizing variable is with it"""
    if not a or a[0][0] != 'list' or any(x[0] != 'var' for x in a[0][1:]) or len(a[0]) < 2: return None
    ns = [x[1] for x in a[0][1:]]; k = {('A' if n[0] in 'abh' else 'H') + n[1:] for n in ns}
    if len(k) != 1 or not {n[0] for n in ns} >= ({'a', 'b'} if 'A' in min(k) else {'p', 'q'}): return None
    return min(k), any(n[0] == 'h' for n in ns)
def cells(na, nh, nf): return [(i, k) for i in range(nf) for k in [f'A{j}' for j in range(na)] + [f'H{j}' for j in range(nh)]]
def system(F, P, R):
    R.rule('system', 'a system is polynomial (homogeneous) exactly when every function is, in every variable group together with its homogenizing variable; its degrees are those of its functions, in order', 4)
    for q, m in (('IsPolynomial', 'polynomial'), ('IsHomogeneous', 'homogeneous')):
        for f in F.need(SY + q):
            R.fn(f); c = Case8(R, 'system', f, F)
            for na, nh, hv, nf in systems():
                for bad in [None] + cells(na, nh, nf):
                    asked = []
                    def ans(d, a, o, e):
                        if not o or o[0] != 'nd': return None
                        k = syskey(a)
                        if k is None: asked.append('?'); return ('bool', True)
                        if k[0][0] == 'A' and k[1] != hv: asked.append(f'function {o[1]} is asked about a group with{"out" if hv else ""} its homogenizing variable'); return ('bool', True)
                        return ('bool', (o[1], k[0]) != bad)
                    def deg(d, a, o, e):
                        r = ans(d, a, o, e)
                        return None if r is None else ('int', 1 if r[1] else -1)
                    def judge(p):
                        v = asbool(p.ret)
                        if p.kind == 'throw' or v is None or '?' in asked: return 'unknown'
                        if m == 'homogeneous' and na and not hv: return 'the system is taken for homogeneous though no group has a homogenizing variable' if v else None
                        if v != (bad is None): return f'the system is taken for {m}' if v else f'the system is {m}, but not taken for that'
                        if v and asked: return asked[0]
                    cs = {q: ans, 'Degree': deg} if m == 'polynomial' else {q: ans}
                    c.go(mk8(F, P, cs), [], sysenv(na, nh, hv, nf), f'{nf} functions, {na} affine and {nh} homogeneous groups' + (', homogenized' if hv else '') + (f', function {bad[0]} not {m} in group {bad[1]}' if bad else ''), judge)
            c.done()
    for f in F.need(SY + 'Degrees'):
        R.fn(f); c = Case8(R, 'system', f, F); g = len(f['params']) == 1
        for dg in ([2], [1, 3], [3, 1, 2], [-1, 2], [2, -1]):
            cs = {'Degree': lambda d, a, o, e: ('int', dg[o[1]]) if o and o[0] == 'nd' and ((bool(a) and a[0][0] == 'list') == g) else None}
            def judge(p):
                v = unpush(p.ret) if p.ret else None
                if v is None or not concrete(v): return 'unknown'
                return None if v == ilist(dg) else f'the degrees are {[x[1] for x in v[1:]]} instead of {dg}'
            c.go(mk8(F, P, cs), [group(['a0', 'b0'])] if g else [], {('f', 'functions_'): ('list',) + tuple(('nd', i) for i in range(len(dg)))}, f'functions of degrees {dg}', judge)
        c.done(f"System::Degrees({'group' if g else ''})")
    R.rule('refuse', 'homogenizing refuses a system which is not polynomial, or not homogeneous in a homogeneous group, or has too few or many homogenizing variables, and changes nothing then; other systems are homogenized', 1)
    for f in F.need(SY + 'Homogenize'):
        R.fn(f); c = Case8(R, 'refuse', f, F)
        for na, nh, hv, nf in systems():
            for kind, bad in [(None, None)] + [('poly', x) for x in cells(na, nh, nf)] + [('hom', x) for x in cells(na, nh, nf) if x[1][0] == 'H'] + ([('count', None)] if hv and na == 2 else []):
                env = sysenv(na, nh, hv, nf)
                if kind == 'count': env[('f', 'homogenizing_variables_')] = group(['h0'])
                did = []
                def ans(kk):
                    def r(d, a, o, e):
                        if not o or o[0] != 'nd': return None
                        k = syskey(a)
                        if k is None: return None
                        v = not (kind == kk and (o[1], k[0]) == bad)
                        return ('bool', v)
                    return r
                def deg(d, a, o, e):
                    r = ans('poly')(d, a, o, e)
                    return None if r is None else ('int', 1 if r[1] else -1)
                cnt = [0]
                def make(d, a, o, e): cnt[0] += 1; return ('var', f'h{cnt[0] - 1}')
                cs = {'IsPolynomial': lambda d, a, o, e: ans('poly')(d, a, o, e), 'IsHomogeneous': ans('hom'), 'Degree': deg, 'Make': make, 'Homogenize': lambda d, a, o, e: (did.append((o[1], tuple(a))), ('none',))[1] if o and o[0] == 'nd' else None}
                def judge(p):
                    if kind is None: return 'it is refused' if p.kind == 'throw' else None
                    if p.kind != 'throw': return 'it is not refused'
                    if did: return 'it is refused when functions were already homogenized'
                    ch = [k[1] for k in p.st.env if k[0] == 'f' and k in env and p.st.env[k] != env[k]]
                    if ch: return f'it is refused after {ch[0]} was changed'
                    ch = [k[1] for k in p.st.env if k[0] == 'f' and k[1] in ('is_differentiated_', 'have_ordering_', 'precision_', 'patch_')]
                    if ch: return f'it is refused after {ch[0]} was changed'
                c.go(mk8(F, P, cs), [], env, f'{nf} functions, {na} affine and {nh} homogeneous groups' + (', homogenized before' if hv else '') + ({'poly': f', function {bad[0]} not polynomial in group {bad[1]}', 'hom': f', function {bad[0]} not homogeneous in group {bad[1]}'}[kind] if bad else ', with a homogenizing variable missing' if kind else ''), judge)
        c.done()
    R.rule('solve', 'a zero-dimensional solve refuses, before setting anything up, a target with a path variable, with more variables than functions, or which is not polynomial, and no other', 1)
    for f in F.need('bertini::algorithm::ZeroDim::ConsistencyCheck'):
        R.fn(f); c = Case8(R, 'solve', f, F)
        for pv, pol, nv, nf in itertools.product((False, True), (True, False), (1, 2, 3), (1, 2, 3)):
            cs = {'HavePathVariable': ('bool', pv), 'IsPolynomial': ('bool', pol), 'NumVariables': ('int', nv), 'NumTotalFunctions': ('int', nf), 'TargetSystem': ('sym', 'target')}
            ok = not pv and pol and nv <= nf
            c.go(mk8(F, P, cs), [], {}, f'{nv} variables, {nf} functions' + (', path variable' if pv else '') + ('' if pol else ', not polynomial'), lambda p: None if (p.kind != 'throw') == ok else 'it is refused' if ok else 'it is not refused')
        c.done(f['q'].replace('bertini::', '') + ' ' + f.get('clsid', f['id'])[-60:])
def check(F, P, R):
    go, fns = degrees(F, P, R)
    homogeneity(F, P, R, go)
    system(F, P, R)
