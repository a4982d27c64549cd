"""C21: homogenizing gives homogeneous functions that agree with the original where the homogenizing variables are one."""
import itertools
from flow import *
from rules_c20 import num, ilist, group, groups, concrete, unpush, faults
from rules_c08 import Flow8, mk8, Case8, resolve, isgroup, asint, asbool, N, SY, systems, sysenv, X, Y
GROUPS = ['core']
TECHNIQUE = 'constant propagation of homogenization through each expression class over all small degree patterns of the operands, first and repeated, with the new terms evaluated as powers of the homogenizing variable times the old ones; degrees and homogeneity of the leaves and of linear products over all small variable lists; the system-wide pass over all small system shapes'
NOTE = 'sums of up to three terms with degrees up to three; up to two groups and two functions; linear products in up to three variables'
H = ('var', 'h')
def deref(t):
    while isinstance(t, tuple) and t[0] == 'opq' and t[1] == 'new': t = t[3]
    return t
def monomial(t):
    """a term as (power of the homogenizing variable, operand), or None"""
    t = deref(t)
    if t == H: return (1, None)
    if t[0] == 'nd': return (0, t[1])
    if t[0] == 'int': return (0, None) if t[1] == 1 else None
    if t[0] == 'new' and t[1].endswith('Integer') and len(t) >= 3: return monomial(t[2])
    if t[0] == 'new' and t[1].endswith('PowerOperator') and len(t) >= 4:
        b = monomial(t[2]); e = deref(t[3])
        if e[0] == 'new' and e[1].endswith('Integer'): e = deref(e[2])
        return (b[0] * e[1], None) if b and b[1] is None and e[0] == 'int' else None
    if t[0] == 'new' and t[1].endswith('MultOperator') or t[0] == '*' and len(t) == 3:
        a = t[2:] if t[0] == 'new' else t[1:]
        ms = [monomial(x) for x in a if x not in (('bool', True),) and x[0] not in ('bool', 'list')]
        if None in ms or any(x == ('bool', False) for x in a): return None
        os_ = [m[1] for m in ms if m[1] is not None]
        return (sum(m[0] for m in ms), os_[0] if os_ else None) if len(os_) < 2 else None
    if t[0] == 'new' and len(t) == 3: return monomial(t[2])
    return None
def check(F, P, R):
    V = ('list', X, Y)
    R.rule('sum', 'homogenizing a sum homogenizes each term, and multiplies it by the power of the homogenizing variable that it lacks to the highest degree; homogenizing again changes nothing; a term which is not polynomial is refused', 1)
    for f in resolve(F, P, N + 'SumOperator', 'Homogenize'):
        R.fn(f); c = Case8(R, 'sum', f, F)
        # (degree in the group, degree together with the homogenizing variable): differ in terms homogenized before
        for inside in (False, True):
            for k in (1, 2, 3):
                for ds in itertools.product([(0, 0), (1, 1), (2, 2), (3, 3), (0, 1), (0, 2), (1, 2)] if k < 3 else [(0, 0), (1, 1), (3, 3), (1, 3)], repeat=k):
                    done = []
                    def deg(d, a, o, e):
                        if not o or o[0] != 'nd': return None
                        if not a or a[0][0] != 'list' or X not in a[0] or Y not in a[0]: return None
                        if ('h', o[1]) not in done: done.append('early')
                        return ('int', ds[o[1]][H in a[0]])
                    def hom(d, a, o, e):
                        if not o or o[0] != 'nd': return None
                        done.append(('h', o[1]))
                        if len(a) == 2 and (a[0][0] != 'list' or X not in a[0] or Y not in a[0] or a[1] != H): done.append('args')
                        return ('none',)
                    def judge(p):
                        if p.kind == 'throw': return 'it is refused'
                        if 'args' in done: return 'a term is homogenized with another variable or group'
                        ops = p.st.env.get(('f', 'operands_'))
                        ops = unpush(ops) if ops else None
                        if ops is None: return 'unknown'
                        if len(ops) - 1 != k: return f'{len(ops) - 1} terms are left of {k}'
                        for i in range(k):
                            if ('h', i) not in done: return f'term {i} is not homogenized itself'
                        ms = [monomial(t) for t in ops[1:]]
                        if None in ms: return 'unknown'
                        if 'early' in done: return 'unknown'
                        top = max(x[1] for x in ds)
                        for i, m in enumerate(ms):
                            if m[1] != i: return f'term {i} is replaced by another'
                            if m[0] != top - ds[i][1]: return f'term {i} is multiplied by the homogenizing variable to the power {m[0]} instead of {top - ds[i][1]}'
                    c.go(mk8(F, P, {'Degree': deg, 'Homogenize': hom, 'find': find}), [('list', H, X, Y) if inside else V, H], {('f', 'operands_'): ('list',) + tuple(('nd', i) for i in range(k)), ('f', 'signs_'): ('list',) + (('bool', True),) * k}, f'terms of degrees {[x[1] for x in ds]}' + (f' of which {[x[1] - x[0] for x in ds]} in the homogenizing variable already' if any(x[0] != x[1] for x in ds) else ''), judge, dyn=N + 'SumOperator')
                    if c.bad or c.why: break
                if c.bad or c.why: break
        for ds in ([-1], [-1, 2], [2, -1], [0, -1, 1]):
            cs = {'Degree': lambda d, a, o, e: ('int', ds[o[1]]) if o and o[0] == 'nd' else None, 'Homogenize': lambda d, a, o, e: ('none',) if o and o[0] == 'nd' else None, 'find': find}
            c.go(mk8(F, P, cs), [V, H], {('f', 'operands_'): ('list',) + tuple(('nd', i) for i in range(len(ds))), ('f', 'signs_'): ('list',) + (('bool', True),) * len(ds)}, f'terms of degrees {ds}', lambda p: None if p.kind == 'throw' else 'it is not refused', dyn=N + 'SumOperator')
        c.done('SumOperator::Homogenize')
    R.rule('reach', 'homogenizing a product, quotient, power, negative or named function reaches every operand, with the same group and variable; an exponent in the variables is refused', 5)
    def reach(cls, env, k, what, throw=False, deg=0):
        for f in resolve(F, P, N + cls, 'Homogenize'):
            R.fn(f); c = Case8(R, 'reach', f, F); got = []
            def hom(d, a, o, e):
                if not o or o[0] != 'nd': return None
                got.append((o[1], tuple(a))); return ('none',)
            def judge(p):
                if throw: return None if p.kind == 'throw' else 'it is not refused'
                if p.kind == 'throw': return 'it is refused'
                for i in range(k):
                    if not any(g[0] == i for g in got): return f'operand {i} is not homogenized'
                if any(g[1] != (V, H) for g in got): return 'an operand is homogenized with another group or variable'
                for n_ in env:
                    if p.st.env.get(n_) != env[n_]: return 'the operands are changed'
            c.go(mk8(F, P, {'Homogenize': hom, 'Degree': lambda d, a, o, e: ('int', deg) if o and o[0] == 'nd' else None}), [V, H], env, what, judge, dyn=N + cls)
            c.done(f'{cls}::Homogenize {what}')
    ops = lambda k: ('list',) + tuple(('nd', i) for i in range(k))
    for k in (1, 2, 3): reach('MultOperator', {('f', 'operands_'): ops(k), ('f', 'mult_or_div_'): ('list',) + (('bool', True),) * k}, k, f'{k} factors')
    reach('NegateOperator', {('f', 'operand_'): ('nd', 0)}, 1, 'operand'); reach('IntegerPowerOperator', {('f', 'operand_'): ('nd', 0), ('f', 'exponent_'): ('int', 3)}, 1, 'operand')
    reach('PowerOperator', {('f', 'base_'): ('nd', 0), ('f', 'exponent_'): ('nd', 1)}, 1, 'constant exponent'); reach('PowerOperator', {('f', 'base_'): ('nd', 0), ('f', 'exponent_'): ('nd', 1)}, 1, 'exponent in the variables', True, 1)
    reach('Function', {('f', 'entry_node_'): ('nd', 0)}, 1, 'entry')
    # leaves
    R.rule('leaf', 'a variable has degree one in itself, and in groups it belongs to, and zero in others; numbers have degree zero; both are homogeneous', 10)
    for cls in ('Integer', 'Float', 'Rational', 'Pi', 'E') + ('SpecialNumber',) * 0:
        cs = F.cls(N + cls) or F.cls(N + 'special_number::' + cls)
        if not cs: continue
        for q, ok in (('Degree', lambda v: asint(v) == 0), ('IsHomogeneous', lambda v: asbool(v) is True)):
            for f in resolve(F, P, cs[0]['q'], q):
                R.fn(f); c = Case8(R, 'leaf', f, F)
                for arg in ([('list', X), V] if isgroup(f) else [X, ('null',)]): c.go(mk8(F, P, {}), [arg], {}, 'a number', lambda p: 'unknown' if p.ret is None or p.ret[0] not in ('int', 'bool') else None if ok(p.ret) else f'{q} is {p.ret[1]}', dyn=cs[0]['q'])
                c.done(f"{cls}::{q}({'group' if isgroup(f) else 'variable'})")
    Z = ('var', 'z')
    for q, ok in (('Degree', None), ('IsHomogeneous', None), ('MultiDegree', None)):
        for f in resolve(F, P, N + 'Variable', q):
            R.fn(f); c = Case8(R, 'leaf', f, F)
            for arg in ([('list',), ('list', X), ('list', Y), ('list', X, Y), ('list', Y, X), ('list', Y, Z), ('list', Y, Z, X)] if isgroup(f) else [X, Y, ('null',)]):
                def judge(p):
                    if p.kind == 'throw': return 'it is refused'
                    if q == 'MultiDegree':
                        r = unpush(p.ret) if p.ret else None
                        if r is None or not concrete(r): return 'unknown'
                        return None if r == ilist([int(x == X) for x in arg[1:]]) else f'the degrees are {[x[1] for x in r[1:]]}'
                    if q == 'Degree':
                        r = asint(p.ret); w = int(X in arg[1:]) if isgroup(f) else int(arg in (X, ('null',)))
                        return 'unknown' if r is None else None if r == w else f'the degree is {r} instead of {w}'
                    return 'unknown' if asbool(p.ret) is None else None if asbool(p.ret) else 'it is not taken for homogeneous'
                d = mk8(F, P, {}); d.selfv = X
                c.go(d, [arg], {}, 'x asked in ' + (', '.join(x[1] for x in arg[1:]) or 'an empty group' if isgroup(f) else arg[1] if len(arg) > 1 else 'total'), judge, dyn=N + 'Variable')
            c.done(f"Variable::{q}({'group' if isgroup(f) else 'variable'})")
    lin(F, P, R)
    whole(F, P, R)
def find(d, a, o, e):
    """std::find over a concrete list of variables"""
    if len(a) == 3 and a[0][0] == a[1][0] == 'it' and a[0][1] == a[1][1] and a[0][2][0] == a[1][2][0] == 'int' and a[0][1][0] == 'loc':
        l = d.lst(a[0][1][1])
        if l is None: return None
        for i in range(a[0][2][1], a[1][2][1]):
            x = l[1 + i]
            if x == a[2]: return ('it', a[0][1], ('int', i))
            if x[0] not in ('var', 'null') or a[2][0] not in ('var', 'null'): return None
        return a[1]
def lin(F, P, R):
    LP = N + 'LinearProduct'
    R.rule('linear', 'a linear product has as degree the number of its factors, in every variable or group it contains and in total, and zero in others; it is homogeneous in a group exactly when it does not meet it or was homogenized for it; it is homogenized with its own group only', 5)
    vs = {n: ('var', n) for n in 'xyzwh'}
    G = lambda s: ('list',) + tuple(vs[x] for x in s)
    def env(v, homd=False, homv=False, nf=3):
        e = {('f', 'variables_'): G(v), ('f', 'num_factors_'): ('int', nf), ('f', 'num_variables_'): ('int', len(v)), ('f', 'is_homogenized_'): ('bool', homd or homv), ('f', 'is_hom_vars_'): ('bool', homv)}
        e[('f', 'hom_variable_')] = vs['h'] if homd else ('null',)
        return e
    SETS = ['x', 'xy', 'xyz']; ASK = ['x', 'y', 'xy', 'yx', 'xyz', 'z', 'w', 'zw', 'xw']
    for f in resolve(F, P, LP, 'Degree') + resolve(F, P, LP, 'MultiDegree'):
        R.fn(f); c = Case8(R, 'linear', f, F); q = f['n']; g = isgroup(f)
        for v in SETS:
            for nf in (1, 3):
                for ask in (ASK if g else ['x', 'y', 'w', None]):
                    want = nf if ask is None or set(ask) & set(v) else 0
                    def judge(p):
                        if q == 'MultiDegree':
                            r = unpush(p.ret) if p.ret else None
                            if r is None or not concrete(r): return 'unknown'
                            w = ilist([nf if x in v else 0 for x in ask])
                            return None if r == w else f'the degrees are {[x[1] for x in r[1:]]}'
                        r = asint(p.ret)
                        return 'unknown' if r is None else None if r == want else f'the degree is {r} instead of {want}'
                    c.go(mk8(F, P, {'find': find}), [G(ask) if g else vs[ask] if ask else ('null',)], env(v, nf=nf), f'{nf} factors in {v}, asked in {ask or "total"}', judge, dyn=LP)
        c.done(f"LinearProduct::{q}({'group' if g else 'variable'})")
    for f in resolve(F, P, LP, 'IsHomogeneous'):
        if not isgroup(f): continue
        R.fn(f); c = Case8(R, 'linear', f, F)
        for v in SETS:
            for homd, homv in ((False, False), (True, False), (False, True)):
                for ask in ASK + ['h' + a for a in ASK if homd]:
                    mine = set(v) | ({'h'} if homd else set())
                    if not set(ask) & mine: want = True
                    elif not mine <= set(ask): want = False
                    else: want = homd or homv
                    c.go(mk8(F, P, {'find': find}), [G(ask)], env(v, homd, homv), f'factors in {v}' + (', homogenized' if homd else ', of a homogeneous group' if homv else '') + f', asked in {ask}', lambda p: 'unknown' if asbool(p.ret) is None else None if asbool(p.ret) == want else 'it is taken for homogeneous' if not want else 'it is not taken for homogeneous', dyn=LP)
        c.done('LinearProduct::IsHomogeneous(group)')
    for f in resolve(F, P, LP, 'Homogenize'):
        R.fn(f); c = Case8(R, 'linear', f, F)
        for v in SETS:
            for homd, homv in ((False, False), (True, False), (False, True)):
                for ask in ASK + ['h' + a for a in ASK]:
                    rest = set(ask) - {'h'}
                    e = env(v, homd, homv)
                    def judge(p):
                        hv, ih = p.st.env.get(('f', 'hom_variable_')), asbool(p.st.env.get(('f', 'is_homogenized_')))
                        if homd or homv: return 'it is refused' if p.kind == 'throw' else None if hv == e[('f', 'hom_variable_')] and ih else 'a product homogenized before is changed'
                        if rest & set(v) and rest != set(v): return None if p.kind == 'throw' else 'homogenizing in part of its variables is not refused'
                        if p.kind == 'throw': return 'it is refused'
                        if ih is None: return 'unknown'
                        if rest == set(v): return None if ih and hv == vs['h'] else 'it is not homogenized'
                        return 'it is homogenized with the variable of another group' if ih or hv != ('null',) else None
                    c.go(mk8(F, P, {'find': find, 'remove': rem}), [G(ask), vs['h']], e, f'factors in {v}' + (', homogenized' if homd else ', of a homogeneous group' if homv else '') + f', homogenized in {ask}', judge, dyn=LP)
        c.done('LinearProduct::Homogenize')
def rem(d, a, o, e):
    if o is None and len(a) == 3 and a[0][0] == a[1][0] == 'it' and a[0][1][0] == 'loc' and a[0][2][0] == a[1][2][0] == 'int':
        loc = a[0][1][1]; l = d.lst(loc)
        if l is None: return None
        i, j = a[0][2][1], a[1][2][1]; keep = [x for x in l[1 + i:1 + j] if x != a[2]]
        d.write(loc, l[:1 + i] + tuple(keep) + (('sym', 'moved'),) * (j - i - len(keep)) + l[1 + j:])
        return ('it', a[0][1], ('int', i + len(keep)))
def whole(F, P, R):
    R.rule('system', 'homogenizing a system homogenizes every function in every affine group with the variable of that group: a new one for each group the first time, the same ones again later', 1)
    for f in F.need(SY + 'Homogenize'):
        R.fn(f); c = Case8(R, 'system', f, F)
        for na, nh, hv, nf in systems():
            env = sysenv(na, nh, hv, nf); did = []; cnt = [0]
            def make(d, a, o, e): cnt[0] += 1; return ('var', f'n{cnt[0] - 1}')
            def hom(d, a, o, e):
                if not o or o[0] != 'nd': return None
                did.append((o[1], tuple(a))); return ('none',)
            cs = {'IsPolynomial': lambda d, a, o, e: ('bool', True), 'IsHomogeneous': lambda d, a, o, e: ('bool', True), 'Make': make, 'Homogenize': hom}
            def judge(p):
                if p.kind == 'throw': return 'it is refused'
                hs = p.st.env.get(('f', 'homogenizing_variables_')); hs = unpush(hs) if hs else None
                if hs is None: return 'unknown'
                if len(hs) - 1 != na: return f'there are {len(hs) - 1} homogenizing variables for {na} groups'
                if len(set(hs[1:])) != na: return 'two groups share a homogenizing variable'
                if hv and hs != env[('f', 'homogenizing_variables_')]: return 'the homogenizing variables are replaced'
                for i in range(nf):
                    for j in range(na):
                        want = {('var', f'a{j}'), ('var', f'b{j}')}
                        m = [a for k, a in did if k == i and len(a) == 2 and a[0][0] == 'list' and want <= set(a[0][1:])]
                        if not m: return f'function {i} is not homogenized in group {j}'
                        for a in m:
                            if a[1] != hs[1 + j]: return f'function {i} is homogenized in group {j} with the variable of another group'
                            if set(a[0][1:]) - want - {hs[1 + j]}: return f'function {i} is homogenized in variables of two groups together'
            c.go(mk8(F, P, cs), [], env, f'{nf} functions, {na} affine and {nh} homogeneous groups' + (', homogenized before' if hv else ''), judge)
        c.done()
