"""C17: each predictor is the method it is named for, at the order it claims."""
from fractions import Fraction as Q
from functools import lru_cache
import re
from ir import *
from rules_c03 import field_at
GROUPS = ['core', 'systems', 'algorithms']
TECHNIQUE = 'constant propagation of every tableau to the predictor that installs it, exact rational check of the Runge-Kutta order conditions of all rooted trees, and dataflow through the step that uses the tableau'
NOTE = 'exact for the tableaux found in the source; the use of the tableau in the prediction step is decided on all paths'

# order of the propagated and of the embedded weights, by the meaning of the name
NAMED = {'Constant': (0, None), 'Euler': (1, None), 'Heun': (2, None), 'HeunEuler': (2, 1), 'RK4': (4, None), 'RKNorsett34': (4, 3), 'RKF45': (5, 4), 'RKCashKarp45': (5, 4), 'RKDormandPrince56': (6, 5), 'RKVerner67': (7, 6)}
# published tableaux, rows of a below the diagonal then b then embedded b
PUBLISHED = {
 'Euler': ([], '1', None),
 'HeunEuler': (['1'], '1/2 1/2', '1 0'),
 'Heun': (['1'], '1/2 1/2', None),
 'RK4': (['1/2', '0 1/2', '0 0 1'], '1/6 1/3 1/3 1/6', None),
 'RKF45': (['1/4', '3/32 9/32', '1932/2197 -7200/2197 7296/2197', '439/216 -8 3680/513 -845/4104', '-8/27 2 -3544/2565 1859/4104 -11/40'],
           '16/135 0 6656/12825 28561/56430 -9/50 2/55', '25/216 0 1408/2565 2197/4104 -1/5 0'),
 'RKCashKarp45': (['1/5', '3/40 9/40', '3/10 -9/10 6/5', '-11/54 5/2 -70/27 35/27', '1631/55296 175/512 575/13824 44275/110592 253/4096'],
           '37/378 0 250/621 125/594 0 512/1771', '2825/27648 0 18575/48384 13525/55296 277/14336 1/4'),
}
FIELDS = ('a_', 'b_', 'c_', 'b_minus_bstar_')

# ---------------------------------------------------------------- rooted trees
@lru_cache(None)
def trees(n):
    """Rooted trees with n vertices as sorted tuples of subtrees."""
    out = set()
    def rec(left, lo, acc):
        if left == 0: out.add(tuple(sorted(acc))); return
        for k in range(1, left + 1):
            for t in trees(k):
                if (k, t) >= lo: rec(left - k, (k, t), acc + [t])
    rec(n - 1, (0, ()), [])
    return sorted(out)
def size(t): return 1 + sum(size(x) for x in t)
def gamma(t):
    g = size(t)
    for x in t: g *= gamma(x)
    return g
def order_of(a, b, top):
    """Largest p <= top such that all order conditions up to p hold exactly."""
    s = len(b)
    memo = {}
    def g(t):      # vector over stages
        if t in memo: return memo[t]
        v = [Q(1)] * s
        for x in t:
            gx = g(x)
            ax = [sum(a[i][j] * gx[j] for j in range(s)) for i in range(s)]
            v = [p * q for p, q in zip(v, ax)]
        memo[t] = v
        return v
    for p in range(1, top + 1):
        for t in trees(p):
            if sum(x * y for x, y in zip(b, g(t))) != Q(1, gamma(t)): return p - 1
    return top

# ---------------------------------------------------------------- constants
class Unknown(Exception): pass
def rat(e):
    k = e['k']
    if k == 'int': return Q(int(e['v']))
    if k == 'float': return Q(str(e['v']))
    if k == 'str': return Q(e['v'])
    if k == 'un' and e['op'] in '+-': return rat(e['a'][0]) * (-1 if e['op'] == '-' else 1)
    if k == 'cast': return rat(e['a'][0])
    if k in ('ctor', 'cast', 'list'):
        a = [x for x in e['a'] if x['k'] not in ('null', 'defarg')]
        if not a: return Q(0)
        if len(a) == 1: return rat(a[0])
        if len(a) == 2: return rat(a[0]) / rat(a[1])
    if k in ('bin', 'op') and len(e['a']) == 2:
        x, y = rat(e['a'][0]), rat(e['a'][1])
        if e['op'] == '/': return x / y
        if e['op'] == '*': return x * y
        if e['op'] == '+': return x + y
        if e['op'] == '-': return x - y
    if k in ('bin', 'op') and len(e['a']) == 1 and e['op'] == '-': return -rat(e['a'][0])
    raise Unknown(k)

class Tables:
    def __init__(self, F):
        self.g = {}
        for g in F.all_gvars:
            if g.get('init') is not None: self.g[g['q']] = g
        self.memo = {}
    def array(self, q, d=0):
        """Flat values and matrix shape of a constant."""
        if q in self.memo: return self.memo[q]
        g = self.g.get(q)
        if g is None or d > 5: raise Unknown(q)
        e = g['init']; t = g['t']
        while e['k'] in ('cast',): e = e['a'][0]
        if e['k'] == 'ctor' and e['a'] and e['a'][0]['k'] in ('ref', 'mem') and e['a'][0].get('q') in self.g:
            v = self.array(e['a'][0]['q'], d + 1)[0]
        elif e['k'] == 'ref' and e.get('q') in self.g: v = self.array(e['q'], d + 1)[0]
        elif e['k'] in ('list', 'ctor') and e.get('a'):
            v = [rat(x) for x in e['a'] if x['k'] not in ('null', 'defarg')]
        else: raise Unknown(f'{q}: {e["k"]}')
        m = re.search(r'Eigen::Matrix<.*, (\d+), (\d+)(?:, (\d+))?', t)
        shape = (int(m.group(1)), int(m.group(2)), int(m.group(3) or 0) & 1) if m else None
        if m and int(m.group(1)) * int(m.group(2)) != len(v): raise Unknown(f'{q}: {len(v)} values for a {m.group(1)}x{m.group(2)} matrix')
        self.memo[q] = (v, shape)
        return self.memo[q]
    def matrix(self, q):
        v, sh = self.array(q)
        if sh is None: raise Unknown(q)
        r, c, rowmajor = sh
        return [[v[i * c + j] if rowmajor else v[j * r + i] for j in range(c)] for i in range(r)]

def comp(t, fld):
    """Numeric component when the lvalue names (an element of) get<T>(this.fld)."""
    for s in subterms(t):
        if s[0] == 'get' and s[2] == ('field', ('this',), fld): return s[1]
    return None
def num(c): return 'double' if re.search(r'\bdouble\b', c) else 'mpfr'

def decide(P, f, en):
    """Constant results of f(enumerator) over its paths."""
    out = set()
    cfg = CFG(P, f, bind={f['params'][0]['id']: en})
    def step(st, n, lab, sim):
        if n.kind == 'ret' and n.fr.uid is None and n.expr is not None:
            v = sim.value(n.expr); t = sim.term(n.expr)
            if v is None and t[0] == 'op':      # a boolean combination of comparisons with constants
                v = sim.evalc(t, sim.F)
            out.add(v if v is not None else ('unknown', tstr(t)))
        return [st]
    Sim(cfg, step, 0, lambda st, n, sim: out.add('throw') if n.kind == 'throwexit' else None)
    return out

def check(F, P, R):
    R.rule('R1', 'selecting a predictor installs one tableau: all of a, b, c (and the embedded weights where it has an error estimate), for both numeric types, from one family, over all stages', 5)
    R.rule('R2', 'the tableau is explicit, consistent, and satisfies every order condition up to the order the predictor reports; it has the orders of its name', 5)
    R.rule('R3', 'the embedded weights are a consistent method of adjacent order, and a predictor claims an error estimate exactly if it has them', 5)
    R.rule('R4', 'the prediction step combines stage i from a(i,j), K(j), j<i, evaluates it at c(i), and combines all stages with b', 4)
    R.rule('R5', 'a refused predictor leaves the predictor as it was', 1)
    C = 'bertini::tracking::predict::ExplicitRKPredictor'
    P.relevant(lambda e: e['k'] == 'mem' and e.get('dk') == 'field' and e['n'] in FIELDS + ('s_', 'p_', 'predictor_', 'uses_embedded_'))
    pm = [f for f in F.need(C + '::PredictorMethod') if len(f['params']) == 1][0]
    en = F.enums.get('bertini::tracking::Predictor')
    if not en: raise AnalysisBroken('enum Predictor not found')
    order = [f for f in F.need('bertini::tracking::predict::Order')][0]
    hase = [f for f in F.need('bertini::tracking::predict::HasErrorEstimate')][0]
    R.fn(pm, order, hase)
    T = Tables(F)
    where = f"{pm['file']}:{pm['line']}"
    for c in en['consts']:
        name = c['n']; E = ('enum', 'bertini::tracking::Predictor::' + name)
        o = decide(P, order, E); h = decide(P, hase, E)
        res, throws = install(F, P, R, pm, E)
        if throws and not res:
            R.ok('R1', f'{name}: refused'); continue
        if len(o) != 1 or list(o)[0] == 'throw' or list(o)[0][0] != 'int': R.bad('R2', f'{name}:order', f"{order['file']}:{order['line']}", f'Order({name}) is not one number'); continue
        if h not in ({('bool', True)}, {('bool', False)}): R.bad('R3', f'{name}:has', f"{hase['file']}:{hase['line']}", f'HasErrorEstimate({name}) is not one truth value'); continue
        p = list(o)[0][1]; he = list(h)[0][1]
        for st in res: judge(F, R, T, name, p, he, st, where, order, hase)
    usestep(F, P, R, C)

def install(F, P, R, pm, E):
    """End states of PredictorMethod(E): frozenset of (field, number type, source), stages."""
    res = set(); thr = []
    cfg = CFG(P, pm, bind={pm['params'][0]['id']: E}, inline=lambda c, e, fr: c['q'].startswith('bertini::tracking::predict') and c['n'] not in ('ResizeK', 'Order', 'HasErrorEstimate'))
    def step(st, n, lab, sim):
        d = dict(st)
        if n.kind == 'act':
            e = n.expr
            if e['k'] in ('bin', 'op') and e['op'] == '=' and len(e['a']) == 2:
                L = sim.expand(P.term(e['a'][0], n.fr)); v = sim.term(e['a'][1])
                if L == ('field', ('this',), 's_'): d['s'] = sim.value(e['a'][1]) or ('?', tstr(v))
                if L == ('field', ('this',), 'predictor_'): d['predictor'] = 1
                if L == ('field', ('this',), 'p_'): d['p'] = v
                if L == ('field', ('this',), 'uses_embedded_'): d['emb'] = sim.value(e['a'][1]) or ('?',)
                for fld in FIELDS:
                    cc = comp(L, fld)
                    if cc is None: continue
                    src = {s[1] for s in subterms(v) if s[0] == 'global' and not s[1].split('::')[-1] in ('predict',)}
                    cst = sim.value(e['a'][1])
                    key = (fld, num(cc))
                    if src: d[key] = (d.get(key) or frozenset()) | frozenset(src)
                    elif cst is not None: d[key] = (d.get(key) or frozenset()) | {str(cst[1])}
                    else: d[key] = (d.get(key) or frozenset()) | {'?' + tstr(v)}
                    # transposed or shifted element copies
                    if L[0] == 'op' and L[1] in ('()', '[]'):
                        li = L[3:]
                        for s in subterms(v):
                            if s[0] == 'op' and s[1] in ('()', '[]') and any(z[0] == 'global' for z in subterms(s[2])):
                                if tuple(s[3:]) != tuple(li): d[('perm', fld, num(cc))] = f'{tstr(L)} = {tstr(s)}'
        if n.kind == 'lout':
            L = n.aux
            for fld in FIELDS:
                for ix in L.indexed:
                    cc = comp(sim.expand(ix), fld)
                    if cc is not None:
                        why = L.partial(ix, sim)
                        if why and 'constant' in why:
                            hi = sim.expand(L.hi)
                            if hi == d.get('s') : why = None
                        if why: d[('part', fld, num(cc))] = f'the loop at line {L.line} {why}'
        return [tuple(sorted(d.items(), key=repr))]
    def ex(st, n, sim):
        if n.kind == 'throwexit':
            thr.append(st)
            ks = [k for k in dict(st)]
            if ks:
                R.bad('R5', f'{E[1].split("::")[-1]}:partial', f"{pm['file']}:{pm['line']}", f'PredictorMethod({E[1].split("::")[-1]}) throws after changing {", ".join(sorted({str(k if isinstance(k, str) else k[0]) for k in ks}))}, so the predictor claims one method and uses the tableau of another')
            else: R.ok('R5', f'{E[1]}: refused unchanged')
        else: res.add(st)
    Sim(cfg, step, (), ex)
    return res, bool(thr)

def judge(F, R, T, name, p, he, st, where, order, hase):
    d = dict(st)
    bad = False
    def b(rule, key, msg, w=where):
        nonlocal bad
        bad = True; R.bad(rule, f'{name}:{key}', w, msg)
    s = d.get('s')
    need = ['a_', 'b_', 'c_'] + (['b_minus_bstar_'] if he else [])
    if s is None or s[0] != 'int': R.skip('R1', f'{name}: stage count {s}'); return
    s = s[1]
    if 'predictor' not in d: b('R1', 'predictor', f'selecting {name} does not record it as the current method')
    emb = d.get('emb')
    if emb is not None and emb[0] == 'bool' and emb[1] != he: b('R3', 'flag', f'after selecting {name} the predictor {"uses" if emb[1] else "does not use"} embedded weights, but {name} {"has" if he else "has no"} error estimate')
    fam = {}
    for fld in need:
        for t in ('double', 'mpfr'):
            src = d.get((fld, t))
            if not src: b('R1', f'{fld}:{t}', f'selecting {name} leaves {fld} of type {t} as the previous method had it'); continue
            if ('perm', fld, t) in d: b('R1', f'{fld}:{t}:perm', f'selecting {name} copies {fld} of type {t} with different subscripts: {d[("perm", fld, t)]}')
            if ('part', fld, t) in d: b('R1', f'{fld}:{t}:part', f'selecting {name} copies only part of {fld} of type {t}: {d[("part", fld, t)]}')
            if any(x.startswith('?') for x in src): R.skip('R1', f'{name}: {fld} from {src}'); return
            fam.setdefault(fld, set()).add(src)
        if len(fam.get(fld, ())) > 1: b('R1', f'{fld}:types', f'selecting {name} installs different {fld} for the two numeric types: {[sorted(x) for x in fam[fld]]}')
    if bad: return
    R.ok('R1', f'{name}: {s} stages')
    # ---- numbers
    try:
        val = {}
        for fld in need:
            src = list(fam[fld])[0]
            if len(src) != 1: R.skip('R2', f'{name}: {fld} from several constants {sorted(src)}'); return
            q = list(src)[0]
            if not q.startswith('bertini'):
                x = Q(q); val[fld] = [[x] * (s if fld == 'a_' else 1) for _ in range(s)]
            else: val[fld] = T.matrix(q)
        a = val['a_']; bb = [r[0] for r in val['b_']] if len(val['b_']) > 1 or len(val['b_'][0]) == 1 else val['b_'][0]
        cc = [r[0] for r in val['c_']] if len(val['c_']) > 1 or len(val['c_'][0]) == 1 else val['c_'][0]
        em = None
        if he: em = [r[0] for r in val['b_minus_bstar_']] if len(val['b_minus_bstar_']) > 1 or len(val['b_minus_bstar_'][0]) == 1 else val['b_minus_bstar_'][0]
    except Unknown as u:
        R.skip('R2', f'{name}: constant {u} not understood'); return
    if len(a) != s or len(bb) != s or len(cc) != s or (em is not None and len(em) != s):
        b('R2', 'size', f'{name} uses {s} stages, but its tableau has {len(a)} rows, {len(bb)} weights and {len(cc)} nodes'); return
    for i in range(s):
        for j in range(i, s):
            if a[i][j] != 0: b('R2', 'explicit', f'{name}: a({i},{j}) = {a[i][j]} makes the tableau implicit'); return
    for i in range(s):
        if sum(a[i]) != cc[i]: b('R2', f'row{i}', f'{name}: row {i} of a sums to {sum(a[i])}, but c({i}) = {cc[i]}'); return
    ob = order_of(a, bb, 7)
    want, wemb = NAMED.get(name, (p, None))
    if ob < p: b('R2', 'order', f'{name} reports order {p}, but its weights satisfy the order conditions only up to order {ob}'); return
    if ob < (wemb or want): b('R2', 'named', f'{name} should be of order {wemb or want}, but its weights satisfy the order conditions only up to order {ob}'); return
    if p > want or p < (wemb or want): b('R2', 'claim', f'Order({name}) is {p}, but the method is of order {want}' + (f' with an embedded method of order {wemb}' if wemb else ''), f"{order['file']}:{order['line']}"); return
    pub = PUBLISHED.get(name)
    if pub and len(bb) == len(pub[0]) + 1:
        rows = [[Q(x) for x in r.split()] for r in pub[0]]
        for i, r in enumerate(rows):
            if a[i + 1][:i + 1] != r: b('R2', f'coefficients{i}', f'{name}: row {i + 1} of a is {[str(x) for x in a[i + 1][:i + 1]]}, the method of that name has {[str(x) for x in r]}'); return
        if bb != [Q(x) for x in pub[1].split()]: b('R2', 'weights', f'{name}: the weights are not those of the method of that name'); return
    R.ok('R2', f'{name}: {s} stages, order {ob}, reports {p}; {sum(len(trees(k)) for k in range(1, ob + 1))} order conditions')
    if not he and name in NAMED and NAMED[name][1] is not None: b('R3', 'none', f'{name} has an embedded method but claims no error estimate', f"{hase['file']}:{hase['line']}"); return
    if he:
        if name in NAMED and NAMED[name][1] is None: b('R3', 'claims', f'{name} claims an error estimate it does not have', f"{hase['file']}:{hase['line']}"); return
        bs = [x - y for x, y in zip(bb, em)]
        if all(x == 0 for x in em): b('R3', 'zero', f'{name}: the error weights are all zero'); return
        oe = order_of(a, bs, 7)
        lo = wemb or p - 1
        if sum(em) != 0 or oe < lo or max(ob, oe) < want: b('R3', 'embedded', f'{name}: the weights are of order {ob} and the weights less the error weights of order {oe}, not {lo} and {want}'); return
        R.ok('R3', f'{name}: embedded order {oe}')
    else: R.ok('R3', f'{name}: no error estimate')

def flat(t, op):
    if t[0] == 'op' and t[1] == op and len(t) == 4: return flat(t[2], op) + flat(t[3], op)
    return [t]

def col(t):
    """Index of K.col(index)."""
    if t[0] == 'call' and isinstance(t[1], str) and t[1].split('::')[-1] == 'col' and field_at(t[2], ('this',)) == 'K_': return t[3][0]
    if t[0] == 'call' and isinstance(t[1], str) and t[1].split('::')[-1] == 'col' and t[2] is not None and t[2][0] == 'var': return t[3][0]
    return None

def usestep(F, P, R, C):
    fs = F.need(C + '::FullStep')
    for f in fs:
        R.fn(f)
        cfg = CFG(P, f)
        facts = {'a': 0, 'b': 0, 'eval': 0, 'next': 0}
        loops = {}
        fl = lambda t: field_at(t, ('this',))
        tag = f['ta'][0].split('<')[0] if f.get('ta') else ''
        bad = []
        def step(st, n, lab, sim):
            st = set(st)
            if n.kind == 'lin': st.add(('in', n.aux.no)); loops[n.aux.no] = n.aux
            if n.kind == 'lout': st = {x for x in st if x != ('in', n.aux.no)}
            cur = [loops[x[1]] for x in st if x[0] == 'in']
            byvar = {L.var: L for L in cur if L.kind == 'index'}
            ctx = lambda t: byvar.get(t[3]) if t[0] == 'var' else None
            if n.kind == 'act':
                e = n.expr
                if e['k'] in ('bin', 'op') and e['op'] in ('+=', '-=', '=') and len(e['a']) == 2:
                    v = sim.expand(P.term(e['a'][1], n.fr), vol=False)
                    for term in flat(v, '+'):
                        fac = flat(term, '*')
                        el = [x for x in fac if x[0] == 'op' and x[1] in ('()', '[]') and fl(x[2]) in ('a_', 'b_')]
                        if not el: continue
                        el = el[0]; fld = fl(el[2]); ks = [col(x) for x in fac if col(x) is not None]
                        if not ks: R.skip('R4', f'{tag} {tstr(term)}'); continue
                        if fld == 'a_' and len(el) == 5:
                            i, j = el[3], el[4]
                            if ks[0] != j: bad.append((n, f'a({tstr(i)},{tstr(j)}) multiplies stage {tstr(ks[0])}'))
                            L = ctx(j)
                            if L is not None:
                                lo = sim.expand(L.lo) if L.lo is not None else None
                                if lo is not None and lo[0] == 'int' and lo[1] > 0: bad.append((n, f'the sum over earlier stages starts at {lo[1]}'))
                                o = offset(L.hi) if L.hi is not None else None
                                if o is not None and o[0] == i and o[1] < 0: bad.append((n, f'the sum over earlier stages leaves out the last'))
                            if e['op'] == '-=': bad.append((n, 'the stages are subtracted'))
                            facts['a'] += 1
                            st.add(('a', i))
                        if fld == 'b_':
                            i = el[3]
                            if ks[0] != i: bad.append((n, f'b({tstr(i)}) multiplies stage {tstr(ks[0])}'))
                            L = ctx(i)
                            if L is not None:
                                lo = sim.expand(L.lo) if L.lo is not None else None
                                if lo is not None and lo[0] == 'int' and lo[1] > 0: bad.append((n, f'the weighted sum starts at stage {lo[1]}'))
                                o = offset(sim.expand(L.hi)) if L.hi is not None else None
                                if o is not None and o[1] < 0: bad.append((n, f'the weighted sum stops at {tstr(L.hi)}'))
                            if e['op'] == '-=': bad.append((n, 'the stages are subtracted'))
                            facts['b'] += 1; st.add('b')
                if e['k'] == 'call' and e.get('n') == 'EvalRHS':
                    a = [sim.expand(P.term(x, n.fr), vol=False) for x in e['a']]
                    stage = a[-1]
                    facts['eval'] += 1
                    cs = [s for s in subterms(a[2]) if s[0] == 'op' and s[1] in ('()', '[]') and fl(s[2]) == 'c_']
                    if stage != ('int', 0):
                        if cs and cs[0][3] != stage: bad.append((n, f'stage {tstr(stage)} is evaluated at the time of stage {tstr(cs[0][3])}'))
                        if not cs: bad.append((n, f'stage {tstr(stage)} is evaluated at {tstr(a[2])}, which does not use c'))
                        elif not (mentions(a[2], PARAM(f, 'current_time')) and mentions(a[2], PARAM(f, 'delta_t'))): bad.append((n, f'stage {tstr(stage)} is evaluated at {tstr(a[2])}, not at the current time plus c times the step'))
                        L = ctx(stage)
                        if L is not None:
                            lo = sim.expand(L.lo) if L.lo is not None else None
                            if lo is not None and lo[0] == 'int' and lo[1] > 1: bad.append((n, f'the stages start at {lo[1]}'))
                            o = offset(sim.expand(L.hi)) if L.hi is not None else None
                            if o is not None and o[1] < 0: bad.append((n, f'the stages stop at {tstr(L.hi)}'))
                        if not any(x[0] == 'a' and x[1] == stage for x in st if isinstance(x, tuple)) : st.add(('noa',))
                if e['k'] in ('bin', 'op') and e['op'] == '=' and len(e['a']) == 2 and P._root(e['a'][0]) == f['params'][0]['id']:
                    v = sim.expand(P.term(e['a'][1], n.fr), vol=False)
                    if facts['eval'] and 'b' in st:
                        facts['next'] += 1
                        if not mentions(v, PARAM(f, 'delta_t')) or not mentions(v, PARAM(f, 'current_space')): bad.append((n, f'the prediction is {tstr(v)}, not the current point plus the step times the combination'))
                        for s in subterms(v):
                            if s[0] == 'op' and s[1] == '-' and len(s) == 4: bad.append((n, f'the prediction is {tstr(v)}'))
            return [frozenset(st)]
        Sim(cfg, step, frozenset())
        for n, m in {(x.id, y): (x, y) for x, y in bad}.values(): R.bad('R4', f'FullStep:{m}'[:120], n.where(), f'in FullStep<{tag}>, {m}')
        if not facts['a'] or not facts['b'] or not facts['eval']: R.skip('R4', f'FullStep<{tag}> combination not recognised: {facts}')
        elif not bad: R.ok('R4', f'FullStep<{tag}>')
    for f in F.need(C + '::SetErrorEstimate'):
        R.fn(f); cfg = CFG(P, f); bad = []; seen = [0]; loops = {}
        tag = f['ta'][0].split('<')[0] if f.get('ta') else ''
        def step(st, n, lab, sim):
            if n.kind == 'lin': loops[n.aux.var] = n.aux
            if n.kind == 'act' and n.expr['k'] in ('bin', 'op') and n.expr['op'] in ('+=', '=') and len(n.expr['a']) == 2:
                v = sim.expand(P.term(n.expr['a'][1], n.fr), vol=False)
                for s in subterms(v):
                    if s[0] == 'op' and s[1] == '*' and len(s) == 4:
                        el = [x for x in flat(s, '*') if x[0] == 'op' and x[1] in ('()', '[]') and field_at(x[2], ('this',)) in FIELDS]
                        ks = [col(x) for x in flat(s, '*') if col(x) is not None]
                        if el and ks:
                            seen[0] += 1
                            if field_at(el[0][2], ('this',)) != 'b_minus_bstar_': bad.append((n, f'the error estimate uses {field_at(el[0][2], ("this",))}'))
                            if ks[0] != el[0][3]: bad.append((n, f'error weight {tstr(el[0][3])} multiplies stage {tstr(ks[0])}'))
                            L = loops.get(ks[0][3]) if ks[0][0] == 'var' else None
                            if L is not None:
                                lo = sim.expand(L.lo) if L.lo is not None else None
                                if lo is not None and lo[0] == 'int' and lo[1] > 0: bad.append((n, f'the error estimate starts at stage {lo[1]}'))
                                o = offset(sim.expand(L.hi)) if L.hi is not None else None
                                if o is not None and o[1] < 0: bad.append((n, f'the error estimate stops at {tstr(L.hi)}'))
            return [st]
        Sim(cfg, step, 0)
        for n, m in bad: R.bad('R4', f'SetErrorEstimate:{m}'[:120], n.where(), f'in SetErrorEstimate<{tag}>, {m}')
        if not seen[0]: R.skip('R4', f'SetErrorEstimate<{tag}> not recognised')
        elif not bad: R.ok('R4', f'SetErrorEstimate<{tag}>')

def PARAM(f, name):
    for p in f['params']:
        if p['n'] == name: return ('var', 0, name, p['id'])
    ps = {'current_space': 2, 'current_time': 3, 'delta_t': 4}
    p = f['params'][ps[name]]
    return ('var', 0, p['n'], p['id'])
