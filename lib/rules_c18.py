"""C18: the working precision is one consistent setting and temporary changes are undone."""
import re
from flow import *
from facts import walk
GROUPS = ['algorithms', 'core']
TECHNIQUE = 'abstract interpretation over path shapes with the default precision as a tracked global: its value at every return, at every generation of a random number and at every switch of the adaptive tracker is compared with its value at entry and with the precision asked for; the digits of each generator are read from its instantiated types'
NOTE = 'trackers, endgames and the phases of the zero dimensional solve set the default precision on purpose and are held to agreement, not to restoring it; paths that throw are not required to restore'
EXEMPT = ('/trackers/', '/endgames/', '/zero_dim_solve.hpp')
BASE = {'RandomRealAssign', 'RandomReal', 'rand_assign', 'RandomUnitAssign', 'RandomUnit', 'RandomComplex', 'RandomComplexAssign', 'Make', 'EndPointDehom'}
PREC = ('f', '$prec')

class Flow18(Flow):
    def mark(self, n, args, e): self.log(Ev(n=n, q=n, obj=None, args=args, res=('none',), i=self.uid(), line=e.get('l'), outs={}, nf=len(self.st.facts), snap={'$prec': self.read(PREC)}))
    def val(self, e):
        if e['k'] == 'ctor' and e.get('n') in ('HouseholderQR', 'ColPivHouseholderQR', 'FullPivHouseholderQR') or e['k'] == 'call' and e.get('n') in ('householderQ', 'householderQr', 'matrixQ'):
            if not self.discovering: self.mark('$qr', [], e)
        if e['k'] == 'op' and e.get('op') == '()' and len(e.get('a') or []) == 3 and 'function' in (e['a'][0].get('t') or ''):
            d = self.val(e['a'][2]); self.mark('$gen', [d], e)
            try: self.write(self.lval(e['a'][1]), ('r', '$gen', d, ('int', self.uid())))
            except Undecided: pass
            return ('none',)
        return super().val(e)
    def call(self, e):
        n = e.get('n'); A = e.get('a') or []
        if n == 'DefaultPrecision' and e.get('o') is None and (e.get('f') in (None, 'bertini::DefaultPrecision')):
            if not A: return self.read(PREC)
            self.write(PREC, self.val(A[0]))
            self.log(Ev(n='$set', q=n, obj=None, args=[self.read(PREC)], res=('none',), i=self.uid(), line=e.get('l'), outs={}, nf=len(self.st.facts)))
            return ('none',)
        return super().call(e)
def mk(F, P, opq=()): 
    d = Flow18(F, P, opaque=set(opq), maxpaths=20000); d.snapf = ('$prec',); return d
def runit(F, P, R, rid, f, opq=(), inst=None):
    R.fn(f)
    d = mk(F, P, opq)
    try: return d, [p for p in d.run(f, param_args(f)) if p.kind in ('ret', 'fall')]
    except Undecided as x: R.skip(rid, inst or name(f), str(x)[:80]); return d, None
def name(f): return f['q'].replace('bertini::', '') + (f"<{','.join(f['ta'])[:20]}>" if f.get('ta') else '') + f"/{len(f['params'])}"
def prec(p): return p.st.env.get(PREC, ('sym', '$prec'))
def settled(p, t):
    """equal modulo what the path established"""
    return t
def same(p, a, b):
    if a == b: return True
    for c, v in p.facts:
        if v and c[0] == 'cmp' and c[1] == '==' and {c[2], c[3]} == {a, b}: return True
    return False

def check(F, P, R):
    R.rule('together', 'setting the default precision sets it for real and for complex numbers, to the value given; nothing else sets either', 2)
    R.rule('undone', 'every function outside the trackers, endgames and solver phases that sets the default precision leaves it as it found it', 4)
    R.rule('digits', 'a random number requested with a number of digits comes from a generator of at least as many digits, and is delivered at that precision', 3)
    R.rule('bits', 'the generator of N digits draws at least N decimal digits worth of random bits into a number of at least N digits', 10)
    R.rule('asked', 'random numbers at the current precision ask for the default precision; those at a given precision ask for that one', 6)
    R.rule('orthogonal', 'coefficients of slices and patches are generated, and orthogonalised, at the highest precision', 2)
    R.rule('agree', 'after a switch of precision the adaptive tracker and the default precision agree', 5)
    R.rule('lift', 'when an endgame raises precision, the default and the tracker get the same one', 1)
    R.rule('uniform', 'making samples uniform leaves the default precision at the precision it reports', 2)
    together(F, P, R); undone(F, P, R); digits(F, P, R); bits(F, P, R); asked(F, P, R); slices(F, P, R); agree(F, P, R)

# ---------------------------------------------------------------- together
def together(F, P, R):
    for f in [f for f in F.fns.values() if f['q'] == 'bertini::DefaultPrecision' and f.get('body') and len(f['params']) == 1]:
        R.fn(f)
        d = FlowT(F, P); rid = 'together'
        try: ps = [p for p in d.run(f, param_args(f)) if p.kind in ('ret', 'fall')]
        except Undecided as x: R.skip(rid, name(f), str(x)[:80]); continue
        bad = None
        for p in ps:
            last = {}
            for e in p.ev:
                if e.n == '$sets': last[e.q] = e.args[0]
            want = ('sym', f['params'][0]['n'])
            for k in ('real', 'complex'):
                if k not in last: bad = f'the precision of {k} numbers is not set'
                elif last[k] != want and last[k][0] in ('int', 'sym', '+', '-', '*'): bad = f'the precision of {k} numbers is set to something else'
        if bad: R.bad(rid, name(f), F.loc(f), bad)
        else: R.ok(rid, name(f))
    if not [f for f in F.fns.values() if f['q'] == 'bertini::DefaultPrecision' and f.get('body') and len(f['params']) == 1]: F.need('bertini::DefaultPrecision#set')
    other = []
    for f in F.fns.values():
        if not f.get('body') or f['q'] == 'bertini::DefaultPrecision': continue
        for x in walk(f['body']):
            if x.get('k') == 'call' and x.get('n') in ('default_precision', 'thread_default_precision') and len(x.get('a') or []) == 1: other.append((f, x))
    seen = set()
    for f, x in other:
        if f['q'] in seen: continue
        seen.add(f['q'])
        ks = {kindfid(y) for y in walk(f['body']) if y.get('k') == 'call' and y.get('n') in ('default_precision', 'thread_default_precision') and len(y.get('a') or []) == 1}
        if 'real' in ks and 'complex' in ks: R.ok('together', name(f) + ' sets both')
        elif ks <= {'real', 'complex'} and callers_together(F, f, ks): R.ok('together', name(f) + ' part of setting both')
        else: R.bad('together', name(f), F.loc(f, x.get('l')), f"sets the precision of {' and '.join(sorted(k or 'some' for k in ks))} numbers alone")
    if not other: R.ok('together', 'no other setter')
def callers_together(F, f, ks):
    cs = [g for g in F.fns.values() if g.get('body') and g is not f and any(x.get('fid') == f['id'] for x in walk(g['body']) if x.get('k') == 'call')]
    return bool(cs) and all(g['q'] == 'bertini::DefaultPrecision' for g in cs)
def kindfid(x):
    s = x.get('fid') or ''
    return 'real' if 'mpfr_float_backend' in s else 'complex' if 'mpc_complex_backend' in s else None
class FlowT(Flow):
    def call(self, e):
        if e.get('n') in ('default_precision', 'thread_default_precision') and len(e.get('a') or []) == 1:
            self.log(Ev(n='$sets', q=kindfid(e), obj=None, args=[self.val(e['a'][0])], res=('none',), i=self.uid(), line=e.get('l'), outs={}, nf=len(self.st.facts)))
            return ('none',)
        return super().call(e)

# ---------------------------------------------------------------- undone
def sets(f): return [x for x in walk(f['body']) if x.get('k') == 'call' and x.get('n') == 'DefaultPrecision' and len(x.get('a') or []) == 1]
def exempt(f): return any(x in '/' + f['file'] for x in EXEMPT)
def guarded(F, f):
    """has a local whose destructor is ours: may restore there"""
    for x in walk(f['body']):
        if x.get('k') == 'var' and 'bertini' in (x.get('t') or ''):
            t = x['t'].replace('const ', '').split('<')[0]
            if any(g['kind'] == 'dtor' and g.get('body') and g.get('cls') and (g['cls'] == t or g['cls'].startswith(t + '<')) and sets(g) for g in F.fns.values()): return True
    return False
def leaves(F, P, R, f, memo):
    """('yes', path) if some path returns with another default precision; ('no',) ; ('unknown', why)"""
    if f['id'] in memo: return memo[f['id']]
    memo[f['id']] = ('no',)
    if guarded(F, f): r = ('unknown', 'restored by a destructor')
    else:
        d = mk(F, P, ('RandomMp', 'HouseholderQR', 'generate', 'DehomogenizePoint'))
        try:
            ps = [p for p in d.run(f, param_args(f)) if p.kind in ('ret', 'fall')]
            r = ('no',)
            for p in ps:
                if not same(p, prec(p), ('sym', '$prec')): r = ('yes', p); break
        except Undecided as x: r = ('unknown', str(x)[:80])
    memo[f['id']] = r
    return r
def callers(F, f):
    return [g for g in F.fns.values() if g.get('body') and g is not f and any(x.get('fid') == f['id'] for x in walk(g['body']) if x.get('k') in ('call', 'ctor'))]
def undone(F, P, R):
    rid = 'undone'; memo = {}
    fs = [f for f in F.fns.values() if f.get('body') and f['q'] != 'bertini::DefaultPrecision' and not exempt(f) and sets(f)]
    inst = {}
    for f in fs: inst.setdefault((f['q'], len(f['params']), f['line']), []).append(f)
    def bad(f, seen=()):
        r = leaves(F, P, R, f, memo)
        if r[0] != 'yes' or f['id'] in seen: return False
        if f['n'] in BASE: return True
        cs = callers(F, f)
        if f.get('kind') in ('ctor', 'dtor') or not cs: return not cs and f.get('kind') not in ('ctor', 'dtor')
        return any(bad(g, seen + (f['id'],)) for g in cs if not exempt(g))
    for k in sorted(inst):
        g = [f for f in inst[k] if not f.get('pattern')] or inst[k]
        f = g[0]; R.fn(f)
        for f in g:
            r = leaves(F, P, R, f, memo)
            if r[0] == 'yes' and bad(f):
                R.bad(rid, name(f), F.loc(f), 'returns with the default precision changed', [f"DefaultPrecision@{e.line}" for e in r[1].ev if e.n == '$set']); break
            if r[0] == 'unknown': R.skip(rid, name(f), r[1]); break
        else: R.ok(rid, name(g[0]))

# ---------------------------------------------------------------- random digits
def template_digits(e):
    ta = (e.c or {}).get('ta') or []
    m = re.match(r'(\d+)', ta[0]) if ta else None
    return int(m.group(1)) if m else None
def numval(t, n, v):
    return numeric(t, {n: v})
def digits(F, P, R):
    rid = 'digits'
    fs = [f for f in F.fns.values() if f['q'] == 'bertini::RandomMp' and f.get('body') and not f.get('ta') and not f.get('pattern') and f['params'] and 'int' in (f['params'][-1].get('t') or '')]
    if not fs: F.need('bertini::RandomMp#digits')
    for f in fs:
        num = ('sym', f['params'][-1]['n'])
        d, ps = runit(F, P, R, rid, f, ('RandomMp',))
        if ps is None: continue
        bad = und = None
        for p in ps:
            gs = [e for e in p.ev if e.n == 'RandomMp']
            gen = [e for e in gs if template_digits(e) is not None]
            if not gen: und = 'no generator of known digits on a path'; continue
            k = template_digits(gen[-1])
            cand = {1, 16, 40000, k, k + 1, 2 * k, 100000}
            for c, v in p.facts:
                for t in subterms(c):
                    if t and t[0] == 'int': cand |= {t[1] - 1, t[1], t[1] + 1}
            for v in sorted(cand):
                if v <= 0: continue
                if feasible(p, {num: v}) and v > k:
                    if all(numeric(c, {num: v}) is not None for c, _ in p.facts): bad = bad or (f'{v} digits may be requested where {k} are generated', p)
                    else: und = 'conditions of the ladder are not decided'
            after = [e for e in p.ev if e.i >= gen[-1].i and e is not gen[-1] and any(a == num for a in e.args)]
            if not after and not any(same(p, a, num) for e in p.ev if e.i > gen[-1].i for a in e.args) and not mentions(p, num): bad = bad or ('the number is not given the precision requested', p)
        if bad: R.bad(rid, name(f), F.loc(f), bad[0], trace(bad[1]))
        elif und: R.skip(rid, name(f), und)
        else: R.ok(rid, name(f))
    # the assigning form hands the number of digits on
    for f in [f for f in F.fns.values() if f['q'] == 'bertini::RandomMpAssign' and f.get('body') and not f.get('ta') and not f.get('pattern') and len(f['params']) == 2]:
        passes(F, P, R, rid, f, ('sym', f['params'][-1]['n']))
def mentions(p, num): return p.ret is not None and isinstance(p.ret, tuple) and has(p.ret, num)
def passes(F, P, R, rid, f, want, opq=('RandomMp',)):
    d, ps = runit(F, P, R, rid, f, opq)
    if ps is None: return
    bad = None; n = 0
    for p in ps:
        gs = [e for e in p.ev if e.n == 'RandomMp']
        if not gs: continue
        for e in gs:
            n += 1
            ints = [t for t, q in zip(e.args, (e.c or {}).get('params') or []) if 'int' in (q.get('t') or '')]
            got = ints[0] if ints else e.snap.get('$prec', ('sym', '$prec'))
            if not same(p, got, want): bad = bad or (f'a random number is requested with {show(got)} digits instead of {show(want)}', p)
    if bad: R.bad(rid, name(f), F.loc(f), bad[0], trace(bad[1]))
    elif not n: R.skip(rid, name(f), 'no random number is generated here')
    else: R.ok(rid, name(f))
def show(t): return 'the current default' if t == ('sym', '$prec') else str(t[1]) if t[0] in ('sym', 'int') else 'other'
def asked(F, P, R):
    rid = 'asked'
    for f in F.fns.values():
        if not f.get('body') or f.get('pattern') or f.get('ta') or f['file'].rsplit('/', 1)[-1] not in ('random.hpp', 'random.cpp'): continue
        if f['n'] == 'RandomMp' and not (f['params'] and 'int' in f['params'][-1]['t']): passes(F, P, R, rid, f, ('sym', '$prec'))
        elif f['q'].startswith('bertini::multiprecision::'):
            ip = [q for q in f['params'] if q['t'].split()[-1] in ('int', 'unsigned') and '*' not in q['t']]
            if f['cls']  if f.get('cls') else False: continue
            passes(F, P, R, rid, f, ('sym', ip[-1]['n']) if ip else ('sym', '$prec'), ('RandomMp',))

# ---------------------------------------------------------------- bits
def bits(F, P, R):
    rid = 'bits'; n = 0
    for f in F.fns.values():
        if f['q'] != 'bertini::RandomMp' or not f.get('body') or f.get('pattern') or not f.get('ta') or f['params']: continue
        N = int(re.match(r'(\d+)', f['ta'][0]).group(1)); R.fn(f); n += 1
        ts = [x.get('t') or '' for x in walk(f['body']) if x.get('k') in ('var', 'ctor', 'ref')]
        eng = [int(m.group(1)) for t in ts for m in [re.search(r'independent_bits_engine<.*>, (\d+), ', t)] if m]
        dig = [int(m.group(1)) for t in ts for m in [re.search(r'uniform_real_distribution<.*mpfr_float_backend<(\d+)', t)] if m]
        if not eng or not dig: R.skip(rid, name(f), 'engine or distribution not recognised'); continue
        if min(eng) < int(N * 3.3219) - 1: R.bad(rid, name(f), F.loc(f), f'{min(eng)} random bits for {N} decimal digits')
        elif min(dig) < N and min(dig) != 0: R.bad(rid, name(f), F.loc(f), f'drawn into a number of {min(dig)} digits')
        else: R.ok(rid, name(f))
    for f in F.fns.values():
        if f['q'] != 'bertini::RandomMp' or not f.get('body') or f.get('pattern') or not f.get('ta') or len(f['params']) != 2: continue
        N = int(re.match(r'(\d+)', f['ta'][0]).group(1)); R.fn(f)
        gs = [x for x in walk(f['body']) if x.get('k') == 'call' and x.get('n') == 'RandomMp' and x.get('ta')]
        if not gs: R.skip(rid, name(f), 'the generator used is not seen'); continue
        k = min(int(re.match(r'(\d+)', x['ta'][0]).group(1)) for x in gs)
        if k < N: R.bad(rid, name(f), F.loc(f), f'an interval number of {N} digits is made from {k} random digits')
        else: R.ok(rid, name(f))

# ---------------------------------------------------------------- slices
def slices(F, P, R):
    rid = 'orthogonal'
    top = None
    for g in F.fns.values():
        if g['n'] == 'MaxPrecisionAllowed' and g.get('body') and not g.get('pattern'):
            try: top = next((p.ret for p in mk(F, P).run(g, []) if p.kind == 'ret'), None)
            except Undecided: pass
    f = F.need('bertini::LinearSlice::Make')[0]
    d, ps = runit(F, P, R, rid, f, ('RandomMp',))
    if ps is not None:
        bad = None; n = 0
        for p in ps:
            for e in p.ev:
                if e.n == '$qr':
                    n += 1; s = e.snap['$prec']
                    if s == ('sym', '$prec'): bad = bad or ('the factorisation runs at whatever the default precision is', p)
                    elif top and s[0] == 'int' and s != top: bad = bad or ('the factorisation runs below the highest precision', p)
                if e.n == '$gen':
                    n += 1
                    if e.args[0] == ('sym', '$prec') or top and e.args[0][0] == 'int' and e.args[0] != top: bad = bad or ('coefficients are not generated at the highest precision', p)
        if bad: R.bad(rid, name(f), F.loc(f), bad[0], trace(bad[1]))
        elif not n: R.skip(rid, name(f), 'no factorisation seen')
        else: R.ok(rid, name(f))
    for f in F.fns.values():
        if f.get('cls') != 'bertini::Patch' or not f.get('body') or f.get('pattern'): continue
        if not any(x.get('k') == 'call' and (x.get('n') or '').startswith('Random') and (x.get('n') or '').endswith('Assign') for x in walk(f['body'])): continue
        d, ps = runit(F, P, R, rid, f, ('RandomComplexAssign', 'RandomRealAssign', 'RandomUnitAssign', 'rand_assign', 'RandomMpAssign'))
        if ps is None: continue
        bad = None; n = 0
        for p in ps:
            for e in p.ev:
                if e.n.startswith('Random') and len(e.args) == 2:
                    n += 1
                    if e.args[1] == ('sym', '$prec') or top and e.args[1][0] == 'int' and e.args[1] != top: bad = bad or ('coefficients are not generated at the highest precision', p)
        if bad: R.bad(rid, name(f), F.loc(f), bad[0], trace(bad[1]))
        elif n: R.ok(rid, name(f))
        else: R.skip(rid, name(f), 'no generation seen')

# ---------------------------------------------------------------- tracker and endgame agreement
def agree(F, P, R):
    rid = 'agree'
    names = ('MultipleToDouble', 'DoubleToDouble', 'DoubleToMultiple', 'MultipleToMultiple', 'AdjustCurrentPrecision')
    C = 'bertini::tracking::AMPTracker'
    for f in F.fns.values():
        if f.get('cls') != C or f['n'] not in names or not f.get('body') or f.get('pattern'): continue
        nm = 'AMPTracker::' + f['n'] + f"({','.join('vec' if 'Matrix' in q['t'] else 'n' for q in f['params'])})" + ('d' if any('std::complex<double>' in q['t'] for q in f['params']) else '')
        d, ps = runit(F, P, R, rid, f, ('CopyToCurrentSpace', 'AdjustInternalsPrecision', 'AdjustTemporariesPrecision', 'PrecisionSanityCheck', 'precision'), nm)
        if ps is None: continue
        q = [x['n'] for x in f['params'] if 'int' in x['t']]
        bad = None
        for p in ps:
            a = p.st.env.get(('f', 'current_precision_'), ('sym', 'current_precision_')); b = prec(p)
            if not same(p, a, b): bad = bad or ('the tracker and the default precision differ afterwards', p)
            elif q and not same(p, a, ('sym', q[0])): bad = bad or ('the precision afterwards is not the one asked for', p)
            elif not q and a == ('sym', 'current_precision_'): bad = bad or ('the precision was not changed', p)
        if bad: R.bad(rid, nm, F.loc(f), bad[0], trace(bad[1]))
        else: R.ok(rid, nm)
    rid = 'lift'
    for f in F.fns.values():
        if f['n'] != 'RefineSampleImpl' or not f.get('body') or f.get('pattern') or 'AMPEndgame' not in (f.get('cls') or ''): continue
        d, ps = runit(F, P, R, rid, f, ('Refine', 'ChangePrecision', 'Precision', 'NotifyObservers', 'LowestMultiplePrecision', 'PrecisionIncrement'))
        if ps is None: continue
        bad = None
        for p in ps:
            ch = [e for e in p.ev if e.n == 'ChangePrecision' and e.args]; st = [e for e in p.ev if e.n == '$set']
            if st and ch and not same(p, ch[-1].args[0], prec(p)): bad = bad or ('the tracker is given another precision than the default', p)
            if st and (not ch or ch[-1].i < st[-1].i) and not any(same(p, e.args[0], prec(p)) for e in ch): bad = bad or ('the tracker does not follow the default precision', p)
            rf = [e for e in p.ev if e.n == 'Refine']
            if len(rf) > 1 and not st and any(e.i > rf[0].i for e in ch): pass
        if bad: R.bad(rid, name(f), F.loc(f), bad[0], trace(bad[1]))
        else: R.ok(rid, name(f))
    rid = 'uniform'
    for f in F.fns.values():
        if f['n'] != 'EnsureAtUniformPrecision' or not f.get('body') or f.get('pattern') or f.get('cls') or '::adaptive::' not in f['q']: continue
        if not any('mpc_complex' in q['t'] for q in f['params']): continue
        d, ps = runit(F, P, R, rid, f, ('any_of', 'all_of', 'none_of', 'MaxPrecision', 'SetPrecision', 'Precision', 'max'))
        if ps is None: continue
        bad = None
        for p in ps:
            if p.kind == 'ret' and not same(p, p.ret, prec(p)): bad = bad or ('the precision reported is not the default precision afterwards', p)
        if bad: R.bad(rid, name(f), F.loc(f), bad[0], trace(bad[1]))
        else: R.ok(rid, name(f))
