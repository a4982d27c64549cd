"""C10: prediction and correction report success only when it was earned."""
from flow import *
GROUPS = ['algorithms']
TECHNIQUE = 'abstract interpretation of the corrector and predictor (all instantiations) over path shapes: loops are one generic iteration from havocked state, calls that are not followed are events; each shape that returns success must have established the convergence, iteration-count and linear-solve conditions, and each shape on which one failed must return that failure'
NOTE = 'numerical quality of the linear solves and of the precision criteria is not decided, only that their verdicts are obeyed'
OPQ = ('EvalIterationStep', 'CriterionA', 'CriterionB', 'CriterionC', 'EvalRHS', 'FullStep', 'SetNormsCond', 'SetErrorEstimate', 'SetSizeProportion', 'SetAndReset', 'EvalInPlace', 'JacobianInPlace', 'TimeDerivativeInPlace',
       'LUPartialPivotDecompositionSuccessful', 'RandomOfUnits', 'HasErrorEstimate', 'GetLU', 'PrecisionSanityCheck', 'lu', 'solve', 'lpNorm', 'norm', 'Precision', 'DefaultPrecision')

class Flow10(Flow):
    PURE = ('std::', 'Eigen::', 'boost::')
    def event(self, e):
        if e.get('n') in ('solve', 'lu', 'lpNorm', 'norm', 'matrixLU', 'Precision', 'DefaultPrecision', 'NumVariables', 'NumTotalFunctions', 'stableNorm'):
            o = e.get('o')
            return ('r', e['n'], self.val(o) if o is not None else ('none',)) + tuple(self.val(a) for a in e['a'])
        return super().event(e)

def inst(f): return f"{f['n']}<{','.join(x.split('::')[-1] for x in (f.get('ta') or []))[:30]}>/{len(f['params'])}"

def check(F, P, R):
    R.rule('converged', 'Newton correction returns success only after a step below the requested tolerance', 3)
    R.rule('iterations', 'Newton correction makes at least the minimum and at most the maximum number of iterations', 3)
    R.rule('codes', 'a failed step, criterion or linear solve ends with its own failure code', 6)
    R.rule('applied', 'the Newton step computed is the one that is applied, and the point returned includes it', 3)
    R.rule('step', 'the Newton step (the Davidenko slope) solves the Jacobian at the given point and time against minus the function value (the time derivative)', 2)
    R.rule('predict', 'prediction reports success only if every stage was solved and the precision criteria hold', 3)
    for f in F.need('bertini::tracking::correct::NewtonCorrector::Correct'): newton(F, P, R, f)
    for f in F.need('bertini::tracking::correct::NewtonCorrector::EvalIterationStep'): step(F, P, R, f, 'EvalInPlace')
    for f in F.need('bertini::tracking::predict::ExplicitRKPredictor::EvalRHS'): step(F, P, R, f, 'TimeDerivativeInPlace')
    for f in F.need('bertini::tracking::predict::ExplicitRKPredictor::FullStep'): full(F, P, R, f)
    for f in F.need('bertini::tracking::predict::ExplicitRKPredictor::Predict'): predict(F, P, R, f)

def paths(F, P, R, f, rid, opq=OPQ):
    R.fn(f)
    d = Flow10(F, P, opaque=opq)
    try: return d, d.run(f, param_args(f))
    except Undecided as x: R.skip(rid, inst(f), str(x)[:80]); return d, None

def newton(F, P, R, f):
    d, ps = paths(F, P, R, f, 'converged')
    if ps is None: return
    key = 'NewtonCorrector::' + inst(f); loc = F.loc(f)
    names = {p['n']: p for p in f['params']}
    pick = lambda s: next((('sym', n) for n in names if s in n), None)
    tol, mn, mx = pick('toler'), pick('min_'), pick('max_')
    if not (tol and mn and mx):
        ints = [('sym', p['n']) for p in f['params'] if p['t'] in ('unsigned int', 'unsigned')]
        if len(ints) != 2: R.skip('converged', key, 'parameters'); return
        mn, mx = ints
        tol = next((('sym', p['n']) for p in f['params'] if 'double' in p['t'] and p['t'].startswith('const')), tol)
    outn = f['params'][0]['n']
    amp = any('AdaptiveMultiplePrecisionConfig' in p['t'] for p in f['params'])
    bad = set()
    def B(rid, msg, p):
        if rid not in bad: bad.add(rid); R.bad(rid, f'{key}:{rid}', loc, msg, trace(p))
    und = set()
    for p in ps:
        if p.kind != 'ret': continue
        steps = [e for e in p.ev if e.n == 'EvalIterationStep']
        st = status(p, p.ret)
        last = steps[-1] if steps else None
        if st == 'ok' or st is None:
            if not last: B('converged', 'success is returned without a Newton step', p); continue
            if st is None and p.ret == last.res: B('codes', 'the code of the last Newton step is returned unchecked', p); continue
            if st is None: und.add('return value'); continue
            if status(p, last.res) != 'ok': B('codes', 'success is returned though the Newton step may have failed', p)
            o = [v for v in last.outs.values()]
            small = [(c, v) for c, v in p.facts if c[0] == 'cmp' and c[1] == '<' and any(has(c, x) for x in o)]
            good = False
            for c, v in small:
                if v and any(has(c[2], x) for x in o) and c[3] == tol: good = True
                elif not v and any(has(c[3], x) for x in o) and c[2] == tol: good = True   # not (tol < norm)
                elif v and any(has(c[2], x) for x in o) and has(c[3], tol) and (numeric(c[3], {tol: 1}) or 0) > 1: B('converged', 'the step is compared with more than the requested tolerance', p); good = True
                elif v and any(has(c[2], x) for x in o) and has(c[3], tol): und.add('tolerance is a term'); good = None if not good else good
            if good is False: B('converged', 'success is returned on a path that does not establish that the last step is below the requested tolerance', p)
        for e in steps:
            if status(p, e.res) == 'fail' and (p.ret != e.res): 
                if status(p, p.ret) != 'fail': B('codes', 'a failed Newton step does not end the correction with its code', p)
        for e in p.ev:
            if e.n in ('CriterionB', 'CriterionC'):
                v = p.fd.get(e.res)
                if v is False and which(p, p.ret) != 'HigherPrecisionNecessary': B('codes', f'{e.n} fails but the correction does not ask for higher precision', p)
                if v is None: B('codes', f'the verdict of {e.n} is not used', p)
        if amp and last is not None and which(p, p.ret) == 'FailedToConverge':
            for c in ('CriterionB', 'CriterionC'):
                if not any(e.n == c for e in p.ev): B('codes', f'an iteration that does not converge goes on without {c}', p)
        if which(p, p.ret) == 'HigherPrecisionNecessary' and not any(e.n.startswith('Criterion') and p.fd.get(e.res) is False for e in p.ev): B('codes', 'higher precision is asked for though no criterion failed', p)
        # the point returned
        if last is not None and status(p, last.res) == 'ok':
            v = outv(d, p, outn); o0 = last.outs.get(0)
            if o0 is not None:
                if not has(v, o0): B('applied', 'the last Newton step is not added to the point', p)
                elif not (v[0] == '+' and (v[2] == o0 or v[1] == o0)): und.add('point is ' + str(v)[:50])
        if steps and not again(p):
            cs = next((('sym', n) for n in names if n in ('current_space', 'start', 'space')), None)
            if cs is None: cs = next((('sym', q['n']) for q in f['params'][1:] if q['t'].startswith('const ') and 'Matrix' in q['t']), None)
            if cs is not None and not any(has(a, cs) for a in steps[0].args): B('applied', 'the first Newton step is not taken at the point given', p)
        for e in steps:
            ct = ('sym', 'current_time')
            if 'current_time' in names and ct not in e.args: B('applied', 'the Newton step is not taken at the time given', p)
    # iteration counts, for every small minimum and maximum
    for p in ps:
        if p.kind != 'ret': continue
        steps = [e for e in p.ev if e.n == 'EvalIterationStep']
        if not steps: continue
        if len(steps) > 1: und.add('several steps in one iteration'); continue
        cs = [t for t in counters(p)]
        if again(p) and len(cs) != 1: und.add('loop counter'); continue
        for m in range(1, 5):
            for M in range(m, 6):
                for k in (range(1, 7) if again(p) else (0,)):
                    asg = {mn: m, mx: M}
                    if again(p): asg[cs[0]] = k
                    ok = feasible(p, asg)
                    if ok and k >= M: B('iterations', f'iteration {k + 1} is made though the maximum is {M}', p)
                    if ok and status(p, p.ret) == 'ok' and k + 1 < m: B('iterations', f'success is returned in iteration {k + 1} though the minimum is {m}', p)
    # a success path must exist as soon as the minimum is reached
    for m in range(1, 4):
        if not any(p.kind == 'ret' and status(p, p.ret) == 'ok' and (feasible(p, dict([(mn, m), (mx, 6)] + [(t, m - 1) for t in counters(p)])) if again(p) else m == 1 and feasible(p, {mn: m, mx: 6})) for p in ps) and not und:
            if 'iterations' not in bad: bad.add('iterations'); R.bad('iterations', f'{key}:iterations', loc, f'no path returns success in iteration {m} when the minimum is {m}', [])
    for r in ('converged', 'iterations', 'codes', 'applied'):
        if r not in bad:
            if und: R.skip(r, key, '; '.join(sorted(und)))
            else: R.ok(r, key)

def step(F, P, R, f, what):
    d, ps = paths(F, P, R, f, 'step')
    if ps is None: return
    key = f['cls'].split('::')[-1] + '::' + inst(f); loc = F.loc(f)
    vec = [p['n'] for p in f['params'] if 'System' not in p['t']]
    done = False; und = None
    def B(rid, msg, p): R.bad(rid, f'{key}:{rid}', loc, msg, trace(p))
    for p in ps:
        if p.kind != 'ret': continue
        if p.ret[0] == 'sym': continue
        st = status(p, p.ret)
        chk = [e for e in p.ev if e.n == 'LUPartialPivotDecompositionSuccessful']
        n = [e.n for e in p.ev]
        if st == 'ok':
            if not chk: return B('step', 'success is returned without examining the factorisation', p)
            if any(status(p, e.res) != 'ok' for e in chk): return B('codes', 'success is returned though the factorisation failed', p)
            for w in ('SetAndReset', 'JacobianInPlace', what):
                if w not in n: return B('step', f'{w} is missing on a path that returns success', p)
            if n.index('SetAndReset') > min(n.index('JacobianInPlace'), n.index(what)): return B('step', 'the system is evaluated before the point is set', p)
            sr = p.ev[n.index('SetAndReset')]
            want = [('sym', q['n']) for q in f['params'] if q['n'] in ('current_space', 'space', 'current_time', 'time')]
            if len(want) == 2 and [a for a in sr.args] != want: return B('step', 'the system is not set to the point and time given', p)
            J = p.ev[n.index('JacobianInPlace')].outs; V = p.ev[n.index(what)].outs
            J, V = list(J.values()), list(V.values())
            # where the solution went
            sols = set()
            for q in f['params']:
                v = outv(d, p, q['n'])
                for t in subterms(v):
                    if t and t[0] == 'r' and len(t) > 1 and t[1] == 'solve': sols.add((v, t))
            if not sols: return B('step', 'no solution of a linear system reaches the output', p)
            for v, t in sols:
                if not any(has(t[2], j) for j in J): return B('step', 'the system solved is not the Jacobian just evaluated', p)
                if not any(has(t[3], x) for x in V): return B('step', f'the right-hand side is not what {what} delivered', p)
                neg = sum(1 for y in subterms(v) if y and y[0] == 'neg' and (any(has(y, x) for x in V)))
                if neg % 2 == 0:
                    if any(y and y[0] in ('*', '-', 'opq') for y in subterms(t[3])): und = 'sign of the right-hand side'
                    else: return B('step', f'the right-hand side lacks the minus sign', p)
            # the factorisation examined is the one used
            for e in chk:
                if not any(has(('t',) + tuple(e.args), j) for j in J): und = 'factorisation examined'
            done = True
        elif st == 'fail':
            if chk and all(status(p, e.res) == 'ok' for e in chk): return B('codes', 'a failure is returned though the factorisation succeeded', p)
            if which(p, p.ret) not in ('MatrixSolveFailure', 'MatrixSolveFailureFirstPartOfPrediction'): return B('codes', f'a failed factorisation is reported as {which(p, p.ret)}', p)
    if und or not done: R.skip('step', key, und or 'no success path')
    else: R.ok('step', key); R.ok('codes', key)

def full(F, P, R, f):
    d, ps = paths(F, P, R, f, 'predict')
    if ps is None: return
    key = 'ExplicitRKPredictor::' + inst(f); loc = F.loc(f)
    n = 0
    for p in ps:
        if p.kind != 'ret': continue
        rhs = [e for e in p.ev if e.n == 'EvalRHS']
        st = status(p, p.ret)
        for e in rhs:
            s = status(p, e.res)
            if st == 'ok' and s != 'ok': return R.bad('predict', key, loc, 'success is returned though a stage ' + ('failed' if s == 'fail' else 'was not checked'), trace(p))
            if s == 'fail' and st != 'fail': return R.bad('predict', key, loc, 'a failed stage does not fail the prediction', trace(p))
        if st == 'fail' and rhs and all(status(p, e.res) == 'ok' for e in rhs): return R.bad('predict', key, loc, 'a failure is reported though all stages were solved', trace(p))
        n += 1
    R.ok('predict', key) if n else R.skip('predict', key, 'no path')

def predict(F, P, R, f):
    amp = any('AdaptiveMultiplePrecisionConfig' in p['t'] for p in f['params'])
    err = any('error_estimate' == p['n'] for p in f['params'])
    d, ps = paths(F, P, R, f, 'predict')
    if ps is None: return
    key = 'ExplicitRKPredictor::' + inst(f); loc = F.loc(f)
    def B(msg, p): R.bad('predict', key, loc, msg, trace(p))
    n = 0; und = None
    for p in ps:
        if p.kind != 'ret': continue
        fs = [e for e in p.ev if e.n == 'FullStep']
        if not fs: und = 'no step'; continue
        st = status(p, p.ret); s = status(p, fs[-1].res)
        n += 1
        if p.ret == fs[-1].res and not amp: continue
        if s == 'fail' and p.ret != fs[-1].res and st != 'fail': return B('a failed step is not reported', p)
        if s == 'fail' and st == 'fail' and p.ret != fs[-1].res and which(p, p.ret) == 'HigherPrecisionNecessary': return B('a failed step is reported as a lack of precision', p)
        if st == 'ok' and s != 'ok': return B('success is reported though the step ' + ('failed' if s else 'was not checked'), p)
        if amp:
            for c in ('CriterionA', 'CriterionC'):
                es = [e for e in p.ev if e.n == c]
                v = [p.fd.get(e.res) for e in es]
                if st == 'ok' and s == 'ok' and not any(x is True for x in v) : return B(f'success is reported without {c} holding', p)
                if any(x is False for x in v) and s == 'ok' and which(p, p.ret) != 'HigherPrecisionNecessary': return B(f'{c} fails but higher precision is not asked for', p)
        if st is None and amp and p.ret == fs[-1].res: return B('the code of the step is returned without the precision criteria', p)
    if err and not any(p.kind == 'throw' for p in ps): return R.bad('predict', key, loc, 'a predictor without error estimate is not refused where one is needed', [])
    R.skip('predict', key, und) if und or not n else R.ok('predict', key)
