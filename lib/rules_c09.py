"""C09: a path is reported tracked only if the tracker really reached the end time."""
from flow import *
GROUPS = ['algorithms']
TECHNIQUE = 'abstract interpretation of the path tracking loop and its steps (every tracker type) over path shapes, loops as one generic iteration; the shapes are judged by the events on them, by the status codes they established and by the rational value of their terms (step length, arrival, limits)'
NOTE = 'that the steps are numerically right is not decided; that the tracker obeys the verdicts, and moves the point and the time only together, is'
T = 'bertini::tracking::'
LOOP = ('TrackerLoopInitialization', 'PreIterationCheck', 'TrackerIteration', 'CheckGoingToInfinity', 'OnInfiniteTruncation', 'OnStepSuccess', 'OnStepFail', 'CopyFinalSolution', 'PostTrackCleanup', 'NumVariables', 'NotifyObservers')
STEP = ('Predict', 'Correct', 'NotifyObservers', 'PrecisionSanityCheck', 'InitialMatrixSolveError', 'NewtonConvergenceError', 'AMPCriterionError', 'AdjustAMPStepSuccess')
COMMON = ('NotifyObservers', 'PrecisionSanityCheck', 'MinimizeTrackingCost', 'NumVariables', 'DefaultPrecision', 'MaxPrecisionAllowed', 'DehomogenizePoint', 'DigitsB', 'DigitsC', 'MinDigitsForStepsizeInterval', 'MinStepSizeForPrecision', 'MinRequiredPrecision_BCTol', 'Precision')

class Flow9(Flow):
    moves = ()
    def havoc_on(self, e, c): return e.get('n') in self.moves
    def havoc_fields(self, e, c, i):
        for x in ('current_time_', 'current_stepsize_') + (('endtime_',) if 'Init' in e['n'] else ()): self.write(('f', x), ('now', i, x))
    def event(self, e):
        n = e.get('n')
        if n in ('precision', 'Precision') and len(e['a']) in (1, 2) and e.get('o') is not None and not self.isthis(e['o']): return ('none',)
        if n in ('FromRational', 'mpfr_float', 'conj') and e['a']: return self.val(e['a'][0])
        if n in ('norm', 'epsilon', 'NumVariables', 'DoublePrecision', 'LowestMultiplePrecision', 'PrecisionIncrement', 'DigitsB', 'DigitsC', 'MinDigitsForStepsizeInterval', 'MinStepSizeForPrecision', 'MinRequiredPrecision_BCTol', 'DehomogenizePoint', 'log10', 'ceil', 'ToleranceToDigits'):
            o = e.get('o')
            return ('r', n, self.val(o) if o is not None and not self.isthis(o) else ('none',)) + tuple(self.val(a) for a in e['a'])
        return super().event(e)

def named(p, vals, extra=()):
    """assignment giving every leaf of the path that carries one of the names its value"""
    asg = {}
    for t in [c for c, v in p.facts] + list(extra):
        for x in subterms(t):
            if not x or x in asg: continue
            n = x[1] if x[0] == 'sym' else x[2] if x[0] in ('attr', 'now') else x[1] if x[0] == 'r' else None
            if isinstance(n, str) and n in vals: asg[x] = Fraction(vals[n])
    return asg

def mk(F, P, opq, cls=Flow9, moves=(), snap=()):
    d = cls(F, P, opaque=opq); d.moves = moves; d.snapf = snap; return d
def run(F, P, R, rid, f, opq, moves=(), snap=()):
    R.fn(f); d = mk(F, P, opq, moves=moves, snap=snap)
    try: return d, d.run(f, param_args(f))
    except Undecided as x: R.skip(rid, name(f), str(x)[:80]); return d, None
def name(f): return f"{f['cls'].split('::')[-1]}{tag(f)}::{f['n']}" + (f"<{','.join(x.split('::')[-1] for x in f['ta'])[:24]}>" if f.get('ta') else '') + f"/{len(f['params'])}"
def tag(f):
    s = f.get('clsid') or ''
    for x in ('DoublePrecisionTracker', 'MultiplePrecisionTracker', 'AMPTracker'):
        if x in s: return f'<{x}>' if x != f['cls'].split('::')[-1] else ''
    return ''

class Judge:
    def __init__(s, R, rid, f, F): s.R, s.rid, s.f, s.F, s.bad, s.und = R, rid, f, F, False, set()
    def B(s, msg, p=None):
        if not s.bad: s.R.bad(s.rid, name(s.f), s.F.loc(s.f), msg, trace(p) if p is not None else [])
        s.bad = True
    def U(s, why): s.und.add(why)
    def done(s):
        if s.bad: return
        if s.und: s.R.skip(s.rid, name(s.f), '; '.join(sorted(s.und))[:120])
        else: s.R.ok(s.rid, name(s.f))

def check(F, P, R):
    R.rule('arrival', 'tracking returns success only on paths where the current time has reached the end time, and then hands out the solution', 3)
    R.rule('loop', 'initialisation, limit and truncation verdicts end tracking with their code; each step outcome is acted on once; clean-up runs once on every return', 3)
    R.rule('length', 'a step goes towards the end time by the step size, and never past the end', 3)
    R.rule('step', 'a step succeeds only if prediction and correction both succeeded, and only then moves the point, to what correction delivered', 3)
    R.rule('clock', 'the current time advances by the step exactly when a step is accepted', 3)
    R.rule('limits', 'the per-step limits are enforced', 2)
    R.rule('start', 'tracking starts from the start point and time given, with fresh counters and step size', 3)
    R.rule('retry', 'a rejected step is retried with a smaller step or a higher precision', 3)
    R.rule('pass-on', 'the tracker hands its own tolerance, iteration limits, point and time to predictor and corrector, and returns their verdict', 6)
    R.rule('solution', 'the solution handed out is the current point', 2)
    R.rule('infinity', 'a path is truncated exactly when its dehomogenized norm exceeds the threshold', 2)
    for f in F.need(T + 'Tracker::TrackPath'): trackpath(F, P, R, f)
    for f in iterations(F): iteration(F, P, R, f)
    fam = lambda n: [f for c in ('FixedPrecisionTracker', 'AMPTracker', 'DoublePrecisionTracker', 'MultiplePrecisionTracker') for f in F.fn(T + c + '::' + n)]
    for n in ('OnStepSuccess', 'OnStepFail', 'PreIterationCheck', 'PostTrackCleanup', 'OnInfiniteTruncation', 'CopyFinalSolution'):
        for f in fam(n): clock(F, P, R, f)
    for f in fam('PreIterationCheck'): limits(F, P, R, f)
    for f in fam('TrackerLoopInitialization'): start(F, P, R, f)
    for f in F.fn(T + 'AMPTracker::InitialRefinement'): refinement(F, P, R, f)
    for f in F.fn(T + 'AMPTracker::RefineStoredPoint'): stored(F, P, R, f)
    for n in ('InitialMatrixSolveError', 'NewtonConvergenceError', 'AMPCriterionError'):
        for f in F.fn(T + 'AMPTracker::' + n): retry(F, P, R, f)
    for n in ('Predict', 'Correct', 'RefineImpl'):
        for f in fam(n): passon(F, P, R, f)
    for f in fam('CopyFinalSolution'): solution(F, P, R, f)
    for f in fam('CheckGoingToInfinity') + F.fn(T + 'Tracker::CheckGoingToInfinity'): infinity(F, P, R, f)

def iterations(F):
    fs = F.need(T + 'FixedPrecisionTracker::TrackerIteration') + F.need(T + 'AMPTracker::TrackerIteration')
    return fs

def trackpath(F, P, R, f):
    d, ps = run(F, P, R, 'arrival', f, LOOP, moves=('TrackerLoopInitialization', 'TrackerIteration', 'OnStepSuccess', 'OnStepFail', 'OnInfiniteTruncation'), snap=('delta_t_', 'current_time_', 'endtime_', 'current_stepsize_'))
    if ps is None: return
    A, L, S = Judge(R, 'arrival', f, F), Judge(R, 'loop', f, F), Judge(R, 'length', f, F)
    seen = False
    for p in ps:
        if p.kind != 'ret': continue
        n = [e.n for e in p.ev]
        st = status(p, p.ret)
        ini = [e for e in p.ev if e.n == 'TrackerLoopInitialization']
        if st == 'ok':
            seen = True
            cur, end = d.final(p, ('f', 'current_time_')), d.final(p, ('f', 'endtime_'))
            eps = {x: Fraction(1, 10**16) for c, v in p.facts for x in subterms(c) if x and x[0] == 'r' and x[1] == 'epsilon'}
            rel = [c for c, v in p.facts if has(c, cur) and has(c, end)]
            for a, b in ((Fraction(1, 2), Fraction(1, 10)), (Fraction(1, 10), Fraction(1)), (Fraction(1, 2), Fraction(501, 1000)), (Fraction(-1, 3), Fraction(1, 3)), (Fraction(1, 2), Fraction(1, 2) + Fraction(1, 10**8))):
                asg = named(p, {'current_stepsize_': 1, 'delta_t_': 1}); asg.update(eps); asg[cur] = a; asg[end] = b
                if possible(p, asg):
                    if any(rational(c, asg) is None for c in rel): A.U('arrival test')
                    else: A.B('success is returned on a path that does not establish that the end time was reached', p)
            if not ini: A.B('success is returned without initialisation', p)
            cf = [e for e in p.ev if e.n == 'CopyFinalSolution']
            if not cf: A.B('success is returned without handing out the solution', p)
            elif any(e.n in ('TrackerIteration',) for e in p.ev[p.ev.index(cf[-1]):]): A.B('the solution is handed out before the last step', p)
        if not ini and 'TrackerIteration' in n: L.B('steps are taken without initialisation', p)
        for e in p.ev:
            if e.n in ('TrackerLoopInitialization', 'PreIterationCheck'):
                s = status(p, e.res)
                if s is None and p.ret != e.res: L.B(f'the verdict of {e.n} is not used', p)
                if s == 'fail' and p.ret != e.res and which(p, p.ret) != which(p, e.res): L.B(f'a failure of {e.n} is not returned', p)
                if s == 'fail' and any(x.n == 'TrackerIteration' for x in p.ev[p.ev.index(e):]): L.B(f'tracking goes on after a failure of {e.n}', p)
            if e.n == 'TrackerIteration':
                k = p.ev.index(e)
                if not any(x.n == 'PreIterationCheck' for x in segment(p, k)): L.B('a step is taken without the limit check', p)
                after = []
                for x in p.ev[k + 1:]:
                    if x.n in ('TrackerIteration', '$again'): break
                    after.append(x)
                ok, fail = sum(x.n == 'OnStepSuccess' for x in after), sum(x.n == 'OnStepFail' for x in after)
                chk = [x for x in after if x.n == 'CheckGoingToInfinity']
                gone = any(which(p, x.res) == 'GoingToInfinity' for x in chk)
                s = status(p, e.res)
                if not gone:
                    if ok + fail != 1: L.B('the outcome of a step is ' + ('acted on twice' if ok + fail else 'not acted on'), p)
                    elif ok and s != 'ok': L.B('a step is accepted though it ' + ('failed' if s == 'fail' else 'may have failed'), p)
                    elif fail and s == 'ok': L.B('a successful step is treated as failed', p)
                    if p.fd.get(('sym', 'infinite_path_truncation_')) is not False and not chk: L.B('the path is not examined for going to infinity though that is switched on', p)
                elif which(p, p.ret) != 'GoingToInfinity': L.B('a path found going to infinity is not truncated', p)
                # step length
                sn = e.snap
                for cur, end in ((0, 1), (1, 0), (Fraction(1, 2), Fraction(1, 10)), (Fraction(1, 10), Fraction(-3, 10))):
                    for h in (Fraction(1, 20), Fraction(5), abs(Fraction(end) - cur) * 3 / 2, abs(Fraction(end) - cur) * 9 / 10):
                        cur, end = Fraction(cur), Fraction(end)
                        asg = {sn['current_time_']: cur, sn['endtime_']: end, sn['current_stepsize_']: h}
                        eps = {x: Fraction(1, 10**16) for c, v in p.facts[:e.nf] for x in subterms(c) if x and x[0] == 'r' and x[1] == 'epsilon'}
                        asg.update(eps)
                        if len({sn['current_time_'], sn['endtime_'], sn['current_stepsize_']}) < 3 or not possible(p, asg, e.nf): continue
                        v = rational(sn['delta_t_'], asg)
                        want = min(h, abs(end - cur)) * (1 if end > cur else -1)
                        if v is None: S.U('step length ' + str(sn['delta_t_'])[:40])
                        elif v != want: S.B(f'from time {cur} towards {end} with step size {h} the step taken is {v}', p)
        if which(p, p.ret) == 'GoingToInfinity' and not any(e.n == 'CheckGoingToInfinity' and which(p, e.res) == 'GoingToInfinity' for e in p.ev): L.B('a path is reported going to infinity though it was not found to', p)
        k = n.count('PostTrackCleanup')
        if k != 1: L.B('clean-up ' + ('runs twice' if k else 'does not run') + f' on a path returning {which(p, p.ret) or "a code"}', p)
    if not seen: A.U('no success path')
    A.done(); L.done(); S.done()

def segment(p, k):
    """events of the same iteration before index k"""
    out = []
    for x in reversed(p.ev[:k]):
        if x.n in ('$again', '$iter', 'TrackerIteration'): break
        out.append(x)
    return out

def cspace(p): return {k[1]: v for k, v in p.st.env.items() if k[0] == 'f' and isinstance(k[1], str) and k[1].startswith('current_space_')}

def iteration(F, P, R, f):
    d, ps = run(F, P, R, 'step', f, STEP)
    if ps is None: return
    J, Q = Judge(R, 'step', f, F), Judge(R, 'retry', f, F)
    if len(ps) and all(not any(e.n in ('Predict', 'Correct') for e in p.ev) for p in ps):
        # dispatch on precision
        for p in ps:
            e = p.ev[-1] if p.ev else None
            J.U('dispatch') if e is None else None
        return
    memo = {}
    m = lambda: mk(F, P, COMMON + ('EvalIterationStep', 'FullStep', 'EvalRHS', 'CriterionA', 'CriterionB', 'CriterionC', 'SetNormsCond', 'SetErrorEstimate', 'SetSizeProportion', 'RefineStoredPoint', 'MultipleToDouble', 'DoubleToMultiple', 'MultipleToMultiple'))
    good = False
    for p in ps:
        if p.kind != 'ret': continue
        pr = [e for e in p.ev if e.n == 'Predict']; co = [e for e in p.ev if e.n == 'Correct']
        sp = cspace(p)
        moved = bool(sp)
        def fine(es):
            if not es: return 'missing'
            s = status(p, es[-1].res)
            if s == 'ok': return s
            cs = result_codes(F, P, es[-1].c, m, memo) if es[-1].c is not None and es[-1].c.get('body') else {None}
            if None in cs: return s
            left = {x for x in cs if not excluded(p, es[-1].res, x)}
            if not left: return 'impossible'
            if s: return s
            return 'ok' if left == {'Success'} else 'maybe ' + '/'.join(sorted(left - {'Success'}))
        a, b = fine(pr), fine(co)
        if 'impossible' in (a, b): continue
        st = status(p, p.ret)
        last = next((e for e in p.ev if e.res == p.ret), None)
        if st is None and last is not None and last.n not in ('Predict', 'Correct') and last.c is not None and last.c.get('body'):
            cs = {x for x in result_codes(F, P, last.c, m, memo) if x is None or not excluded(p, p.ret, x)}
            st = 'ok' if cs == {'Success'} else None
            if st is None and moved: 
                if None in cs: J.U(f'codes of {last.n}')
                else: J.B(f'the point is moved although {last.n} may still reject the step', p)
        if st is None and last is not None and last.n in ('Predict', 'Correct'):
            s = a if last.n == 'Predict' else b
            st = {'ok': 'ok', 'fail': 'fail'}.get(s)
            if st is None and s and s.startswith('maybe'):
                left = s[6:]
                if not moved and last.n == 'Predict' : st = 'fail' if excluded(p, p.ret, 'Success') else None
        if st == 'ok':
            good = True
            for s, w in ((a, 'prediction'), (b, 'correction')):
                if s is None: J.U(f'codes of {w}')
                elif s != 'ok': J.B(f'a step is reported successful though {w} ' + ('failed' if s == 'fail' else 'was not made' if s == 'missing' else 'may have ended with ' + s[6:]), p)
            if co and not any(v == co[-1].outs.get(0) for v in sp.values()):
                if not moved: J.B('a successful step does not move the current point', p)
                elif any(has(v, co[-1].outs.get(0)) for v in sp.values()): J.U('point moved to a term')
                else: J.B('a successful step moves the current point to something else than the corrected point', p)
        elif st == 'fail':
            if moved: J.B('a rejected step moves the current point', p)
            bad = co if b == 'fail' else pr if a == 'fail' else None
            if bad and p.ret != bad[-1].res and which(p, p.ret) != which(p, bad[-1].res): J.B('a rejected step does not return the code of what failed', p)
            if bad is None and a == 'ok' and b == 'ok': J.B('a step is rejected though prediction and correction succeeded', p)
            if which(p, p.ret) != 'GoingToInfinity': retried(d, p, Q, f)
        elif not J.bad: J.U('return code')
        if co and pr:
            if pr[-1].outs.get(0) not in co[-1].args: J.B('correction does not start from the predicted point', p)
            t = p.ev.index(co[-1])
            asg = {('sym', 'current_time_'): Fraction(3, 7), ('sym', 'delta_t_'): Fraction(1, 9)}
            vs = [rational(x, asg) for x in co[-1].args]
            vs = [v for v in vs if v is not None]
            if len(vs) == 1:
                if vs[0] != Fraction(3, 7) + Fraction(1, 9): J.B('correction is not made at the time the step leads to', p)
            else: J.U('time of the correction')
            vp = [rational(x, asg) for x in pr[-1].args]
            if [v for v in vp if v is not None] != [Fraction(3, 7), Fraction(1, 9)]: J.B('prediction is not made from the current time with the step', p)
            if not any(x[0] == 'sym' and str(x[1]).startswith('current_space_') for x in pr[-1].args): J.B('prediction is not made from the current point', p)
        for x in ('current_time_', 'endtime_'):
            if d.final(p, ('f', x)) != ('sym', x): J.B(f'{x} is changed inside a step', p)
    if not good: J.U('no success path')
    J.done(); Q.done()

def retried(d, p, J, f):
    if any(e.n in ('InitialMatrixSolveError', 'NewtonConvergenceError', 'AMPCriterionError') for e in p.ev): return
    h = d.final(p, ('f', 'current_stepsize_'))
    v = rational(h, named(p, {'step_size_fail_factor': Fraction(1, 2), 'current_stepsize_': 1}, [h]))
    if v is None: J.U('step size after a failure')
    elif v >= 1: J.B('a rejected step leaves the step size as it was', p)

def retry(F, P, R, f):
    d, ps = run(F, P, R, 'retry', f, COMMON + ('ChangePrecision', 'SetStepSize', 'UpdatePrecisionAndStepsize'))
    if ps is None: return
    J = Judge(R, 'retry', f, F)
    for p in ps:
        if p.kind != 'ret': continue
        for x in ('current_time_', 'endtime_'):
            if d.final(p, ('f', x)) != ('sym', x): J.B(f'{x} is changed after a failure', p)
        if cspace(p): J.B('the current point is changed after a failure', p)
        up = [e for e in p.ev if e.n == 'UpdatePrecisionAndStepsize' or e.n == 'ChangePrecision']
        if not up: J.B('the new precision and step size are not put in force', p); continue
        h, pr = d.final(p, ('f', 'next_stepsize_')), d.final(p, ('f', 'next_precision_'))
        vals = dict(step_size_fail_factor=Fraction(1, 2), current_stepsize_=1, DigitsB=0, DigitsC=0, MinDigitsForStepsizeInterval=0, digits_final_=0, num_consecutive_failed_steps_=0, DoublePrecision=16, LowestMultiplePrecision=20, PrecisionIncrement=10)
        res = []
        mc = next((e for e in p.ev if e.n == 'MinimizeTrackingCost'), None)
        for cp in (16, 30):
            v = dict(vals, current_precision_=cp)
            ex = [h, pr] + (list(mc.args) if mc else [])
            asg = named(p, v, ex)
            if not possible(p, asg): continue
            if mc and (h in mc.outs.values() or pr in mc.outs.values()):
                c = mc.c or {}
                nm = [q['n'] for q in c.get('params', [])]
                lo = mc.args[nm.index('min_precision')] if 'min_precision' in nm else mc.args[2]
                hi = mc.args[nm.index('max_stepsize')] if 'max_stepsize' in nm else mc.args[5]
                a, b = rational(lo, asg), rational(hi, asg)
            else: a, b = rational(pr, asg), rational(h, asg)
            if again(p) and (a is None): a = cp   # precision only rises in the search loop
            if a is None or b is None:
                if b is not None and b < 1 or a is not None and a > cp: continue
                J.U('new precision or step size'); continue
            if not (a > cp or b < 1): J.B(f'after a failure at precision {cp} the step is retried with the same step size and precision', p)
    J.done()

def clock(F, P, R, f):
    d, ps = run(F, P, R, 'clock', f, COMMON + ('ChangePrecision',))
    if ps is None: return
    J = Judge(R, 'clock', f, F)
    for p in ps:
        if p.kind != 'ret': continue
        t = d.final(p, ('f', 'current_time_')); e = d.final(p, ('f', 'endtime_'))
        if e != ('sym', 'endtime_'): J.B('the end time is changed', p)
        if f['n'] == 'OnStepSuccess':
            v = rational(t, {('sym', 'current_time_'): Fraction(3, 7), ('sym', 'delta_t_'): Fraction(1, 9)})
            if v is None: J.U('time')
            elif v != Fraction(3, 7) + Fraction(1, 9): J.B('accepting a step does not advance the time by the step', p)
        elif t != ('sym', 'current_time_'): J.B(f'{f["n"]} changes the current time', p)
        if cspace(p): J.B(f'{f["n"]} changes the current point', p)
    J.done()

def limits(F, P, R, f):
    d, ps = run(F, P, R, 'limits', f, COMMON)
    if ps is None: return
    J = Judge(R, 'limits', f, F)
    amp = 'AMP' in f['cls']
    base = dict(num_successful_steps_taken_=4, max_num_steps=5, current_stepsize_=1, min_step_size=1)
    if amp: base.update(current_precision_=30, maximum_precision=30)
    cases = [({}, 'Success'), (dict(num_successful_steps_taken_=5), 'MaxNumStepsTaken'), (dict(num_successful_steps_taken_=6), 'MaxNumStepsTaken'), (dict(current_stepsize_=Fraction(1, 2)), 'MinStepSizeReached')]
    if amp: cases.append((dict(current_precision_=31), 'MaxPrecisionReached'))
    for ch, want in cases:
        v = dict(base, **ch)
        got = {which(p, p.ret) for p in ps if p.kind == 'ret' and possible(p, named(p, v))}
        if got == {want}: continue
        for other in (0, 10**6):   # options that have no say here
            def asg(p):
                a = named(p, v)
                for c, _ in p.facts:
                    for x in subterms(c):
                        if x and x[0] == 'attr' and x not in a and x[2] not in v: a[x] = Fraction(other)
                return a
            g = {which(p, p.ret) for p in ps if p.kind == 'ret' and possible(p, asg(p))}
            if len(g) == 1 and g != {want}: got = g
        if len(got) > 1 and want in got: J.U('limits')
        else: J.B(f'with {", ".join(f"{k}={x}" for k, x in sorted(v.items()))} the check says {"/".join(sorted(str(x) for x in got)) or "nothing"}, not {want}')
    J.done()

def start(F, P, R, f):
    d, ps = run(F, P, R, 'start', f, COMMON + ('InitialRefinement', 'ChangePrecision', 'MultipleToDouble', 'MultipleToMultiple', 'DoubleToMultiple'))
    if ps is None: return
    J = Judge(R, 'start', f, F)
    names = [q['n'] for q in f['params']]
    if len(names) != 3: J.U('parameters'); J.done(); return
    for p in ps:
        if p.kind != 'ret': continue
        for x, w in (('current_time_', names[0]), ('endtime_', names[1])):
            v = d.final(p, ('f', x))
            if v != ('sym', w): J.U(f'{x} is a term') if has(v, ('sym', w)) else J.B(f'{x} is not set to {w}', p)
        if 'AMP' in f['cls']:
            v = d.final(p, ('f', 'endtime_highest_precision_'))
            if v != ('sym', names[1]): J.U('end time kept') if has(v, ('sym', names[1])) else J.B(f'the end time kept for precision changes is not the one given', p)
            mv = [e for e in p.ev if e.n in ('MultipleToDouble', 'MultipleToMultiple')]
            if not mv: J.B('the start point is not stored', p)
            elif not any(has(('t',) + tuple(e.args), ('sym', names[2])) for e in mv): J.B('the point stored is not the start point', p)
            rf = [e for e in p.ev if e.n == 'InitialRefinement']
            if status(p, p.ret) == 'ok' and not any(status(p, e.res) == 'ok' for e in rf): J.B('initialisation succeeds without the initial refinement having succeeded', p)
            if rf and status(p, p.ret) is None and p.ret != rf[-1].res: J.U('return code')
        else:
            sp = list(cspace(p).values())
            if ('sym', names[2]) not in sp:
                if any(has(v, ('sym', names[2])) for v in sp): J.U('start point is a term')
                else: J.B('the start point is not stored', p)
            if status(p, p.ret) != 'ok': J.U('return code')
        for x in ('num_successful_steps_taken_', 'num_consecutive_failed_steps_', 'num_failed_steps_taken_'):
            v = d.final(p, ('f', x))
            if v == ('sym', x): J.B(f'{x} keeps its value from an earlier path', p)
            elif v != ('int', 0): J.U(x)
        h = d.final(p, ('f', 'current_stepsize_'))
        re = p.fd.get(('sym', 'reinitialize_stepsize_'))
        if re is None: J.U('step size switch')
        elif re is False:
            if h != ('sym', 'current_stepsize_'): J.B('the step size is changed though it is to be kept', p)
        else:
            for a, b, want in ((1, 0, Fraction(1, 10)), (1, Fraction(9, 10), Fraction(1, 20)), (Fraction(9, 10), 1, Fraction(1, 20))):
                v = rational(h, named(p, {'initial_step_size': Fraction(1, 10), 'min_num_steps': 2, names[0]: a, names[1]: b}, [h]))
                if v is None: J.U('initial step size')
                elif v != want: J.B(f'the initial step size from {a} to {b} is {v} instead of {want} (initial step 1/10, at least 2 steps)', p)
    J.done()

def refinement(F, P, R, f):
    d, ps = run(F, P, R, 'start', f, COMMON + ('RefineStoredPoint', 'ChangePrecision'))
    if ps is None: return
    J = Judge(R, 'start', f, F)
    for p in ps:
        if p.kind != 'ret': continue
        ev = [e for e in p.ev if e.n in ('RefineStoredPoint', 'ChangePrecision')]
        st = status(p, p.ret)
        if st == 'ok' and (not ev or status(p, ev[-1].res) != 'ok'): J.B('the start point counts as refined though the last refinement ' + ('failed' if ev and status(p, ev[-1].res) == 'fail' else 'was not examined'), p)
        if st is None and ev and p.ret != ev[-1].res: J.U('return code')
        if st == 'fail' and ev and status(p, ev[-1].res) == 'ok': J.B('a refined start point is rejected', p)
        if st == 'ok' and ev and ev[-1].n == 'ChangePrecision' and ev[-1].c is not None:
            c = ev[-1].c
            if c.get('ta') and not any('on' in x or x in ('1', 'true') for x in c['ta']): J.B('the precision is raised without refining the point', p)
    J.done()

def stored(F, P, R, f):
    d, ps = run(F, P, R, 'start', f, COMMON + ('RefineImpl',))
    if ps is None: return
    J = Judge(R, 'start', f, F)
    for p in ps:
        if p.kind != 'ret': continue
        ev = [e for e in p.ev if e.n == 'RefineImpl']
        if not ev: J.U('no refinement'); continue
        sp = cspace(p); s = status(p, ev[-1].res)
        if s == 'ok' and not any(v in ev[-1].outs.values() for v in sp.values()): J.B('the refined point is not kept', p)
        if s != 'ok' and sp: J.B('the point is replaced though the refinement ' + ('failed' if s else 'was not examined'), p)
        if p.ret != ev[-1].res and status(p, p.ret) != s: J.B('the verdict of the refinement is not returned', p)
        if ('sym', 'current_time_') not in ev[-1].args and not any(has(a, ('sym', 'current_time_')) for a in ev[-1].args): J.B('the refinement is not made at the current time', p)
    J.done()

def passon(F, P, R, f):
    d, ps = run(F, P, R, 'pass-on', f, COMMON + ('ChangePrecision', 'HasErrorEstimate', 'Predict', 'Correct'))
    if ps is None: return
    J = Judge(R, 'pass-on', f, F)
    pn = [q['n'] for q in f['params']]
    for p in ps:
        if p.kind != 'ret': continue
        ev = [e for e in p.ev if e.n in ('Predict', 'Correct')]
        if len(ev) != 1 or ev[0].c is None: J.U('no single forward'); continue
        e = ev[0]
        if f['n'] != 'Predict' and e.n != 'Correct' or f['n'] == 'Predict' and e.n != 'Predict': J.B(f'{f["n"]} calls {e.n}', p)
        if p.ret != e.res and status(p, p.ret) != (status(p, e.res) or '?'): J.B(f'the verdict of {e.n} is not returned', p)
        a = {q['n']: (e.args[i], q) for i, q in enumerate(e.c['params']) if i < len(e.args)}
        out = outv(d, p, pn[0])
        if out != e.outs.get(0): J.B('the point computed is not handed out', p)
        def same(k, w, why):
            if k not in a: return
            v = a[k][0]
            if v == w: return
            J.U(k) if has(v, w) else J.B(why, p)
        same('current_space', ('sym', pn[1]), f'{e.n} is not started at the point given')
        same('current_time', ('sym', pn[2]), f'{e.n} is not made at the time given')
        if f['n'] == 'Predict': same('delta_t', ('sym', pn[3]), 'prediction is not made with the step given')
        own = 'tolerance' in pn
        same('tracking_tolerance', ('sym', 'tolerance') if own else ('sym', 'tracking_tolerance_'), 'the tolerance handed on is not the ' + ('one requested' if own else 'tracking tolerance'))
        for k in ('min_num_newton_iterations', 'max_num_newton_iterations'):
            if k not in a: continue
            v = a[k][0]
            if own and k.startswith('max') and 'max_iterations' in pn: same(k, ('sym', 'max_iterations'), 'the iteration limit handed on is not the one requested')
            elif own and v[0] == 'int':
                if v[1] > 1: J.U(k)
            elif v[0] == 'attr' and v[2] in ('min_num_newton_iterations', 'max_num_newton_iterations'):
                if v[2] != k: J.B(f'{v[2]} is handed on as {k}', p)
            else: J.U(k)
        if 'frequency_of_CN_estimation' in a:
            v = a['frequency_of_CN_estimation'][0]
            if v[0] == 'attr' and v[2] != 'frequency_of_CN_estimation': J.B(f'{v[2]} is handed on as frequency_of_CN_estimation', p)
        for k, fld in (('norm_J', 'norm_J_'), ('norm_J_inverse', 'norm_J_inverse_'), ('size_proportion', 'size_proportion_'), ('norm_delta_z', 'norm_delta_z_'), ('condition_number_estimate', 'condition_number_estimate_'), ('error_estimate', 'error_estimate_')):
            if k in a:
                i = [q['n'] for q in e.c['params']].index(k)
                v = d.final(p, ('f', fld))
                if e.outs.get(i) is not None and v != e.outs[i] and v[:1] == ('out',): J.B(f'{k} is stored in another estimate', p)
    J.done()

def solution(F, P, R, f):
    d, ps = run(F, P, R, 'solution', f, COMMON)
    if ps is None: return
    J = Judge(R, 'solution', f, F)
    o = f['params'][0]['n']; k = 0
    for p in ps:
        if p.kind != 'ret': continue
        w = [(c, v) for c, v in p.st.env.items() if has(c, ('f', '$' + o))]
        els = [(c, v) for c, v in w if c[0] == 'el']
        whole = outv(d, p, o)
        src = {str(x[1]) for c, v in w if isinstance(v, tuple) for x in subterms(v) if x and x[0] == 'sym' and str(x[1]).startswith('current_space_')}
        if not src:
            it = any(e.n == '$iter' for e in p.ev)
            if it: J.B('the solution handed out does not come from the current point', p)
            continue
        k += 1
        if 'AMP' in f['cls']:
            dbl = next((v for c, v in p.facts if c[0] == 'cmp' and c[1] == '==' and has(c, ('sym', 'current_precision_'))), None)
            isd = any('double' in s for s in src)
            if dbl is not None and dbl != isd: J.B('the solution comes from the point of the other numeric type', p)
            if dbl is None: J.U('precision')
    if not k: J.U('no path')
    J.done()

def infinity(F, P, R, f):
    d, ps = run(F, P, R, 'infinity', f, COMMON)
    if ps is None: return
    J = Judge(R, 'infinity', f, F)
    k = 0
    for norm, thr, want in ((10, 1, 'GoingToInfinity'), (1, 10, 'Success')):
        for p in ps:
            if p.kind != 'ret': continue
            w = which(p, p.ret)
            rel = [c for c, v in p.facts if has(c, ('sym', 'path_truncation_threshold_'))]
            if not rel:
                J.U('threshold'); continue
            asg = {('sym', 'path_truncation_threshold_'): Fraction(thr)}
            for c in rel:
                for x in subterms(c):
                    if x and x[0] == 'r' and x[1] in ('norm', 'lpNorm', 'stableNorm'):
                        asg[x] = Fraction(norm)
                        if not has(x, next((y for y in subterms(x) if y and y[0] == 'r' and y[1] == 'DehomogenizePoint'), ('?',))): J.B('the norm examined is not that of the dehomogenized point', p)
                        if not any(y and y[0] == 'sym' and str(y[1]).startswith('current_space_') for y in subterms(x)): J.B('the point examined is not the current point', p)
            if not possible(p, asg): continue
            k += 1
            if any(rational(c, asg) is None for c in rel): J.U('norm')
            elif w != want: J.B(f'a point of norm {norm} with truncation threshold {thr} is judged {w}', p)
            if 'AMP' in f['cls'] or 'AMP' in tag(f):
                dbl = next((v for c, v in p.facts if c[0] == 'cmp' and c[1] == '==' and has(c, ('sym', 'current_precision_'))), None)
                isd = any('double' in str(y[1]) for c in rel for y in subterms(c) if y and y[0] == 'sym' and str(y[1]).startswith('current_space_'))
                if dbl is not None and dbl != isd: J.B('the point examined is that of the other numeric type', p)
    if not k: J.U('no path')
    J.done()
