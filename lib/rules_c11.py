"""C11: an endgame reports success only for a converged approximation."""
from flow import *
from rules_c09 import Judge, name
GROUPS = ['algorithms']
TECHNIQUE = 'abstract interpretation of the endgames (power series and Cauchy, every precision policy) over path shapes, loops as one generic iteration with loop-carried facts checked at the back edge; shapes are judged by the status codes they established, by the containers they changed, and by evaluating their time and sample terms at sample points'
NOTE = 'accuracy of the extrapolation, Hermite interpolation and the cycle number heuristics are not decided; polishing of samples (RefineAllSamples, the refinement inside the loop-closing test) is best effort in this code and its verdict is not required to end the endgame'
E = 'bertini::endgame::'
PRIM = ('TrackPath', 'GetIntoEGZone', 'InitialCauchyLoops', 'ComputeCauchyApproximationOfXAtT0', 'AdvanceTime', 'ComputeCauchySamples', 'CircleTrack', 'ComputeApproximationOfXAtT0', 'ComputeInitialSamples', 'RefineSample', 'RefineAllSamples', 'RefineSampleImpl', 'RefineAllSamplesImpl', 'InitialApproximation', 'Refine', 'ChangePrecision', 'RunImpl',
        'CheckClosedLoop', 'RatioEGOperatingZoneTest', 'NotifyObservers', 'EnsureAtPrecision', 'EnsureAtUniformPrecision', 'ComputeAllDerivatives', 'DefaultPrecision', 'ComputeCOverK', 'CheckForCOverKStabilization', 'SetRandVec', 'ComputeCycleNumber', 'HermiteInterpolateAndSolve', 'TransformToSPlane', 'ComputeBoundOnCycleNumber', 'Precision', 'precision', 'DehomogenizePoint', 'NumVariables', 'TrackingTolerance', 'Jacobian', 'TimeDerivative')
POLISH = ('RefineAllSamples', 'ChangePrecision', 'Refine')
MATH = ('acos', 'polar', 'arg', 'abs', 'norm', 'pow', 'log', 'sqrt', 'round')

class Flow11(Flow):
    def event(self, e):
        n = e.get('n')
        if n in ('EnsureAtPrecision', 'EnsureAtUniformPrecision'): return ('none',)      # the value stays, its precision changes
        if n in MATH and e['a']: return ('r', n, ('none',)) + tuple(self.val(a) for a in e['a'])
        if n in ('Precision', 'precision', 'GetSystem', 'GetTracker', 'NumVariables', 'DehomogenizePoint', 'TrackingTolerance', 'Jacobian', 'TimeDerivative'):
            o = e.get('o')
            if n in ('Precision', 'precision') and len(e['a']) > 1: return ('none',)
            return ('r', n, self.val(o) if o is not None and not self.isthis(o) else ('none',)) + tuple(self.val(a) for a in e['a'])
        return super().event(e)
    # what a call on this object may have changed is unknown afterwards
    def havoc_on(self, e, c): return c is not None and c.get('body') and (e.get('o') is None or self.isthis(e['o'])) and bool(touched(self.P, c))
    def havoc_fields(self, e, c, i):
        fs = touched(self.P, c)
        for k in list(self.st.env):
            if k[0] == 'f' and isinstance(k[1], str) and k[1].split('<')[0] in fs: self.write(k, ('now', i, k[1]))
        self.st.env[('f', '$hv')] = tuple(x for x in self.st.env.get(('f', '$hv'), ()) if x[0] not in fs) + tuple((x, i) for x in sorted(fs))
    def read(self, loc):
        if loc[0] == 'f' and isinstance(loc[1], str) and loc not in self.st.env:
            for x, i in self.st.env.get(('f', '$hv'), ()):
                if x == loc[1].split('<')[0]: return ('now', i, loc[1])
        return super().read(loc)
_touch = {}
def touched(P, c, depth=6):
    """names of this object's data members a member function may write, itself or through others"""
    if c['id'] in _touch: return _touch[c['id']]
    _touch[c['id']] = set(); out = set()
    for x in walk(c['body']):
        if x['k'] == 'mem' and (x.get('b') is None or x['b']['k'] == 'this') and x['n'].endswith('_') and x['n'] not in ('configuration_', 'tracker_', 'rand_vector_', 'watchers_'): out.add(x['n'])
        if x['k'] == 'call' and depth and (x.get('o') is None or x['o']['k'] in ('this', 'cast', 'call')) and x.get('n') not in ('NotifyObservers',):
            t = P.resolve(x, None, None)
            if t is not None and t.get('body') and '/endgames/' in t['file'] and not t.get('const'): out |= touched(P, t, depth - 1)
    if c.get('const'): out = set()
    _touch[c['id']] = out
    return out

def run(F, P, R, rid, f, opq=PRIM, snap=(), rounds=True):
    R.fn(f); d = Flow11(F, P, opaque=[x for x in opq if x != f['n']]); d.snapf = snap; d.rounds = rounds
    try: return d, d.run(f, param_args(f))
    except Undecided as x: R.skip(rid, name(f), str(x)[:80]); return d, None

def carry(t, n): return t == ('sym', n) or t[0] == 'now' and t[2].split('<')[0] == n or t[0] == 'hav' and t[2] == ('f', n)
def fname(t):
    if t[0] == 'now': return t[2].split('<')[0]
    return t[1].split('<')[0] if t[0] in ('sym', 'f') and isinstance(t[1], str) else None
def attr(t, n): return t[0] == 'attr' and t[2] == n

def check(F, P, R):
    R.rule('codes', 'a failure of tracking, sampling, loop closing or extrapolation is returned and never becomes success', 20)
    R.rule('converged', 'success is returned only when the last two approximations agree to the final tolerance, and the last one is the result', 4)
    R.rule('carried', 'the approximation compared against is the one before the last; a new one is formed from newly tracked samples', 4)
    R.rule('runaway', 'a path is truncated exactly when the security level asks for it and two approximations in a row exceed the norm limit', 4)
    R.rule('lockstep', 'times and samples are added and dropped together', 10)
    R.rule('from', 'samples are tracked from the latest time and sample together, and what is stored is what was tracked to the stored time', 6)
    R.rule('approach', 'sample times approach the target by the sample factor, and not beyond the minimum track time', 4)
    R.rule('circle', 'a circle runs through equally spaced times about the target and ends at the time it began', 2)
    R.rule('cycle', 'the cycle number counts the circles tracked since the loop was begun, and is bounded', 4)
    R.rule('closed', 'loops succeed only when closed: the first and last sample agree to the tracking tolerance', 4)
    R.rule('mean', 'the Cauchy approximation is the mean of the samples of the closed loop, and refuses any other number of them', 2)
    R.rule('size', 'a start point of the wrong size is refused before tracking', 4)
    R.rule('s-plane', 'times and derivatives are carried to the s-plane by one and the same substitution', 2)
    fs = [f for f in F.fns.values() if f.get('body') and not f.get('pattern') and '/endgames/' in f['file']]
    for f in fs:
        if f['ret'].endswith('SuccessCode') and f['n'] not in ('Run',): codes(F, P, R, f)
    for f in fs:
        if any(x['k'] == 'call' and x.get('n') in ('push_back', 'emplace_back', 'pop_front', 'pop_back', 'clear') for x in walk(f['body'])): lockstep(F, P, R, f)
    ps, ca = 'PowerSeriesEndgame', 'CauchyEndgame'
    for c in (ps, ca):
        for f in F.need(E + c + '::RunImpl'): runimpl(F, P, R, f)
        for f in F.need(E + c + '::AdvanceTime'): advance(F, P, R, f)
    for f in F.need(E + 'EndgameBase::ComputeInitialSamples'): initial(F, P, R, f)
    for f in F.need(E + ca + '::CircleTrack'): circle(F, P, R, f)
    for n in ('ComputeCauchySamples', 'InitialCauchyLoops'):
        for f in F.need(E + ca + '::' + n): loops(F, P, R, f)
    for f in F.need(E + ca + '::CheckClosedLoop'): closed(F, P, R, f)
    for f in F.need(E + ca + '::ComputeCauchyApproximationOfXAtT0'): mean(F, P, R, f)
    for f in F.need(E + ps + '::TransformToSPlane'): splane(F, P, R, f)

def codes(F, P, R, f):
    d, ps = run(F, P, R, 'codes', f)
    if ps is None: return
    J = Judge(R, 'codes', f, F); any_ = False
    for p in ps:
        if p.kind != 'ret': continue
        for i, e in enumerate(p.ev):
            if not (e.c and e.c['ret'].endswith('SuccessCode')) or e.n in POLISH and e.n != 'Refine': continue
            if e.n == 'Refine' and (f['n'] == 'CheckClosedLoop' or f['cls'].endswith('FixedPrecEndgame') or any(x.n == 'Refine' for x in p.ev[i + 1:])): continue
            any_ = True
            s = status(p, e.res)
            if p.ret == e.res: continue
            if s is None: J.B(f'the verdict of {e.n} is not used', p)
            elif s == 'fail' and status(p, p.ret) != 'fail': J.B(f'a failure of {e.n} does not make the result a failure', p)
    if any_ or J.bad: J.done()

def opseq(p, fam):
    """sequence of operations on each container of a time/sample pair"""
    out = {}
    for e in p.ev:
        if e.n in ('push_back', 'emplace_back', 'pop_front', 'pop_back', 'clear') and isinstance(e.obj, tuple) and e.obj[0] == 'f':
            out.setdefault(e.obj[1].split('<')[0], []).append(e.n.replace('emplace', 'push'))
    return out
PAIRS = (('times_', 'samples_'), ('pseg_times_', 'pseg_samples_'), ('cauchy_times_', 'cauchy_samples_'), ('$times', '$samples'))
def lockstep(F, P, R, f):
    if f['n'] in ('RunImpl',): return
    d, ps = run(F, P, R, 'lockstep', f)
    if ps is None: return
    J = Judge(R, 'lockstep', f, F); any_ = False
    for p in ps:
        if p.kind == 'throw': continue
        o = opseq(p, None)
        for a, b in PAIRS:
            if a in o or b in o:
                any_ = True
                if o.get(a, []) != o.get(b, []): J.B(f'{a} and {b} do not change together ({"/".join(o.get(a, [])) or "unchanged"} against {"/".join(o.get(b, [])) or "unchanged"})', p)
    if any_ or J.bad: J.done()

def settings(**k):
    """values for configuration attributes"""
    def leaf(t):
        if t[0] == 'attr' and t[2] in k: return k[t[2]]
        if t[0] == 'sym' and t[1] in k: return k[t[1]]
    return leaf
def conts(times, samples, more):
    """times and samples by position; every container of a name (or its havocked version) has the same value"""
    def leaf(t):
        if t[0] in ('sym', 'f') and isinstance(t[1], str) or t[0] == 'hav' and t[2][0] == 'f':
            n = t[1] if t[0] != 'hav' else t[2][1]
            n = n.split('<')[0]
            if n.endswith('times_') or n == '$times': return times
            if n.endswith('samples_') or n == '$samples': return samples
        return more(t)
    return leaf
T1 = [0.8 + 0.1j, 0.4 + 0.05j, 0.2 + 0.025j]
S1 = [1000.0, 2000.0, 3000.0]

def leg(J, p, e, leaf):
    """start of a tracked leg: time and sample of the same, latest, position"""
    if len(e.args) < 4: return J.U('TrackPath arguments')
    a, s = value(e.args[1], leaf), value(e.args[3], leaf)
    if a is None or s is None: return J.U(f'start of TrackPath')
    if s not in S1 or a not in T1: return J.U('start of TrackPath')
    if S1.index(s) != T1.index(a): J.B(f'tracking starts from a sample and a time that do not belong together', p)

def advance(F, P, R, f):
    d, ps = run(F, P, R, 'approach', f)
    if ps is None: return
    A, G = Judge(R, 'approach', f, F), Judge(R, 'from', f, F)
    tgt = 0.05 - 0.02j
    for fac in (0.5, 0.25, 0.9):
        for mn in (1e-8, 0.3):
            cfg = settings(sample_factor=fac, min_track_time=mn, target_time=tgt, num_sample_points=3)
            leaf = conts(T1, S1, cfg)
            want = tgt + (T1[-1] - tgt) * fac
            near = abs(want - tgt) < mn
            for p in ps:
                if p.kind != 'ret' or not can(p, leaf): continue
                tr = [e for e in p.ev if e.n == 'TrackPath']
                if which(p, p.ret) == 'MinTrackTimeReached' and not tr and not near: A.B('the minimum track time is reported reached though the next time is farther from the target', p)
                if tr and near: A.B('tracking goes on closer to the target than the minimum track time', p)
                if status(p, p.ret) == 'ok' and not tr: A.B('success is returned without tracking', p)
                for e in tr[:1]:
                    v = value(e.args[2], leaf)
                    if v is None: A.U('end time')
                    elif abs(v - want) > 1e-9: A.B(f'with sample factor {fac} the next time is {v:.3g} and not {want:.3g} (latest {T1[-1]:.3g}, target {tgt:.3g})', p)
                    leg(G, p, e, leaf)
                    if value(e.args[1], leaf) not in (None, T1[-1]): G.B('tracking does not start from the latest time', p)
                if status(p, p.ret) == 'ok' and tr: stored(G, p, tr[-1], leaf)
    A.done(); G.done()

def stored(J, p, e, leaf):
    """what was stored last is the end of the tracked leg"""
    put = {}
    for x in p.ev:
        if x.n in ('push_back', 'emplace_back') and isinstance(x.obj, tuple) and x.obj[0] == 'f' and x.args: put[x.obj[1].split('<')[0]] = x.args[0]
    ts = [v for k, v in put.items() if 'times' in k]; ss = [v for k, v in put.items() if 'samples' in k]
    if not ts or not ss: return J.B('success is returned but the new sample and time are not stored', p)
    a, b = value(ts[-1], leaf), value(e.args[2], leaf)
    if a is None or b is None: 
        if ts[-1] != e.args[2]: J.U('stored time')
    elif abs(a - b) > 1e-12: J.B('the time stored is not the time tracked to', p)
    if 0 in e.outs and ss[-1] != e.outs[0]:
        if ss[-1][0] in ('out', 'sym', 'r'): J.B('the sample stored is not the one tracking delivered', p)
        else: J.U('stored sample')

def initial(F, P, R, f):
    d, ps = run(F, P, R, 'approach', f)
    if ps is None: return
    A, G = Judge(R, 'approach', f, F), Judge(R, 'from', f, F)
    tgt = 0.05 - 0.02j; st = 0.8 + 0.1j; fac = 0.4
    # position ii of the generic iteration is the number of samples so far
    seq = [st]
    for _ in range(3): seq.append(tgt + (seq[-1] - tgt) * fac)
    ok = False
    for p in ps:
        if p.kind not in ('ret', 'round'): continue
        tr = [e for e in p.ev if e.n == 'TrackPath']
        for k in (1, 2, 3):
            def more(t):
                if t[0] == 'sym' and t[1] in ('start_time', 'target_time', 'x_endgame_start'): return {'start_time': st, 'target_time': tgt, 'x_endgame_start': 1000.0}[t[1]]
                if t[0] == 'attr' and t[2] == 'sample_factor': return fac
                if t[0] == 'hav' and t[2][0] == 'v': return k
            def leaf(t):
                if t[0] == 'hav' and t[2][0] == 'f' and 'times' in t[2][1]: return seq[:k]
                if t[0] == 'hav' and t[2][0] == 'f' and 'samples' in t[2][1]: return [1000.0 * (i + 1) for i in range(k)]
                if t[0] == 'r' and t[1] == 'NumVariables': return 7
                return more(t)
            first = not again(p)
            if first and k > 1: continue
            for e in tr[-1:]:
                ok = True
                a, b, s = value(e.args[1], leaf), value(e.args[2], leaf), value(e.args[3], leaf)
                if None in (a, b, s): A.U('tracked leg'); continue
                if abs(b - seq[k]) > 1e-9: A.B(f'sample {k} is tracked to {b:.3g} and not to {seq[k]:.3g} (previous {seq[k-1]:.3g}, target {tgt:.3g}, factor {fac})', p)
                if abs(a - seq[k - 1]) > 1e-12: G.B('a sample is not tracked from the time before it', p)
                if s != 1000.0 * k: G.B('a sample is not tracked from the sample before it', p)
                cell = value(e.args[0], lambda t: 1j if t == ('r', 'x') else leaf(t))
            if p.kind == 'ret' and not tr and first:
                # no iteration: only with a single sample
                pass
        if p.kind == 'ret' and status(p, p.ret) == 'ok' and not tr:
            n = [c for c, v in p.facts if any(attr(t, 'num_sample_points') for t in subterms(c) if t)]
            if can(p, settings(num_sample_points=3)): A.B('success is returned without tracking to the samples', p)
        if p.kind == 'round' or p.kind == 'ret' and status(p, p.ret) == 'ok':
            tm, sm = d.final(p, ('f', '$times')), d.final(p, ('f', '$samples'))
            if tr:
                v = value(sm, lambda t: [1.0, 2.0][: 1 if not again(p) else 2] if t[0] == 'hav' and t[2][0] == 'f' else 2 if t[0] == 'hav' else 55.0 if t == tr[-1].outs.get(0) else 1.0 if t[0] == 'sym' else 7 if t[0] == 'r' and t[1] == 'NumVariables' else None)
                if not isinstance(v, list) or not v or None in v: G.U('stored samples')
                elif v[-1] != 55.0: G.B('the last sample stored is not the one tracking delivered', p)
    if not ok: A.U('no tracked leg')
    A.done(); G.done()

def circle(F, P, R, f):
    d, ps = run(F, P, R, 'circle', f)
    if ps is None: return
    C, G = Judge(R, 'circle', f, F), Judge(R, 'from', f, F)
    tgt = 0.05 - 0.02j; start = 0.2 + 0.025j
    seen = set()
    for n in (3, 4, 7):
        for k in range(n + 1):
            want = tgt + (start - tgt) * cmath.exp(2j * cmath.pi * (k + 1) / n)
            wantb = tgt + (start - tgt) * cmath.exp(-2j * cmath.pi * (k + 1) / n)
            cur = tgt + (start - tgt) * cmath.exp(2j * cmath.pi * k / n)
            for p in ps:
                first = not again(p)
                if first and k: continue
                if p.kind == 'throw':
                    continue
                def more(t):
                    if t[0] == 'attr' and t[2] == 'num_sample_points': return n
                    if t[0] == 'sym' and t[1] == 'target_time': return tgt
                    if t[0] == 'hav' and t[2][0] == 'v': return k
                def leaf(t):
                    nm = fname(t)
                    if nm == 'cauchy_times_': return T1[:2] + [start]
                    if nm == 'cauchy_samples_': return S1
                    if t[0] == 'hav' and t[2][0] == 'f' and 'times' in t[2][1]: return T1[:2] + [cur]
                    if t[0] == 'hav' and t[2][0] == 'f' and 'samples' in t[2][1]: return S1
                    return more(t)
                if not can(p, leaf): continue
                tr = [e for e in p.ev if e.n == 'TrackPath']
                if not tr:
                    if status(p, p.ret) == 'ok': C.B('success is returned without tracking round the circle', p)
                    continue
                e = tr[-1]
                if k >= n: C.B(f'with {n} sample points the circle goes on to a further point', p); continue
                seen.add((n, k))
                v = value(e.args[2], leaf)
                if v is None: C.U('time on the circle')
                elif abs(v - want) > 1e-9 and abs(v - wantb) > 1e-9:
                    C.B(f'with {n} sample points, point {k + 1} of the circle is at {v:.4g} and not at {want:.4g} (start {start:.3g}, centre {tgt:.3g})' if k + 1 < n else 'the circle does not end at the time it began', p)
                a, s = value(e.args[1], leaf), value(e.args[3], leaf)
                if a is None or s is None: G.U('start of a leg')
                else:
                    if abs(a - cur) > 1e-12: G.B('a leg of the circle does not start from the latest time', p)
                    if s != S1[-1]: G.B('a leg of the circle does not start from the latest sample', p)
                if status(p, p.ret) == 'ok' and p.kind == 'ret' and k + 1 < n and p.ret is not None: C.B(f'success is returned after {k + 1} of {n} points of the circle', p)
                if (p.kind == 'round' or status(p, p.ret) == 'ok') and status(p, e.res) == 'ok': stored(G, p, e, leaf)
    for p in ps:
        if p.kind != 'throw' and can(p, settings(num_sample_points=2)): C.B('fewer than three sample points are accepted: the path would go through the target', p)
    if not seen: C.U('no leg')
    for n in (3, 4, 7):
        if seen and (n, n - 1) not in seen: C.B(f'with {n} sample points the last point of the circle is not reached')
    C.done(); G.done()

def loops(F, P, R, f):
    d, ps = run(F, P, R, 'closed', f, snap=('cycle_number_',))
    if ps is None: return
    J, C = Judge(R, 'closed', f, F), Judge(R, 'cycle', f, F)
    leaf = lambda t: 5 if t[0] == 'hav' or carry(t, 'cycle_number_') else None
    succ = 0
    for p in ps:
        if p.kind not in ('ret', 'round'): continue
        ev = p.ev
        if p.kind == 'ret' and status(p, p.ret) == 'ok':
            succ += 1
            k = max([i for i, e in enumerate(ev) if e.n == 'CheckClosedLoop'], default=None)
            if k is None or p.fd.get(ev[k].res) is not True: J.B('success is returned though the loop was not found closed', p)
            elif any(e.n in ('CircleTrack', 'AdvanceTime') or e.n == 'clear' for e in ev[k:]): J.B('the loop is extended after it was found closed', p)
        fin = d.final(p, ('f', 'cycle_number_'))
        for i, e in enumerate(ev):
            if e.n != 'CircleTrack': continue
            nxt = next((x for x in ev[i + 1:] if x.n in ('CircleTrack', 'CheckClosedLoop', '$again', 'clear', 'NotifyObservers', 'RatioEGOperatingZoneTest') and (x.n != 'clear')), None)
            if nxt is not None and nxt.n == '$again': continue
            after = nxt.snap.get('cycle_number_') if nxt is not None and nxt.n != '$again' and nxt.snap else fin
            if nxt is not None and nxt.n in ('CheckClosedLoop', 'CircleTrack') or nxt is None and status(p, e.res) == 'ok':
                a, b = value(e.snap['cycle_number_'], leaf), value(after, leaf)
                if a is None or b is None: C.U('cycle number')
                elif b - a != 1: C.B(f'a circle changes the cycle number by {b - a}', p)
            cl = [j for j, x in enumerate(ev[:i]) if x.n == 'clear']
            if cl and not any(x.n in ('CircleTrack', '$again') for x in ev[cl[-1]:i]):
                a = value(e.snap['cycle_number_'], leaf)
                if a is None: C.U('cycle number')
                elif a != 0: C.B('the cycle number is not reset when a loop is begun', p)
            if not any(x.n in ('clear', '$again') for x in ev[:i]): J.B('circles are tracked without beginning a loop', p)
        if p.kind == 'ret' and status(p, p.ret) is None and not any(e.res == p.ret for e in ev): J.U('returned code')
        # the bound
        lf = lambda t: 9 if t[0] == 'hav' or carry(t, 'cycle_number_') else 3 if t[0] == 'attr' and t[2] == 'fail_safe_maximum_cycle_number' else None
        if p.kind == 'round' and again(p) and can(p, lf) and bounded_loop(p, lf): C.B('circling goes on though the cycle number exceeds its bound', p)
        lg = lambda t: 1 if t[0] == 'hav' or carry(t, 'cycle_number_') else 6 if t[0] == 'attr' and t[2] == 'fail_safe_maximum_cycle_number' else None
        if p.kind == 'ret' and which(p, p.ret) == 'CycleNumTooHigh' and again(p) and can(p, lg): C.B('the cycle number is reported too high below its bound', p)
    if not succ: J.U('no success path')
    J.done(); C.done()
def bounded_loop(p, lf):
    """the loop gone round again tracks circles without beginning a new loop"""
    k = max(i for i, e in enumerate(p.ev) if e.n == '$iter')
    seg = [e.n for e in p.ev[k:]]
    ct = [e for e in p.ev[k:] if e.n == 'CircleTrack']
    return 'CircleTrack' in seg and 'clear' not in seg and (value(ct[-1].snap['cycle_number_'], lf) or 0) > 3

def closed(F, P, R, f):
    d, ps = run(F, P, R, 'closed', f)
    if ps is None: return
    J = Judge(R, 'closed', f, F); yes = no = False
    for gap, mid in ((0.0, 55.0), (1.0, 11.0), (1.0, 10.0)):
        for p in ps:
            if p.kind != 'ret': continue
            def leaf(t):
                if t[0] == 'r' and t[1] == 'TrackingTolerance': return 0.5
                if fname(t) == 'cauchy_samples_': return [10.0, mid, 10.0 + gap]
                if t[0] == 'out' or t[0] == 'r' and t[1].startswith('Ensure'): return None
                return None
            norms = [c for c, v in p.facts if any(t and t[0] == 'r' and t[1] in ('lpNorm', 'norm') for t in subterms(c))]
            if not norms: J.B('the loop is judged without comparing its ends', p); continue
            # each comparison is judged at the same distance
            def l2(t):
                if t[0] == 'r' and t[1] in ('lpNorm', 'norm'):
                    for x in t[2:]:
                        v = value(x, leaf) if isinstance(x, tuple) else None
                        if v is not None and not isinstance(v, list): return abs(v)
                    ends = ends_of(t)
                    if ends is None: return None
                    return gap if ends == {'front', 'back'} else None
                return leaf(t)
            dec = [(c, v, value(c, l2)) for c, v in p.facts if c in norms]
            if any(x is None for c, v, x in dec):
                if gap == 0: J.U('ends compared') if not any(ends_of(t) not in (None, {'front', 'back'}) for c in norms for t in subterms(c) if t and t[0] == 'r') else J.B('the loop is judged by samples that are not its ends', p)
                continue
            if all(bool(x) == v for c, v, x in dec):
                if p.ret == ('bool', True):
                    yes = True
                    if gap: J.B('a loop is found closed though its ends are farther apart than the tracking tolerance', p)
                elif p.ret == ('bool', False):
                    no = True
                    if not gap: J.B('a loop is not found closed though its ends agree', p)
                else:
                    x = value(p.ret, l2)
                    if x is None: J.U('result')
                    elif bool(x) != (not gap): J.B('the verdict contradicts the distance of the ends', p)
                    else: yes = yes or not gap; no = no or bool(gap)
    J.done()
def ends_of(t):
    out = set()
    for x in subterms(t):
        if x and x[0] == 'r' and len(x) > 2 and x[1] in ('front', 'back'): out.add(x[1])
        if x and x[0] == 'elem': out.add('front' if x[2] == ('int', 0) else 'back' if x[2][0] == '-' and x[2][1][0] in ('size',) and x[2][2] == ('int', 1) else 'other')
        if x and x[0] == 'out': out.add('refined')
    if 'refined' in out: return None if not out - {'refined'} == {'front', 'back'} else {'front', 'back'}
    return out or None

def mean(F, P, R, f):
    d, ps = run(F, P, R, 'mean', f)
    if ps is None: return
    J = Judge(R, 'mean', f, F); ok = False
    for c, n in ((1, 3), (2, 3), (3, 5)):
        def cfg(t):
            if carry(t, 'cycle_number_'): return c
            if t[0] == 'attr' and t[2] == 'num_sample_points': return n
            if t[0] == 'r' and t[1] == 'Zero' or t[0] == 'opq' and 'Zero' in t: return 0
        for size in (c * n + 1, c * n, c * n + 2, n + 1, 1):
            for p in ps:
                lf = lambda t: [100.0 + i for i in range(size)] if fname(t) == 'cauchy_samples_' or t[0] == 'out' and t[1].startswith(('Refine', 'Ensure')) else cfg(t)
                if p.kind == 'ret' and size != c * n + 1 and can(p, lf): J.B(f'{size} samples are accepted for cycle number {c} with {n} points per circle', p)
        size = c * n + 1
        for k in list(range(c * n)) + [c * n]:
            for p in ps:
                if p.kind not in ('ret', 'round'): continue
                first = not again(p)
                if first and k: continue
                def lf(t):
                    if fname(t) == 'cauchy_samples_' or t[0] == 'out' and t[1].startswith(('Refine', 'Ensure')): return [100.0 + i for i in range(size)]
                    if t[0] == 'hav' and t[2] == ('f', '$result'): return 7000.0
                    if t[0] == 'hav' and t[2][0] == 'v': return k
                    return cfg(t)
                its = [e for e in p.ev if e.n == '$iter']
                if not can(p, lf): continue
                if not its:
                    if p.kind == 'ret' and status(p, p.ret) == 'ok' and not sums(d, p): J.B('no sample enters the mean', p) if not any(x and x[0] == 'opq' for x in subterms(outv(d, p, 'result'))) else J.U('mean')
                    continue
                if k >= c * n: J.B(f'with {c} circles of {n} points, sample {k} is counted though the loop has only {c * n} before it repeats', p); continue
                ok = True
                v = value(outv(d, p, 'result'), lf)
                base = 7000.0 if not first else 0
                want = base + 100.0 + k
                if p.kind == 'ret': want /= c * n
                if v is None: J.U('mean')
                elif abs(v - want) > 1e-9: J.B(f'with {c} circles of {n} points the result is {v:.6g} and not {want:.6g} when sample {k} is added to {base}', p)
    if not ok: J.U('no accumulation loop')
    J.done()
def sums(d, p):
    return any(x and (x[0] == 'r' and x[1] in ('accumulate', 'sum', 'mean')) for x in subterms(outv(d, p, 'result')))

def splane(F, P, R, f):
    d, ps = run(F, P, R, 's-plane', f)
    if ps is None: return
    J = Judge(R, 's-plane', f, F); seen = False
    t0 = 0.05 - 0.02j; N = 2
    for c in (1, 2, 3):
        for back in (True, False):
            for p in ps:
                if p.kind not in ('ret', 'round') or not again(p) and not any(e.n == '$iter' for e in p.ev): continue
                for k in (0, 1):
                    if not again(p) and k: continue
                    off = len(T1) - N if back else 0
                    def leaf(t):
                        nm = fname(t)
                        if nm == 'times_': return T1
                        if nm == 'derivatives_': return [3.0, 5.0, 11.0]
                        if nm == 'samples_': return S1
                        if t[0] == 'sym': return {'cycle_num': c, 't0': t0, 'num_pts': N}.get(t[1])
                        if t[0] == 'cmp' and t[1] == '==' and t[2] == ('sym', 'shift_from'): return int((enum_name(t[3]) == 'Back') == back) if enum_name(t[3]) in ('Back', 'Front') else None
                        if t[0] == 'hav' and t[2][0] == 'v': return None
                        if t[0] == 'attr' and t[2] == 'num_sample_points': return N
                    names = locals_of(f)
                    def lf(t):
                        if t[0] == 'hav' and t[2][0] == 'v':
                            ty = names.get(t[2][2], '')
                            if 'deque' in ty or 'vector' in ty: return [0.0] * N
                            return k
                        return leaf(t)
                    if not can(p, lf): continue
                    st = p.ret if p.kind == 'ret' else None
                    pair = outs(d, p, f, names)
                    if pair is None: J.U('transformed data'); continue
                    sv, dv = (value(x, lambda t: [0.0] * N if t[0] == 'int' or t == ('sym', 'num_pts') and False else lf(t)) if False else value(fill(x, N), lf) for x in pair)
                    if not isinstance(sv, list) or not isinstance(dv, list) or sv[k] is None or dv[k] is None: J.U('transformed data'); continue
                    seen = True
                    shift = T1[off] - t0
                    s = ((T1[off + k] - t0) / shift) ** (1.0 / c)
                    dd = [3.0, 5.0, 11.0][off + k] * shift * c * s ** (c - 1)
                    if abs(sv[k] - s) > 1e-9: J.B(f'for cycle number {c}, time {T1[off+k]:.3g} becomes s={sv[k]:.4g} and not {s:.4g}', p)
                    elif abs(dv[k] - dd) > 1e-9 * abs(dd): J.B(f'for cycle number {c}, a derivative 1 is scaled by {dv[k]/[3.0, 5.0, 11.0][off + k]:.4g} and not by {dd/[3.0, 5.0, 11.0][off + k]:.4g}', p)
    if not seen: J.U('no transformed data')
    J.done()
def fill(t, N):
    """containers constructed with a size hold that many zeros"""
    if t[0] == 'upd': return ('upd', fill(t[1], N)) + t[2:]
    if t[0] in ('hav', 'list'): return t
    return ('list',) + (('int', 0),) * N
def locals_of(f):
    return {v['id']: v['t'] for v in walk(f['body']) if v['k'] == 'var'}
def outs(d, p, f, names):
    if p.kind == 'ret' and p.ret is not None and p.ret[0] in ('r', 'new', 'tuple', 'tup'):
        xs = [x for x in p.ret[1:] if isinstance(x, tuple) and x and x[0] in ('upd',)]
        if len(xs) == 2: return xs
    env = {k: v for k, v in p.st.env.items() if k[0] == 'v' and names.get(k[2], '').startswith(('std::deque', 'std::vector', 'bertini::TimeCont', 'bertini::SampCont')) and v[0] == 'upd'}
    ts = [v for k, v in env.items() if 'Matrix' not in names[k[2]]]; ss = [v for k, v in env.items() if 'Matrix' in names[k[2]]]
    return (ts[0], ss[0]) if len(ts) == 1 and len(ss) == 1 else None

LIM = {'final_tolerance': Fraction(1, 1000)}
def runimpl(F, P, R, f):
    d, ps = run(F, P, R, 'converged', f, snap=('previous_approximation_', 'final_approximation_', 'approximate_error_'))
    if ps is None: return
    V, C, S, Z = Judge(R, 'converged', f, F), Judge(R, 'carried', f, F), Judge(R, 'runaway', f, F), Judge(R, 'size', f, F)
    EXT = ('ComputeApproximationOfXAtT0', 'ComputeCauchyApproximationOfXAtT0'); NEW = ('AdvanceTime', 'ComputeInitialSamples', 'GetIntoEGZone', 'InitialCauchyLoops', 'ComputeCauchySamples')
    cauchy = 'Cauchy' in f['cls']
    ok = False; sec = False
    for p in ps:
        work = [e for e in p.ev if e.n in EXT + NEW]
        # size
        def zs(t):
            if t[0] in ('r', 'size') and (t[0] == 'size' or t[1] == 'size') and t[-1] == ('sym', 'start_point'): return 2
            if t[0] == 'r' and t[1] == 'NumVariables': return 3
        if work and can(p, zs): Z.B('a start point of the wrong size is not refused', p)
        ext = [e for e in p.ev if e.n in EXT]
        lat = ext[-1].outs.get(0) if ext else None
        tol = lambda t: t[0] == 'attr' and t[2] == 'final_tolerance'
        if p.kind == 'ret' and status(p, p.ret) == 'ok':
            ok = True
            err = d.final(p, ('f', 'approximate_error_'))
            for x, okv in ((0.1, True), (0.5, False)):
                def lf(t):
                    if t == err: return x
                    if tol(t): return 0.25
                if can(p, lf) and not okv:
                    if any(has(c, err) and value(c, lf) is None for c, v in p.facts): V.U('tolerance test')
                    elif err in (('int', 1), ('num', '1')): pass
                    else: V.B('success is returned although the approximate error exceeds the final tolerance', p)
            if lat is None: 
                if err not in (('int', 1),): V.B('success is returned without an approximation', p)
                continue
            if status(p, ext[-1].res) != 'ok' : V.B('success is returned though the last extrapolation did not succeed', p)
            if d.final(p, ('f', 'final_approximation_')) != lat and not equal(p, d, lat): 
                if err == ('int', 1): pass
                else: V.B('the result is not the last approximation', p)
            if err == ('int', 1): 
                if not cauchy: continue          # the loop is entered unless the tolerance is 1 or more
            for e1 in [err]:
                t = next((t for t in subterms(e1) if t and t[0] == '-' and len(t) == 3), None)
                if t is None or not any(x and x[0] == 'r' and x[1] in ('lpNorm', 'norm') for x in subterms(e1)): V.U('error estimate'); continue
                ab = {t[1], t[2]}
                if lat not in ab: V.B('the error estimate does not involve the last approximation', p)
                prev = (ab - {lat})
                snp = ext[-1].snap.get('previous_approximation_')
                if not prev: V.B('an approximation is compared with itself', p)
                elif prev != {snp}: V.B('the error estimate does not compare with the previous approximation', p)
        if p.kind == 'round' and ext:
            a, b = d.final(p, ('f', 'previous_approximation_')), d.final(p, ('f', 'final_approximation_'))
            if a != lat:
                if a[0] in ('out', 'hav', 'sym', 'acc'): C.B('the previous approximation is not the last one when the next is formed', p)
                else: C.U('previous approximation')
            # new samples between extrapolations
            it = max(i for i, e in enumerate(p.ev) if e.n == '$iter')
            seg = [e for e in p.ev[it:]]
            ns = [e.n for e in seg]
            if not any(n in NEW for n in ns): C.B('the next approximation is formed from the same samples', p)
            if cauchy and ns.count('ComputeCauchySamples') != 1: C.B('the next Cauchy approximation is not formed from a new loop', p)
            if cauchy and 'AdvanceTime' in ns and 'ComputeCauchySamples' in ns and ns.index('AdvanceTime') > ns.index('ComputeCauchySamples'): C.B('the new loop is tracked before time is advanced', p)
            if not cauchy and 'AdvanceTime' in ns:
                i = ns.index('AdvanceTime'); j = ns.index(ext[-1].n) if ext[-1].n in ns else len(ns)
                if j < i: C.B('the approximation is formed before time is advanced', p)
                elif 'ComputeAllDerivatives' not in ns[i:j]: C.B('derivatives are not recomputed for the new sample', p)
        # runaway
        norms = nterms(p)
        def sl(level, newn, old):
            def lf(t):
                if t[0] == 'attr' and t[2] == 'level': return level
                if t[0] == 'attr' and t[2] == 'max_norm': return 100.0
                if t[0] == 'r' and t[1] in ('lpNorm', 'norm') and any(x and x[0] == 'r' and x[1] == 'DehomogenizePoint' for x in subterms(t)):
                    return newn if lat is not None and has(t, lat) else old
                if t[0] == 'hav' and t[2][0] == 'v' and t in norms: return old
            return lf
        if p.kind == 'ret' and which(p, p.ret) == 'SecurityMaxNormReached':
            sec = True
            if not ext: S.B('a path is truncated without an approximation', p); continue
            for t in norms:
                if lat is not None and (has(t, lat) or t[0] == 'hav') or not any(x and x[0] == 'r' and x[1] == 'DehomogenizePoint' for x in subterms(t)): continue
                prev = ext[-1].snap.get('previous_approximation_')
                if not has(t, prev): S.B('the norm of an approximation other than the last two decides on truncation', p)
            for lv, a, b, why in ((1, 1000.0, 1000.0, 'though the security level is not 0'), (0, 1.0, 1000.0, 'though the last approximation is within the limit'), (0, 1000.0, 1.0, 'after a single approximation beyond the limit')):
                if can(p, sl(lv, a, b)): S.B(f'the path is truncated {why}', p)
        elif p.kind == 'round' and ext:
            if can(p, sl(0, 1000.0, 1000.0)): S.B('the path goes on though two approximations in a row exceed the norm limit at security level 0', p)
            lvl = [v for c, v in p.facts if any(attr(x, 'level') for x in subterms(c) if x)]
            if can(p, sl(0, 1000.0, 1.0)):
                # what is carried as the previous norm
                for h in CARRY.get(f['id'], ()):
                    v = p.st.env.get(h)
                    if v is None: continue
                    if not has(v, lat): S.B('the norm carried to the next round is not the norm of the last approximation', p)
        for t in norms:
            if t[0] == 'hav': CARRY.setdefault(f['id'], set()).add(t[2])
    if not ok: V.U('no success path')
    if not sec: S.B('no path is ever truncated for exceeding the norm limit') if not S.und else None
    # second pass for carried norms, now that the carriers are known
    for p in ps:
        ext = [e for e in p.ev if e.n in EXT]
        if p.kind != 'round' or not ext: continue
        lat = ext[-1].outs.get(0)
        lv = lambda t: 0 if t[0] == 'attr' and t[2] == 'level' else None
        if not can(p, lv): continue
        for h in CARRY.get(f['id'], ()):
            v = p.st.env.get(h)
            if v is not None and lat is not None and not has(v, lat): S.B('the norm carried to the next round is not the norm of the last approximation', p)
    V.done(); C.done(); S.done(); Z.done()
CARRY = {}
def equal(p, d, lat): return False
def nterms(p):
    out = set()
    for c, v in p.facts:
        if c[0] == 'cmp' and any(attr(x, 'max_norm') for x in subterms(c) if x):
            for x in (c[2], c[3]):
                if not any(attr(y, 'max_norm') for y in subterms(x) if y): out.add(x)
    return out
