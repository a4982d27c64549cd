"""C12: a zero dimensional solve treats every path once, and reports what happened to it."""
from flow import *
from rules_c09 import Judge, name
from denote import St
GROUPS = ['algorithms']
TECHNIQUE = 'abstract interpretation of the zero dimensional algorithm, midpath check and result extraction (every tracker and endgame combination): path shapes with the tracker, endgame and start system abstract, per-path loops followed for small numbers of paths by constant propagation; shapes are judged by what is stored under which index, and by evaluating tolerances and distances at sample points'
NOTE = 'whether the tracked points are solutions is C09-C11 and numerical; reality, finiteness and singularity flags are never computed by this code and are not claimed'
A = 'bertini::algorithm::'; Z = A + 'ZeroDim::'; M = A + 'MidpathChecker::'; O = A + 'output::'
PHASES = ('PreSolveChecks', 'PreSolveSetup', 'TrackBeforeEG', 'EGBoundaryAction', 'TrackDuringEG', 'PostEGAction')
PRIM = PHASES + ('TrackSinglePathBeforeEG', 'TrackSinglePathDuringEG', 'MidpathResolve', 'ShrinkMidpathTolerance', 'SetTrackingTolerance', 'DefaultPrecision', 'ReinitializeInitialStepSize', 'AddObserver', 'RemoveObserver', 'StartPoint', 'TrackPath', 'CurrentStepsize', 'Check', 'DidPrecisionIncrease', 'TimeOfIncrease',
                 'MaxPrecision', 'Run', 'FinalApproximation', 'PreviousApproximation', 'SetStepSize', 'Eval', 'DehomogenizePoint', 'Precision', 'precision', 'LatestTime', 'LatestConditionNumber', 'LatestNormOfStep', 'ApproximateError', 'CycleNumber', 'GetCrossedPaths', 'SystemSetup', 'NumStartPoints', 'HavePathVariable',
                 'NumVariables', 'NumTotalFunctions', 'IsPolynomial', 'ConsistencyCheck', 'DefaultSetup', 'DefaultSettingsSetup', 'DefaultSystemSetup', 'DefaultTrackerSetup', 'DefaultMidpathSetup')

class Flow12(Flow):
    pure = ()
    def event(self, e):
        n = e.get('n')
        if n in self.pure: return ('r', n, ('none',)) + tuple(self.val(a) for a in e['a'])
        if n in ('TargetSystem', 'StartSystem', 'Homotopy', 'GetTracker', 'GetEndgame', 'FinalSolutions', 'FinalSolutionMetadata', 'EndgameBoundaryData', 'rerun', 'index', 'SamePointTol', 'HavePathVariable', 'NumVariables', 'NumTotalFunctions', 'IsPolynomial') and not e['a']:
            o = e.get('o')
            return ('r', n, self.val(o) if o is not None and not self.isthis(o) else ('none',))
        if n == 'Precision' and len(e['a']) == 1: return ('r', n, ('none',), self.val(e['a'][0]))
        return super().event(e)

def run(F, P, R, rid, f, opq=PRIM, n=None, assume=None, args=None, rounds=False, fields=(), maxp=3000, pure=()):
    R.fn(f); d = Flow12(F, P, opaque=[x for x in opq if x != f['n']], maxpaths=maxp); d.rounds = rounds; d.pure = pure
    st = St()
    if n is not None:
        d.unroll = 8
        st.env[('f', 'num_start_points_')] = ('int', n)
    for k, v in fields: st.env[('f', k)] = v
    d.assume = assume
    try: return d, d.run(f, args or param_args(f), st=st)
    except Undecided as x: R.skip(rid, name(f), str(x)[:80]); return d, None

def succ(t, attr):
    """index k if t says element k's attr is Success"""
    if t[0] == 'cmp' and t[1] == '==' and enum_name(t[3]) == 'Success' and t[2][0] == 'attr' and t[2][2] == attr and t[2][1][0] == 'elem' and t[2][1][2][0] == 'int': return t[2][1][2][1]
def final(p, field, k, attr):
    """what the path left in attribute attr of element k of a container member"""
    v = p.st.env.get(('at', ('el', ('f', field), k), attr))
    if v is not None: return v
    t = p.st.env.get(('f', field))
    while isinstance(t, tuple) and t and t[0] == 'upd':
        if t[2] == k:
            x = t[3]
            if x[0] == 'attr': return ('attr', x, attr)
            if x[0] == 'new' and attr in BOUNDARY and len(x) >= 5: return x[2 + BOUNDARY.index(attr)]
            return ('?', x)
        t = t[1]
    return None
BOUNDARY = ('path_point', 'success_code', 'last_used_stepsize')
def indices(p, field):
    out = []
    for l in p.st.env:
        x = l
        while x[0] == 'at': x = x[1]
        if x[0] == 'el' and x[1] == ('f', field): out.append(x[2])
    t = p.st.env.get(('f', field))
    while isinstance(t, tuple) and t and t[0] == 'upd': out.append(t[2]); t = t[1]
    return out
def conf(t, n): return t[0] == 'attr' and t[2] == n and t[1][0] in ('sym', 'f') and str(t[1][1]).startswith('configuration_')
def root(p, t):
    """the member an opaque call's in-out argument came from"""
    seen = 0
    while isinstance(t, tuple) and t and t[0] == 'out' and seen < 12:
        e = next((e for e in p.ev if e.res[:1] == ('r',) and len(e.res) > 2 and e.res[2] == t[2]), None); seen += 1
        if e is None or t[3] >= len(e.args): return t
        t = e.args[t[3]]
    return t

def check(F, P, R):
    R.rule('phases', 'a solve sets up, tracks to the endgame boundary, resolves crossings, runs the endgame and post-processes, in this order', 6)
    R.rule('afresh', 'a solve starts with empty results for every start point, the pre-endgame tolerance and the configured step size', 6)
    R.rule('every-path', 'each start point is tracked once to the endgame boundary, and those that arrived, and no others, once through the endgame', 12)
    R.rule('before', 'a path is tracked from its own start point from the start time to the endgame boundary, and point, step size and verdict are recorded under its own number', 6)
    R.rule('during', 'the endgame is run from what was recorded at the boundary to the target time, and its result and verdict are recorded under the path number', 6)
    R.rule('crossing', 'two arrived paths are reported crossed exactly when their points agree to tolerance, both are recorded, and are to be run again exactly when their start points differ', 2)
    R.rule('attempts', 'crossed paths are run again with tighter tolerance until none cross or the attempts are used up, and checked each time', 6)
    R.rule('multiplicity', 'the multiplicity of a successful endpoint is the number of successful endpoints that agree with it', 6)
    R.rule('refuse', 'systems with a path variable, underconstrained, or non-polynomial are refused before any set-up', 10)
    R.rule('count', 'the number of paths is the number of start points of the start system that was set up', 6)
    R.rule('extract', 'results handed out come from paths that have them; nonsingular ones only from successful paths of multiplicity one', 12)
    for f in F.need(Z + 'Solve'): phases(F, P, R, f)
    for f in F.fn(Z + 'PreSolveSetup'): afresh(F, P, R, f)
    for f in F.fn(Z + 'TrackBeforeEG'): before_all(F, P, R, f)
    for f in F.fn(Z + 'TrackDuringEG'): during_all(F, P, R, f)
    for f in F.fn(Z + 'TrackSinglePathBeforeEG'): before(F, P, R, f)
    for f in F.fn(Z + 'TrackSinglePathDuringEG'): during(F, P, R, f)
    for f in F.fn(Z + 'EGBoundaryAction'): attempts(F, P, R, f)
    for f in F.fn(Z + 'MidpathResolve'): resolve(F, P, R, f)
    for f in F.fn(M + 'Check'): crossing(F, P, R, f)
    for f in F.fn(M + 'CrossedPath::CrossedPath') + F.fn(M + 'CrossedPath::rerun'): crossed(F, P, R, f)
    for f in F.fn(Z + 'ComputeMultiplicities'): multiplicity(F, P, R, f)
    for f in F.fn(Z + 'ConsistencyCheck'): refuse(F, P, R, f)
    for f in F.fn(Z + 'ZeroDim'): construct(F, P, R, f)
    for f in F.fn(Z + 'DefaultSystemSetup'): count(F, P, R, f)
    for f in F.fn(O + 'NonsingularSolutions::Extract'): extract(F, P, R, f, True)
    for f in F.fn(O + 'AllSolutions::Extract'): extract(F, P, R, f, False)
    for n in ('MainData', 'RawData'):
        for f in F.fn(O + 'Classic::' + n): classic(F, P, R, f)

def live(ps): return [p for p in ps if p.kind in ('ret', 'fall')]
def phases(F, P, R, f):
    d, ps = run(F, P, R, 'phases', f)
    if ps is None: return
    J = Judge(R, 'phases', f, F)
    have = [x for x in PHASES if F.fn(Z + x) or any(g['q'] == Z + x for g in F.fns.values())]
    for p in live(ps):
        got = [e.n for e in p.ev if e.n in PHASES]
        miss = [x for x in have if x not in got]
        if miss: J.B(f'{miss[0]} is not carried out', p)
        elif got != have: J.B(f'the phases run in the order {", ".join(got)}', p)
    J.done()

STORES = ('solution_final_metadata_', 'solutions_at_endgame_boundary_', 'solutions_post_endgame_')
def afresh(F, P, R, f):
    d, ps = run(F, P, R, 'afresh', f)
    if ps is None: return
    J = Judge(R, 'afresh', f, F)
    for p in live(ps):
        for s in STORES:
            es = [e for e in p.ev if e.n in ('clear', 'resize', 'assign') and fieldof(p, e.obj) == s]
            size = [e for e in es if e.n in ('resize', 'assign')]
            v = p.st.env.get(('f', s))
            whole = v is not None and v[0] == 'new'
            if not size and not whole: J.B(f'{s} is not given room for every path', p); continue
            if size and not has(size[-1].args[0], ('sym', 'num_start_points_')): J.B(f'{s} is not sized by the number of start points', p)
            if not whole and size[-1].n == 'resize' and not (es[0].n == 'clear' or es[0].n == 'resize' and es[0].args and es[0].args[0] == ('int', 0)): J.B(f'{s} keeps what an earlier solve left in it', p)
            if es and es[-1].n == 'clear': J.B(f'{s} is left empty', p)
        t = p.st.env.get(('f', 'midpath_retrack_tolerance_'))
        if t is None: J.B('the tolerance for re-tracking is not reset', p)
        elif not conf(t, 'newton_before_endgame'): J.B('re-tracking does not begin at the pre-endgame tolerance', p) if t[0] == 'attr' else J.U('re-tracking tolerance')
    J.done()
def fieldof(p, o):
    if isinstance(o, tuple) and o and o[0] in ('sym', 'f'): return o[1]
    if isinstance(o, tuple) and o and o[0] == 'mut':
        e = next((e for e in p.ev if len(e.res) > 2 and e.res[2] == o[2]), None)
        return fieldof(p, e.obj) if e is not None else None
    if isinstance(o, tuple) and o == ('list',): return None

def counted(F, P, R, f, ev, J, skip):
    """with n start points, the calls of ev on every path: {n: [(indices, path)]}"""
    for n in (0, 1, 3):
        d, ps = run(F, P, R, J.rid, f, n=n)
        if ps is None: J.U('shape'); return
        for p in live(ps):
            es = [e for e in p.ev if e.n == ev]
            if any(e.n == '$again' for e in p.ev) or any(e.args[0][0] != 'int' for e in es): J.U('loop over paths'); continue
            got = [e.args[0][1] for e in es]
            want = [k for k in range(n) if not skip(p, k)]
            for k in want:
                if k not in got: J.B(f'path {k} of {n} is left out', p)
            for k in got:
                if k not in want: J.B(f'path {k} of {n} is tracked though it {"does not exist" if k >= n else "did not arrive"}', p)
            if len(set(got)) != len(got): J.B('a path is tracked twice', p)
def before_all(F, P, R, f):
    J = Judge(R, 'every-path', f, F)
    counted(F, P, R, f, 'TrackSinglePathBeforeEG', J, lambda p, k: False)
    d, ps = run(F, P, R, 'every-path', f, n=1)
    for p in live(ps or ()):
        pre = [e for e in p.ev[:next((i for i, e in enumerate(p.ev) if e.n == 'TrackSinglePathBeforeEG'), len(p.ev))]]
        tol = [e for e in pre if e.n == 'SetTrackingTolerance']
        if not tol: J.B('the tracking tolerance is not set before tracking', p)
        elif not conf(tol[-1].args[0], 'newton_before_endgame'): J.B('tracking to the endgame boundary does not use the pre-endgame tolerance', p) if tol[-1].args[0][0] == 'attr' else J.U('tolerance')
        ri = [e for e in pre if e.n == 'ReinitializeInitialStepSize']
        off = any(x['k'] == 'call' and x.get('n') == 'ReinitializeInitialStepSize' for g in F.fn(Z + 'TrackSinglePathDuringEG') + F.fn(Z + 'TrackDuringEG') for x in walk(g['body']))
        if off and (not ri or ri[-1].args[0] != ('bool', True)): J.B('tracking begins with the step size the previous solve ended with', p)
    J.done()
def during_all(F, P, R, f):
    J = Judge(R, 'every-path', f, F)
    def skip(p, k):
        for c, v in p.facts:
            i = succ(c, 'pre_endgame_success')
            if i is None: i = succ(c, 'success_code')
            if i == k: return not v
        J.B(f'the endgame is run or skipped without asking whether the path arrived at the boundary', p)
        return False
    counted(F, P, R, f, 'TrackSinglePathDuringEG', J, skip)
    d, ps = run(F, P, R, 'every-path', f, n=1)
    for p in live(ps or ()):
        k = next((i for i, e in enumerate(p.ev) if e.n == 'TrackSinglePathDuringEG'), None)
        if k is None: continue
        tol = [e for e in p.ev[:k] if e.n == 'SetTrackingTolerance']
        if not tol: J.B('the tracking tolerance is not set before the endgame', p)
        elif not conf(tol[-1].args[0], 'newton_during_endgame'): J.B('the endgame does not use its own tolerance', p) if tol[-1].args[0][0] == 'attr' else J.U('tolerance')
    J.done()

def stored(J, p, field, k, attr, want, what):
    v = final(p, field, k, attr)
    if v is None: J.B(f'{what} is not recorded for the path', p)
    elif callable(want):
        r = want(v)
        if r is None: J.U(what)
        elif not r: J.B(f'{what} is not what is recorded', p)
    elif v != want: J.B(f'{what} is not what is recorded', p) if v[0] in ('r', 'sym', 'attr', 'enum', 'int', 'bool', 'out', 'uninit') else J.U(what)

def before(F, P, R, f):
    d, ps = run(F, P, R, 'before', f)
    if ps is None: return
    J = Judge(R, 'before', f, F); k = ('sym', f['params'][0]['n'])
    for p in live(ps):
        tp = [e for e in p.ev if e.n == 'TrackPath']
        if len(tp) != 1: J.B('the path is not tracked exactly once' , p); continue
        e = tp[0]
        if not conf(e.args[1], 'start_time'): J.B('tracking does not begin at the start time', p) if e.args[1][0] == 'attr' else J.U('start time')
        if not conf(e.args[2], 'endgame_boundary'): J.B('tracking does not end at the endgame boundary', p) if e.args[2][0] == 'attr' else J.U('end time')
        sp = next((x for x in p.ev if x.n == 'StartPoint' and x.res == e.args[3]), None)
        if sp is None: J.U('start point')
        elif sp.args[-1] != k: J.B('the start point is not that of the path', p)
        dp = [i for i, x in enumerate(p.ev) if x.n == 'DefaultPrecision']
        if sp is not None and (not dp or dp[0] > p.ev.index(sp) or not has(p.ev[dp[0]].args[0], p.ev[dp[0]].args[0]) or not conf(p.ev[dp[0]].args[0], 'initial_ambient_precision')):
            J.B('the start point is formed in whatever precision the previous path left', p)
        if any(x.n == 'SetTrackingTolerance' for x in p.ev): J.B('tracking a single path changes the tolerance it was to be tracked with', p)
        out = e.outs.get(0) if isinstance(e.outs, dict) else None
        res = lambda v: v == out or v[0] == 'out' and v[1] == 'TrackPath'
        stored(J, p, 'solutions_at_endgame_boundary_', k, 'path_point', lambda v: True if res(v) else False if v[0] in ('r', 'sym', 'uninit') else None, 'the point at the boundary')
        stored(J, p, 'solutions_at_endgame_boundary_', k, 'success_code', e.res, 'the verdict of tracking')
        stored(J, p, 'solutions_at_endgame_boundary_', k, 'last_used_stepsize', lambda v: v[0] == 'r' and v[1] == 'CurrentStepsize' and p.ev.index(next(x for x in p.ev if x.res == v)) > p.ev.index(e), 'the step size after tracking')
        stored(J, p, 'solution_final_metadata_', k, 'pre_endgame_success', e.res, 'the verdict of tracking')
        stored(J, p, 'solution_final_metadata_', k, 'path_index', k, 'the path number')
        for s in STORES[:2]:
            if any(x != k for x in indices(p, s)): J.B(f'{s} is written under another number than the path', p)
        precision_record(J, p, k)
    J.done()
def precision_record(J, p, k):
    # what a recorder tells is about this path only if it was new when it was attached
    for e in p.ev:
        x = e.args[0] if e.n == 'AddObserver' and e.args else e.obj if e.n in ('DidPrecisionIncrease', 'MaxPrecision', 'TimeOfIncrease') else None
        if x is not None and x[0] == 'sym' and 'prec' in x[1]: J.B(f'{x[1]} still holds what it recorded about paths tracked before', p)
    inc = [(c, v) for c, v in p.facts if c[0] == 'r' and c[1] == 'DidPrecisionIncrease']
    if inc and inc[-1][1]:
        if final(p, 'solution_final_metadata_', k, 'precision_changed') not in (('bool', True), inc[-1][0]): J.B('an increase of precision is not recorded', p)
        t = final(p, 'solution_final_metadata_', k, 'time_of_first_prec_increase')
        if t is None or not (t[0] == 'r' and t[1] == 'TimeOfIncrease'): J.B('the time of the first increase of precision is not recorded', p)
    elif inc and final(p, 'solution_final_metadata_', k, 'precision_changed') == ('bool', True): J.B('an increase of precision is recorded that did not happen', p)
    m = final(p, 'solution_final_metadata_', k, 'max_precision_used')
    if any(e.n == 'MaxPrecision' for e in p.ev) and m is not None:
        def lf(a, b):
            def leaf(t):
                if t[0] == 'attr' and t[2] == 'max_precision_used': return a
                if t[0] == 'r' and t[1] == 'MaxPrecision': return b
            return leaf
        for a, b in ((30, 50), (50, 30)):
            v = value(m, lf(a, b))
            if v is None: J.U('highest precision')
            elif v != 50: J.B('the highest precision used is not the one recorded', p)

def during(F, P, R, f):
    d, ps = run(F, P, R, 'during', f)
    if ps is None: return
    J = Judge(R, 'during', f, F); k = ('sym', f['params'][0]['n'])
    own = lambda t, a: t == ('attr', ('elem', ('sym', 'solutions_at_endgame_boundary_'), k), a)
    anyb = lambda t: t[0] == 'attr' or t[0] in ('elem', 'sym')
    for p in live(ps):
        es = [e for e in p.ev if e.n == 'Run']
        if len(es) != 1: J.B('the endgame is not run exactly once', p); continue
        e = es[0]; i = p.ev.index(e)
        if not conf(e.args[0], 'endgame_boundary'): J.B('the endgame does not begin at the endgame boundary', p) if e.args[0][0] == 'attr' else J.U('boundary time')
        if not own(e.args[1], 'path_point'): J.B('the endgame does not begin at the point recorded for the path', p) if anyb(e.args[1]) else J.U('boundary point')
        if len(e.args) > 2 and not conf(e.args[2], 'target_time'): J.B('the endgame does not go to the target time', p) if e.args[2][0] == 'attr' else J.U('target time')
        ss = [x for x in p.ev[:i] if x.n == 'SetStepSize']
        if ss and not own(ss[-1].args[0], 'last_used_stepsize'): J.B('the endgame does not go on with the step size recorded for the path', p) if ss[-1].args[0][0] == 'attr' else J.U('step size')
        fa = [x.res for x in p.ev[i:] if x.n == 'FinalApproximation']
        if any(x.n == 'FinalApproximation' for x in p.ev[:i]) and not fa: J.B('the solution is taken before the endgame has run', p)
        v = p.st.env.get(('f', 'solutions_post_endgame_')); got = None
        while isinstance(v, tuple) and v and v[0] == 'upd':
            if v[2] == k and got is None: got = v[3]
            elif v[2] != k: J.B('the solution is stored under another number than the path', p)
            v = v[1]
        if got is None: J.B('the solution is not recorded for the path', p)
        elif got not in fa: J.B('what is recorded is not the final approximation of the endgame', p) if got[0] in ('r', 'attr', 'sym', 'elem') else J.U('solution')
        stored(J, p, 'solution_final_metadata_', k, 'endgame_success', e.res, 'the verdict of the endgame')
        after = {x.res for x in p.ev[i:]}
        for a, n in (('final_time_used', 'LatestTime'), ('condition_number', 'LatestConditionNumber'), ('newton_residual', 'LatestNormOfStep'), ('accuracy_estimate', 'ApproximateError'), ('cycle_num', 'CycleNumber')):
            stored(J, p, 'solution_final_metadata_', k, a, lambda v: v in after and v[1] == n if v[0] == 'r' else None, a.replace('_', ' '))
        def resid(v):
            ev = next((x for x in p.ev[i:] if x.n == 'Eval' and has(v, x.res)), None)
            return None if ev is None else ev.args[0] in fa
        stored(J, p, 'solution_final_metadata_', k, 'function_residual', resid, 'function residual')
        if any(x != k for x in indices(p, 'solution_final_metadata_')): J.B('metadata is written under another number than the path', p)
        precision_record(J, p, k)
        if final(p, 'solution_final_metadata_', k, 'pre_endgame_success') is not None: J.B('the endgame overwrites the verdict of tracking to the boundary', p)
    J.done()

def attempts(F, P, R, f):
    J = Judge(R, 'attempts', f, F)
    for m in (0, 2):
        for good in (0, 1, 2, 9):       # the check first passes after this many attempts
            def assume(d, c, m=m, good=good):
                if c[0] == 'r' and c[1] == 'Check':
                    k = sum(1 for e in d.events() if e.e.n == 'Check' and e.e.res[2] <= c[2]) - 1
                    return k >= good
                if c[0] == 'cmp':
                    lf = lambda t: m if conf(t, 'max_num_crossed_path_resolve_attempts') else None
                    v = value(c, lf)
                    return None if v is None else bool(v)
            d, ps = run(F, P, R, 'attempts', f, n=3, assume=assume)
            if ps is None: J.U('shape'); continue
            for p in live(ps):
                if again(p): J.U('loop over attempts'); continue
                n = [e.n for e in p.ev if e.n in ('Check', 'MidpathResolve')]
                if not n or n[0] != 'Check': J.B('paths are not checked for crossings at the endgame boundary', p); continue
                r = n.count('MidpathResolve'); want = min(m, good)
                if r < want: J.B(f'{r} attempts are made to resolve crossings though {want} were called for', p)
                if r > want: J.B(f'{r} attempts are made to resolve crossings though only {want} were called for', p)
                if n[-1] != 'Check' or any(a == b for a, b in zip(n, n[1:]) if a == 'MidpathResolve'): J.B('paths are not checked again after being re-run', p)
                for e in p.ev:
                    if e.n == 'Check' and (e.args[0][0] in ('sym', 'f', 'hav', 'out') and fieldof(p, root(p, e.args[0])) not in (None, 'solutions_at_endgame_boundary_')): J.B('the check is not made on the points at the boundary', p)
    J.done()
def resolve(F, P, R, f):
    d, ps = run(F, P, R, 'attempts', f, opq=[x for x in PRIM if x != 'ShrinkMidpathTolerance'], rounds=True)
    if ps is None: return
    J = Judge(R, 'attempts', f, F)
    for p in ps:
        if p.kind == 'throw': continue
        trk = [i for i, e in enumerate(p.ev) if e.n == 'TrackSinglePathBeforeEG']
        tol = [i for i, e in enumerate(p.ev) if e.n == 'SetTrackingTolerance']
        if trk and (not tol or tol[0] > trk[0]): J.B('crossed paths are re-run without tightening the tolerance first', p)
        lf = lambda t: 0.25 if conf(t, 'midpath_decrease_tolerance_factor') else 1e-4 if t == ('sym', 'midpath_retrack_tolerance_') else 1e-4 if conf(t, 'newton_before_endgame') else None
        for i in tol:
            v = value(p.ev[i].args[0], lf)
            if v is None: J.U('tolerance')
            elif not abs(v - 2.5e-5) < 1e-9: J.B('crossed paths are not re-run with the tolerance reduced by the configured factor', p)
        t = p.st.env.get(('f', 'midpath_retrack_tolerance_'))
        if t is None: J.B('the reduced tolerance is not kept for the next attempt', p)
        elif value(t, lf) is None: J.U('tolerance kept')
        elif abs(value(t, lf) - 2.5e-5) > 1e-9: J.B('the reduced tolerance is not kept for the next attempt', p)
        # the current element of the loop: re-run exactly if it says so
        it = [i for i, e in enumerate(p.ev) if e.n == '$iter']
        if not it: continue
        asked = [(c, v) for c, v in p.facts if c[0] == 'r' and c[1] == 'rerun']
        here = [p.ev[i] for i in trk if i > it[-1]]
        if not asked:
            if here: J.B('paths are re-run without asking whether they are to be', p)
            continue
        c, v = asked[-1]
        if v and not here: J.B('a crossed path that is to be re-run is not', p)
        if not v and here: J.B('a path that shares its start point is re-run', p)
        for e in here:
            if e.args[0][0] == 'r' and e.args[0][1] == 'index' and e.args[0][2] != c[2]: J.B('another path is re-run than the one that crossed', p)
            elif not (e.args[0][0] == 'r' and e.args[0][1] == 'index'): J.U('which path is re-run')
    J.done()

def crossing(F, P, R, f):
    J = Judge(R, 'crossing', f, F)
    n = 3
    for ok in ({0, 1, 2}, {0, 2}, {1, 2}, set(), {0}):
        for close in ((), (0, 1), (0, 2), (1, 2), (0, 1, 2)):
            for same in (False, True):
                pos = {0: 2.0, 1: 40.0, 2: 700.0}
                for k in close[1:]: pos[k] = pos[close[0]] * (1 + 1e-9 * k)
                def leaf(t):
                    if t[0] == 'attr' and t[2] == 'path_point' and t[1][0] == 'sym' and t[1][1][0] == '@': return pos[int(t[1][1][1:])]
                    if t[0] == 'attr' and t[2] == 'same_point_tolerance' or t[0] == 'r' and t[1] == 'SamePointTol': return 1e-5
                    if t[0] == 'r' and t[1] == 'StartPoint' and len(t) == 4 and t[3][0] == 'int': return 1.0 if same else 1.0 + t[3][1]
                def assume(d, c):
                    if c[0] == 'cmp' and c[1] == '==' and c[2][0] == 'attr' and c[2][2] == 'success_code' and c[2][1][0] == 'sym' and enum_name(c[3]):
                        k = int(c[2][1][1][1:]); return (enum_name(c[3]) == ('Success' if k in ok else 'FailedToConverge'))
                    v = value(c, leaf)
                    return None if v is None else bool(v)
                args = param_args(f); args[0] = ('list',) + tuple(('sym', '@' + str(i)) for i in range(n))
                d, ps = run(F, P, R, 'crossing', f, opq=PRIM + ('crossed_with', 'rerun'), n=n, assume=assume, args=args, pure=('StartPoint',), fields=(('passed_', ('sym', 'passed_')), ('crossed_paths_', ('sym', 'crossed_paths_'))))
                if ps is None: J.U('shape'); continue
                grp = [k for k in close if k in ok]
                prs = [(a, b) for a in grp for b in grp if a < b]
                for p in live(ps):
                    r = value(p.ret, leaf) if p.ret is not None else None
                    if p.ret is not None and p.ret[0] in ('sym', 'attr'): J.B('the outcome of an earlier check is returned', p); continue
                    if r is None: J.U('outcome'); continue
                    if prs and r: J.B(f'the check passes though paths {grp} agree at the boundary', p)
                    if not prs and not r: J.B('the check fails though no two arrived paths agree at the boundary', p)
                    pf = p.st.env.get(('f', 'passed_'))
                    if pf is not None and value(pf, leaf) is not None and bool(value(pf, leaf)) == bool(prs): J.B('the outcome of the check is not the one remembered', p)
                    t = p.st.env.get(('f', 'crossed_paths_'))
                    if t is not None and has(t, ('sym', 'crossed_paths_')): J.B('crossings found by an earlier check are kept', p)
                    adds = [e for e in p.ev if e.n in ('push_back', 'emplace_back') and e.obj == ('f', 'crossed_paths_')]
                    upds = [e for e in p.ev if e.n == 'crossed_with']
                    if not prs:
                        if adds or upds: J.B('paths are recorded as crossed that do not agree', p)
                        continue
                    # new records
                    recs = []
                    for e in adds:
                        x = e.args[0] if len(e.args) == 1 else ('new', '') + tuple(e.args)
                        if x[0] != 'new' or len(x) < 5 or x[2][0] != 'int' or x[3][0] != 'int': J.U('crossing record'); continue
                        recs.append((x[2][1], x[3][1]))
                        if tuple(sorted(recs[-1])) not in prs: J.B(f'paths {recs[-1]} are recorded as crossed though they do not agree', p)
                        s = value(x[4], leaf)
                        if s is None: J.U('start points compared')
                        elif bool(s) != same: J.B(f'crossed paths whose start points {"agree" if same else "differ"} are taken to have {"different" if same else "the same"} start points', p)
                    if len(recs) < len(adds): continue
                    if len(prs) == 1:
                        for a, b in (prs[0], prs[0][::-1]):
                            if (a, b) not in recs: J.B(f'path {a} crosses path {b} but is not recorded as crossed', p)
                    # records that exist already
                    for i, (c, v) in enumerate(p.facts):
                        if not (v and c[0] == 'cmp' and c[1] == '==' and c[2][0] == 'r' and c[2][1] == 'index' and c[3][0] == 'int'): continue
                        near = [x for x, y in p.facts[:i] if y and len({z for z in subterms(x) if z and z[0] == 'sym' and str(z[1]).startswith('@')}) == 2]
                        if not near: continue
                        two = sorted(int(z[1][1:]) for z in {z for z in subterms(near[-1]) if z and z[0] == 'sym' and str(z[1]).startswith('@')})
                        a = c[3][1]
                        if a not in two: J.U('record looked up'); continue
                        b = two[1 - two.index(a)]; who = c[2][2]
                        mine = [e.args[0] for e in upds if e.obj == who]
                        if any(not (x[0] == 'r' and x[1] in ('make_pair', 'pair') and len(x) == 5 or x[0] in ('new', 'list') and len(x) >= 3) for x in mine): J.U('crossing entry'); continue
                        u = [x for x in mine if ('int', b) in x]
                        if not u: J.B(f'the record of path {a} does not get its crossing with path {b}', p)
                        rr = [e for e in p.ev if e.n == 'rerun' and e.args and e.obj == who]
                        if not rr: J.B(f'whether path {a} is to be run again is not updated on its crossing with path {b}', p)
                        for e in rr:
                            s = value(e.args[0], leaf)
                            if s is not None and bool(s) != same: J.B(f'crossed paths whose start points {"agree" if same else "differ"} are taken to have {"different" if same else "the same"} start points', p)
    J.done()
def crossed(F, P, R, f):
    if f['n'] == 'rerun' and not f['params'] or f['n'] == 'CrossedPath' and len(f['params']) != 3: return
    d, ps = run(F, P, R, 'crossing', f)
    if ps is None: return
    J = Judge(R, 'crossing', f, F)
    b = ('sym', f['params'][-1]['n'])
    for p in live(ps):
        t = p.st.env.get(('f', 'rerun_'))
        for s in (0, 1):
            for old in (0, 1):
                leaf = lambda t: s if t == b else old if t == ('sym', 'rerun_') else None
                if not can(p, leaf): continue
                v = value(t, leaf) if t is not None else old if f['n'] == 'rerun' else None
                want = (not s) or (old if f['n'] == 'rerun' else 0)
                if v is None: J.U('re-run flag') if t is not None else J.B('whether the path is to be re-run is not recorded', p)
                elif bool(v) != bool(want): J.B('a crossed path is to be re-run exactly if it crossed one from another start point', p)
        if f['n'] == 'CrossedPath':
            ix = p.st.env.get(('f', 'index_'))
            if ix != ('sym', f['params'][0]['n']): J.B('the record of a crossed path has another number', p) if ix is None or ix[0] == 'sym' else J.U('index')
    J.done()

def multiplicity(F, P, R, f):
    J = Judge(R, 'multiplicity', f, F); n = 4
    for ok in ({0, 1, 2, 3}, {0, 2, 3}, {1, 3}):
        for grp in ((), (0, 1), (1, 3), (2, 3), (0, 2, 3), (0, 1, 2, 3)):
            pos = {0: 1.0, 1: 3.0, 2: 7.0, 3: 20.0}
            for x in grp: pos[x] = 1.0 + 1e-12 * x
            def leaf(t):
                if t[0] == 'elem' and t[1] == ('sym', 'solutions_post_endgame_') and t[2][0] == 'int': return pos[t[2][1]]
                if conf(t, 'same_point_tolerance'): return 1e-5
                if t[0] == 'attr' and t[2] == 'multiplicity': return 1
            def assume(d, c):
                k = succ(c, 'endgame_success')
                if k is not None: return k in ok
                v = value(c, leaf)
                return None if v is None else bool(v)
            d, ps = run(F, P, R, 'multiplicity', f, n=n, assume=assume)
            if ps is None: J.U('shape'); continue
            for p in live(ps):
                if again(p): J.U('loop over paths'); continue
                for k in range(n):
                    want = sum(1 for j in ok if k in ok and abs(pos[j] - pos[k]) < 1e-5) if k in ok else 1
                    v = final(p, 'solution_final_metadata_', ('int', k), 'multiplicity')
                    got = 1 if v is None else value(v, leaf)
                    if got is None: J.U('multiplicity')
                    elif got != want: J.B(f'of endpoints {sorted(ok)}, where {list(grp)} agree, number {k} is given multiplicity {got} instead of {want}', p)
    J.done()

def refuse(F, P, R, f):
    J = Judge(R, 'refuse', f, F)
    for pv, nv, nf, poly in ((0, 2, 2, 1), (0, 2, 3, 1), (1, 2, 2, 1), (0, 3, 2, 1), (0, 2, 2, 0), (1, 3, 2, 0)):
        def assume(d, c):
            def leaf(t):
                if t[0] == 'r': return {'HavePathVariable': pv, 'NumVariables': nv, 'NumTotalFunctions': nf, 'IsPolynomial': poly}.get(t[1])
            v = value(c, leaf)
            return None if v is None else bool(v)
        d, ps = run(F, P, R, 'refuse', f, assume=assume)
        if ps is None: J.U('shape'); continue
        want = not pv and nv <= nf and poly
        kinds = {p.kind for p in ps}
        if want and kinds == {'throw'}: J.B('a square polynomial system without path variable is refused', ps[0])
        if not want and 'ret' in kinds and 'throw' not in kinds:
            J.B('a system with a path variable is accepted' if pv else 'an underconstrained system is accepted' if nv > nf else 'a non-polynomial system is accepted', ps[0])
        elif len(kinds) > 1: J.U('decided by something else')
    J.done()
def construct(F, P, R, f):
    if not any(e for e in walk(f['body']) if e['k'] == 'call'): return
    d, ps = run(F, P, R, 'refuse', f)
    if ps is None: return
    J = Judge(R, 'refuse', f, F)
    if not F.fn(Z + 'ConsistencyCheck'): return
    for p in live(ps):
        n = [e.n for e in p.ev if e.n in ('ConsistencyCheck', 'DefaultSetup', 'DefaultSystemSetup')]
        if 'ConsistencyCheck' not in n: J.B('the target system is not checked on construction', p)
        elif n[0] != 'ConsistencyCheck': J.B('the target system is set up before it is checked', p)
    J.done()
def count(F, P, R, f):
    d, ps = run(F, P, R, 'count', f)
    if ps is None: return
    J = Judge(R, 'count', f, F)
    for p in live(ps):
        t = p.st.env.get(('f', 'num_start_points_'))
        n = [e.n for e in p.ev]
        if t is None: J.B('the number of paths is not set', p); continue
        e = next((e for e in p.ev if e.res == t), None)
        if e is None or e.n != 'NumStartPoints': J.U('number of paths') if t[0] not in ('int', 'attr') else J.B('the number of paths is not that of the start system', p); continue
        if e.obj is not None and 'StartSystem' not in str(e.obj) and 'start_system_' not in str(e.obj): J.B('the number of paths is not that of the start system', p)
        if 'SystemSetup' in n and n.index('SystemSetup') > p.ev.index(e): J.B('the number of paths is taken before the start system is formed', p)
        if 'SystemSetup' not in n: J.B('the systems are not set up', p)
    J.done()

def extract(F, P, R, f, nonsing):
    J = Judge(R, 'extract', f, F); n = 2
    for codes in (('Success', 'Success'), ('NeverStarted', 'Success'), ('Success', 'NeverStarted'), ('MinTrackTimeReached', 'Success')):
        for mult in ((1, 1), (2, 1), (2, 2)):
            def assume(d, c):
                def leaf(t):
                    if t[0] == 'size' and 'Final' in str(t): return n
                    if t[0] == 'attr' and t[2] == 'multiplicity' and t[1][0] == 'elem' and t[1][2][0] == 'int' and t[1][2][1] < n: return mult[t[1][2][1]]
                if c[0] == 'cmp' and c[1] == '==' and enum_name(c[3]) and c[2][0] == 'attr' and c[2][2] == 'endgame_success' and c[2][1][0] == 'elem' and c[2][1][2][0] == 'int' and c[2][1][2][1] < n: return enum_name(c[3]) == codes[c[2][1][2][1]]
                v = value(c, leaf)
                return None if v is None else bool(v)
            d, ps = run(F, P, R, 'extract', f, n=n, assume=assume)
            if ps is None: J.U('shape'); continue
            for p in live(ps):
                if again(p): J.U('loop over results'); continue
                xs = []
                t = p.ret; 
                while isinstance(t, tuple) and t and t[0] == 'pushed': xs.insert(0, t[2]); t = t[1]
                if t is None or t[0] != 'list': J.U('result'); continue
                xs = list(t[1:]) + xs
                got = []
                for x in xs:
                    e = next((e for e in p.ev if e.res == x and e.n == 'DehomogenizePoint'), None)
                    a = e.args[0] if e is not None else x
                    k = a[2][1] if a[0] == 'elem' and a[2][0] == 'int' else None
                    if e is None: J.B('a solution is handed out that is not dehomogenized', p) if x[0] == 'elem' else J.U('solution')
                    if k is None: J.U('solution')
                    else: got.append(k)
                if len(got) != len(xs): continue
                if nonsing: want = [k for k in range(n) if codes[k] == 'Success' and mult[k] == 1]
                else: want = [k for k in range(n) if codes[k] != 'NeverStarted']
                for k in got:
                    if k not in want: J.B(f'a solution is handed out for a path {"that never reached the endgame" if codes[k] == "NeverStarted" else "whose endgame did not succeed" if codes[k] != "Success" else "of higher multiplicity"}', p)
                for k in want:
                    if k not in got: J.B('a solution is withheld', p)
                if got != sorted(got): J.B('solutions are not handed out in path order', p) if sorted(set(got)) == sorted(got) else J.B('a solution is handed out twice', p)
    J.done()
def classic(F, P, R, f):
    J = Judge(R, 'extract', f, F); n = 2
    for codes in (('Success', 'Success'), ('NeverStarted', 'Success'), ('MinTrackTimeReached', 'NeverStarted')):
        def assume(d, c):
            def leaf(t):
                if t[0] == 'size' and 'Final' in str(t): return n
            if c[0] == 'cmp' and c[1] == '==' and enum_name(c[3]) and c[2][0] == 'attr' and c[2][2] == 'endgame_success' and c[2][1][0] == 'elem' and c[2][1][2][0] == 'int' and c[2][1][2][1] < n: return enum_name(c[3]) == codes[c[2][1][2][1]]
            v = value(c, leaf)
            return None if v is None else bool(v)
        d, ps = run(F, P, R, 'extract', f, opq=PRIM + ('EndPoint', 'EndPointMDFull', 'EndPointMDRaw', 'Variables', 'EndPointDehom'), n=n, assume=assume)
        if ps is None: J.U('shape'); continue
        for p in live(ps):
            if again(p): J.U('loop over results'); continue
            es = [e for e in p.ev if e.n.startswith('EndPoint')]
            if any(e.args[0][0] != 'int' for e in es): J.U('which point'); continue
            got = sorted({e.args[0][1] for e in es}); want = [k for k in range(n) if codes[k] != 'NeverStarted']
            if any(k not in want for k in got): J.B('a path that never reached the endgame is written out', p)
            if any(k not in got for k in want): J.B('a path is left out of the output', p)
    J.done()
