"""C15: ill-sized or ill-timed requests are refused before anything changes."""
from flow import *
from rules_c08 import Flow8, N
from rules_c20 import concrete, faults
GROUPS = ['systems', 'core/system/system.cpp', 'algorithms']
TECHNIQUE = 'abstract interpretation of every public entry taking a point, a path-variable value or a destination, on points and destinations that are too short, right and too long, for systems with and without a path variable: every path of a bad request ends in a throw with no stored value written before it, and a good request has a path that does not throw'
NOTE = 'three variables, two functions, one patch equation; precision mismatches are not part of this property'
SY = 'bertini::System::'
NV, NN, NT = 3, 2, 3
KEEP = {'Differentiate', 'Reset', 'ResetFunctions', 'ResetJacobian', 'ResetTimeDerivatives', 'Variables', 'ConstructOrdering', 'DehomogenizePointFIFO', 'bertini::node::Node::EvalInPlace', 'bertini::node::Function::EvalInPlace', 'bertini::node::Jacobian::EvalInPlace', 'bertini::Patch::EvalInPlace', 'bertini::Patch::JacobianInPlace', 'EvalJInPlace', 'GetFuncValsInPlace', 'GetJacobianInPlace', 'GetTimeDerivInPlace'}
SET = {'set_current_value', 'SetVariableValues', 'SetPathVariable', 'SetVariables', 'precision', 'Precision'}
STORED = ('current_variable_values_', 'path_variable_', 'slp_', 'patch_', 'functions_', 'implicit_parameters_')
def vec(n, s='x'): return ('list',) + tuple(('sym', f'{s}{i}') for i in range(n))
def mat(r, c): return ('list',) + tuple(vec(c, f'm{i}') for i in range(r))
class Flow15(Flow8):
    """loops over elements whose number is not known are one generic iteration; sizes are constants"""
    pass
def mk(F, P, tv, entry):
    d = Flow15(F, P, opaque=set(KEEP))
    d.consts = {'NumVariables': ('int', NV), 'NumNaturalFunctions': ('int', NN), 'NumFunctions': ('int', NN), 'NumTotalFunctions': ('int', NT), 'NumPatches': ('int', NT - NN), 'NumTotalVariableGroups': ('int', NT - NN), 'NumVariableGroups': ('int', NT - NN), 'HavePathVariable': ('bool', tv), 'Zero': None}
    del d.consts['Zero']
    return d
def written(p, before=None):
    """stored state written on the path before its end"""
    for e in p.ev:
        if e.n in ('set_current_value', 'SetVariableValues') or e.n == 'SetPathVariable' and e.obj is not None and e.obj != ('this',): return f'{e.n} at line {e.line}'
    for k, v in p.st.env.items():
        if k[0] == 'f' and isinstance(k[1], str) and k[1].split('.')[0].split('<')[0] in STORED and before.get(k) != v: return k[1].split('.')[0]
    return None
def short(t): return 'multiprecision' if 'multiprecision' in t or 'number<' in t else 'double'
def label(f): return f"{f['cls'].split('::')[-1].split('<')[0]}::{f['n']}/{len(f['params'])} {short(f['params'][0]['t'] if f['params'] else f.get('ret') or '')}"
def isout(p): 
    t = p['t'].strip()
    return t.endswith('&') and not t.startswith('const ')
def ismat(t): return t.replace('const ', '').replace(' ', '').rstrip('&').endswith('-1,-1>')
def isvec(t):
    t = t.replace('const ', '').strip()
    return t.startswith(('Eigen::Matrix<', 'Eigen::MatrixBase<'))
def judge(R, rid, f, F, P, cases, inst):
    """cases: (description, arguments, has path variable, must be refused, or None: only if refused nothing may be stored)"""
    R.fn(f)
    bad = why = None
    for what, args, tv, refuse in cases:
        d = mk(F, P, tv, f); env = {('f', 'have_path_variable_'): ('bool', tv), ('f', 'implicit_parameters_'): vec(NV, 'p')}
        try: ps = d.run(f, list(args), st=St(env=dict(env)))
        except Undecided as e: why = why or f'{what}: {e}'; continue
        except RecursionError: why = why or f'{what}: too deep'; continue
        if not ps: why = why or f'{what}: no path'; continue
        if refuse:
            for p in ps:
                if p.kind != 'throw': bad = bad or (f'{what}: it is not refused', p); break
                w = written(p, env)
                if w: bad = bad or (f'{what}: it is refused only after stored values were changed ({w})', p); break
        elif all(p.kind == 'throw' for p in ps): bad = bad or (f'{what}: it is refused', ps[0])
        if bad: break
    if bad: R.bad(rid, inst, F.loc(f), bad[0], getattr(bad[1], 'trace', None) or [])
    elif why: R.skip(rid, inst, why)
    else: R.ok(rid, inst)
def defs(F, q):
    return [f for f in F.fn(q) if f.get('body') and not any('type-parameter' in p['t'] for p in f['params'])]
def check(F, P, R):
    T = ('sym', 't')
    R.rule('point', 'a point of the wrong length, a value for a path variable the system does not have, or none for the one it has, is refused by every way of evaluating, differentiating or setting values, before a stored value changes; good ones are accepted', 20)
    R.rule('destination', 'a destination of the wrong size is refused by every in-place evaluation at the stored values', 6)
    for q in ('Eval', 'EvalInPlace', 'Jacobian', 'JacobianInPlace', 'TimeDerivative', 'TimeDerivativeInPlace', 'SetVariables', 'SetPathVariable', 'SetAndReset', 'SetImplicitParameters', 'DehomogenizePoint'):
        for f in defs(F, SY + q):
            ps = f['params']
            out = [i for i, p in enumerate(ps) if isout(p) and isvec(p['t'])]
            pts = [i for i, p in enumerate(ps) if i not in out and isvec(p['t'])]
            tim = [i for i, p in enumerate(ps) if i not in out and i not in pts]
            if len(out) > 1 or len(pts) > 1 or len(tim) > 1: R.skip('point', label(f), 'other parameters'); continue
            def args(n, r=NT, c=NV):
                a = []
                for i, p in enumerate(ps): a.append((mat(r, c) if 'Jacobian' in q else vec(r, 'o')) if i in out else vec(n) if i in pts else T)
                return a
            cases = []
            timed = bool(tim)
            wants = None if q in ('SetVariables', 'SetImplicitParameters', 'DehomogenizePoint') or q == 'SetAndReset' and not timed else True if timed or q.startswith('TimeDerivative') else False
            if pts or tim:
                for n in ((NV - 1, NV, NV + 1, 0) if pts else (NV,)):
                    for tv in (False, True):
                        badt = wants is not None and tv != wants
                        cases.append((('a point of %d coordinates for %d' % (n, NV) if pts else 'a time') + (', with a value of the path variable' if timed and pts else '') + (', for a system with a path variable' if tv else ', for a system without path variable'), args(n), tv, n != NV or badt))
                judge(R, 'point', f, F, P, cases, label(f))
            elif out:
                wt = True if q.startswith('TimeDerivative') else None
                for r in (NT - 1, NT, NT + 1, 0):
                    for c in ((NV, NV - 1, NV + 1) if 'Jacobian' in q and r else (NV,)):
                        for tv in ((False, True) if wt else (True,)):
                            ok = r == NT and c == NV and (wt is None or tv == wt)
                            cases.append((f'a destination for {r} values' if 'Jacobian' not in q else f'a destination of {r} rows and {c} columns', args(0, r, c), tv, not ok))
                        if 'Jacobian' in q and not c: continue
                judge(R, 'destination', f, F, P, cases, label(f))
            elif q == 'TimeDerivative':
                judge(R, 'point', f, F, P, [('a system without path variable', [], False, True), ('a system with path variable', [], True, False)], label(f) + ' of the stored point')
    R.rule('patch', 'a point of the wrong length is refused by every way of rescaling to the patch, before it is rescaled', 2)
    for q in (SY + 'RescalePointToFitPatch', SY + 'RescalePointToFitPatchInPlace', 'bertini::Patch::RescalePoint', 'bertini::Patch::RescalePointToFitInPlace'):
        for f in defs(F, q):
            if len(f['params']) != 1: continue
            rescale(R, f, F, P)
    R.rule('track', 'a start point of the wrong length is refused by every tracker before tracking starts', 2)
    for f in F.fns.values():
        if f['n'] != 'TrackPath' or not f.get('body') or not f['cls'].startswith('bertini::tracking::') or any('type-parameter' in p['t'] for p in f['params']) or len(f['params']) != 4: continue
        if isout(f['params'][0]) and isvec(f['params'][3]['t']): track(R, f, F, P)
def rescale(R, f, F, P):
    R.fn(f); bad = why = None
    for n in (NV - 1, NV + 1, 0, NV):
        d = mk(F, P, True, f)
        env = {('f', 'variable_group_sizes_'): ('list', ('int', NV))}
        try: ps = d.run(f, [vec(n)], st=St(env=dict(env)))
        except Undecided as e: why = why or str(e); continue
        if n == NV: continue
        for p in ps: # a failed assertion leaves no path
            if p.kind == 'throw': continue
            if 'System' in f['cls'] and any('Rescale' in e.n and e.obj is not None and 'patch_' in str(e.obj) for e in p.ev): continue # the patch decides
            bad = bad or (f'a point of {n} coordinates for {NV}: it is rescaled', p)
    if bad: R.bad('patch', label(f), F.loc(f), bad[0], [])
    elif why: R.skip('patch', label(f), why)
    else: R.ok('patch', label(f))
def track(R, f, F, P):
    R.fn(f); bad = why = None
    inst = f['clst'] if f.get('clst') else f['cls']
    for n in (NV - 1, NV + 1, 0, NV):
        d = mk(F, P, True, f); d.opaque |= {'TrackerLoopInitialization', 'PreIterationCheck', 'TrackerIteration', 'PostTrackCleanup', 'NotifyObservers', 'CopyFinalSolution', 'IsSymmRelDiffSmall', 'GetSystem'}
        try: ps = d.run(f, [('sym', 'out'), ('sym', 't0'), ('sym', 't1'), vec(n)], st=St())
        except Undecided as e: why = why or str(e); continue
        for p in ps:
            if n == NV: continue
            if p.kind != 'throw': bad = bad or (f'a start point of {n} coordinates for {NV} variables is tracked', p); break
            done = [e.n for e in p.ev if e.n in ('TrackerLoopInitialization', 'NotifyObservers', 'PreIterationCheck', 'TrackerIteration')]
            w = [k[1] for k in p.st.env if k[0] == 'f' and isinstance(k[1], str) and not k[1].startswith('$')]
            if done or w: bad = bad or (f'a start point of {n} coordinates is refused only after {(done + w)[0]}', p); break
        if n == NV and ps and all(p.kind == 'throw' for p in ps): bad = bad or ('a start point of the right length is refused', ps[0])
    if bad: R.bad('track', inst[:80], F.loc(f), bad[0], [])
    elif why: R.skip('track', inst[:80], why)
    else: R.ok('track', inst[:80])
