"""C13: each configuration keyword sets exactly the option it names."""
import itertools
from denote import *
from denote import _H
import grammar
from grammar import Grammar, NONE, UNUSED
GROUPS = ['parsing']
TECHNIQUE = 'the parsing expression grammar of every settings parser is extracted from its type-checked expression templates, with Qi semantics for skippers, attributes and actions, and its meaning decided for each keyword alone, in every order with every other keyword of all parsers, in any case and spacing, with good and bad values'
NOTE = 'number conversion itself (string to double, rational, complex) is taken as the identity; texts are bounded: every pair of keywords, and all keywords of a parser together.'

R_, U_, I_, B_, N_ = 'real', 'uint', 'int', 'bool', 'name'
KEYS = {
 'SteppingConfig': {'MaxStepSize': ('max_step_size', R_), 'StepSuccessFactor': ('step_size_success_factor', R_), 'StepFailFactor': ('step_size_fail_factor', R_),
                    'StepsForIncrease': ('consecutive_successful_steps_before_stepsize_increase', U_), 'MaxNumberSteps': ('max_num_steps', U_)},
 'NewtonConfig': {'MaxNewtonIts': ('max_num_newton_iterations', U_)},
 'FixedPrecisionConfig': {},
 'AdaptiveMultiplePrecisionConfig': {'CoefficientBound': ('coefficient_bound', R_), 'DegreeBound': ('degree_bound', R_), 'Epsilon': ('epsilon', R_), 'Phi': ('Phi', R_), 'Psi': ('Psi', R_),
                    'AMPSafetyDigits1': ('safety_digits_1', I_), 'AMPSafetyDigits2': ('safety_digits_2', I_), 'AMPMaxPrec': ('maximum_precision', U_),
                    'MaxStepsPrecisionDecrease': ('consecutive_successful_steps_before_precision_decrease', U_), 'MaxNumPrecDecreases': ('max_num_precision_decreases', U_)},
 'SecurityConfig': {'SecurityLevel': ('level', I_), 'SecurityMaxNorm': ('max_norm', R_)},
 'EndgameConfig': {'SampleFactor': ('sample_factor', R_), 'NumSamplePoints': ('num_sample_points', U_), 'NbhdRadius': ('min_track_time', R_)},
 'PowerSeriesConfig': {'MaxCycleNum': ('max_cycle_number', U_)},
 'CauchyConfig': {'CycleTimeCutoff': ('cycle_cutoff_time', R_), 'RatioTimeCutoff': ('ratio_cutoff_time', R_)},
 'TrackBackConfig': {'MinCycleTrackback': ('minimum_cycle', U_), 'JunkRemovalTrackback': ('junk_removal_test', B_), 'MaxLDTDepth': ('max_depth_LDT', U_)},
 'TolerancesConfig': {'TrackTolBeforeEG': ('newton_before_endgame', R_), 'TrackTolDuringEG': ('newton_during_endgame', R_), 'FinalTol': ('final_tolerance', R_), 'PathTruncationThreshold': ('path_truncation_threshold', R_)},
 'ZeroDimConfig': {'InitialPrec': ('initial_ambient_precision', I_), 'MaxCrossedPathResolves': ('max_num_crossed_path_resolve_attempts', I_), 'StartTime': ('start_time', R_), 'EndgameBdry': ('endgame_boundary', R_),
                    'TargetTime': ('target_time', R_), 'PathVarName': ('path_variable_name', N_)},
 'MidPathConfig': {'MidpathTol': ('same_point_tolerance', R_)},
 'AutoRetrackConfig': {'RetrackTolFactor': ('midpath_decrease_tolerance_factor', R_)},
 'SharpeningConfig': {'SharpenDigits': ('sharpendigits', U_), 'FunctionTolerance': ('function_residual_tolerance', R_), 'RatioTolerance': ('ratio_tolerance', R_)},
 'RegenerationConfig': {'RegenRemoveInf': ('remove_infinite_endpoints', B_), 'SliceTolBeforeEG': ('newton_before_endgame', R_), 'SliceTolDuringEG': ('newton_during_endgame', R_), 'SliceFinalTol': ('final_tolerance', R_),
                    'RegenHigherDimTest': ('higher_dimension_check', B_), 'RegenStartLevel': ('start_level', I_)},
 'PostProcessingConfig': {'ImagThreshold': ('real_threshold', R_), 'EndpointFiniteThreshold': ('endpoint_finite_threshold', R_), 'EndpointSameThreshold': ('same_point_tolerance', R_)},
}
ENUMS = {
 'PrecisionType': ('MPType', 'Adaptive', {'0': 'Fixed', '1': 'Adaptive', '2': 'Adaptive'}),
 'Predictor': ('ODEPredictor', 'RKF45', {'-1': 'Constant', '0': 'Euler', '1': 'Heun', '2': 'RK4', '3': 'HeunEuler', '4': 'RKNorsett34', '5': 'RKF45', '6': 'RKCashKarp45', '7': 'RKDormandPrince56', '8': 'RKVerner67'}),
 'AlgoChoice': ('TrackType', 'ZeroDim', {'-4': 'EvalFunctions', '-3': 'EvalFunctionJacobian', '-2': 'NewtonIteration', '-1': 'NewtonIterationCondNum', '0': 'ZeroDim', '1': 'NID', '2': 'SampleComponent', '3': 'MembershipTest',
                 '4': 'ExtractWitnessSet', '5': 'WitnessSetProjection', '6': 'IsosingularStab'}),
}
VALUES = {R_: ['0.125', '3', '1e-5', '2.5E3', '.5', '7.', '-1.5', '1e7', '-3e-2'], U_: ['7', '120'], I_: ['4', '-3'], B_: ['1', '0'], N_: ['s', 'tau_1']}

def plain(v):
    while isinstance(v, tuple) and v[0] in ('conv', 'str', 'tobool'): v = v[1]
    return v
def samevalue(v, text, kind):
    tb = isinstance(v, tuple) and v[0] == 'tobool'
    v = plain(v)
    if not isinstance(v, str): return False
    if kind == N_: return v == text
    try: return (float(v) == float(text)) if not tb or kind == B_ else False
    except ValueError: return False

def find(F, name):
    import re
    for f in F.fns.values():
        if f['kind'] == 'ctor' and not f['pattern'] and f.get('body') and f['cls'] == 'bertini::parsing::classic::ConfigSettingParser' and re.search(rf'@{name}\b', f['clsid']): return f

def texts_of(kw): return [kw, kw.lower(), kw.upper()]

class FillDen(Den):
    """phrase_parse consumes an unknown part of the text and succeeds or not"""
    def call(self, e):
        if e.get('n') == 'phrase_parse' or e.get('n') == 'parse' and (e.get('f') or '').startswith('boost'):
            A = e['a']
            l = self.lval(A[0]); it = self.val(A[0])
            end = self.val(A[1])
            if it[0] != 'it' or end[0] != 'it': raise Undecided('range given to the parser')
            self.write(l, ('it', it[1], ('sym', 'pos')))
            self.ends.append((it, end))
            if len(A) > 4 and 'postskip' not in str(A[4]) and 'skip_flag' not in (A[4].get('t') or ''): self.write(self.lval(A[4]), ('sym', 'filled'))
            return ('sym', 'ok')
        if (e.get('f') or '').startswith('boost') : return ('none',)
        if e.get('n') == 'swap' and any(x['k'] == 'this' for a in e['a'] for x in walk(a)): return ('none',)
        return super().call(e)
    def ctor(self, e):
        t = e.get('t') or ''
        if '__normal_iterator' in t and e['a']: return self.val(e['a'][0])
        if not e['a'] and ('Config' in t or 'System' in t or 'parsing' in t or 'shared_ptr' in t): return ('sym', 'default')
        if 'parsing' in t: return ('sym', 'parser')
        if 'runtime_error' in t: return ('none',)
        return super().ctor(e)
    def vardecl(self, v):
        if v['k'] == 'var' and (v.get('init') is None or v['init']['k'] == 'ctor' and 'parsing' in (v['init'].get('t') or '')) :
            self.st.env[('v', self.frame, v['id'])] = ('sym', 'parser' if 'arser' in v['t'] else 'default'); return
        return super().vardecl(v)
    def read(self, loc):
        if loc[0] == 'f' and loc not in self.st.env: return ('sym', loc[1])
        return super().read(loc)

class FillM(Model):
    def sym(self, n):
        c = self.choose
        if n == 'ok': return c['ok']
        if n == 'pos': return 3 if c['all'] else 1
        return n
    def size(self, n): return 3
    def element(self, c, i): return (c, i)

def accept_rule(F, P, R, rid, key, fn, args, good):
    """the function must go on only if the parser matched and consumed everything"""
    d = FillDen(F, P); d.ends = []
    try:
        ps = d.function(fn, args)
        for it, end in d.ends:
            if it[2] != ('int', 0) or end[1] != it[1] or end[2] != d.size(end[1]): pass
        if not d.ends: raise Undecided('no parser call')
        for ok in (True, False):
            for al in (True, False):
                M = FillM(0, 1, None, choose={'ok': ok, 'all': al})
                p = M.pick(ps)
                msg = good(d, M, p, ok and al)
                if msg: return R.bad(rid, key, F.loc(fn), msg + f" (parser {'matched' if ok else 'did not match'}, {'all' if al else 'part'} of the text consumed)", ['when the parse ends so, this function takes the wrong exit'])
        R.ok(rid, key)
    except (Undecided, NoPath, Crash, KeyError) as x: R.skip(rid, key, str(x)[:80])

def check(F, P, R):
    R.rule('keyword', 'a keyword sets its option, to the value given, and no other, whatever surrounds it', 20)
    R.rule('enumerated', 'each number of an enumerated keyword selects the alternative documented for it, and the documented default otherwise', 10)
    R.rule('refuse', 'a setting whose value cannot be read is refused', 5)
    R.rule('fill', 'a configuration is filled only from a text that was parsed completely', 1)
    G = Grammar(F, P)
    allkw = {k: v[1] for c in KEYS.values() for k, v in c.items()}
    for k, _, _ in ENUMS.values(): allkw[k] = I_
    sample = lambda kind, i=0: VALUES[kind][i % len(VALUES[kind])]
    for cfg, keys in KEYS.items():
        fn = find(F, cfg)
        if fn is None: R.skip('keyword', cfg, 'no parser'); continue
        R.fn(fn)
        try: S = G.scope(fn)
        except Undecided as x: R.skip('keyword', cfg, str(x)); continue
        foreign = [k for k in allkw if k not in keys]
        def run(text, expect, empty_ok=False):
            """None if the text means what is expected, else a message"""
            ok, rest, v, _ = G.parse(S, text)
            if not ok or rest.strip(): return f'is refused' + (f' at "{rest.strip()[:30]}"' if rest.strip() and rest != text else '')
            if not isinstance(v, dict): v = {} if v in (None, '') else {'?': v}
            for fld, (t, kind) in expect.items():
                if fld not in v: return f'does not set {fld}'
                if not samevalue(v[fld], t, kind): return f'sets {fld} to {str(plain(v[fld]))[:40]!r}, not to {t!r}'
            for fld in v:
                if fld not in expect: return f'sets {fld} as well'
        def attempt(rid, key, cases):
            try:
                for text, exp in cases:
                    m = run(text, exp)
                    if m: return R.bad(rid, key, F.loc(fn), f'"{text.strip()[:110]}" {m}', ['grammar of ' + cfg])
                R.ok(rid, key)
            except Undecided as x: R.skip(rid, key, str(x))
        for kw, (fld, kind) in keys.items():
            cases = []
            for v in VALUES[kind]: cases.append((f'{kw}: {v};', {fld: (v, kind)}))
            v = sample(kind)
            for w in texts_of(kw): cases += [(f'{w}:{v};', {fld: (v, kind)}), (f'\n {w} : {v} ;\n', {fld: (v, kind)})]
            for o in keys:
                if o == kw: continue
                of, ok_ = keys[o]; ov = sample(ok_, 1)
                cases.append((f'{kw}: {v}; {o}: {ov};', {fld: (v, kind), of: (ov, ok_)}))
            for o in foreign:
                ov = sample(allkw[o], 1)
                cases.append((f'{o}: {ov};\n{kw}: {v};\n', {fld: (v, kind)}))
                cases.append((f'{kw}: {v};\n{o}: {ov};\n', {fld: (v, kind)}))
            attempt('keyword', f'{cfg}:{kw}', cases)
            bad = None
            try:
                for t in (f'{kw}: ;', f'{kw}: !;', f'{kw}: {v}'):
                    ok, rest, val, _ = G.parse(S, t)
                    if ok and not rest.strip(): bad = t
                if bad: R.bad('refuse', f'{cfg}:{kw}', F.loc(fn), f'"{bad}" is accepted though it gives no readable value', ['grammar of ' + cfg])
                else: R.ok('refuse', f'{cfg}:{kw}')
            except Undecided as x: R.skip('refuse', f'{cfg}:{kw}', str(x))
        # all of them together, and none of them
        exp = {f: (sample(k, i), k) for i, (f, k) in enumerate(keys.values())}
        full = [f'{kw}: {exp[f][0]};' for kw, (f, k) in keys.items()]
        cases = [('', {}), ('\n', {}), ('\n'.join(full), exp), ('\n'.join(reversed(full)), exp)]
        n = len(full)
        for i in range(1, n): cases.append((' '.join(full[i:] + full[:i]), exp))
        fr = [f'{o}: {sample(allkw[o], 1)};' for o in foreign]
        cases.append((' '.join(fr), {}))
        cases.append(('\n'.join(fr[:len(fr) // 2] + full + fr[len(fr) // 2:]), exp))
        attempt('keyword', f'{cfg}:together', cases)
    for en, (kw, dflt, tab) in ENUMS.items():
        fn = find(F, en)
        if fn is None: R.skip('enumerated', en, 'no parser'); continue
        R.fn(fn)
        try: S = G.scope(fn)
        except Undecided as x: R.skip('enumerated', en, str(x)); continue
        def meaning(text):
            ok, rest, v, _ = G.parse(S, text)
            if not ok or rest.strip(): return None
            return v[1].split('::')[-1] if isinstance(v, tuple) and v[0] == 'enum' else str(v)
        foreign = [k for k in allkw if k != kw]
        try:
            for v, want in tab.items():
                texts = [f'{kw}: {v};', f'{kw.upper()}:{v} ;', f' {kw.lower()} : {v};'] + [f'{o}: {sample(allkw[o])}; {kw}: {v};' for o in foreign] + [f'{kw}: {v}; {o}: {sample(allkw[o])};' for o in foreign]
                bad = next((t for t in texts if meaning(t) != want), None)
                if bad: R.bad('enumerated', f'{en}:{v}', F.loc(fn), f'"{bad}" selects {meaning(bad) or "nothing: it is refused"}, documented is {want}', ['grammar of ' + en])
                else: R.ok('enumerated', f'{en}:{v}')
            for t in ['', 'Foo: 3;'] + [f'{o}: {sample(allkw[o])};' for o in foreign]:
                if meaning(t) != dflt: R.bad('enumerated', f'{en}:default', F.loc(fn), f'"{t}" selects {meaning(t)}, the default is {dflt}', ['grammar of ' + en]); break
            else: R.ok('enumerated', f'{en}:default')
            bad = next((t for t in (f'{kw}: 99;', f'{kw}: ;', f'{kw}: x;') if meaning(t) is not None), None)
            if bad: R.bad('refuse', f'{en}:{kw}', F.loc(fn), f'"{bad}" is accepted', ['grammar of ' + en])
            else: R.ok('refuse', f'{en}:{kw}')
        except Undecided as x: R.skip('enumerated', en, str(x))
    fills = [f for f in F.fn('bertini::parsing::classic::FillConfigStruct')]
    if not fills: R.skip('fill', 'FillConfigStruct', 'not found')
    for f in fills[:4]:
        def good(d, M, p, acc):
            if acc and p.kind == 'throw': return 'a completely parsed configuration is refused'
            if not acc and p.kind != 'throw': return 'a configuration that was not parsed completely is accepted'
            if acc and d.final(p, p.ret) != ('sym', 'filled'): return 'the configuration returned is not the one parsed'
        accept_rule(F, P, R, 'fill', 'FillConfigStruct<' + (f.get('ta') or ['?'])[0].split('::')[-1] + '>', f, [('list', ('int', 1), ('int', 2), ('int', 3))], good)
    R.extra = f'{G.nrules} grammar rules and {G.nact} semantic actions'
