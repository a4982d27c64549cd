"""C01: no derivative, program or ordering built before an edit of a System is used after it."""
from ir import *
GROUPS = ['core/system/system.cpp', 'systems']
TECHNIQUE = 'typestate analysis (property simulation) of every public System operation over an inlined control-flow graph'
FUNCTIONAL = {'functions_', 'subfunctions_', 'explicit_parameters_', 'implicit_parameters_', 'constant_subfunctions_', 'path_variable_',
              'have_path_variable_', 'variable_groups_', 'hom_variable_groups_', 'ungrouped_variables_', 'homogenizing_variables_',
              'time_order_of_variable_groups_', 'eval_method_', 'deriv_method_'}
VARS = {'variable_groups_', 'hom_variable_groups_', 'ungrouped_variables_', 'homogenizing_variables_', 'time_order_of_variable_groups_'}
GROUPED = {'variable_groups_', 'hom_variable_groups_'}
DERIVED = {'jacobian_', 'space_derivatives_', 'time_derivatives_', 'slp_'}
FLAGS = {'is_differentiated_', 'have_ordering_', 'is_patched_', 'variable_ordering_', 'patch_'}
ALL = FUNCTIONAL | DERIVED | FLAGS
NEUTRAL = {'Reset', 'precision', 'Precision', 'name', 'size', 'begin', 'end', 'cbegin', 'cend', 'empty', 'reserve', 'resize', 'clear', 'push_back', 'get', 'operator bool'}
SKIP = {'serialize', 'save', 'load'}

def key_of(f):
    return f"{f['q']}({', '.join(short(p['t']) for p in f['params'])})"
def short(t):
    t = t.replace('boost::multiprecision::number<boost::multiprecision::backends::mpc_complex_backend<0>>', 'mpfr_complex').replace('std::complex<double>', 'dbl')
    t = t.replace('bertini::', '').replace('std::', '')
    return t if len(t) < 90 else t[:87] + '...'

def check(F, P, R):
    R.rule('R1', 'after a write to a function, variable or method member of System every normal exit of the public operation leaves is_differentiated_ false, or the derivatives were recomputed after the write', 20)
    R.rule('R2', 'after a write to the variable structure every normal exit leaves have_ordering_ false, or the ordering reconstructed after the write', 5)
    R.rule('R3', 'after a change of the variable groups every normal exit leaves is_patched_ false, or a patch set after the change', 3)
    R.rule('R4', 'derivatives and the compiled program are used for a result only where is_differentiated_ was tested true, or after differentiating', 4)
    R.rule('R5', 'is_differentiated_ becomes true only when everything the selected differentiation method uses was computed', 1)
    R.rule('R6', 'the cached variable ordering is read only where have_ordering_ was tested true or after constructing it', 1)
    C = F.need_cls('bertini::System')
    rel = P.relevant(lambda n: n['k'] == 'mem' and n['n'] in ALL and (n.get('q') or '').startswith('bertini::System::'))
    ids = {f['id'] for f in F.fns.values() if f.get('cls') == 'bertini::System' and not f['pattern']}
    inline = lambda c, e, fr: c['id'] in rel and (c.get('cls') == 'bertini::System' or c['kind'] == 'func')
    pub = [f for f in F.fns.values() if f.get('cls') == 'bertini::System' and not f['pattern'] and f['access'] == 'public' and f.get('body')
           and f['kind'] == 'method' and not f.get('copyassign') and not f.get('moveassign') and f['n'] not in SKIP]
    seen_keys = set()
    for f in pub:
        R.fn(f)
        if f['id'] not in rel: continue
        analyse(F, P, R, f, C, inline)

def analyse(F, P, R, f, C, inline):
    cfg = CFG(P, f, dyn=C['id'], inline=inline)
    k = key_of(f)
    ev = {'w': {}, 'vw': {}, 'gw': {}, 'use': {}, 'oread': {}}
    # state: (dirty derivs, diff flag, dirty order, order flag, dirty patch, patched-after, groups computed since entry)
    def step(st, n, lab, sim):
        dd, df, do, of, dp, pf, comp, m = st
        if n.kind == 'branch':
            t = sim.term(n.expr)
            neg = False
            while t[0] == 'op' and t[1] == '!': t = t[2]; neg = not neg
            if t == ('field', ('this',), 'is_differentiated_'):
                val = lab != neg
                if df == '?' or df == 'D?': df = 'T' if val else 'F'
            if t == ('field', ('this',), 'have_ordering_'):
                if of == '?': of = 'T' if (lab != neg) else 'F'
            return [(dd, df, do, of, dp, pf, comp, m)]
        if n.kind not in ('act', 'init', 'rbind', 'iter', 'decl', 'ret'): return [st]
        if n.kind == 'act':
            e = n.expr
            ts = sim.wtargets(n)
            nm = e.get('n') or ''
            if e['k'] == 'call' and e.get('o') and (nm in ('SetRoot', 'Homogenize') or (not e.get('cm') and P.callee(e) and 'entry_node_' in P.writes(P.callee(e)))):
                ts.append(sim.term(e['o']))
            if e['k'] == 'call' and nm.startswith('Simplify'): ts = [t for t in ts if this_field(t) not in FUNCTIONAL]
            for t in ts:
                if root_this(t) is None: continue
                fld = this_field(t)
                if fld in FUNCTIONAL and not noop_write(e, sim, t):
                    dd = True; ev['w'].setdefault(fld, n.where())
                    if df == 'F0': df = 'F0'
                if fld in VARS: do = True; ev['vw'].setdefault(fld, n.where())
                if fld in GROUPED: dp = True; ev['gw'].setdefault(fld, n.where())
                if fld in DERIVED and nm not in ('Reset',):
                    comp = comp | {fld}
                if fld == 'variable_ordering_': comp = comp | {fld}
                if fld == 'patch_': comp = comp | {fld}
                if fld == 'is_differentiated_' and t == ('field', ('this',), fld):
                    v = sim.value(e['a'][1]) if e['k'] in ('bin', 'op') and e['op'] == '=' else None
                    if v == ('bool', False): df = 'F0'
                    elif v == ('bool', True):
                        # which fields does the selected method use?
                        df = 'T0'
                        dd = False
                        m = (sim.F.val(('field', ('this',), 'deriv_method_')), sim.F.val(('field', ('this',), 'eval_method_')))
                    else: df = 'F0'      # copied from elsewhere together with the derivatives: judged by C03
                if fld == 'have_ordering_' and t == ('field', ('this',), fld):
                    v = sim.value(e['a'][1]) if e['k'] in ('bin', 'op') and e['op'] == '=' else None
                    if v == ('bool', False): of = 'F0'
                    elif v == ('bool', True):
                        of = 'T0'
                        if 'variable_ordering_' in comp: do = False
                    else: of = 'X'; do = False
                if fld == 'is_patched_' and t == ('field', ('this',), fld):
                    v = sim.value(e['a'][1]) if e['k'] in ('bin', 'op') and e['op'] == '=' else None
                    if v == ('bool', False): pf = 'F0'
                    else: pf = 'X'; dp = dp and 'patch_' not in comp
            # uses for a result
            if e['k'] == 'call' and e.get('o'):
                o = sim.term(e['o']); fld = this_field(o)
                if fld in DERIVED and nm not in NEUTRAL and root_this(o):
                    g = n.fr.fn
                    ev['use'].setdefault((fld, nm), n.where())
                    em = sim.F.val(('field', ('this',), 'eval_method_'))
                    if em and (fld == 'slp_') != em[1].endswith('::SLP'):
                        R.bad('R4', f'{g["q"]}/{len(g["params"])}:{fld}.{nm}:other-method', n.where(), f'{fld} is used through {nm} on a path where the selected evaluation method is {em[1].split("::")[-1]}', sim.path_lines())
                    if df not in ('T', 'T0'):
                        R.bad('R4', f'{g["q"]}/{len(g["params"])}:{fld}.{nm}', n.where(), f'{fld} is used through {nm} on a path where is_differentiated_ is not known to be true', sim.path_lines())
        if n.kind == 'ret' and n.expr is not None:
            t = sim.P.term(n.expr, n.fr); fld = this_field(t)
            if fld == 'variable_ordering_':
                ev['oread'].setdefault(fld, n.where())
                if of not in ('T', 'T0'):
                    R.bad('R6', f'{k}:variable_ordering_', n.where(), 'the cached ordering is returned on a path where have_ordering_ is not known to be true', sim.path_lines())
        return [(dd, df, do, of, dp, pf, comp, m)]
    def on_exit(st, n, sim):
        if n.kind != 'exit': return
        dd, df, do, of, dp, pf, comp, m = st
        if dd and df not in ('F0', 'F'):
            R.bad('R1', f'{k}:stale-derivatives', f"{f['file']}:{f['line']}", f'{f["q"]} changes {", ".join(sorted(ev["w"]))} ({", ".join(sorted(set(ev["w"].values())))}) but can return with is_differentiated_ still set', sim.path_lines())
        if do and of not in ('F', 'F0'): R.bad('R2', f'{k}:stale-ordering', f"{f['file']}:{f['line']}", f'{f["q"]} changes {", ".join(sorted(ev["vw"]))} but can return with the old variable ordering still current', sim.path_lines())
        if dp and pf != 'F0': R.bad('R3', f'{k}:stale-patch', f"{f['file']}:{f['line']}", f'{f["q"]} changes {", ".join(sorted(ev["gw"]))} but can return with the old patch still in use', sim.path_lines())
        if df == 'T0':
            dm = m[0]
            want = {'JacobianNode': {'jacobian_'}, 'Derivatives': {'space_derivatives_'}}
            nm = dm[1].split('::')[-1] if dm else None
            alts = [want[nm]] if nm in want else list(want.values())
            if nm in want and not want[nm] <= comp or (nm is None and not any(a <= comp for a in alts)):
                R.bad('R5', f'{k}:marked-differentiated', f"{f['file']}:{f['line']}", f'{f["q"]} can return with is_differentiated_ set although the members used by method {nm} were not computed', sim.path_lines())
            em = m[1] or sim.F.val(('field', ('this',), 'eval_method_'))
            if em and em[1].endswith('SLP') and 'slp_' not in comp:
                R.bad('R5', f'{k}:marked-compiled', f"{f['file']}:{f['line']}", f'{f["q"]} can return with is_differentiated_ set although the straight-line program was not compiled', sim.path_lines())
    nb = len(R.viol)
    S = Sim(cfg, step, (False, '?', False, '?', False, '?', frozenset(), None), on_exit)
    bad = {v['rule'] for v in R.viol[nb:]}
    for r, e in (('R1', 'w'), ('R2', 'vw'), ('R3', 'gw'), ('R4', 'use'), ('R6', 'oread')):
        if ev[e] and r not in bad: R.ok(r, f'{k}: {", ".join(map(str, sorted(ev[e])))}')
    if any(True for key in S.seen if key[0] == cfg.exit.id and key[1][1] == 'T0') and 'R5' not in bad: R.ok('R5', k)

def root_this(t):
    t2 = t
    while isinstance(t2, tuple):
        if t2 == ('this',): return True
        if t2[0] == 'field': t2 = t2[1]
        elif t2[0] == 'get': t2 = t2[2]
        elif t2[0] == 'op' and t2[1] in ('[]', '()'): t2 = t2[2]
        elif t2[0] in ('elem', 'iter'): t2 = t2[1]
        elif t2[0] == 'call' and t2[2] is not None: t2 = t2[2]
        else: return None
    return None
def noop_write(e, sim, t): return False
