"""C02: evaluating at new values never returns results cached from earlier values, numeric types or precisions."""
from ir import *
GROUPS = ['core/system/system.cpp', 'core/system/straight_line_program.cpp', 'core/function_tree', 'systems']
TECHNIQUE = 'typestate analysis of set / reset / evaluate on inlined control-flow graphs, and child-coverage of every Reset override'
TREES = {'functions_', 'jacobian_', 'space_derivatives_', 'time_derivatives_'}
EVALS = {'Eval', 'EvalInPlace', 'EvalJ', 'EvalJInPlace'}
SETS = {'set_current_value'}

# hom_variable_ only ever holds a Variable or an Integer, whose value does not come from a cache that Reset clears
EXEMPT = {('bertini::node::LinearProduct', 'hom_variable_')}

def sig(f): return f"{f['q']}/{len(f['params'])}"
def tyshort(f):
    s = ' '.join(p['t'] for p in f['params']) + ' '.join(map(str, f.get('ta') or []))
    return 'mp' if 'mpc_complex' in s else 'dbl' if 'std::complex<double>' in s else ''

def check(F, P, R):
    R.rule('R1', 'in every System operation that takes values, the tree that is evaluated was reset after the last value was set', 6)
    R.rule('R2', 'Reset of a node clears its own cached values of every numeric type and resets every child its evaluation reads', 10)
    R.rule('R3', 'a node returns its cached value only where the flag of that numeric type is known true, or after a fresh evaluation; a Jacobian node also only for the same differentiation variable', 2)
    R.rule('R4', 'a straight-line program that was given inputs, or whose precision changed, is marked as not evaluated, for the numeric type concerned', 3)
    R.rule('R5', 'outputs of a straight-line program are read only where the flag of that numeric type is true or after evaluating; the flag becomes true only after the instructions ran', 3)
    R.rule('R6', 'setting values reaches every variable, the copy kept for the patch, and the program when that is the evaluation method; loops over inputs and outputs of a program leave none out', 4)
    setters(F, P, R)
    system(F, P, R); resets(F, P, R); cached(F, P, R); slp(F, P, R)

# ------------------------------------------------------------------ R1
def system(F, P, R):
    C = F.need_cls('bertini::System')
    fld = TREES | {'slp_', 'current_variable_values_', 'path_variable_'}
    rel = P.relevant(lambda n: n['k'] == 'mem' and n['n'] in fld and (n.get('q') or '').startswith('bertini::System::'))
    stop = {'Differentiate', 'ConstructOrdering'}
    inline = lambda c, e, fr: c['id'] in rel and c.get('cls') == 'bertini::System' and c['n'] not in stop
    for f in F.fns.values():
        if f.get('cls') != 'bertini::System' or f['pattern'] or f['access'] != 'public' or not f.get('body') or f['id'] not in rel or f['kind'] != 'method': continue
        if f['n'] in ('serialize', 'save', 'load'): continue
        R.fn(f)
        cfg = CFG(P, f, dyn=C['id'], inline=inline)
        fa = ForAll({('field', ('this',), c): c for c in TREES})
        hit = {}
        def step(st, n, lab, sim):
            isset, fs = st
            fs = fa.node(fs, n, sim)
            if n.kind == 'act':
                e = n.expr; nm = e.get('n') or ''
                if e['k'] == 'call' and e.get('o'):
                    o = sim.term(e['o']); t = this_field(o)
                    if nm in SETS and t and t != 'implicit_parameters_': isset = True; fs = fa.clear(fs)
                    if t in TREES and nm == 'Reset':
                        for c in fa.conts:
                            if mentions(o, c): fs = fa.event(fs, c)
                    if t in TREES and nm in EVALS and isset:
                        hit.setdefault(t, n.where())
                        if t not in fa.done(fs):
                            R.bad('R1', f'{sig(f)}{tyshort(f)}:{t}', n.where(), f'{f["q"]} evaluates {t} through {nm} after setting values, without a reset of all of {t} in between', sim.path_lines())
                if any(this_field(t) == 'current_variable_values_' for t in sim.wtargets(n)): isset = True; fs = fa.clear(fs)
            return [(isset, fs)]
        nb = len(R.viol)
        Sim(cfg, step, (False, frozenset()))
        if hit and len(R.viol) == nb: R.ok('R1', f'{sig(f)} {tyshort(f)}: {", ".join(sorted(hit))}')

# ------------------------------------------------------------------ R2
def node_classes(F):
    return [c for c in F.derived('bertini::node::Node') if not c.get('abstract')]

def virtual(P, F, c, name, nparams=None):
    """The definition of virtual `name` that class c uses (by walking its bases)."""
    out = []
    for k in [c] + F.bases(c):
        ms = [f for f in F.fns.values() if f.get('clsid') == k['id'] and f['n'] == name and f.get('body') is not None and not f['pattern'] and f['kind'] == 'method']
        if nparams is not None: ms = [f for f in ms if len(f['params']) == nparams]
        if ms: return ms
    return out

def resets(F, P, R):
    for c in node_classes(F):
        kids = {}; own = False
        evs = []
        for nm in ('FreshEval_d', 'FreshEval_mp'): evs += virtual(P, F, c, nm)
        if not evs: R.skip('R2', c['q'], 'no FreshEval definition in the analysed sources'); continue
        for f in evs:
            cfg = CFG(P, f, dyn=c['id'], inline=lambda g, e, fr: bool(g.get('cls')) and g['n'] not in EVALS and g.get('cls', '').startswith('bertini::node'))
            def step(st, n, lab, sim):
                nonlocal own
                if n.kind == 'act' and n.expr['k'] == 'call' and n.expr.get('o') and n.expr.get('n') in EVALS:
                    o = sim.term(n.expr['o']); t = this_field(o)
                    if t and not mentions(o, ('field', ('this',), 'current_value_')): kids.setdefault(t, n.where())
                es = [n.expr] if n.kind in ('act', 'ret', 'branch') and n.expr else []
                for e in es:
                    for m in walk(e):
                        if m['k'] == 'mem' and m['n'] == 'current_value_': own = True
                        if m['k'] == 'ref' and m.get('dk') == 'param' and m['n'] == 'diff_variable' and n.kind == 'branch': own = True
                return [st]
            Sim(cfg, step, ())
        if not kids and not own: R.skip('R2', c['q'], 'its value depends on nothing that can change'); continue
        rs = virtual(P, F, c, 'Reset', 0)
        if not rs: R.bad('R2', f'{c["q"]}:Reset', f"{c['file']}:{c.get('line', 0)}", f'{c["q"]} has no Reset'); continue
        r = rs[0]; R.fn(r)
        cfg = CFG(P, r, dyn=c['id'], inline=lambda g, e, fr: g['n'] in ('ResetStoredValues',) or (g.get('cls', '') or '').startswith('bertini::node') and P.term(e['o'], fr) == fr.this if e['k'] == 'call' and e.get('o') else False)
        fa = ForAll({('field', ('this',), k): k for k in kids})
        exits = []
        def step2(st, n, lab, sim):
            flags, fs = st
            fs = fa.node(fs, n, sim)
            if n.kind == 'act':
                e = n.expr
                if e['k'] in ('bin', 'op') and e['op'] == '=':
                    for t in sim.wtargets(n):
                        ty = flag_type(t)
                        if ty and sim.value(e['a'][1]) == ('bool', False): flags = flags | {ty}
                if e['k'] == 'call' and e.get('n') == 'Reset' and e.get('o'):
                    o = sim.term(e['o'])
                    for cc in fa.conts:
                        if o == cc: fs = fa.event(fs, cc, scalar=True)
                        elif mentions(o, cc): fs = fa.event(fs, cc)
            return [(flags, fs)]
        bads = []
        def on_exit(st, n, sim):
            if n.kind != 'exit': return
            exits.append(1)
            flags, fs = st
            for ty in ('dbl', 'mp'):
                if ty not in flags: bads.append((f'{c["q"]}:Reset:{ty}', f'{c["q"]}::Reset can return without clearing the cached {ty} value', sim.path_lines()))
            for k in set(kids) - fa.done(fs) - {x for (q, x) in EXEMPT if q == c['q']}: bads.append((f'{c["q"]}:Reset:{k}', f'{c["q"]} evaluates {k} ({kids[k]}) but its Reset can return without resetting {k}', sim.path_lines()))
        Sim(cfg, step2, (frozenset(), frozenset()), on_exit)
        if bads:
            for k, m, p in bads: R.bad('R2', k, f"{r['file']}:{r['line']}", m, p)
        else: R.ok('R2', f'{c["q"]}: {", ".join(sorted(kids)) or "own value"}')

def flag_type(t):
    """'dbl'/'mp' for the cached-value flag get<pair<T,bool>>(current_value_).second."""
    if t[0] == 'field' and t[2] == 'second' and t[1][0] == 'get' and this_field(t[1]) == 'current_value_': return ty_of(t[1][1])
    return None
def ty_of(s):
    s = str(s).rstrip('UL')
    return 'mp' if 'mpc_complex' in s or s == '1' else 'dbl' if 'std::complex<double>' in s or s == '0' else s

# ------------------------------------------------------------------ R3
def cached(F, P, R):
    todo = [(f, False) for f in F.need('bertini::node::Node::EvalInPlace')] + [(f, True) for q in ('EvalJ', 'EvalJInPlace') for f in F.need('bertini::node::Jacobian::' + q)]
    for f, jac in todo:
        R.fn(f)
        cfg = CFG(P, f, inline=lambda g, e, fr: False)
        bads = []; hits = []
        out = f['params'][0] if f['n'].endswith('InPlace') else None
        dv = ('field', ('this',), 'current_diff_variable_')
        def step(st, n, lab, sim):
            fresh, dvset, reset = st
            if n.kind == 'act':
                e = n.expr; nm = e.get('n') or ''
                if e['k'] == 'call' and nm in ('RunInPlace', 'Run', 'FreshEval_d', 'FreshEval_mp'):
                    if jac and not (dvset and reset): bads.append((n, 'evaluates afresh without first storing the differentiation variable and resetting', sim.path_lines()))
                    fresh = True
                if e['k'] == 'call' and nm == 'Reset': reset = True
                if any(t == dv for t in sim.wtargets(n)): dvset = True
                if out is not None and e['k'] in ('bin', 'op') and e['op'] == '=':
                    t = sim.term(e['a'][0], deep=False)
                    if t[0] == 'var' and t[3] == out['id']: use(n, sim, fresh)
            if n.kind == 'ret' and out is None and n.expr is not None: use(n, sim, fresh)
            return [(fresh, dvset, reset)]
        def use(n, sim, fresh):
            src = n.expr['a'][1] if n.kind == 'act' else n.expr
            t = sim.term(src)
            hits.append(n.where())
            if fresh: return
            g = [s for s in subterms(t) if s[0] == 'get' and this_field(s) == 'current_value_']
            ok = bool(g) and sim.F.val(('field', g[0], 'second')) == ('bool', True)
            if not ok: bads.append((n, 'returns the cached value on a path where its flag is not known to be true', sim.path_lines()))
            elif jac:
                p = [q for q in f['params'] if 'Variable' in q['t']][-1]
                pv = ('var', 0, p['n'], p['id'])
                eq = norm_op('==', [dv, pv])
                if sim.F.val(eq) != ('bool', True): bads.append((n, 'returns the cached value on a path where the differentiation variable is not known to be the one it was computed for', sim.path_lines()))
        def on_exit(st, n, sim): pass
        Sim(cfg, step, (False, False, False), on_exit)
        k = f'{sig(f)}{tyshort(f)}'
        if not hits: R.skip('R3', k, 'no use of the cached value found')
        for n, m, p in bads: R.bad('R3', f'{k}:{m[:30]}', n.where(), f'{f["q"]} {m}', p)
        if hits and not bads: R.ok('R3', k)

# ------------------------------------------------------------------ R4, R5
def slp(F, P, R):
    C = F.need_cls('bertini::StraightLineProgram')
    fs_ = [f for f in F.fns.values() if f.get('cls') == 'bertini::StraightLineProgram' and not f['pattern'] and f.get('body') and f['kind'] == 'method']
    rel = P.relevant(lambda n: n['k'] == 'mem' and n['n'] in ('memory_', 'is_evaluated_', 'instructions_') and (n.get('q') or '').startswith('bertini::StraightLineProgram'))
    flagw = lambda t: this_field(t) == 'is_evaluated_' and root_of(t) == ('this',)
    def ft(t):
        for s in subterms(t):
            if s[0] == 'get' and s[2][0] == 'field' and s[2][2] in ('memory_', 'is_evaluated_'): return ty_of(s[1])
        return 'shared'
    evald = {}
    for f in fs_:
        if f['id'] not in rel or f['n'] in ('serialize', 'save', 'load', 'operator<<'): continue
        if f['access'] != 'public' : continue
        R.fn(f)
        cfg = CFG(P, f, dyn=C['id'], inline=lambda g, e, fr: g['id'] in rel and g.get('cls') == 'bertini::StraightLineProgram')
        ev = {'w': set(), 'r': set(), 't': set()}
        bads = []
        # state: {mem type: dirty}, {flag: value}, instructions ran for
        def step(st, n, lab, sim):
            dirty, flags, ran = st
            fl = dict(flags)
            if n.kind == 'branch':
                t = sim.term(n.expr); neg = False
                while t[0] == 'op' and t[1] == '!': t = t[2]; neg = not neg
                if flagw(t): fl[ft(t)] = (lab != neg)
            if n.kind == 'act':
                e = n.expr
                ran0 = ran
                for t in sim.wtargets(n):
                    if this_field(t) == 'memory_':
                        g = ft(t)
                        rhs = sim.term(e['a'][1]) if e['k'] in ('bin', 'op') and e['op'] == '=' else ('none',)
                        if any(this_field(s) == 'instructions_' for s in subterms(t)): ran = ran | {g}
                        else: dirty = dirty | {g}; ev['w'].add(g)
                    if flagw(t):
                        v = sim.value(e['a'][1]) if e['k'] in ('bin', 'op') and e['op'] == '=' else None
                        k = ft(t)
                        if v == ('bool', False):
                            fl[k] = False; dirty = dirty - {k} if k != 'shared' else frozenset()
                        else:
                            fl[k] = True; ev['t'].add((k, frozenset(ran)))
                            # every instruction loop passed: judged on the exit edge of the loop
                            if 'L' not in ran: bads.append(('R5', n, 'marks the program evaluated on a path that did not run over the instructions', sim.path_lines()))
                # reads of outputs
                if e['k'] in ('bin', 'op') and e['op'] == '=':
                    for s in subterms(sim.term(e['a'][1])):
                        if s[0] == 'op' and s[1] == '[]' and this_field(s) == 'memory_' and not any(this_field(x) == 'instructions_' for x in subterms(s)):
                            g = ft(s); ev['r'].add(g)
                            if not (fl.get(g) or fl.get('shared')): bads.append(('R5', n, f'reads {g} outputs on a path where they are not known to be evaluated', sim.path_lines()))
                if e['k'] == 'call' and e.get('n') == 'Precision' : pass
            if n.kind == 'lout':
                L = n.aux
                txt = subterms(L.hi) if L.hi is not None else []
                if any(this_field(x) == 'instructions_' for x in txt) or any(this_field(x) == 'instructions_' for x in L.indexed) or (L.cont and this_field(L.cont) == 'instructions_'): ran = ran | {'L'}
            return [(dirty, frozenset(fl.items()), ran)]
        def on_exit(st, n, sim):
            if n.kind != 'exit': return
            dirty, flags, ran = st; fl = dict(flags)
            for g in dirty:
                if fl.get(g) is not False and fl.get('shared') is not False:
                    bads.append(('R4', None, f'changes the {g} memory but can return without marking it as not evaluated', sim.path_lines()))
        Sim(cfg, step, (frozenset(), frozenset(), frozenset()), on_exit)
        k = f'{sig(f)}{tyshort(f)}'
        for r, n, m, p in bads: R.bad(r, f'{k}:{m[:40]}', n.where() if n else f"{f['file']}:{f['line']}", f'{f["q"]} {m}', p)
        if ev['w'] and not any(b[0] == 'R4' for b in bads): R.ok('R4', f'{k}: {sorted(ev["w"])}')
        if (ev['r'] or ev['t']) and not any(b[0] == 'R5' for b in bads): R.ok('R5', f'{k}: reads {sorted(ev["r"])}')
        if f['n'] == 'Eval' and not f['params']:
            for kk, _ in ev['t']: evald.setdefault(kk, []).append((f, tyshort(f)))
    for kk, l in evald.items():
        tys = {t for _, t in l}
        if len(tys) > 1:
            R.bad('R5', 'StraightLineProgram::is_evaluated_:shared', f"{l[0][0]['file']}:{l[0][0]['line']}", f'one flag stands for the memories of {sorted(tys)}: evaluating one numeric type marks the other as evaluated')

# ------------------------------------------------------------------ R6
def setters(F, P, R):
    C = F.need_cls('bertini::System')
    rel = P.relevant(lambda n: (n['k'] == 'mem' and n['n'] in ('slp_', 'current_variable_values_') and (n.get('q') or '').startswith('bertini::System::')) or (n['k'] == 'call' and n.get('n') == 'set_current_value'))
    for f in F.need('bertini::System::SetVariables') + F.need('bertini::System::SetPathVariable'):
        R.fn(f)
        sv = f['n'] == 'SetVariables'
        cfg = CFG(P, f, dyn=C['id'], inline=lambda c, e, fr: c['id'] in rel and c.get('cls') == 'bertini::System' and c['n'] not in ('Differentiate', 'Variables', 'precision'))
        vterm = ('call', 'bertini::System::Variables', ('this',), ())
        fa = ForAll({vterm: 'variables', ('field', ('this',), 'variable_ordering_'): 'variables2'})
        bads = []
        def step(st, n, lab, sim):
            fs, got = st
            fs = fa.node(fs, n, sim)
            if n.kind == 'act':
                e = n.expr
                if e['k'] == 'call' and e.get('o'):
                    o = sim.term(e['o']); nm = e.get('n')
                    if nm == 'set_current_value':
                        for c in fa.conts:
                            if mentions(o, c): fs = fa.event(fs, c)
                        if this_field(o) == 'path_variable_': got = got | {'path'}
                    if this_field(o) == 'slp_' and nm in ('SetVariableValues', 'SetPathVariable'): got = got | {'slp'}
                if any(this_field(t) == 'current_variable_values_' for t in sim.wtargets(n)): got = got | {'copy'}
            return [(fs, got)]
        def on_exit(st, n, sim):
            if n.kind != 'exit': return
            fs, got = st
            em = sim.F.val(('field', ('this',), 'eval_method_'))
            em = em[1].split('::')[-1] if em else None
            d = fa.done(fs)
            tree = bool(d) if sv else 'path' in got
            if em == 'SLP' and 'slp' not in got: bads.append('can return without passing the values to the straight-line program')
            elif em == 'FunctionTree' and not tree: bads.append('can return without setting every variable')
            elif em is None and not tree and 'slp' not in got: bads.append('can return without setting the values')
            if sv and 'copy' not in got: bads.append('can return without keeping the values for the patch')
            for b in list(bads):
                if isinstance(b, str): bads.remove(b); bads.append((b, sim.path_lines()))
        Sim(cfg, step, (frozenset(), frozenset()), on_exit)
        k = f'{sig(f)}{tyshort(f)}'
        for m, p in bads: R.bad('R6', f'{k}:{m[:50]}', f"{f['file']}:{f['line']}", f'{f["q"]} {m}', p)
        if not bads: R.ok('R6', k)
    for nm in ('SetVariableValues', 'GetFuncValsInPlace', 'GetJacobianInPlace', 'GetTimeDerivInPlace'):
        for f in F.need('bertini::StraightLineProgram::' + nm):
            R.fn(f); k = f'{sig(f)}{tyshort(f)}'
            fr = Frame(f); n0 = 0; bad = []
            for n in walk(f['body']):
                if n['k'] in ('for', 'while'):
                    L = Loop(P, n, fr)
                    w = L.partial(None)
                    n0 += 1
                    if w: bad.append((n, w))
            for n, w in bad: R.bad('R6', f'{k}:partial', f"{f['file']}:{n['l']}", f'{f["q"]}: the loop over inputs or outputs {w}')
            if not bad and n0: R.ok('R6', k)
