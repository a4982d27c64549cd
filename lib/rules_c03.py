"""C03: copying, assigning, moving or swapping an object carries its whole state."""
from ir import *
GROUPS = ['core', 'systems', 'algorithms']
TECHNIQUE = 'field-coverage dataflow: on every normal path through a hand-written copy, move, assignment or swap, each member is set from the same member of the source'
SKIPCLS = ('std::', 'boost::')

def special(F):
    """(function, kind) of every hand-written copy/move/assign/swap."""
    seen = set()
    for f in F.fns.values():
        if f.get('body') is None or f.get('defaulted') or f.get('deleted') or f.get('implicit'): continue
        where = (f['file'], f['line'])
        kind = None
        if f.get('copy'): kind = 'copy constructor'
        elif f.get('move'): kind = 'move constructor'
        elif f.get('copyassign'): kind = 'copy assignment'
        elif f.get('moveassign'): kind = 'move assignment'
        elif f['n'] == 'swap' and len(f['params']) == 2 and f['params'][0]['t'] == f['params'][1]['t'] and '&' in f['params'][0]['t']: kind = 'swap'
        elif f['n'] == 'swap' and f['kind'] == 'method' and len(f['params']) == 1 and f['clst'] in f['params'][0]['t']: kind = 'swap'
        if kind: yield f, kind

def cls_of(F, t):
    t = t.replace('const ', '').rstrip('& ').strip()
    for c in F.classes.values():
        if c['qt'] == t: return c
    return None

def tuple_parts(t):
    if not t.startswith('std::tuple<'): return 1
    d = 0; n = 1
    for ch in t[len('std::tuple<'):-1]:
        if ch in '<(': d += 1
        elif ch in '>)': d -= 1
        elif ch == ',' and d == 0: n += 1
    return n

def comp_of(t, fld, root):
    """('all',), ('part', comp) or None: how much of root.fld the lvalue term t names; second: is it an element?"""
    elem = False; comp = None
    while isinstance(t, tuple):
        if t[0] == 'field':
            if t[1] == root and t[2] == fld: return (comp, elem)
            elem = True; t = t[1]
        elif t[0] == 'get':
            if t[2] == ('field', root, fld): comp = t[1]
            else: elem = True
            t = t[2]
        elif t[0] == 'op' and t[1] in ('[]', '()'): elem = True; t = t[2]
        elif t[0] in ('elem', 'iter'): elem = True; t = t[1]
        elif t[0] == 'call' and t[2] is not None: elem = True; t = t[2]
        elif t[0] == 'call' and t[3]: elem = True; t = t[3][0]
        elif t[0] == 'ctor' and t[2]: elem = True; t = t[2][0]
        else: return None
    return None

def field_at(t, root):
    """Name of the field of root at the bottom of an lvalue or iterator term."""
    while isinstance(t, tuple):
        if t[0] == 'field':
            if t[1] == root: return t[2]
            t = t[1]
        elif t[0] == 'get': t = t[2]
        elif t[0] == 'op' and t[1] in ('[]', '()', '+', '-', '++', 'p++') and len(t) > 2: t = t[2]
        elif t[0] in ('elem', 'iter'): t = t[1]
        elif t[0] == 'call' and t[2] is not None: t = t[2]
        elif t[0] == 'call' and t[3]: t = t[3][0]
        elif t[0] == 'ctor' and t[2]: t = t[2][0]
        else: return None
    return None

def uses(t, root):
    return {s[2] for s in subterms(t) if s[0] == 'field' and s[1] == root}

def check(F, P, R):
    R.rule('R1', 'a hand-written copy, move, assignment or swap sets every member, and every base, from the same member of the source on every normal path', 3)
    for f, kind in special(F):
        C = F.classes.get(f.get('clsid')) if f['kind'] != 'func' else cls_of(F, f['params'][0]['t'])
        if C is None: continue
        if f['pattern']:
            # decided on the instantiations, where there are any
            if any(g.get('pat') == f['id'] for g in F.fns.values()): continue
        R.fn(f); analyse(F, P, R, f, kind, C)

def analyse(F, P, R, f, kind, C):
    allc = [C] + F.bases(C)
    own = {x['n']: x for x in C['fields']}
    inherited = {x['n'] for c in allc[1:] for x in c['fields']}
    names = set(own) | inherited
    if not own and not allc[1:]: return
    rel = P.relevant(lambda n: n['k'] == 'mem' and n['n'] in names)
    this = ('this',)
    pt = lambda p: ('var', 0, p['n'], p['id'])
    if f['kind'] == 'func': dst, src = pt(f['params'][0]), pt(f['params'][1])
    else: dst, src = this, pt(f['params'][0])
    sw = kind == 'swap'
    inl = lambda g, e, fr: g['id'] in rel and (g.get('clsid') in {c['id'] for c in allc} or g['kind'] == 'func') and not (g.get('copy') or g.get('move') or g.get('copyassign') or g.get('moveassign'))
    basenames = {c['qt'] for c in allc[1:]} | {c['q'] for c in allc[1:]}
    loopev = {}
    whole_t = (C['qt'], C['q'])
    complaints = {}
    def isobj(t): return t == src or (t[0] == 'ctor' and (t[1] in whole_t) and len(t[2]) == 1 and isobj(t[2][0])) or (t[0] == 'call' and any(isobj(x) for x in t[3]) and False)
    def good(fld, rhs, done, sim):
        """Does assigning rhs to fld carry the source's fld?"""
        u = uses(rhs, src)
        if fld in u: return None
        if sw: return f'is given {tstr(rhs)}'
        v = sim.F.val(('field', src, fld))
        c = sim.F.val(rhs) or (rhs if is_const(rhs) else None)
        if v is not None and c == v: return None
        if rhs == src or mentions(rhs, src) and not u: return None
        mine = uses(rhs, this)
        doneflds = {d[0] for d in done}
        if mine and mine <= doneflds | inherited: return None
        if u and rhs[0] not in ('field', 'get') : return None       # computed from the source
        if u: return f'is set from the member {", ".join(sorted(u))} of the source'
        if any(s[0] == 'var' and s[1:] != src[1:] for s in subterms(rhs)) and not any(s[0] == 'call' for s in subterms(rhs)): return None
        return f'is set to {tstr(rhs)}, not to what the source holds'
    def step_(collect):
        def mark(done, fld, comp, elem, opened):
            if elem and opened:
                for L in opened: loopev.setdefault(L, set()).add((fld, comp))
                return done | {(fld, comp)}
            return done | {(fld, comp)}
        def step(st, n, lab, sim):
            done, opened = st
            if n.kind == 'lin': opened = opened | {n.aux.no}
            elif n.kind == 'lout':
                L = n.aux
                if not L.partial(None, sim): done = done | loopev.get(L.no, set())
                else:
                    complaints.setdefault(None, f'the loop at line {L.line} {L.partial(None, sim)}')
                    if L.no in opened: done = done - loopev.get(L.no, set())
                opened = opened - {L.no}
            elif n.kind == 'init':
                i = n.expr
                if i.get('deleg'):
                    t = sim.term(i['e'])
                    if t[0] == 'ctor' and any(mentions(a, src) for a in t[2]) and len(t[2]) == 1 and isobj(t[2][0]): done = done | {('*', None)}
                elif i.get('base'):
                    t = sim.term(i['e'])
                    if mentions(t, src): done = done | {(b, None) for b in inherited} | {('base', i['base'])}
                elif i.get('field') and i.get('written'):
                    w = good(i['field'], sim.term(i['e']), done, sim)
                    if w is None: done = done | {(i['field'], None)}
                    else: complaints[i['field']] = w
                    if w is None and uses(sim.term(i['e']), src) and not sw: pass
            elif n.kind == 'act':
                e = n.expr
                if e['k'] in ('bin', 'op') and e['op'] == '=' and len(e['a']) == 2:
                    Lt = sim.term(e['a'][0]) if True else None
                    L0 = P.term(e['a'][0], n.fr)
                    rhs = sim.term(e['a'][1])
                    if sim.expand(L0) == dst or L0 == dst:
                        if isobj(rhs): done = done | {('*', None)}
                    for nm in names:
                        for Lx in (Lt,):
                            c = comp_of(Lx, nm, dst)
                            if c:
                                w = good(nm, rhs, done, sim)
                                if w is None: done = mark(done, nm, c[0], c[1], opened)
                                else: complaints[nm] = w
                            if sw and comp_of(Lx, nm, src): done = done | {('>' + nm, None)}
                elif e['k'] in ('call', 'op', 'ctor'):
                    ts = [sim.term(a) for a in e['a'] if a['k'] != 'lambda']
                    if e.get('o'): ts = [sim.term(e['o'])] + ts
                    nm = e.get('n')
                    if nm == 'swap':
                        a = [t for t in ts if mentions(t, dst)]; b = [t for t in ts if mentions(t, src)]
                        if dst in ts and src in ts: done = done | {('*', None), ('>*', None)}
                        for x in a:
                            fx = field_at(x, dst)
                            for y in b:
                                fy = field_at(y, src)
                                if fx and fx == fy:
                                    c = comp_of(x, fx, dst) or (None, False)
                                    done = mark(done, fx, c[0], c[1], opened) | {('>' + fx, None)}
                                elif fx and fy: complaints[fx] = f'is exchanged with the member {fy} of the other object'
                    else:
                        for x in ts:
                            fx = field_at(x, dst)
                            if fx and any(field_at(y, src) == fx or fx in uses(y, src) for y in ts if y is not x):
                                if nm in ('resize', 'reserve', 'conservativeResize', 'precision', 'Precision'): continue
                                c = comp_of(x, fx, dst) or (None, False)
                                done = mark(done, fx, c[0], True, opened)
                        # a base's own copy assignment
                        if nm == 'operator=' or (e['k'] == 'call' and e.get('f', '').endswith('operator=')):
                            if e.get('cls') in basenames and src in ts: done = done | {(b, None) for b in inherited} | {('base', e.get('cls'))}
                if e['k'] == 'call' and e.get('n') == 'operator=' and e.get('cls') in basenames:
                    done = done | {(b, None) for b in inherited}
            return [(done, opened)]
        return step
    miss = {}
    def on_exit(st, n, sim):
        if n.kind != 'exit': return
        done, _ = st
        d0 = {x[0] for x in done}
        if '*' in d0 and (not sw or '>*' in d0): return
        for fld, x in own.items():
            parts = tuple_parts(x['t'])
            got = {c for (a, c) in done if a == fld}
            ok = None in got or len(got) >= parts
            if sw and ok and ('>' + fld) not in d0: ok = False
            if not ok: miss.setdefault(fld, (sim.path_lines(), parts, len(got)))
        if inherited and kind != 'swap':
            m = [b for b in inherited if b not in d0]
            if m: miss.setdefault('(base) ' + ', '.join(sorted(m)[:4]), (sim.path_lines(), 1, 0))
    for collect in (True, False):
        miss.clear(); complaints.clear()
        cfg = CFG(P, f, dyn=C['id'], inline=inl)
        # loop numbers differ between graphs: keep one graph for both passes
        break
    Sim(cfg, step_(True), (frozenset(), frozenset()), None)
    miss.clear(); complaints.clear()
    Sim(cfg, step_(False), (frozenset(), frozenset()), on_exit)
    k = f"{f['q']}[{kind}]" + (f"<{C['qt']}>" if '<' in C['qt'] else '')
    for fld, (p, parts, got) in sorted(miss.items()):
        why = complaints.get(fld) or complaints.get(None) or ('' if not got else f'only {got} of its {parts} components are set')
        R.bad('R1', f'{k}:{fld}', f"{f['file']}:{f['line']}", f'the {kind} of {C["q"]} can finish without carrying {fld}' + (f' ({why})' if why else ''), p)
    for fld, w in sorted((a, b) for a, b in complaints.items() if a and a not in miss):
        R.bad('R1', f'{k}:{fld}:overwritten', f"{f['file']}:{f['line']}", f'in the {kind} of {C["q"]}, {fld} {w}')
    if not miss and not any(complaints): R.ok('R1', f'{k}: {len(own)} members')
