"""C04: saving and restoring an object loses nothing and reads what was written."""
import re
from ir import *
from rules_c03 import tuple_parts
GROUPS = ['core', 'systems']
TECHNIQUE = 'coverage and sequence analysis of every serialize / save / load function template: members and bases on every path, matching save and load sequences, registration of every concrete node type'

# members that are caches: cleared or recomputed before they are read (C02 decides that), so they need not travel
CACHE = {('bertini::node::Node', 'current_value_'), ('bertini::System', 'current_variable_values_'), ('bertini::node::Jacobian', 'current_diff_variable_'),
         ('bertini::start_system::MHomogeneous', 'temp_v_mp_')}
TEMPNAME = re.compile(r'temp|tmp|scratch|cache|workspace')

def exempt(c, x):
    return (c['q'], x['n']) in CACHE or (x.get('mutable') and bool(TEMPNAME.search(x['n'])) and c['q'] not in ('bertini::node::LinearProduct',))

class Item:
    def __init__(self, e, term, ty, l): self.e = e; self.term = term; self.ty = ty; self.l = l

def is_ar(e, ar):
    """e is the archive, or a chain of archive operators: the list of the operands in order."""
    if e['k'] == 'ref' and e.get('id') in ar: return []
    if e['k'] in ('bin', 'op') and e['op'] in ('&', '<<', '>>') and len(e['a']) == 2:
        l = is_ar(e['a'][0], ar)
        if l is not None: return l + [e['a'][1]]
    return None

class Scan:
    """Structured walk of a serialization body: ordered items on every path (must) and on some path (may)."""
    def __init__(self, F, P, f):
        self.F = F; self.P = P; self.items = []; self.writeback = set(); self.locals = {}
        self.must = self.body(f, {p['id'] for p in f['params'][:1]}, 0)
    def body(self, f, ar, d):
        self.f = f
        fr = Frame(f)
        for n in walk(f['body']):
            if n['k'] == 'var' and n.get('init') is not None: self.locals[n['id']] = n['init']
            if n['k'] in ('bin', 'op') and n['op'] == '=' and len(n['a']) == 2:
                fl = [m['n'] for m in walk(n['a'][0]) if m['k'] == 'mem']
                for m in walk(n['a'][1]):
                    if m['k'] == 'ref' and m.get('id') in self.locals:
                        for x in fl: self.writeback.add((m['id'], x))
        m, _ = self.stmts([f['body']], f, fr, ar, d)
        return m
    def stmts(self, ss, f, fr, ar, d):
        must = []
        for s in ss:
            if s is None: continue
            m, ret = self.stmt(s, f, fr, ar, d)
            must += m
            if ret: return must, True
        return must, False
    def stmt(self, s, f, fr, ar, d):
        k = s['k']
        if k == 'block': return self.stmts(s['s'], f, fr, ar, d)
        if k == 'if':
            a, ra = self.stmt(s['t'], f, fr, ar, d)
            b, rb = self.stmt(s['e'], f, fr, ar, d) if s.get('e') else ([], False)
            ka = [repr(x.term) for x in a]; kb = {repr(x.term) for x in b}
            both = [x for x, q in zip(a, ka) if q in kb]
            if ra and not rb: self.early = True
            return both, ra and rb
        if k in ('for', 'while', 'rfor', 'do'):
            m, _ = self.stmt(s['b'], f, fr, ar, d)
            for x in m: x.loop = True
            return m, False
        if k == 'return': return self.expr(s.get('e'), f, fr, ar, d), True
        if k == 'decl':
            out = []
            for v in s['d']: out += self.expr(v.get('init'), f, fr, ar, d)
            return out, False
        return self.expr(s, f, fr, ar, d), False
    def expr(self, e, f, fr, ar, d):
        if not isinstance(e, dict): return []
        l = is_ar(e, ar)
        if l:
            out = []
            for x in l:
                it = Item(x, self.P.term(x, fr, False), (x.get('t') or '').replace('const ', '').replace('&', '').strip(), x.get('l'))
                out.append(it); self.items.append(it)
            return out
        if e['k'] == 'call' and d < 4:
            idx = [i for i, a in enumerate(e['a']) if a['k'] == 'ref' and a.get('id') in ar]
            nm = e.get('n') or (e.get('callee') or {}).get('n') or (e.get('dep') or {}).get('n') if isinstance(e.get('dep'), dict) else e.get('n') or (e.get('callee') or {}).get('n')
            if idx and nm and nm not in ('split_member', 'split_free'):
                cand = [g for g in self.F.fns.values() if g['n'] == nm and g.get('body') and len(g['params']) == len(e['a']) and (g.get('cls') == f.get('cls') or g['kind'] == 'func')]
                cand.sort(key=lambda g: not g['pattern'])
                if cand:
                    g = cand[0]
                    sub = Frame(g, this=fr.this)
                    for p, a in zip(g['params'], e['a']): sub.bind[p['id']] = self.P.term(a, fr, False)
                    return self.stmts([g['body']], g, sub, {g['params'][i]['id'] for i in idx}, d + 1)[0]
            if idx and nm in ('save', 'load', 'serialize'): pass
        out = []
        for c in children(e): out += self.expr(c, f, fr, ar, d)
        return out

def key_fields(sc, it):
    """Fields of this (with tuple component) an item carries both ways."""
    out = set()
    t = it.term
    for s in subterms(t):
        if s[0] == 'get' and s[2][0] == 'field': out.add((s[2][2], s[1]))
        if s[0] == 'field' and s[1] == ('this',): out.add((s[2], None))
    whole = {a for a, c in out if c is not None}
    out = {(a, c) for a, c in out if c is not None or a not in whole}
    for m in walk(it.e):
        if m['k'] == 'ref' and m.get('id') in sc.locals:
            for n in walk(sc.locals[m['id']]):
                if n['k'] == 'mem' and n.get('dk') == 'field' and (m['id'], n['n']) in sc.writeback: out.add((n['n'], None))
    return out

def check(F, P, R):
    R.rule('R1', 'serialize passes every member that is not a cache, and every serializable base, to the archive on every path', 30)
    R.rule('R2', 'save and load of a type, and save_construct_data and load_construct_data, pass the same sequence of types', 5)
    R.rule('R3', 'every concrete expression node, system and start system type is registered (key and implementation) for saving through base pointers', 25)
    R.rule('R4', 'every concrete type with members has a serialize function of its own', 25)
    R.rule('R5', 'multiple-precision numbers are written with all their digits and read back at the written precision', 4)
    cls = {}
    for c in F.classes.values():
        if c['q'].startswith('bertini') and not (c['pattern'] and '<' in c['qt']): cls.setdefault(c['q'], c)
    ser = {}
    for f in F.fns.values():
        if f['n'] == 'serialize' and f.get('cls') in cls and f.get('body') is not None:
            old = ser.get(f['cls'])
            if old is None or (f['pattern'] and not old['pattern']): ser[f['cls']] = f
    hand = construct(F, P, R)
    # ---------------- R1
    for q, f in sorted(ser.items()):
        c = cls[q]; R.fn(f)
        sc = Scan(F, P, f)
        got = set(); bases = set()
        for it in sc.must:
            got |= key_fields(sc, it)
            for n in walk(it.e):
                if n['k'] == 'call' and n.get('n') == 'base_object': bases.add((n.get('ta') or ['?'])[0])
        for n in walk(f['body']):       # static_cast<Base&>(*this) and Base::serialize(ar, v)
            if n['k'] == 'call' and n.get('n') == 'serialize' and n.get('cls'): bases.add(n['cls'])
            if n['k'] == 'cast' and n.get('a') and any(m['k'] == 'this' for m in walk(n['a'][0])): bases.add((n.get('t') or '').replace('&', '').replace('const ', '').strip())
        bad = False
        for x in c['fields']:
            if exempt(c, x) or (q, x['n']) in hand: continue
            cs = {cc for a, cc in got if a == x['n']}
            ok = None in cs or (cs and len(cs) >= tuple_parts(x['t']))
            if not ok:
                bad = True
                part = f' (only {len(cs)} of its {tuple_parts(x["t"])} components)' if cs else ''
                why = ' on every path' if any(x['n'] in {a for a, _ in key_fields(sc, it)} for it in sc.items) and not part else ''
                R.bad('R1', f'{q}:{x["n"]}', f"{f['file']}:{f['line']}", f'{q}::serialize does not pass {x["n"]}{why} to the archive{part}')
        for b in c['bases']:
            bq = b.get('q')
            bc = cls.get(bq)
            if bc is None or bc['q'] not in ser: continue
            if not bc['fields'] and not any(z['fields'] for z in F.bases(bc) if z['q'].startswith('bertini')): continue
            if not any(bq == z or bc['qt'] == z for z in bases):
                # reached through another base that is passed
                if any(z in cls and bq in {y['q'] for y in F.bases(cls[z])} for z in bases): continue
                bad = True
                R.bad('R1', f'{q}:base {bq}', f"{f['file']}:{f['line']}", f'{q}::serialize does not pass its base {bq} to the archive')
        if not bad: R.ok('R1', f'{q}: {len(c["fields"])} members, {len(bases)} bases')
    # ---------------- R3, R4
    keys = {m.group(1) for c in F.classes.values() for m in [re.match(r'boost::serialization::guid_defined<(.*)>$', c['qt'])] if m}
    impl = set()
    for g in F.all_gvars:
        if g['q'].endswith('init_guid::g'):
            m = re.search(r'guid_initializer<(.*)>', g['t'])
            if m: impl.add(m.group(1))
    conc = [c for c in F.derived('bertini::node::Node') if not c['abstract'] and c['q'].startswith('bertini::')]
    parents = {b['q'] for c in conc for b in F.bases(c)}
    # a class that only serves as a base (it has no Make of its own) is never saved as a most derived object
    conc = [c for c in conc if c['q'] not in parents or any(f['n'] == 'Make' and f.get('cls') == c['q'] for f in F.fns.values())]
    extra = [c for c in F.derived('bertini::System') if not c['abstract'] and c['q'].startswith('bertini::')] + F.cls('bertini::System') + F.cls('bertini::StraightLineProgram')
    if len(conc) < 15: raise AnalysisBroken('fewer than 15 concrete node classes found')
    for c in sorted({c['q']: c for c in conc + extra}.values(), key=lambda c: c['q']):
        for what, s in (('an export key', keys), ('an export implementation', impl)):
            if c['qt'] in s or c['q'] in s: R.ok('R3', f'{c["q"]}: {what}')
            else: R.bad('R3', f'{c["q"]}:{what}', f"{c['file']}:{c['line']}", f'{c["q"]} has no {what}: saving it through a pointer to its base fails')
        need = [x for x in c['fields'] if not exempt(c, x)]
        if c['q'] in ser: R.ok('R4', c['q'])
        elif need or len([b for b in c['bases'] if b.get('q') in ser]) > 1:
            R.bad('R4', f'{c["q"]}:own', f"{c['file']}:{c['line']}", f'{c["q"]} has no serialize function of its own, so {", ".join(x["n"] for x in need)} would not be saved')

def tyname(t):
    return re.sub(r'\s+', ' ', (t or '').replace('const ', '').replace('&', '')).strip()

def construct(F, P, R):
    """Free save/load pairs.  Returns the (class, field) pairs written through save_construct_data."""
    hand = set()
    groups = {}
    for f in F.fns.values():
        if f['n'] in ('save', 'load', 'save_construct_data', 'load_construct_data') and f.get('body') is not None:
            tgt = f.get('cls') if f['kind'] == 'method' else tyname(f['params'][1]['t']).replace('*', '').strip()
            kind = f['n'].replace('save', '').replace('load', '')
            g = groups.setdefault((tgt, kind), {})
            w = f['n'][:4]
            if w not in g or (g[w]['pattern'] and not f['pattern'] and kind == ''): 
                if w not in g or not g[w].get('_inst'): g[w] = f
    for (tgt, kind), g in sorted(groups.items()):
        if 'save' not in g or 'load' not in g: continue
        S, L = g['save'], g['load']; R.fn(S, L)
        a, b = Scan(F, P, S), Scan(F, P, L)
        seq = lambda sc: [tyname(it.ty) for it in sc.must]
        x, y = seq(a), seq(b)
        k = f'{tgt}{kind}'
        if any('array' in t or 'make_array' in repr(it.term) for t, it in zip(y, b.must)) or any(getattr(it, 'loop', False) for it in a.must + b.must):
            # element loop against make_array: compare the headers
            hx = [t for t, it in zip(x, a.must) if not getattr(it, 'loop', False) and 'make_array' not in repr(it.term)]
            hy = [t for t, it in zip(y, b.must) if not getattr(it, 'loop', False) and 'make_array' not in repr(it.term)]
            nx = len(x) - len(hx); ny = len(y) - len(hy)
            nmx = [it.term[2] for it in a.must if it.term[0] == 'var']; nmy = [it.term[2] for it in b.must if it.term[0] == 'var']
            nmx = nmx[:len(hx)]; nmy = nmy[:len(hy)]
            if hx != hy or (nx == 0) != (ny == 0) or (set(nmx) == set(nmy) and nmx != nmy):
                R.bad('R2', f'{k}:sequence', f"{L['file']}:{L['line']}", f'save and load of {tgt} disagree: {nmx or hx}+{nx} elements against {nmy or hy}+{ny}')
            else: R.ok('R2', f'{k}: {hx} + elements')
        elif x != y:
            R.bad('R2', f'{k}:sequence', f"{L['file']}:{L['line']}", f'what save of {tgt} writes ({", ".join(x)}) is not what load reads ({", ".join(y)})')
        else:
            R.ok('R2', f'{k}: {x}')
        if len(a.items) != len(a.must) or len(b.items) != len(b.must):
            R.bad('R2', f'{k}:conditional', f"{L['file']}:{L['line']}", f'save or load of {tgt} passes some items only on some paths, so the sequences need not match')
        if kind:
            # members named in save_construct_data
            for it in a.must:
                for s in subterms(it.term):
                    if s[0] == 'field': hand.add((tgt, s[2]))
        elif 'boost::multiprecision' in tgt: digits(F, P, R, tgt, S, L, a, b)
    return hand

def digits(F, P, R, tgt, S, L, a, b):
    k = tgt.split('::')[-1]
    bad = False
    r = S['params'][1]
    for n in walk(S['body']):
        if n['k'] == 'call' and n.get('n') == 'str' and n.get('o'):
            d = P.term(n['a'][0], Frame(S)) if n['a'] else ('int', 0)
            if d[0] == 'int' and d[1] != 0:
                bad = True; R.bad('R5', f'{k}:digits', f"{S['file']}:{n['l']}", f'save of {k} writes only {d[1]} digits')
    hasprec = any('unsigned' in it.ty or 'int' == it.ty or 'size_t' in it.ty or 'long' in it.ty for it in a.must)
    fixed = 'mpfr' in k or 'mpc' in k
    if fixed:
        if not hasprec: bad = True; R.bad('R5', f'{k}:precision', f"{S['file']}:{S['line']}", f'save of {k} does not write the precision')
        # load: precision set before the value
        cfg = CFG(P, L)
        pid = L['params'][1]['id']; why = []
        def step(st, n, lab, sim):
            if n.kind == 'act':
                e = n.expr
                if e['k'] == 'call' and e.get('n') == 'precision' and e['a'] and e.get('o') is not None and P._root(e['o']) == pid: return ['prec' if st == 'none' else st]
                if e['k'] in ('bin', 'op') and e['op'] == '=' and P._root(e['a'][0]) == pid:
                    if st == 'none': why.append(n)
                    return ['val']
            return [st]
        ends = []
        Sim(cfg, step, 'none', lambda st, n, sim: ends.append(st) if n.kind == 'exit' else None)
        for n in why: bad = True; R.bad('R5', f'{k}:order', n.where(), f'load of {k} assigns the value before setting the precision it was written at')
        if any(e != 'val' for e in ends): bad = True; R.bad('R5', f'{k}:value', f"{L['file']}:{L['line']}", f'load of {k} can return without setting the value')
    if not bad: R.ok('R5', k)
