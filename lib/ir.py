"""Terms, effect summaries, inlined control-flow graphs, and an ESP-style typestate engine over the facts."""
import itertools, re, sys, heapq
from facts import walk, AnalysisBroken
sys.setrecursionlimit(20000)

ASSIGN = {'=', '+=', '-=', '*=', '/=', '%=', '|=', '&=', '^=', '<<=', '>>='}
CMP = {'<', '>', '<=', '>=', '==', '!='}
NUMERIC = re.compile(r'^(const )?(unsigned|int|long|double|float|bool|size_t|std::complex<double>|boost::multiprecision::number<.*)')
TRANSPARENT = {'std::move', 'std::forward', 'std::ref', 'std::cref', 'std::reference_wrapper::get', 'std::shared_ptr::get',
               'std::unique_ptr::get', 'std::__shared_ptr::get', 'std::as_const', 'std::addressof', 'std::static_pointer_cast',
               'std::dynamic_pointer_cast', 'std::const_pointer_cast', 'std::__shared_ptr_access::get'}

def children(e):
    out = []
    for key in ('o', 'b', 'callee', 'dep'):
        v = e.get(key)
        if isinstance(v, dict) and e.get('k') not in ('lambda', 'block', 'for', 'while'): out.append(v)
    for v in e.get('a', []) or []:
        if isinstance(v, dict): out.append(v)
    return out

def tstr(t, d=0):
    """Readable form of a term."""
    if not isinstance(t, tuple): return str(t)
    k = t[0] if t else ''
    if d > 8: return '...'
    r = lambda x: tstr(x, d + 1)
    if k == 'this': return 'this'
    if k in ('int', 'float', 'bool', 'char'): return str(t[1])
    if k == 'str': return repr(t[1])
    if k == 'enum': return t[1].split('::')[-1]
    if k == 'var': return t[2]
    if k == 'field': return r(t[2]) if False else f'{r(t[1])}.{t[2]}'
    if k == 'get': return f'{r(t[2])}<{t[1]}>'
    if k == 'call':
        n = t[1].split('::')[-1] if isinstance(t[1], str) else r(t[1])
        return (r(t[2]) + '.' if t[2] else '') + n + '(' + ', '.join(r(a) for a in t[3]) + ')'
    if k == 'op':
        if len(t) == 3: return f'{t[1]}{r(t[2])}'
        if t[1] == '[]': return f'{r(t[2])}[{r(t[3])}]' if len(t) == 4 else str(t)
        if t[1] == '()': return f'{r(t[2])}(' + ', '.join(r(x) for x in t[3:]) + ')'
        return '(' + f' {t[1]} '.join(r(x) for x in t[2:]) + ')'
    if k == 'ctor': return f'{t[1][:40]}(' + ', '.join(r(a) for a in t[2]) + ')'
    if k == 'ret': return f'ret#{t[1]}'
    if k == 'elem': return f'elem({r(t[1])})'
    return '(' + ' '.join(r(x) for x in t) + ')'

def subterms(t):
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple) and x:
            yield x
            st.extend(y for y in x if isinstance(y, tuple))

def mentions(t, x):
    return any(s == x for s in subterms(t))

class Frame:
    _n = itertools.count(1)
    def __init__(self, fn, this=('this',), dyn=None, bind=None, uid=None, parent=None):
        self.fn = fn; self.this = this; self.dyn = dyn; self.bind = bind or {}; self.uid = uid; self.parent = parent
        self.no = 0 if parent is None else next(Frame._n)
        self.calls = {}      # id(call expr) -> Frame of the inlined callee
        self.lets = None
        self.lambdas = {}
    def stack(self):
        f = self
        while f: yield f; f = f.parent

class Prog:
    """Whole-program helpers over Facts."""
    def __init__(self, facts):
        self.F = facts
        self.overriders = {}
        for f in facts.fns.values():
            for o in f.get('over', []) or []: self.overriders.setdefault(o, []).append(f)
        self._getter = {}; self._pure = {}; self._lets = {}; self._wr = {}
    # ------------------------------------------------------------ relevance
    def relevant(self, pred):
        """Ids of the functions that contain, or transitively call something that contains, a node satisfying pred."""
        callers = {}; hit = set()
        pat = {}
        for i, f in self.F.fns.items():
            for n in walk([f.get('body'), f.get('inits')]):
                if n.get('fid') and n['k'] in ('call', 'op', 'ctor'):
                    callers.setdefault(n['fid'], set()).add(i)
                if i not in hit and pred(n): hit.add(i)
        st = list(hit)
        while st:
            i = st.pop()
            f = self.F.fns[i]
            ks = [i]
            # calls through a virtual base reach the override
            seen = set(); up = list(f.get('over') or [])
            while up:
                o = up.pop()
                if o in seen: continue
                seen.add(o); ks.append(o)
                if o in self.F.fns: up += self.F.fns[o].get('over') or []
            for k in ks:
                for c in callers.get(k, ()):
                    if c not in hit: hit.add(c); st.append(c)
        return hit
    # ------------------------------------------------------------ resolution
    def callee(self, e):
        """Repo function record statically called by a call/op/ctor expression."""
        return self.F.fns.get(e.get('fid')) if e.get('fid') else None
    def resolve(self, e, frame, obj):
        f = self.callee(e)
        if e.get('virt') and frame is not None and obj == frame.this and frame.dyn:
            c = self.F.classes.get(frame.dyn)
            fid = e.get('fid')
            order = [c] + self.F.bases(c) if c else []
            cands = {}
            st = [fid]; seen = set()
            while st:
                i = st.pop()
                if i in seen: continue
                seen.add(i)
                for o in self.overriders.get(i, []): cands[o['clsid']] = o; st.append(o['id'])
            if f: cands.setdefault(f['clsid'], f)
            for k in order:
                if k['id'] in cands: return cands[k['id']]
        return f
    # ------------------------------------------------------------ getters
    def getter(self, f, depth=0):
        """If f merely returns a field, parameter, or getter-chain: the returned expression."""
        if f is None or depth > 6: return None
        key = f['id']
        if key in self._getter: return self._getter[key]
        self._getter[key] = None
        b = f.get('body')
        r = None
        if b and b['k'] == 'block':
            ss = [s for s in b['s'] if s and s['k'] != 'nop']
            if len(ss) == 1 and ss[0]['k'] == 'return' and ss[0].get('e') and self._simple(ss[0]['e'], depth): r = ss[0]['e']
        self._getter[key] = r
        return r
    def _simple(self, e, depth):
        k = e['k']
        if k in ('this',): return True
        if k == 'ref': return e.get('dk') in ('param', 'global', 'enum')
        if k == 'mem': return e.get('dk') == 'field' and self._simple(e['b'], depth)
        if k == 'cast': return self._simple(e['a'][0], depth)
        if k in ('int', 'bool'): return depth > 0 or True
        if k == 'bin' and e['op'] in ('+', '-', '*', '<', '>', '<=', '>=', '==', '!=') : return all(self._simple(x, depth) for x in e['a'])
        if k == 'call' and e.get('o') and e.get('cm') and e.get('n') in ('size', 'rows', 'cols', 'empty') and not (e.get('f') or '').startswith('bertini'): return self._simple(e['o'], depth)
        if k == 'un' and e['op'] in ('*', '&'): return self._simple(e['a'][0], depth)
        if k == 'op' and e['op'] in ('*', '->') and len(e['a']) == 1: return self._simple(e['a'][0], depth)
        if k == 'call':
            if e.get('f') in TRANSPARENT or e.get('f') == 'std::get' or e.get('conv'):
                xs = ([e['o']] if e.get('o') else []) + e['a']
                return all(self._simple(x, depth) for x in xs)
            c = self.callee(e)
            if c and not e.get('virt') and self.getter(c, depth + 1) is not None:
                return all(self._simple(x, depth) for x in ([e['o']] if e.get('o') else []) + e['a'])
        return False
    # ------------------------------------------------------------ terms
    def term(self, e, fr=None, lets=True):
        """Canonical term of an expression; fr gives bindings of parameters, this, inlined calls."""
        if e is None: return ('none',)
        k = e['k']
        T = lambda x: self.term(x, fr, lets)
        if k == 'int': return ('int', int(e['v']))
        if k == 'float': return ('float', e['v'])
        if k == 'bool': return ('bool', e['v'])
        if k == 'char': return ('char', e['v'])
        if k == 'str': return ('str', e['v'])
        if k == 'null': return ('null',)
        if k == 'this': return fr.this if fr else ('this',)
        if k == 'ref':
            dk = e.get('dk')
            if dk == 'enum': return ('enum', e['q'])
            if dk in ('param', 'local', 'slocal'):
                if fr:
                    for g in self._vis(fr):
                        if e['id'] in g.bind: return g.bind[e['id']]
                    if lets and dk == 'local':
                        init = self.lets(fr.fn).get(e['id'])
                        if init is not None: return self.term(init, fr, lets)
                    own = self._owner(fr, e['id'])
                    return ('var', own, e['n'], e['id'])
                return ('var', 0, e['n'], e['id'])
            if dk in ('global', 'func', 'other'): return ('global', e['q'])
            return ('name', e['n'])
        if k == 'mem':
            if e.get('dk') == 'global': return ('global', e.get('q'))
            return ('field', T(e['b']) if e.get('b') else ('this',), e['n'])
        if k == 'cast':
            return T(e['a'][0])
        if k == 'un':
            if e['op'] in ('*', '&'): return T(e['a'][0])
            if e['op'] == '+': return T(e['a'][0])
            x = T(e['a'][0])
            if e['op'] == '-' and x[0] == 'int': return ('int', -x[1])
            return ('op', ('p' if e.get('post') else '') + e['op'], x)
        if k in ('bin', 'op'):
            op = e['op']
            if k == 'op' and op in ('*', '->') and len(e['a']) == 1: return T(e['a'][0])
            if k == 'op' and op == '&' and len(e['a']) == 1: return T(e['a'][0])
            if k == 'op' and op == '()' and fr is not None and id(e) in fr.calls: return ('ret', fr.calls[id(e)].uid)
            args = [T(a) for a in e['a']]
            if op == ',' and k == 'bin': return args[-1]
            return norm_op(op, args)
        if k == 'cond': return ('cond',) + tuple(T(a) for a in e['a'])
        if k == 'call':
            f = e.get('f') or e.get('n') or ''
            if fr is not None and id(e) in fr.calls:
                return ('ret', fr.calls[id(e)].uid)
            if f in TRANSPARENT and (e['a'] or e.get('o')): return T(e['a'][0] if e['a'] else e['o'])
            if e.get('conv') and e.get('o'): return T(e['o'])
            if f == 'std::get': return ('get', (e.get('ta') or ['?'])[0], T(e['a'][0]))
            if e.get('n') == 'eval' and 'Eigen' in f and e.get('o'): return T(e['o'])
            o = T(e['o']) if e.get('o') else (T(e['callee']) if e.get('callee') else None)
            c = self.resolve(e, fr, o)
            g = self.getter(c) if c and not c['pattern'] else None
            if g is not None and e.get('virt') and not (fr is not None and fr.dyn and o == fr.this) and self.overriders.get(c['id']): g = None
            if g is not None:
                sub = Frame(c, this=o or ('this',), dyn=(fr.dyn if fr and o == fr.this else None), bind={p['id']: T(a) for p, a in zip(c['params'], e['a'])})
                return self.term(g, sub, lets)
            return ('call', (c['q'] if c else f), o, tuple(T(a) for a in e['a'])) + ((tuple(e['ta']),) if e.get('ta') and not c else ())
        if k == 'ctor':
            if len(e['a']) == 1 and NUMERIC.match(e.get('t', '')): return T(e['a'][0])
            return ('ctor', e.get('t', ''), tuple(T(a) for a in e['a']))
        if k == 'list': return ('list',) + tuple(T(a) for a in e['a'])
        if k == 'lambda': return ('lambda', id(e))
        if k == 'new': return ('new', e['t'], tuple(T(a) for a in e['a']))
        if k == 'var': return ('var', 0, e['n'], e['id'])
        return (k,) + tuple(T(a) for a in e.get('a', []) or [])
    def _vis(self, fr):
        """Frames whose bindings are visible: the frame itself, and the defining frames of a lambda."""
        while fr:
            yield fr
            if not getattr(fr, 'is_lambda', False): return
            fr = fr.parent
    def _owner(self, fr, vid):
        """Frame number which owns a local (a lambda body sees the locals of the frame that created it)."""
        g = fr
        while getattr(g, 'is_lambda', False) and vid not in g.own: g = g.parent
        return g.no
    # ------------------------------------------------------------ single-assignment locals
    def lets(self, f):
        key = f['id']
        if key in self._lets: return self._lets[key]
        out = {}; bad = set()
        self._lets[key] = out
        lam = {n['id'] for n in walk(f.get('body') or {}) if n['k'] == 'var' and n.get('init') and n['init']['k'] == 'lambda'}
        for n in walk(f.get('body') or {}):
            k = n['k']
            if k == 'var' and n.get('init') and not n.get('static'): out[n['id']] = n['init']
            if k in ('bin', 'op') and n['op'] in ASSIGN:
                t = self._root(n['a'][0])
                if t is not None: bad.add(t)
            if (k == 'un' and n['op'] in ('++', '--')) or (k == 'op' and n['op'] in ('++', '--')):
                t = self._root(n['a'][0])
                if t is not None: bad.add(t)
            if k == 'un' and n['op'] == '&':
                t = self._root(n['a'][0])
                if t is not None: bad.add(t)
            if k == 'call':
                if n.get('o') and not n.get('cm') and not n.get('st'):
                    t = self._root(n['o'])
                    if t is not None: bad.add(t)
                for m, a in zip(n.get('mr', []), n['a']):
                    if m:
                        t = self._root(a)
                        if t is not None: bad.add(t)
            if k == 'op' and n['op'] in ('<<', '>>', ',') and n['a']:
                t = self._root(n['a'][0])
                if t is not None: bad.add(t)
            if k == 'op' and n['op'] == '()' and n['a'] and n['a'][0]['k'] == 'ref' and n['a'][0].get('id') in lam:
                for a in n['a'][1:]:      # a lambda may take its argument by reference
                    t = self._root(a)
                    if t is not None: bad.add(t)
            if k == 'rfor': bad.add(n['var']['id'])
        # a local declared inside a loop is still single-assignment per iteration
        for v in list(out):
            if v in bad or not self._letok(out[v], f): del out[v]
        return out
    def _root(self, e):
        """Local variable at the root of an lvalue, if any (through fields, subscripts; not through pointers)."""
        while True:
            k = e['k']
            if k == 'ref': return e.get('id')
            if k == 'mem' and e.get('b'): e = e['b']; continue
            if k == 'op' and e['op'] in ('[]', '()') and e['a']: e = e['a'][0]; continue
            if k in ('cast',): e = e['a'][0]; continue
            if k == 'call' and e.get('f') == 'std::get' and e['a']: e = e['a'][0]; continue
            if k == 'call' and e.get('o') and e.get('n') in ('head', 'tail', 'segment', 'col', 'row', 'array', 'matrix', 'block', 'back', 'front', 'at'): e = e['o']; continue
            return None
    def _letok(self, e, f):
        for n in walk(e):
            if n['k'] in ('lambda', 'new', 'delete', 'throw'): return False
            if n['k'] == 'bin' and n['op'] in ASSIGN: return False
            if n['k'] in ('un', 'op') and n['op'] in ('++', '--'): return False
            if n['k'] in ('call', 'ctor', 'op'):
                c = self.callee(n)
                if c is not None:
                    if not self.pure(c): return False
                elif n.get('f', '') and n['f'].startswith('bertini::'): return False   # no body known
                elif n.get('dep'): return False
                elif n['k'] == 'call' and n.get('n') in IMPURE_STD: return False
        return True
    def pure(self, f, depth=0):
        """No writes through this, parameters, globals; only pure callees.  (Recursion is assumed pure.)"""
        key = f['id']
        if key in self._pure: return self._pure[key]
        self._pure[key] = True
        r = True
        locs = {n['id'] for n in walk(f.get('body') or {}) if n['k'] == 'var'}
        refl = {n['id'] for n in walk(f.get('body') or {}) if n['k'] == 'var' and n.get('t', '').rstrip().endswith('&') and not n.get('t','').startswith('const')}
        if f.get('body') is None: r = False
        for n in walk(f.get('body') or {}):
            k = n['k']
            tgt = None
            if k in ('bin', 'op') and n['op'] in ASSIGN: tgt = n['a'][0]
            elif k in ('un', 'op') and n['op'] in ('++', '--'): tgt = n['a'][0]
            elif k == 'call' and n.get('o') and not n.get('cm') and not n.get('st') and n.get('f') not in TRANSPARENT and not n.get('conv'): tgt = n['o']
            if tgt is not None:
                v = self._root(tgt)
                if v is None or v not in locs or v in refl: r = False; break
            if k == 'call':
                for m, a in zip(n.get('mr', []), n['a']):
                    if m:
                        v = self._root(a)
                        if v is None or v not in locs: r = False; break
            if k in ('new', 'delete'): r = False
            if k in ('call', 'ctor', 'op'):
                c = self.callee(n)
                if c is not None:
                    if c['kind'] != 'ctor' and not self.pure(c, depth + 1): r = False; break
                elif (n.get('f') or '').startswith('bertini::') and k == 'call': r = False; break
                elif n.get('n') in IMPURE_STD: r = False; break
            if not r: break
        self._pure[key] = r
        return r
    # ------------------------------------------------------------ write sets
    def writes(self, f, dyn=None, _stack=()):
        """Fields of *this that f may write, directly or through calls on this.  {field: (file,line)}"""
        key = (f['id'], dyn)
        if key in self._wr: return self._wr[key]
        if f['id'] in _stack: return {}
        out = {}
        fr = Frame(f, dyn=dyn)
        for n in walk(f.get('body') or {}):
            for t in self.targets(n, fr):
                fld = this_field(t)
                if fld: out.setdefault(fld, (f['file'], n.get('l')))
            if n['k'] == 'call' and n.get('o'):
                o = self.term(n['o'], fr)
                if o == ('this',):
                    c = self.resolve(n, fr, o)
                    if c is not None:
                        for k2, v in self.writes(c, dyn, _stack + (f['id'],)).items(): out.setdefault(k2, v)
        if not _stack: self._wr[key] = out
        return out
    def targets(self, n, fr):
        """Terms this single node writes to (assignment, increment, mutating std method, by-ref argument)."""
        k = n['k']; out = []
        if k in ('bin', 'op') and n['op'] in ASSIGN: out.append(self.term(n['a'][0], fr, True))
        elif k in ('un', 'op') and n['op'] in ('++', '--'): out.append(self.term(n['a'][0], fr, True))
        elif k == 'call':
            c = self.callee(n)
            if n.get('o') and not n.get('cm') and not n.get('st') and c is None and n.get('f') not in TRANSPARENT and not n.get('conv') and not (n.get('f') or '').startswith('bertini::'):
                if n.get('n') not in NONMUT: out.append(self.term(n['o'], fr))
            for m, a in zip(n.get('mr', []), n['a']):
                if m and n.get('f') != 'std::get' and n.get('f') not in TRANSPARENT: out.append(self.term(a, fr))
        return out

IMPURE_STD = {'push_back', 'insert', 'erase', 'pop_back', 'pop_front', 'rand', 'emplace_back', 'swap', 'resize', 'clear'}
NONMUT = {'begin', 'end', 'rbegin', 'rend', 'cbegin', 'cend', 'front', 'back', 'at', 'data', 'size', 'get', 'head', 'tail', 'segment',
          'col', 'row', 'array', 'block', 'transpose', 'lpNorm', 'norm', 'eval', 'find', 'str', 'rows', 'cols', 'lu', 'matrix', 'coeffRef', 'use_count', 'lock'}

def this_field(t):
    """Name of the field of this at the root of a term."""
    while isinstance(t, tuple):
        if t[0] == 'field':
            if t[1] == ('this',): return t[2]
            t = t[1]
        elif t[0] == 'get': t = t[2]
        elif t[0] == 'op' and t[1] in ('[]', '()'): t = t[2]
        elif t[0] in ('elem', 'iter'): t = t[1]
        elif t[0] == 'call' and t[2] is not None and isinstance(t[1], str) and t[1].split('::')[-1] in NONMUT: t = t[2]
        else: return None
    return None

def root_of(t):
    while isinstance(t, tuple):
        if t[0] == 'field': t = t[1]
        elif t[0] == 'get': t = t[2]
        elif t[0] == 'op' and t[1] in ('[]', '()'): t = t[2]
        elif t[0] == 'elem': t = t[1]
        else: return t
    return t

def norm_op(op, args):
    if op in CMP and len(args) == 2:
        a, b = args
        if op == '>': return ('op', '<', b, a)
        if op == '<=': return ('op', '!', ('op', '<', b, a))
        if op == '>=': return ('op', '!', ('op', '<', a, b))
        if op == '<': return ('op', '<', a, b)
        a, b = sorted((a, b), key=repr)
        e = ('op', '==', a, b)
        return e if op == '==' else ('op', '!', e)
    if op == '!' and len(args) == 1:
        if args[0][0] == 'op' and args[0][1] == '!': return args[0][2]
    return ('op', op) + tuple(args)

# ==================================================================== loops
class Loop:
    """What a loop runs over.

    kind 'elems': every element of cont (range-for, begin()..end(), for_each).
    kind 'index': var from lo (None if unknown) up to but not including hi (or downwards over the same range).
    kind 'unknown'."""
    _n = itertools.count(1)
    def __init__(self, P, s, fr):
        self.stmt = s; self.line = s.get('l'); self.kind = 'unknown'; self.cont = None; self.var = None; self.lo = None; self.hi = None; self.no = next(Loop._n)
        self.fr = fr; self.down = False
        k = s['k']
        T = lambda e: P.term(e, fr)
        if k == 'rfor':
            self.kind = 'elems'; self.cont = T(s['r']); self.var = s['var']['id']
        elif k == 'call':
            b = [T(a) for a in s['a'] if isinstance(a, dict) and a['k'] != 'lambda']
            for x in b:
                c = begin_of(x)
                if c is not None: self.kind = 'elems'; self.cont = c; break
        elif k in ('for', 'while') and s.get('c'):
            c = P.term(s['c'], Frame(fr.fn, fr.this, fr.dyn, fr.bind, fr.uid, fr.parent)) if False else T(s['c'])
            inits = {}
            ini = s.get('init')
            if ini is not None and ini['k'] == 'decl':
                for v in ini['d']:
                    if v.get('init') is not None: inits[v['id']] = T(v['init'])
            elif ini is not None and ini['k'] in ('bin', 'op') and ini['op'] == '=' and P._root(ini['a'][0]): inits[P._root(ini['a'][0])] = T(ini['a'][1])
            incs = {}
            scope = s.get('inc') if k == 'for' else s.get('b')
            for n in walk(scope or {}):
                if n['k'] in ('un', 'op') and n['op'] in ('++', '--') and n['a']:
                    r = P._root(n['a'][0])
                    if r: incs[r] = 1 if n['op'] == '++' else -1
                if n['k'] in ('bin', 'op') and n['op'] in ('+=', '-=') and len(n['a']) == 2:
                    r = P._root(n['a'][0]); d = T(n['a'][1])
                    if r and r not in incs: incs[r] = (1 if n['op'] == '+=' else -1) if d == ('int', 1) else ('step', d)
            # i-- > 0
            neg = False
            while c[0] == 'op' and c[1] == '!': c = c[2]; neg = not neg
            if c[0] == 'op' and c[1] in ('<', '=='):
                l, r = c[2], c[3]
                def vid(t):
                    return t[3] if t[0] == 'var' else None
                if c[1] == '==' and neg:
                    for a, b in ((l, r), (r, l)):
                        e = end_of(b)
                        if vid(a) and e is not None:
                            self.kind = 'elems'; self.cont = e; self.var = vid(a)
                            i = inits.get(self.var)
                            if i is not None and begin_of(i) is None: self.kind = 'unknown'
                    if self.kind == 'unknown':
                        for a, b in ((l, r), (r, l)):
                            if vid(a) and incs.get(vid(a)) == 1: self.kind = 'index'; self.var = vid(a); self.hi = b; self.lo = inits.get(self.var)
                elif c[1] == '<' and not neg and vid(l):
                    self.kind = 'index'; self.var = vid(l); self.hi = r; self.lo = inits.get(self.var)
                    if incs.get(self.var) != 1: self.kind = 'unknown' if self.var not in incs else 'index'; self.step = incs.get(self.var)
                elif c[1] == '<' and neg and vid(r):       # !(hi < i)  : i <= hi
                    self.kind = 'index'; self.var = vid(r); self.hi = ('op', '+', l, ('int', 1)); self.lo = inits.get(self.var)
                elif c[1] == '<' and neg and vid(l):       # !(i < lo) : i >= lo, downwards
                    self.kind = 'index'; self.var = vid(l); self.lo = r; self.down = True
                    i = inits.get(self.var)
                    self.hi = None if i is None else ('op', '+', i, ('int', 1))
                elif c[1] == '<' and not neg and r[0] == 'op' and r[1] in ('p--',) and vid(r[2]):   # lo < i--
                    self.kind = 'index'; self.var = vid(r[2]); self.lo = l; self.down = True; self.hi = inits.get(self.var)
        self.step = getattr(self, 'step', incs.get(self.var, 1) if k in ('for', 'while') and s.get('c') and self.var else 1)
        # containers subscripted with the loop variable
        self.indexed = set()
        if self.var and k != 'call':
            for n in walk(s.get('b') or {}):
                if n['k'] in ('op', 'bin') and n['op'] in ('[]', '()') and len(n['a']) >= 2:
                    if any(m['k'] == 'ref' and m.get('id') == self.var for a in n['a'][1:] for m in walk(a)): self.indexed.add(T(n['a'][0]))
                if n['k'] == 'call' and n.get('n') == 'at' and n.get('o'): self.indexed.add(T(n['o']))
    def partial(self, cont, sim=None):
        """Why the loop certainly misses elements of cont, or None."""
        if self.kind != 'index': return None
        ex = (lambda t: sim.expand(t)) if sim else (lambda t: t)
        lo = ex(self.lo) if self.lo is not None else None; hi = ex(self.hi) if self.hi is not None else None
        if lo is not None and lo[0] == 'int' and lo[1] > 0: return f'starts at {lo[1]}'
        if isinstance(self.step, tuple): return f'steps by {tstr(self.step[1])}'
        if hi is not None:
            if hi[0] == 'int': return f'stops at the constant {hi[1]}'
            off = offset(hi)
            if off is not None and off[1] < 0: return f'stops at {tstr(hi)}'
        return None
    def covers(self, cont):
        if self.kind == 'elems': return self.cont == cont
        if self.kind == 'index': return cont in self.indexed
        return False

def offset(t):
    """(base, k) when t is base + k with an integer k."""
    if t[0] == 'op' and t[1] in ('+', '-') and len(t) == 4:
        a, b = t[2], t[3]
        if t[1] == '+' and a[0] == 'int' : a, b = b, a
        if b[0] == 'int':
            o = offset(a) or (a, 0)
            return (o[0], o[1] + (b[1] if t[1] == '+' else -b[1]))
    return None
def begin_of(t):
    if t[0] == 'iter': return t[1]
    if t[0] == 'call' and isinstance(t[1], str) and t[1].split('::')[-1] in ('begin', 'cbegin', 'rbegin', 'crbegin'): return t[2] if t[2] is not None else (t[3][0] if t[3] else None)
    return None
def end_of(t):
    if t[0] == 'call' and isinstance(t[1], str) and t[1].split('::')[-1] in ('end', 'cend', 'rend', 'crend'): return t[2] if t[2] is not None else (t[3][0] if t[3] else None)
    return None

class ForAll:
    """State helper: 'event E happened for every element of container c'.  The state is a frozenset that a rule embeds in its own.

    conts: {container term: name}.  done(st) is the set of names completed since the last clear."""
    def __init__(self, conts): self.conts = conts
    def clear(self, st): return frozenset(x for x in st if x[0] == 'open')
    def node(self, st, n, sim):
        if n.kind == 'lin':
            L = n.aux; s = set(st)
            if ('open', L.no) in s:
                for c, nm in self.conts.items():
                    if ('ev', L.no, nm) not in s: s.add(('part', L.no, nm))
            s = {x for x in s if not (x[0] == 'ev' and x[1] == L.no)}
            s.add(('open', L.no))
            return frozenset(s)
        if n.kind == 'lout':
            L = n.aux; s = set(st)
            for c, nm in self.conts.items():
                cov = L.covers(c) or (L.kind == 'elems' and L.cont is not None and sim.expand(L.cont) == c) or (L.kind == 'index' and any(sim.expand(x) == c for x in L.indexed))
                if cov and ('part', L.no, nm) not in s and not L.partial(c, sim):
                    if ('open', L.no) not in s or ('ev', L.no, nm) in s: s.add(('done', nm))
                    if ('open', L.no) in s and ('ev', L.no, nm) in s:
                        for y in list(s):      # an inner loop that ran over everything is one event of the outer loops
                            if y[0] == 'open' and y[1] != L.no: s.add(('ev', y[1], nm))
            return frozenset(x for x in s if not (len(x) > 1 and x[1] == L.no and x[0] in ('open', 'ev', 'part')))
        return st
    def event(self, st, c, scalar=False):
        """c: container term (scalar: a single child, done at once)."""
        nm = self.conts.get(c)
        if nm is None: return st
        if scalar: return st | {('done', nm)}
        return st | {('ev', x[1], nm) for x in st if x[0] == 'open'}
    def done(self, st): return {x[1] for x in st if x[0] == 'done'}

# ==================================================================== control-flow graph
class Node:
    __slots__ = ('id', 'kind', 'expr', 'fr', 'succ', 'line', 'aux')
    def __init__(self, id, kind, expr, fr, line, aux=None):
        self.id = id; self.kind = kind; self.expr = expr; self.fr = fr; self.succ = []; self.line = line; self.aux = aux
    def where(self): return f"{self.fr.fn['file']}:{self.line}"

class CFG:
    """Inlined control-flow graph of a root function.

    inline(callee_fn, call_expr, frame) -> bool decides which repo functions are expanded."""
    def __init__(self, prog, fn, dyn=None, inline=None, this=('this',), bind=None, max_depth=12):
        self.P = prog; self.nodes = []; self.inline = inline or (lambda c, e, fr: False); self.max_depth = max_depth
        self.inlined = set(); self.uid = itertools.count(1); self.vtypes = {}
        self.root = Frame(fn, this=this, dyn=dyn, bind=bind)
        self.exit = self.new('exit', None, self.root, fn.get('end'))
        self.throw_exit = self.new('throwexit', None, self.root, fn.get('end'))
        body = self.stmt(fn['body'], self.exit, self.root, dict(ret=self.exit, brk=None, cont=None, exc=[self.throw_exit]))
        if fn['kind'] == 'ctor':
            for i in reversed(fn.get('inits') or []):
                if i.get('e') is None: continue
                n = self.new('init', i, self.root, i.get('l')); n.succ = [(body, None)]
                body = self.expr(i['e'], n, self.root, dict(ret=self.exit, brk=None, cont=None, exc=[self.throw_exit]))
        self.entry = self.new('entry', None, self.root, fn['line']); self.entry.succ = [(body, None)]
    def rpo(self):
        seen = set(); order = []
        st = [(self.entry, iter([x for x, _ in self.entry.succ]))]; seen.add(self.entry.id)
        while st:
            n, it = st[-1]
            for x in it:
                if x.id not in seen:
                    seen.add(x.id); st.append((x, iter([y for y, _ in x.succ]))); break
            else:
                st.pop(); order.append(n.id)
        return {i: k for k, i in enumerate(reversed(order))}
    def new(self, kind, expr, fr, line, aux=None):
        n = Node(len(self.nodes), kind, expr, fr, line, aux); self.nodes.append(n); return n
    # statements are built backwards: returns the entry node of s, which continues at nxt
    def stmt(self, s, nxt, fr, cx):
        if s is None: return nxt
        k = s['k']
        if k == 'block':
            for x in reversed(s['s']): nxt = self.stmt(x, nxt, fr, cx)
            return nxt
        if k == 'nop': return nxt
        if k == 'decl':
            for v in reversed(s['d']): nxt = self.var(v, nxt, fr, cx)
            return nxt
        if k == 'if':
            t = self.stmt(s['t'], nxt, fr, cx); e = self.stmt(s.get('e'), nxt, fr, cx)
            n = self.cond(s['c'], t, e, fr, cx)
            if s.get('var'): n = self.var(s['var'], n, fr, cx)
            if s.get('init'): n = self.stmt(s['init'], n, fr, cx)
            return n
        if k == 'while':
            head = self.new('nop', None, fr, s['l'], 'loop')
            c2 = dict(cx, brk=nxt, cont=head)
            b = self.stmt(s['b'], head, fr, c2)
            L = Loop(self.P, s, fr)
            c = self.cond(s['c'], self.mark('lin', L, b, fr), self.mark('lout', L, nxt, fr), fr, cx)
            if s.get('var'): c = self.var(s['var'], c, fr, cx)
            head.succ = [(c, None)]
            return head
        if k == 'do':
            head = self.new('nop', None, fr, s['l'], 'loop'); chk = self.new('nop', None, fr, s['l'])
            b = self.stmt(s['b'], chk, fr, dict(cx, brk=nxt, cont=chk))
            head.succ = [(b, None)]
            chk.succ = [(self.cond(s['c'], head, nxt, fr, cx), None)]
            return head
        if k == 'for':
            head = self.new('nop', None, fr, s['l'], 'loop'); inc = self.new('nop', None, fr, s['l'])
            b = self.stmt(s['b'], inc, fr, dict(cx, brk=nxt, cont=inc))
            inc.succ = [(self.expr(s['inc'], head, fr, cx) if s.get('inc') else head, None)]
            L = Loop(self.P, s, fr)
            head.succ = [(self.cond(s['c'], self.mark('lin', L, b, fr), self.mark('lout', L, nxt, fr), fr, cx) if s.get('c') else b, None)]
            return self.stmt(s.get('init'), head, fr, cx) if s.get('init') else head
        if k == 'rfor':
            head = self.new('iter', s, fr, s['l'], 'loop')
            bindn = self.new('rbind', s, fr, s['l'])
            self.vtypes[(self.P._owner(fr, s['var']['id']), s['var']['id'])] = s['var'].get('t', '')
            b = self.stmt(s['b'], head, fr, dict(cx, brk=nxt, cont=head))
            L = Loop(self.P, s, fr)
            bindn.succ = [(self.mark('lin', L, b, fr), None)]
            head.succ = [(bindn, True), (self.mark('lout', L, nxt, fr), False)]
            return self.expr(s['r'], head, fr, cx)
        if k == 'switch':
            sw = self.new('switch', s, fr, s['l'])
            cases = []
            body = s['b']['s'] if s['b'] and s['b']['k'] == 'block' else [s['b']]
            c2 = dict(cx, brk=nxt)
            flat = []
            for x in body:
                while x is not None and x['k'] in ('case', 'default'):
                    flat.append(('lab', x)); x = x['s']
                flat.append(('st', x))
            cur = nxt; hasdef = False
            for kind, x in reversed(flat):
                if kind == 'st': cur = self.stmt(x, cur, fr, c2)
                else:
                    if x['k'] == 'case': cases.append((cur, self.P.term(x['v'], fr)))
                    else: cases.append((cur, 'default')); hasdef = True
            labs = [l for _, l in cases if l != 'default']
            sw.aux = labs
            full = False
            if not hasdef and labs and all(l[0] == 'enum' for l in labs):
                en = self.P.F.enums.get(labs[0][1].rsplit('::', 1)[0])
                full = en is not None and {c['n'] for c in en['consts']} <= {l[1].rsplit('::', 1)[1] for l in labs}
            sw.succ = list(reversed(cases)) + ([] if hasdef or full else [(nxt, 'default')])
            e = self.expr(s['c'], sw, fr, cx)
            if s.get('var'): e = self.var(s['var'], e, fr, cx)
            return e
        if k == 'break': return cx['brk']
        if k == 'continue': return cx['cont']
        if k == 'return':
            r = self.new('ret', s.get('e'), fr, s['l']); r.succ = [(cx['ret'], None)]
            return self.boolval(s['e'], r, fr, cx) if s.get('e') else r
        if k == 'try':
            hs = []
            for h in s['h']:
                hb = self.stmt(h['b'], nxt, fr, cx); hn = self.new('catch', h, fr, s['l']); hn.succ = [(hb, None)]; hs.append(hn)
            return self.stmt(s['b'], nxt, fr, dict(cx, exc=hs + cx['exc'], intry=True))
        if k in ('case', 'default'): return self.stmt(s['s'], nxt, fr, cx)
        return self.expr(s, nxt, fr, cx)
    def mark(self, kind, L, nxt, fr):
        n = self.new(kind, None, fr, L.line, L); n.succ = [(nxt, None)]
        return n
    def var(self, v, nxt, fr, cx):
        if getattr(fr, 'is_lambda', False): fr.own.add(v['id'])
        self.vtypes[(self.P._owner(fr, v['id']), v['id'])] = v.get('t', '')
        n = self.new('decl', v, fr, v['l']); n.succ = [(nxt, None)]
        i = v.get('init')
        if i is None: return n
        if i['k'] == 'lambda': fr.lambdas[v['id']] = i; return n
        return self.boolval(i, n, fr, cx)
    def boolval(self, e, nxt, fr, cx):
        """A bool built with && || ! ?: in value position is evaluated by branching."""
        return self.expr(e, nxt, fr, cx)
    def cond(self, e, t, f, fr, cx):
        k = e['k']
        if k == 'un' and e['op'] == '!': return self.cond(e['a'][0], f, t, fr, cx)
        if k == 'op' and e['op'] == '!' and len(e['a']) == 1 : return self.cond(e['a'][0], f, t, fr, cx)
        if k == 'bin' and e['op'] == '&&': return self.cond(e['a'][0], self.cond(e['a'][1], t, f, fr, cx), f, fr, cx)
        if k == 'bin' and e['op'] == '||': return self.cond(e['a'][0], t, self.cond(e['a'][1], t, f, fr, cx), fr, cx)
        if k == 'bool': return t if e['v'] else f
        if k == 'cond':
            return self.cond(e['a'][0], self.cond(e['a'][1], t, f, fr, cx), self.cond(e['a'][2], t, f, fr, cx), fr, cx)
        b = self.new('branch', e, fr, e.get('l')); b.succ = [(t, True), (f, False)]
        return self.expr(e, b, fr, cx)
    def expr(self, e, nxt, fr, cx):
        """Chain of nodes for the side effects of e in evaluation order, then nxt."""
        if e is None or not isinstance(e, dict): return nxt
        k = e['k']
        if k == 'throw':
            n = self.new('throw', e, fr, e['l']); n.succ = [(cx['exc'][0], None)]
            return self.expr(e['a'][0], n, fr, cx)
        if k == 'bin' and e['op'] in ('&&', '||'):
            r = self.expr(e['a'][1], nxt, fr, cx)
            return self.cond(e['a'][0], r, nxt, fr, cx) if e['op'] == '&&' else self.cond(e['a'][0], nxt, r, fr, cx)
        if k == 'cond':
            return self.cond(e['a'][0], self.expr(e['a'][1], nxt, fr, cx), self.expr(e['a'][2], nxt, fr, cx), fr, cx)
        if k == 'lambda': return nxt
        if k in ('call', 'op', 'ctor', 'bin', 'un', 'new', 'delete'):
            act = None
            if k in ('call', 'op', 'ctor'):
                sub = self.try_inline(e, nxt, fr, cx)
                if sub is not None: act = sub
            if act is None:
                if k in ('call', 'new', 'delete', 'ctor', 'op') or (k == 'bin' and e['op'] in ASSIGN) or (k == 'un' and e['op'] in ('++', '--')):
                    n = self.new('act', e, fr, e.get('l')); n.succ = [(nxt, None)]
                    if cx.get('intry') and k in ('call', 'op', 'ctor'):
                        n.succ += [(h, 'exc') for h in cx['exc']]
                    act = n
                    lam = [a for a in e.get('a', []) if isinstance(a, dict) and (a['k'] == 'lambda' or (a['k'] == 'ref' and self.find_lambda(a, fr)))]
                    if lam and k == 'call':   # a lambda handed to an algorithm: executed any number of times
                        for a in lam:
                            L = a if a['k'] == 'lambda' else self.find_lambda(a, fr)
                            loop = self.new('nop', None, fr, e.get('l'), 'loop')
                            b = self.lambda_body(L, [], loop, fr, cx, e)
                            LP = Loop(self.P, e, fr)
                            it = self.new('iter', e, fr, e.get('l'), 'loop'); it.succ = [(self.mark('lin', LP, b, fr), True), (self.mark('lout', LP, act, fr), False)]
                            loop.succ = [(it, None)]
                            act = it
                else: act = nxt
            cur = act
            for c in reversed(children(e)): cur = self.expr(c, cur, fr, cx)
            return cur
        cur = nxt
        for c in reversed(children(e)): cur = self.expr(c, cur, fr, cx)
        return cur
    def find_lambda(self, ref, fr):
        for g in fr.stack():
            if ref.get('id') in g.lambdas: return g.lambdas[ref['id']]
            for n in (x for x in walk(g.fn.get('body') or {}) if x['k'] == 'var' and x['id'] == ref.get('id')):
                if n.get('init') and n['init']['k'] == 'lambda': return n['init']
        return None
    def lambda_body(self, L, args, nxt, fr, cx, e):
        if sum(1 for g in fr.stack()) > self.max_depth or any(getattr(g, 'lam', None) is L for g in fr.stack()): return nxt
        sub = Frame(fr.fn, this=fr.this, dyn=fr.dyn, uid=next(self.uid), parent=fr)
        sub.is_lambda = True; sub.lam = L
        sub.own = {n['id'] for n in walk(L['body']) if n['k'] == 'var'} | {p['id'] for p in L['params']}
        for p, a in zip(L['params'], args): sub.bind[p['id']] = self.P.term(a, fr)
        j = self.new('join', e, sub, e.get('l')); j.succ = [(nxt, None)]
        b = self.stmt(L['body'], j, sub, dict(ret=j, brk=None, cont=None, exc=cx['exc']))
        if args is not None and e['k'] == 'op': fr.calls[id(e)] = sub
        return b
    def try_inline(self, e, nxt, fr, cx):
        P = self.P
        if e['k'] == 'op' and e['op'] == '()' and e['a'] and e['a'][0]['k'] == 'ref':
            L = self.find_lambda(e['a'][0], fr)
            if L is not None: return self.lambda_body(L, e['a'][1:], nxt, fr, cx, e)
        o = None
        args = e['a']
        if e['k'] == 'call' and e.get('o'): o = P.term(e['o'], fr)
        c = P.resolve(e, fr, o) if e['k'] == 'call' else P.callee(e)
        if c is None or c.get('body') is None or c['pattern']: return None
        if e['k'] == 'op' and c['kind'] == 'method': o = P.term(args[0], fr); args = args[1:]
        if P.getter(c) is not None and e['k'] == 'call': return None
        if sum(1 for _ in fr.stack()) > self.max_depth or any(g.fn['id'] == c['id'] for g in fr.stack()): return None
        if not self.inline(c, e, fr): return None
        same = o is not None and o == fr.this
        sub = Frame(c, this=o if o is not None else ('this?',), dyn=fr.dyn if same else None, uid=next(self.uid), parent=fr)
        for p, a in zip(c['params'], args): sub.bind[p['id']] = P.term(a, fr)
        # a parameter that the callee reassigns, taken by value, is a fresh variable
        for p, a in zip(c['params'], args):
            if not p['t'].rstrip().endswith('&') and self._reassigned(c, p['id']): del sub.bind[p['id']]
        fr.calls[id(e)] = sub
        self.inlined.add(c['q'])
        j = self.new('join', e, sub, e.get('l')); j.succ = [(nxt, None)]
        b = self.stmt(c['body'], j, sub, dict(ret=j, brk=None, cont=None, exc=cx['exc'], intry=cx.get('intry')))
        en = self.new('enter', e, sub, e.get('l')); en.succ = [(b, None)]
        return en
    def _reassigned(self, f, vid):
        for n in walk(f['body']):
            if (n['k'] in ('bin', 'op') and n['op'] in ASSIGN) or (n['k'] in ('un', 'op') and n['op'] in ('++', '--')):
                if n['a'] and self.P._root(n['a'][0]) == vid: return True
        return False

# ==================================================================== property simulation
CONST = ('int', 'bool', 'enum', 'char', 'float', 'str', 'null')
def is_const(t): return isinstance(t, tuple) and t[0] in CONST

class Facts_:
    """Flow facts: val[term]=const, ne[term]=set, def[var]=term.  Immutable-ish dict copies."""
    __slots__ = ('d',)
    def __init__(self, d=None): self.d = d or {}
    def copy(self): return Facts_(dict(self.d))
    def join(self, o):
        d = {}
        for k, v in self.d.items():
            w = o.d.get(k)
            if w is None: continue
            if v == w: d[k] = v
            elif k[0] == 'ne': 
                i = v & w
                if i: d[k] = i
        return Facts_(d)
    def kill(self, t):
        self.d = {k: v for k, v in self.d.items() if not (mentions(k[1], t) or (isinstance(v, tuple) and mentions(v, t)))}
    def val(self, t):
        if is_const(t): return t
        return self.d.get(('val', t))
    def ne(self, t): return self.d.get(('ne', t), frozenset())
    def define(self, t): return self.d.get(('def', t))

class Sim:
    """step(state, node, label, sim) -> iterable of new automaton states, called on every edge leaving node."""
    def __init__(self, cfg, step, init, on_exit=None, kill_hook=None):
        self.cfg = cfg; self.P = cfg.P; self.step = step; self.on_exit = on_exit; self.steps = 0
        self.seen = {}; self.parent = {}; self.kill_hook = kill_hook
        self.F = None; self.cur = None
        self.run(init)
    # --- what a rule may ask
    def term(self, e, fr=None, deep=True):
        t = self.P.term(e, fr if fr is not None else self.cur.fr)
        return self.expand(t) if deep else t
    def expand(self, t, n=0, vol=True):
        """Substitute flow-sensitive definitions of variables and returned values.

        vol=False keeps loop variables (iterators, range elements) as they are: their expansion does not name one object."""
        if n > 12 or not isinstance(t, tuple): return t
        if t and t[0] in ('var', 'ret'):
            v = self.F.val(t)
            if v is not None: return v
            d = self.F.define(t)
            if d is not None and d != t and (vol or d[0] not in ('iter', 'elem')): return self.expand(d, n + 1, vol)
            return t
        if t and t[0] == 'op': 
            return norm_op(t[1], [self.expand(x, n + 1, vol) for x in t[2:]])
        return tuple(self.expand(x, n + 1, vol) if isinstance(x, tuple) else x for x in t)
    def expand_fields(self, t, n=0):
        """As expand, also through flow definitions of fields."""
        if n > 12 or not isinstance(t, tuple): return t
        if t and t[0] in ('var', 'ret', 'field', 'get'):
            v = self.F.val(t)
            if v is not None: return v
            d = self.F.define(t)
            if d is not None and d != t: return self.expand_fields(d, n + 1)
        if t and t[0] == 'op': return norm_op(t[1], [self.expand_fields(x, n + 1) for x in t[2:]])
        return tuple(self.expand_fields(x, n + 1) if isinstance(x, tuple) else x for x in t)
    def wtargets(self, n):
        """Expanded terms written by an action node; a plain local is not expanded unless it is a reference."""
        out = []
        for t in self.P.targets(n.expr, n.fr):
            if t[0] == 'var' and n.expr['k'] != 'call' and not self.cfg.vtypes.get((t[1], t[3]), '').rstrip().endswith('&'):
                out.append(t); continue
            if t[0] == 'var' and n.expr['k'] == 'call':
                # by-reference argument or mutating method: through a reference or iterator it reaches the source
                ty = self.cfg.vtypes.get((t[1], t[3]), '')
                d = self.F.define(t)
                if not ty.rstrip().endswith('&') and not (d is not None and d[0] == 'iter'): out.append(t); continue
            out.append(self.expand(t))
        return out
    def value(self, e, fr=None):
        t = self.P.term(e, fr if fr is not None else self.cur.fr)
        return self.F.val(t) or self.F.val(self.expand(t))
    def path(self, key):
        out = []
        while key is not None:
            out.append(key); key = self.parent.get(key)
        return list(reversed(out))
    def path_lines(self, key=None, limit=14):
        ks = self.path(key if key is not None else self.curkey)
        ls = []
        for nid, _ in ks:
            n = self.cfg.nodes[nid]
            if n.kind in ('branch', 'ret', 'throw', 'act', 'switch') and n.line:
                s = f"{n.fr.fn['file'].split('/')[-1]}:{n.line}"
                if not ls or ls[-1] != s: ls.append(s)
        return ls[-limit:]
    # --- engine
    def run(self, init):
        e = self.cfg.entry
        k0 = (e.id, init)
        self.seen[k0] = Facts_(); self.parent[k0] = None
        rpo = self.cfg.rpo()
        heap = [(rpo.get(e.id, 0), 0, k0)]; inwork = {k0}; tick = 1
        while heap:
            key = heapq.heappop(heap)[2]; inwork.discard(key)
            self.steps += 1
            if self.steps > 400000: raise AnalysisBroken('property simulation did not converge')
            nid, st = key
            n = self.cfg.nodes[nid]
            for succ, lab in n.succ:
                F = self.seen[key].copy()
                self.F = F; self.cur = n; self.curkey = key
                if not self.transfer(n, lab, F): continue
                outs = self.step(st, n, lab, self)
                if outs is None: outs = [st]
                for s2 in outs:
                    k2 = (succ.id, s2)
                    old = self.seen.get(k2)
                    if old is None: self.seen[k2] = F.copy(); self.parent[k2] = key
                    else:
                        j = old.join(F)
                        if j.d == old.d: continue
                        self.seen[k2] = j
                    if k2 not in inwork:
                        heapq.heappush(heap, (rpo.get(succ.id, 0), tick, k2)); tick += 1; inwork.add(k2)
            if not n.succ and self.on_exit:
                self.F = self.seen[key].copy(); self.cur = n; self.curkey = key
                self.on_exit(st, n, self)
    def assign(self, L, rhs_expr, rhs_term, F):
        F.kill(L)
        if rhs_term is None: return
        if mentions(rhs_term, L): return
        v = F.val(rhs_term)
        if v is None and rhs_term[0] == 'op':
            v = self.evalc(rhs_term, F)
        if v is not None: F.d[('val', L)] = v
        ne = F.ne(rhs_term)
        if ne: F.d[('ne', L)] = ne
        if rhs_term[0] == 'call' and isinstance(rhs_term[1], str) and rhs_term[1].split('::')[-1] in ('begin', 'cbegin', 'rbegin', 'crbegin'):
            rhs_term = ('iter', rhs_term[2] if rhs_term[2] is not None else (rhs_term[3][0] if rhs_term[3] else None))
        if not is_const(rhs_term): F.d[('def', L)] = rhs_term
    def evalc(self, t, F, n=0):
        """Constant value of a boolean term under the facts, or None."""
        v = F.val(t)
        if v is not None or n > 10: return v
        if t[0] in ('var', 'ret') and F.define(t) is not None: return self.evalc(F.define(t), F, n + 1)
        if t[0] == 'op' and t[1] == '!':
            x = self.evalc(t[2], F, n + 1)
            return ('bool', not x[1]) if x and x[0] == 'bool' else None
        if t[0] == 'op' and t[1] == '==' :
            a = self.evalc(t[2], F, n + 1); b = self.evalc(t[3], F, n + 1)
            if a and b: return ('bool', a == b)
            for x, y in ((t[2], b), (t[3], a)):
                if y:
                    z = x; m = 0
                    while z is not None and m < 8:
                        if y in F.ne(z): return ('bool', False)
                        z = F.define(z); m += 1
        if t[0] == 'op' and t[1] == '<':
            a = self.evalc(t[2], F, n + 1); b = self.evalc(t[3], F, n + 1)
            if a and b and a[0] == 'int' and b[0] == 'int': return ('bool', a[1] < b[1])
        if t[0] == 'op' and t[1] == '&&':
            xs = [self.evalc(x, F, n + 1) for x in t[2:]]
            if any(x == ('bool', False) for x in xs): return ('bool', False)
            if all(x == ('bool', True) for x in xs): return ('bool', True)
        if t[0] == 'op' and t[1] == '||':
            xs = [self.evalc(x, F, n + 1) for x in t[2:]]
            if any(x == ('bool', True) for x in xs): return ('bool', True)
            if all(x == ('bool', False) for x in xs): return ('bool', False)
        return None
    def learn(self, t, pol, F, n=0):
        """Record that boolean term t has polarity pol."""
        if t[0] == 'op' and t[1] == '!': return self.learn(t[2], not pol, F, n)
        if t[0] == 'op' and t[1] == '&&' and pol:
            for x in t[2:]: self.learn(x, True, F, n)
        if t[0] == 'op' and t[1] == '||' and not pol:
            for x in t[2:]: self.learn(x, False, F, n)
        F.d[('val', t)] = ('bool', pol)
        if t[0] == 'op' and t[1] == '==':
            for x, y in ((t[2], t[3]), (t[3], t[2])):
                c = F.val(y)
                if c is not None and not is_const(x):
                    z = x; m = 0
                    while z is not None and m < 6:
                        if pol: F.d[('val', z)] = c
                        else: F.d[('ne', z)] = F.ne(z) | {c}
                        z = F.define(z); m += 1
        if t[0] in ('var', 'ret') and F.define(t) is not None and n < 8: self.learn(F.define(t), pol, F, n + 1)
    def transfer(self, n, lab, F):
        P = self.P; fr = n.fr; k = n.kind
        if k == 'branch':
            t = P.term(n.expr, fr)
            v = self.evalc(t, F)
            if v is None: v = self.evalc(self.expand(t, vol=False), F)
            if v is not None and v[0] == 'bool' and v[1] != lab: return False
            self.learn(t, lab, F)
            x = self.expand(t, vol=False)
            if x != t and not is_const(x): self.learn(x, lab, F)
            return True
        if k == 'switch':
            t = P.term(n.expr['c'], fr)
            v = F.val(t) or F.val(self.expand(t))
            if lab == 'default':
                if v is not None and v in n.aux: return False
                F.d[('ne', t)] = F.ne(t) | frozenset(n.aux)
            else:
                if v is not None and v != lab: return False
                if lab in F.ne(t): return False
                F.d[('val', t)] = lab
            return True
        if k == 'decl':
            L = P.term(n.expr, fr)
            L = ('var', P._owner(fr, n.expr['id']), n.expr['n'], n.expr['id'])
            i = n.expr.get('init')
            if i is None: F.kill(L)
            elif i['k'] != 'lambda':
                self.assign(L, i, P.term(i, fr), F)
            return True
        if k == 'rbind':
            L = ('var', P._owner(fr, n.expr['var']['id']), n.expr['var']['n'], n.expr['var']['id'])
            self.assign(L, None, ('elem', P.term(n.expr['r'], fr)), F)
            return True
        if k == 'enter':
            # value parameters that are reassigned in the callee
            e = n.expr; c = n.fr.fn
            args = e['a'][1:] if (e['k'] == 'op' and c['kind'] == 'method') else e['a']
            for p, a in zip(c['params'], args):
                if p['id'] not in n.fr.bind:
                    self.assign(('var', n.fr.no, p['n'], p['id']), a, P.term(a, n.fr.parent), F)
            return True
        if k == 'ret':
            if fr.uid is not None:
                R = ('ret', fr.uid)
                F.kill(R)
                if n.expr is not None: self.assign(R, n.expr, P.term(n.expr, fr), F)
            return True
        if k == 'init':
            if n.expr.get('field'): self.assign(('field', ('this',), n.expr['field']), n.expr['e'], P.term(n.expr['e'], fr), F)
            return True
        if k == 'act':
            e = n.expr
            if e['k'] in ('bin', 'op') and e['op'] == '=' and len(e['a']) == 2:
                L = P.term(e['a'][0], fr)
                self.assign(L, e['a'][1], P.term(e['a'][1], fr), F)
                return True
            for t in P.targets(e, fr):
                it = F.define(t)
                if it is not None and t[0] == 'var' and self.cfg.vtypes.get((t[1], t[3]), '').rstrip().endswith('&'):
                    F.kill(self.expand(t)); F.d[('def', t)] = it      # through a reference: the referent changes, the binding stays
                    continue
                F.kill(t)
                if it is not None and it[0] == 'iter' and e.get('op') in ('++', '--', '+=', '-='): F.d[('def', t)] = it
            if e['k'] == 'call' and e.get('o'):
                o = P.term(e['o'], fr)
                c = P.resolve(e, fr, o)
                if c is not None:
                    for fld in P.writes(c, fr.dyn if o == fr.this else None): F.kill(('field', o, fld))
                elif (e.get('f') or '').startswith('bertini::') and not e.get('cm') and not e.get('st'):
                    d = F.define(o) if e.get('arrow') else None
                    F.kill(o)
                    if d is not None: F.d[('def', o)] = d
            if self.kill_hook: self.kill_hook(n, F, self)
            return True
        return True

def reach(cfg, start):
    seen = {start.id}; st = [start]
    while st:
        n = st.pop()
        for s, _ in n.succ:
            if s.id not in seen: seen.add(s.id); st.append(s)
    return seen
