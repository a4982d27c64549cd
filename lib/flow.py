"""Flow: abstract interpretation of control-heavy code over a finite set of abstract paths.

Every function body is abstracted to the set of its acyclic path shapes: values are opaque terms, a branch on an opaque
condition forks, a call that is not followed is an event with a fresh result (and fresh values for what it may write), and a
loop is abstracted by one generic iteration from havocked carried values (no iteration count is explored, and nothing is
handed to a solver).  A rule is a predicate over path shapes: which events happened in which order, which conditions were
established, what is returned.  Unlike denote.Den nothing here is undecided because of vocabulary: an unknown expression is
an opaque term over its parts.
"""
from fractions import Fraction
from denote import *
from denote import _Ret, _Brk, _Cont, _Throw, _H
import denote

class _Dead(Exception): pass
class _Round(_Dead): pass
FLIP = {'>': '<', '>=': '<='}

def enum_name(t): return t[1].split('::')[-1] if isinstance(t, tuple) and t and t[0] == 'enum' else None

def subterms(t):
    yield t
    if isinstance(t, tuple):
        for x in t:
            if isinstance(x, tuple): yield from subterms(x)

class Ev:
    """an event of a path: a call that was not followed"""
    __slots__ = ('n', 'q', 'obj', 'args', 'res', 'i', 'line', 'outs', 'nf', 'c', 'snap')
    def __init__(s, **k):
        s.c = None; s.snap = {}
        for a, b in k.items(): setattr(s, a, b)
    def __repr__(s): return f'{s.n}#{s.i}'
    def __hash__(s): return hash((s.n, s.i))

class Flow(Den):
    opaque = ()       # names never followed
    snapf = ()        # fields whose values are recorded with each event
    rounds = False    # keep paths that end by going round a loop again (p.round: the loop's line)
    follow = None     # predicate(callee) overriding the default
    def __init__(self, F, P, opaque=(), maxpaths=3000, depth=8, **k):
        super().__init__(F, P, depth=depth, maxpaths=maxpaths, **k)
        self.opaque = set(opaque); self.discovering = False; self.wcache = {}; self.unroll = 0; self.assume = None
    # -------------- paths: drop dead ones
    def paths(self, action, st):
        def act():
            try: action()
            except _Round as x:
                self.st.env[('f', '$round')] = ('int', x.args[0])
                if not self.rounds: self.st.env[('f', '$dead')] = ('bool', True)
            except _Dead: self.st.env[('f', '$dead')] = ('bool', True)
        ps = super().paths(act, st)
        return [p for p in ps if ('f', '$dead') not in p.st.env]
    # -------------- events
    def events(self): return self.st.env.get(('f', '$ev'), ())
    def log(self, ev): self.st.env[('f', '$ev')] = self.events() + (_H(ev),)
    def epoch(self): return self.st.env.get(('f', '$epoch'), 0)
    def bumpepoch(self): self.st.env[('f', '$epoch')] = self.epoch() + 1
    def uid(self):
        n = self.st.env.get(('f', '$n'), 0) + 1; self.st.env[('f', '$n')] = n; return n
    # -------------- decisions
    def canon(self, c):
        neg = False
        while c[0] == 'not': c = c[1]; neg = not neg
        if c[0] == 'cmp':
            op, a, b = c[1:4]
            if op in FLIP: op, a, b = FLIP[op], b, a
            if op == '<=': op, a, b, neg = '<', b, a, not neg      # NaN aside
            if op == '!=': op, neg = '==', not neg
            if op == '==' and a[0] in ('enum', 'int', 'bool') and b[0] not in ('enum', 'int', 'bool'): a, b = b, a
            c = ('cmp', op, a, b)
            if op == '==' and b == ('bool', True): return self.canon2(a, neg)
            if op == '==' and b == ('bool', False): return self.canon2(a, not neg)
        return c, neg
    def canon2(self, c, neg):
        c, n = self.canon(c); return c, n != neg
    def decide(self, c):
        c = self.resolve(c)
        c, neg = self.canon(c)
        if c[0] == 'cmp' and c[1] == '==' and c[3][0] == 'enum':
            for k, v in list(self.st.facts) + list(getattr(self, '_known', {}).items()):
                if v and k[0] == 'cmp' and k[1] == '==' and k[2] == c[2] and k[3][0] == 'enum' and k[3] != c[3]: return neg
        if self.assume is not None:
            a = self.assume(self, c)
            if a is not None:
                if self.st.facts is not None and not self.discovering: self.st.facts = self.st.facts + type(self.st.facts)([(c, bool(a))])
                return bool(a) != neg
        return super().decide(('not', c) if neg else c)
    # -------------- tolerant reading and writing
    def read(self, loc):
        if loc[0] == 'f' and loc not in self.st.env and loc[1] not in self.fields: return ('sym', loc[1])
        if loc[0] == 'at':
            if loc in self.st.env: return self.st.env[loc]
            return ('attr', self.read(loc[1]), loc[2])
        if loc[0] == 'v' and loc not in self.st.env: return ('sym', 'v' + str(loc[2]))
        try: return super().read(loc)
        except Undecided: return ('sym', str(loc))
    def write(self, loc, v):
        if isinstance(v, tuple) and len(v) == 3 and v[0] in ('+', '-', '*') and v[1][:1] == ('int',) and v[2][:1] == ('int',): v = ('int', {'+': v[1][1] + v[2][1], '-': v[1][1] - v[2][1], '*': v[1][1] * v[2][1]}[v[0]])
        if loc[0] == 'at':
            self.st.env[loc] = v
            if self.wlog is not None: self.wlog.add(loc)
            return
        for k in [k for k in self.st.env if k[0] == 'at' and self.under(k, loc)]: del self.st.env[k]
        try: super().write(loc, v)
        except Undecided: pass
    def under(self, k, loc):
        while k[0] == 'at':
            k = k[1]
            if k == loc: return True
        return False
    def lval(self, e):
        if e['k'] == 'mem' and e.get('b') is not None and e['b']['k'] != 'this':
            try: return super().lval(e)
            except Undecided: pass
            try: v = self.val(e['b']) if e['b']['k'] not in ('ref', 'mem', 'cast', 'op', 'un') else None
            except Undecided: v = None
            if v == ('this',): return ('f', e['n'])
            return ('at', self.lval(e['b']), e['n'])
        if e['k'] == 'un' and e['op'] == '*' and e['a'][0]['k'] == 'this': raise Undecided('*this')
        if e['k'] == 'op' and e['op'] == '()' and len(e['a']) >= 2: return ('el', self.lval(e['a'][0]), tuple(['tup'] + [self.val(x) for x in e['a'][1:]]) if len(e['a']) > 2 else self.val(e['a'][1]))
        if e['k'] == 'call' and e.get('o') is not None and (e.get('t') or '').rstrip().endswith('&') is False and e.get('n') in ('col', 'row', 'segment', 'head', 'tail', 'block', 'topRows', 'bottomRows', 'noalias'):
            b = self.lval(e['o'])
            if e['n'] == 'noalias': return b
            return ('el', b, ('r', e['n']) + tuple(self.val(x) for x in e['a']))
        if e['k'] == 'call':
            # a function of this object returning a reference to a member
            try: return super().lval(e)
            except Undecided: pass
            c = self.P.resolve(e, None, None)
            if c is not None and c.get('body') and (e.get('o') is None or e['o']['k'] == 'this' or self.isthis(e['o'])):
                g = self.P.getter(c)
                if g is not None and g['k'] == 'mem' and (g.get('b') is None or g['b']['k'] == 'this' or self.isthis(g['b'])): return ('f', g['n'])
        return super().lval(e)
    def isthis(self, e):
        while e['k'] == 'cast': e = e['a'][0]
        if e['k'] == 'this': return True
        if e['k'] == 'un' and e['op'] == '*' or e['k'] == 'op' and e['op'] == '*' and len(e['a']) == 1: return self.isthis(e['a'][0])
        if e['k'] == 'call' and e.get('n') in ('AsDerived', 'AsFlavor', 'Self'): return True
        return False
    # -------------- tolerant evaluation
    def val(self, e):
        if self.isthis(e): return ('this',)
        try: return super().val(e)
        except Undecided: pass
        parts = []
        for x in self.kids(e):
            try: parts.append(self.val(x))
            except Undecided: parts.append(('sym', x['k']))
        return ('opq', e['k'], e.get('op') or e.get('n') or '') + tuple(parts)
    def kids(self, e):
        out = []
        for k in ('o', 'b'):
            if isinstance(e.get(k), dict) and 'k' in e[k]: out.append(e[k])
        for x in e.get('a') or []:
            if isinstance(x, dict): out.append(x)
        return out
    def binop(self, e):
        op = e['op']; A = e['a']
        if op in ('==', '!=', '<', '<=', '>', '>=') and len(A) == 2:
            h = self.hook(e)
            if h is not None: return h
            a, b = self.val(A[0]), self.val(A[1])
            if a[0] == b[0] == 'int': return ('bool', {'==': a[1] == b[1], '!=': a[1] != b[1], '<': a[1] < b[1], '<=': a[1] <= b[1], '>': a[1] > b[1], '>=': a[1] >= b[1]}[op])
            return ('cmp', op, a, b)
        if op in ('+=', '-=', '*=', '/=') or op in ('<<', '>>') and len(A) == 2 or op == '=':
            h = self.hook(e)
            if h is not None: return h
            b = self.val(A[1])
            if op in ('<<', '>>'): return ('none',)
            try: l = self.lval(A[0])
            except Undecided: return b
            v = b if op == '=' else (op[0], self.read(l), b)
            self.write(l, v); return v
        return super().binop(e)
    def arith(self, op, a, b, ints=False):
        if a[0] == b[0] == 'int' and op in '+-*': return ('int', {'+': a[1] + b[1], '-': a[1] - b[1], '*': a[1] * b[1]}[op])
        return (op, a, b)
    def ctor(self, e):
        h = self.hook(e)
        if h is not None: return h
        A = e['a']; t = (e.get('t') or '').replace('const ', '')
        if len(A) == 1 and not t.startswith('bertini::'): return self.val(A[0])
        if not A and (t.startswith('std::vector') or t.startswith('std::deque')): return ('list',)
        try:
            if not t.startswith('bertini::'): return super().ctor(e)
        except Undecided: pass
        if len(A) == 1 and t in (A[0].get('t') or '').replace('const ', ''): return self.val(A[0])
        return ('new', t[:80]) + tuple(self.val(a) for a in A)
    PURE = ('std::', 'Eigen::', 'boost::')
    def call(self, e):
        h = self.hook(e)
        if h is not None: return h
        f = e.get('f') or ''; n = e.get('n') or ''; A = e.get('a') or []; o = e.get('o')
        if n == '__assert_fail': raise _Dead()
        if f in PASS or n in ('real_cast', 'static_pointer_cast'):
            if f == 'std::get' and e.get('ta'):
                try: return self.read(self.lval(e))
                except Undecided: pass
            return self.val(A[0])
        if e.get('conv') and o is not None: return self.val(o)
        if n in self.opaque or f in self.opaque: return self.event(e)
        c = self.P.resolve(e, None, None)
        this = o is None or self.isthis(o)
        if this and self.dyn and e.get('virt'):
            # a virtual function of this object: the override of its dynamic class
            own = next((g for k in [self.dyn] + list(self.F_bases(self.dyn)) for g in self.F.fn(f'{k}::{n}') if g.get('body') and len(g['params']) == len(A)), None)
            if c is None or c.get('virtual') or not c.get('body'): c = own or c
        if c is not None and c.get('body') and not c.get('pattern') and 'bertini' in f:
            ok = c['kind'] not in ('method', 'conv') or c.get('static') or this
            if self.follow: ok = self.follow(self, e, c, ok)
            if ok and this and c.get('virtual'): c = self.target_this(e) or c
            if ok and self.depth < self.maxdepth and c['id'] not in getattr(self, 'stack', ()):
                self.stack = getattr(self, 'stack', ()) + (c['id'],)
                try: return self.apply(c, A)
                finally: self.stack = self.stack[:-1]
        if f.startswith(('std::vector', 'std::deque')) and n in ('push_back', 'emplace_back', 'clear', 'size', 'empty', 'begin', 'end', 'front', 'back', 'at', 'reserve', 'pop_back', 'pop_front', 'resize', 'assign'):
            try: return self.container(e, n, A, o)
            except Undecided:
                if n in ('size', 'empty'):
                    try: z = self.size(self.val(o)); return z if n == 'size' else ('cmp', '==', z, ('int', 0))
                    except Undecided: pass
        return self.event(e)
    def container(self, e, n, A, o):
        l = self.lval(o); b = self.read(l)
        if n == 'size': return self.size(b)
        if n == 'empty': return ('cmp', '==', self.size(b), ('int', 0))
        if n in ('push_back', 'emplace_back'):
            v = self.val(A[0]) if A else ('none',)
            self.note(e, l, [v]); self.write(l, ('pushed', b, v)); return ('none',)
        if n == 'clear': self.note(e, l, []); self.write(l, ('list',)); return ('none',)
        if n == 'reserve': return ('none',)
        if n in ('resize', 'assign'):
            v = [self.val(a) for a in A]; self.note(e, l, v); self.write(l, ('mut', n, self.uid())); return ('none',)
        if n in ('pop_back', 'pop_front'): self.note(e, l, []); self.write(l, (n, b)); return ('none',)
        return ('r', n, b) + tuple(self.val(a) for a in A)
    def note(self, e, obj, args):
        i = self.uid(); self.log(Ev(n=e.get('n') or '', q=e.get('f') or '', obj=obj, args=args, res=('none',), i=i, line=e.get('l'), outs={}, nf=len(self.st.facts)))
    def event(self, e):
        f = e.get('f') or ''; n = e.get('n') or ''; A = e.get('a') or []; o = e.get('o')
        obj = None
        if o is not None:
            try: obj = self.val(o)
            except Undecided: obj = ('sym', 'obj')
        args = [self.val(a) for a in A]
        c = self.F.decl(e['fid']) if hasattr(self.F, 'decl') and e.get('fid') else None
        c = c or self.P.resolve(e, None, None)
        pure = f.startswith(self.PURE) and (e.get('cm') is not False or o is None) and not f.startswith(('std::shuffle', 'boost::random'))
        outs = {}
        i = None
        ptypes = [p['t'] for p in c['params']] if c else (e.get('pt') or [])
        muts = []
        for j, a in enumerate(A):
            t = ptypes[j] if j < len(ptypes) else ''
            if t.rstrip().endswith('&') and not t.startswith('const ') and not t.rstrip().endswith('&&') and ' const' not in t:
                try: muts.append((j, self.lval(a)))
                except Undecided: pass
        cm = c['const'] if c and c['kind'] == 'method' else e.get('cm', True)
        if pure and not muts and n not in ('insert', 'erase', 'resize', 'swap', 'assign', 'compute', 'setZero', 'operator='): return ('r', n, obj or ('none',)) + tuple(args)
        i = self.uid()
        res = ('r', n, i)
        snap0 = None
        for j, l in muts:
            outs[j] = ('out', n, i, j); self.write(l, outs[j])
        if o is not None and not cm and not self.isthis(o) and (f.startswith(self.PURE)):
            try: self.write(self.lval(o), ('mut', n, i))
            except Undecided: pass
        self.log(Ev(n=n, q=f, obj=obj, args=args, res=res, i=i, line=e.get('l'), outs=outs, nf=len(self.st.facts), c=c, snap={x: self.read(('f', x)) for x in self.snapf}))
        if f.startswith('bertini') or not f.startswith(self.PURE): 
            if self.havoc_on(e, c): self.havoc_fields(e, c, i)
        return res
    def havoc_on(self, e, c): return False
    def havoc_fields(self, e, c, i): pass
    def vardecl(self, v):
        if v['k'] != 'var': return
        if v.get('init') is None:
            self.st.env[('v', self.frame, v['id'])] = ('list',) if v['t'].startswith(('std::vector', 'std::deque')) else ('uninit', v['n'])
            if self.wlog is not None: self.wlog.add(('v', self.frame, v['id']))
            return
        return super().vardecl(v)
    # -------------- loops: one generic iteration
    def rfor(self, s):
        try: l = self.lval(s['r'])
        except Undecided: l = None
        b = self.read(l) if l is not None else self.val(s['r'])
        vloc = ('v', self.frame, s['var']['id'])
        if b[0] == 'list' and len(b) <= 9:
            # a range known element by element
            for k in range(len(b) - 1):
                if s['var']['t'].rstrip().endswith('&') and l is not None: self.st.env[vloc] = ('alias', ('el', l, ('int', k)))
                else: self.st.env[vloc] = b[1 + k]
                try: self.stmt(s['b'])
                except _Cont: pass
                except _Brk: break
            return
        st = {'k': 0}
        def cond(): return ('more', _H(s), self.st.env.get(('f', '$more'), ('int', 0)))
        def body():
            i = ('idx', _H(s), self.uid())
            if s['var']['t'].rstrip().endswith('&') and l is not None: self.st.env[vloc] = ('alias', ('el', l, i))
            else: self.st.env[vloc] = ('elem', b, i)
            self.stmt(s['b'])
        def inc(): self.write(('f', '$more'), ('sym', str(self.uid())))
        self.genloop(cond, body, inc, s['l'])
    def loop(self, s):
        cond = (lambda: self.truth(self.val(s['c']))) if s.get('c') else (lambda: ('bool', True))
        body = lambda: self.stmt(s['b'])
        inc = (lambda: self.val(s['inc'])) if s.get('inc') else (lambda: None)
        self.genloop(cond, body, inc, s['l'], do=s['k'] == 'do')
    def genloop(self, cond, body, inc, line, do=False):
        # a loop whose condition is a constant is followed iteration by iteration
        if self.unroll:
            first = do
            for _ in range(self.unroll):
                c = ('bool', True) if first else self.resolve(cond()); v = 1 if first else rational(c, {}); first = False
                if v is None:
                    a = self.assume(self, self.canon(c)[0]) if self.assume is not None else None
                    if a is not None and self.canon(c)[1]: a = not a
                    if a is None: break
                    v = a
                if not v: return
                if self.discovering is False: self.log(Ev(n='$iter', q='', obj=None, args=[], res=('none',), i=self.uid(), line=line, outs={}, nf=len(self.st.facts)))
                try:
                    try: body()
                    except _Cont: pass
                    inc()
                except _Brk: return
                do = False
            else: raise _Dead()
        if not do and not self.decide(cond()): return
        # what one iteration may write
        base = self.st.copy(); swl = self.wlog; W = set()
        pos, dec = self.pos, self.dec
        fr, pa, nf, dp, sk = self.frame, dict(getattr(self, 'parent', {})), self.nframe, self.depth, getattr(self, 'stack', ())
        def action():
            self.frame, self.parent, self.nframe, self.depth, self.stack = fr, dict(pa), nf, dp, sk
            try: body()
            except _Cont: pass
            inc()
        if self.discovering:
            # only the locations written matter here: one pass over the body
            try:
                try: body()
                except _Cont: pass
                inc()
            except _Brk: pass
            return
        key = (line, fr, nf, sk, frozenset((k, v) for k, v in base.env.items() if isinstance(v, tuple) and v and v[0] == 'alias'))
        if key in self.wcache: W = self.wcache[key]
        else:
            for _ in range(4):
                st = base.copy()
                for w in W: st.env[w] = ('acc', line, w)
                self.wlog = set(); self.discovering = True
                known = getattr(self, '_known', {}); self._known = {}
                try: Den.paths(self, lambda: self.swallow(action), st)
                finally: self._known = known; self.discovering = False; self.frame, self.parent, self.nframe, self.depth, self.stack = fr, pa, nf, dp, sk
                new = {w for w in self.wlog if w[0] in ('f', 'at') or w in base.env}
                if new <= W: break
                W |= new
            self.wcache[key] = W
        self.wlog = swl
        u = self.uid()
        if self.decide(('first', line, u)): pass
        else:
            for w in W:
                self.st.env[w] = ('hav', u, w)
                if self.wlog is not None: self.wlog.add(w)
            self.log(Ev(n='$again', q='', obj=None, args=[], res=('none',), i=u, line=line, outs={}, nf=len(self.st.facts)))
            if not do and not self.decide(cond()): raise _Dead()
        self.log(Ev(n='$iter', q='', obj=None, args=[], res=('none',), i=u, line=line, outs={}, nf=len(self.st.facts)))
        try:
            try: body()
            except _Cont: pass
            inc()
            if self.decide(cond()): raise _Round(line)
        except _Brk: pass
        self.log(Ev(n='$exit', q='', obj=None, args=[], res=('none',), i=u, line=line, outs={}, nf=len(self.st.facts)))
    def swallow(self, action):
        try: action()
        except _Dead: pass
    def stmt(self, s):
        if s is not None and s['k'] == 'try':
            try: return self.stmt(s['b'])
            except _Throw: raise
        if s is not None and s['k'] == 'throw':
            for x in walk(s):
                pass
            raise _Throw()
        try: return super().stmt(s)
        except Undecided as x: raise
    # -------------- reading results
    def run(self, fn, args=None, dyn=None, st=None):
        if args is None: args = [('sym', p['n'] or f'p{i}') for i, p in enumerate(fn['params'])]
        st = st or St()
        self.stack = (fn['id'],)
        try: ps = self.function(fn, args, dyn, st)
        except Lost as x: raise Undecided(str(x))
        for p in ps:
            p.ev = [x.e for x in p.st.env.get(('f', '$ev'), ())]
            p.fd = {}
            p.round = p.st.env.get(('f', '$round'), (0, None))[1]
            if p.round is not None: p.kind = 'round'
            for c, v in p.facts: p.fd[c] = v
        return ps
    def apply(self, c, args, vals=None):
        # parameters passed in as plain symbols can be written through
        return super().apply(c, args, vals)

def holds(p, c):
    """True/False/None: what the path established about condition c (('cmp', op, a, b) or a term)"""
    f = Flow.canon(None, c) if c[0] == 'cmp' else (c, False)
    c2, neg = f
    v = p.fd.get(c2)
    return None if v is None else v != neg

def status(p, t, ok='Success'):
    """'ok', 'fail' or None for a status code term at the end of a path"""
    n = enum_name(t)
    if n is not None: return 'ok' if n == ok else 'fail'
    for c, v in p.facts:
        if c[0] == 'cmp' and c[1] == '==' and c[2] == t and enum_name(c[3]):
            if enum_name(c[3]) == ok: return 'ok' if v else 'fail'
            if v: return 'fail'
    return None
def which(p, t):
    """the enumerator a term is known to equal"""
    n = enum_name(t)
    if n: return n
    for c, v in p.facts:
        if v and c[0] == 'cmp' and c[1] == '==' and c[2] == t and enum_name(c[3]): return enum_name(c[3])

def param_args(fn):
    """symbols for inputs, locations for what the function writes through references"""
    out = []
    for i, p in enumerate(fn['params']):
        t = p['t'].rstrip()
        n = p['n'] or f'p{i}'
        if t.endswith('&') and not t.endswith('&&') and not t.startswith('const '): out.append(('alias', ('f', '$' + n)))
        else: out.append(('sym', n))
    return out
def outv(d, p, n):
    """final value of the reference parameter n"""
    return d.final(p, ('f', '$' + n)) if ('f', '$' + n) in p.st.env else ('sym', '$' + n)

def numeric(t, asg):
    """integer value of a term under an assignment of its leaves (unsigned 32 bit), or None"""
    if t[0] == 'int': return t[1]
    if t[0] == 'bool': return int(t[1])
    if t in asg: return asg[t]
    if t[0] in ('+', '-', '*', '%') and len(t) == 3:
        a, b = numeric(t[1], asg), numeric(t[2], asg)
        if a is None or b is None: return None
        if t[0] == '%' and b == 0: return None
        r = {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '%': lambda: a % b}[t[0]]()
        return r % (1 << 32) if asg.get('unsigned', True) else r
    if t[0] in ('max', 'min') and len(t) == 3:
        a, b = numeric(t[1], asg), numeric(t[2], asg)
        return None if a is None or b is None else max(a, b) if t[0] == 'max' else min(a, b)
    if t[0] == 'cmp':
        a, b = numeric(t[2], asg), numeric(t[3], asg)
        if a is None or b is None: return None
        return int({'<': a < b, '==': a == b, '<=': a <= b, '>': a > b, '>=': a >= b, '!=': a != b}[t[1]])
    if t[0] == 'not':
        a = numeric(t[1], asg); return None if a is None else int(not a)
    return None
def feasible(p, asg):
    """False if a condition the path established contradicts the assignment"""
    for c, v in p.facts:
        x = numeric(c, asg)
        if x is not None and bool(x) != v: return False
    return True
def rational(t, asg):
    """value of a term over the rationals (bools as ints), None if it has parts without a meaning here"""
    if not isinstance(t, tuple) or not t: return None
    if t in asg: return asg[t]
    k = t[0]
    if k in ('int', 'bool'): return Fraction(int(t[1]))
    if k in ('num', 'dbl', 'flt'):
        try: return Fraction(str(t[1]))
        except (ValueError, ZeroDivisionError): return None
    if k in ('+', '-', '*', '/') and len(t) == 3:
        a, b = rational(t[1], asg), rational(t[2], asg)
        if a is None or b is None or k == '/' and b == 0: return None
        return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '/': lambda: a / b}[k]()
    if k == 'neg': a = rational(t[1], asg); return None if a is None else -a
    if k in ('max', 'min') or k == 'r' and len(t) > 3 and t[1] in ('max', 'min'):
        xs = [rational(x, asg) for x in (t[1:] if k != 'r' else t[3:])]
        return None if None in xs else (max if 'max' in t[:2] else min)(xs)
    if k == 'abs' or k == 'r' and t[1] in ('abs', 'fabs', 'norm') and len(t) == 4:
        a = rational(t[-1], asg); return None if a is None else abs(a)
    if k == 'new' and len(t) >= 3: return rational(t[2], asg)
    if k == 'cmp':
        a, b = rational(t[2], asg), rational(t[3], asg)
        if a is None or b is None: return None
        return Fraction(int({'<': a < b, '==': a == b, '<=': a <= b, '>': a > b, '>=': a >= b, '!=': a != b}[t[1]]))
    if k == 'not': a = rational(t[1], asg); return None if a is None else Fraction(int(not a))
    if k == 'ite':
        c = rational(t[1], asg); return None if c is None else rational(t[2] if c else t[3], asg)
    return None
import cmath, math
LISTOPS = ('pushed', 'pop_front', 'pop_back', 'upd', 'list')
def value(t, leaf):
    """complex or list value of a term at a sample point; leaf(t) gives the values of its unknowns; None if some part has none"""
    if not isinstance(t, tuple) or not t: return None
    v = leaf(t)
    if v is not None: return v
    k = t[0]
    V = lambda x: value(x, leaf)
    if k in ('int', 'bool'): return int(t[1])
    if k in ('num', 'dbl', 'flt'):
        try: return float(t[1])
        except ValueError: return None
    if k in ('+', '-', '*', '/', 'quot') and len(t) == 3:
        a, b = V(t[1]), V(t[2])
        if a is None or b is None or isinstance(a, list) or isinstance(b, list): return None
        if k in ('/', 'quot') and b == 0: return None
        if k == '+': return a + b
        if k == '-': return a - b
        return a * b if k == '*' else a / b
    if k == 'neg': a = V(t[1]); return None if a is None else -a
    if k == 'list': 
        xs = [V(x) for x in t[1:]]; return None if None in xs else xs
    if k == 'pushed':
        a, b = V(t[1]), V(t[2]); return a + [b] if isinstance(a, list) else None
    if k in ('pop_front', 'pop_back'):
        a = V(t[1]); return None if not isinstance(a, list) or not a else a[1:] if k == 'pop_front' else a[:-1]
    if k == 'upd' and len(t) == 4:
        a, i, b = V(t[1]), V(t[2]), V(t[3])
        if not isinstance(a, list) or not isinstance(i, int) or not 0 <= i < len(a): return None
        return a[:i] + [b] + a[i + 1:]
    if k == 'elem':
        a, i = V(t[1]), V(t[2]); return a[i] if isinstance(a, list) and isinstance(i, int) and 0 <= i < len(a) else None
    if k == 'size': a = V(t[1]); return len(a) if isinstance(a, list) else None
    if k in ('abs', 'real', 'conj') and len(t) == 2 or k == 'r' and len(t) >= 3 and isinstance(t[1], str):
        n = k if k != 'r' else t[1]
        xs = [V(x) for x in (t[1:] if k != 'r' else t[2:]) if x != ('none',)]
        if not xs or None in xs: return None
        if n in ('front', 'back'): return xs[0][0 if n == 'front' else -1] if isinstance(xs[0], list) and xs[0] else None
        if any(isinstance(x, list) for x in xs): return None
        try:
            if n in ('abs', 'fabs', 'lpNorm'): return abs(xs[0])
            if n == 'norm': return abs(xs[0])
            if n == 'polar': return cmath.rect(xs[0].real if isinstance(xs[0], complex) else xs[0], xs[1].real if isinstance(xs[1], complex) else xs[1])
            if n == 'arg': return cmath.phase(xs[0])
            if n in ('acos', 'sqrt', 'exp', 'log', 'sin', 'cos'): return getattr(cmath, n)(xs[0])
            if n == 'pow': return complex(xs[0]) ** xs[1]
            if n in ('max', 'min'): return (max if n == 'max' else min)(xs)
            if n in ('real', 'conj'): return complex(xs[0]).real if n == 'real' else complex(xs[0]).conjugate()
        except (ValueError, ZeroDivisionError, TypeError, OverflowError): return None
        return None
    if k == 'pow' and len(t) == 3:
        a, b = V(t[1]), V(t[2]); return None if a is None or b is None or a == 0 else complex(a) ** b
    if k == 'new' and len(t) == 3: return V(t[2])
    if k == 'cmp':
        a, b = V(t[2]), V(t[3])
        if a is None or b is None or isinstance(a, list) or isinstance(b, list): return None
        a, b = (x.real if isinstance(x, complex) and abs(x.imag) < 1e-12 else x for x in (a, b))
        if t[1] == '==': return int(abs(a - b) < 1e-12)
        if t[1] == '!=': return int(abs(a - b) >= 1e-12)
        if isinstance(a, complex) or isinstance(b, complex): return None
        return int({'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[t[1]])
    if k == 'not': a = V(t[1]); return None if a is None else int(not a)
    if k in ('and', 'or'):
        xs = [V(x) for x in t[1:]]
        if k == 'and': return 0 if 0 in xs else None if None in xs else 1
        return 1 if any(x for x in xs if x is not None) else None if None in xs else 0
    if k == 'ite':
        c = V(t[1]); return None if c is None else V(t[2] if c else t[3])
    return None
def can(p, leaf, upto=None):
    """False if a condition of the path contradicts the sample point"""
    for c, v in p.facts[:upto]:
        x = value(c, leaf)
        if x is not None and bool(x) != v: return False
    return True
def possible(p, asg, upto=None):
    """False if a condition of the path contradicts the rational assignment"""
    for c, v in p.facts[:upto]:
        x = rational(c, asg)
        if x is not None and bool(x) != v: return False
    return True
def result_codes(F, P, fn, mk, memo=None, depth=6):
    """names of the status codes a function can return, over all its path shapes; None in the set: something unknown"""
    memo = {} if memo is None else memo
    if fn['id'] in memo: return memo[fn['id']]
    memo[fn['id']] = {None}
    out = set()
    try: ps = mk().run(fn, param_args(fn))
    except Undecided: ps = []; out.add(None)
    for p in ps:
        if p.kind != 'ret': continue
        n = which(p, p.ret)
        if n: out.add(n); continue
        e = next((e for e in p.ev if e.res == p.ret), None)
        sub = result_codes(F, P, e.c, mk, memo, depth - 1) if e is not None and e.c is not None and e.c.get('body') and depth else {None}
        out |= {x for x in sub if x is None or not excluded(p, p.ret, x)}
    memo[fn['id']] = out
    return out
def excluded(p, t, name):
    """the path established that status term t is not the named enumerator"""
    for c, v in p.facts:
        if c[0] == 'cmp' and c[1] == '==' and c[2] == t and enum_name(c[3]):
            if enum_name(c[3]) == name: return not v
            if v: return True
    return False
def has(t, x): return any(y == x for y in subterms(t))
def again(p): return any(e.n == '$again' for e in p.ev)
def counters(p):
    """havocked integer carriers of the path's loops"""
    out = set()
    for c, v in p.facts:
        for t in subterms(c):
            if t and t[0] == 'hav': out.add(t)
    return out
def trace(p, d=None):
    out = []
    for e in p.ev:
        if e.n == '$again': out.append('(a later iteration)')
        elif not e.n.startswith('$'): out.append(f'{e.n}@{e.line}')
    return out
