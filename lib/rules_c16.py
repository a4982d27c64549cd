"""C16: observers see every event exactly once."""
from flow import *
from denote import _Ret, _Brk, _Cont, _H
from rules_c09 import Judge, Flow9, named, name, tag, COMMON, STEP, segment
GROUPS = ['algorithms']
TECHNIQUE = 'abstract interpretation: attaching, detaching and delivering over concrete watcher lists (every position, re-entrant detaching modelled at each delivery), and the emissions of trackers and endgames judged over all path shapes against the status codes established on them'
NOTE = 'what observers do with an event, and the order among observers, are not decided'
T = 'bertini::tracking::'; E = 'bertini::endgame::'; O = 'bertini::Observable'
LOOP = ('TrackerLoopInitialization', 'PreIterationCheck', 'TrackerIteration', 'CheckGoingToInfinity', 'CopyFinalSolution', 'NumVariables', 'NotifyObservers', 'ChangePrecision', 'RefineStoredPoint')
STEP16 = STEP + ('ChangePrecision', 'SetStepSize', 'UpdatePrecisionAndStepsize', 'UpdateStepsize')

class Flow16(Flow):
    """watcher lists are concrete; standard algorithms over them are followed"""
    detach = None
    def lst(self, l):
        b = self.read(l)
        if b[0] == 'pushed':
            c = self.unpush(b)
            if c is not None: return c
        return b if b[0] == 'list' else None
    def unpush(self, b):
        if b[0] == 'list': return b
        if b[0] == 'pushed':
            c = self.unpush(b[1]); return c and c + (b[2],)
        return None
    def write(self, loc, v):
        if isinstance(v, tuple) and v and v[0] == 'pushed':
            c = self.unpush(v)
            if c: v = c
        super().write(loc, v)
    def val(self, e):
        if e['k'] == 'un' and e['op'] == '&' and len(e['a']) == 1: return ('addr', self.val(e['a'][0]))
        if e['k'] == 'un' and e['op'] == '*' or e['k'] == 'op' and e['op'] == '*' and len(e['a']) == 1:
            v = self.val(e['a'][0])
            if v[0] == 'addr': return v[1]
            if v[0] == 'it': return self.deref(v)
        return super().val(e)
    def binop(self, e):
        v = super().binop(e)
        if v[0] == 'cmp' and v[1] in ('==', '!='):
            a, b = v[2], v[3]
            if a[0] == b[0] == 'addr' and a[1][0] == b[1][0] == 'sym': return ('bool', (a == b) == (v[1] == '=='))
            if a[0] == b[0] == 'it' and a[1] == b[1] and a[2][0] == b[2][0] == 'int': return ('bool', (a == b) == (v[1] == '=='))
        return v
    def read(self, loc):
        if loc[0] == 'el' and loc[2][0] == 'int' and self.lst(loc[1]) is not None: return self.index(self.lst(loc[1]), loc[2])
        return super().read(loc)
    def index(self, b, i):
        if b[0] == 'list' and i[0] == 'int':
            if 0 <= i[1] < len(b) - 1: return b[1 + i[1]]
            self.fault('an element past the end is used'); return ('sym', 'past')
        return super().index(b, i)
    def lval(self, e):
        if e['k'] == 'call' and e.get('f') == 'std::get' and e.get('ta') and e['ta'][0].rstrip('UL').isdigit():
            l = self.lval(e['a'][0])
            if self.lst(l) is not None: return ('el', l, ('int', int(e['ta'][0].rstrip('UL'))))
        return super().lval(e)
    def fault(self, why):
        self.log(Ev(n='$fault', q=why, obj=None, args=[], res=('none',), i=self.uid(), line=None, outs={}, nf=len(self.st.facts)))
    def rng(self, a, b):
        """location, list and bounds of an iterator pair"""
        if a[0] == 'it' and b[0] == 'it' and a[1] == b[1] and a[1][0] == 'loc' and a[2][0] == b[2][0] == 'int':
            c = self.lst(a[1][1])
            if c is not None: return a[1][1], c, a[2][1], b[2][1]
        return None
    def pred(self, f, x):
        """truth of a callable on a value, forking when it is not known"""
        if f[0] != 'lam': raise Lost('callable')
        fr = self.nframe + 1
        L = f[1].e
        x = x if isinstance(x, list) else [x]
        if len(x) != len(L['params']): raise Lost('callable')
        self.nframe += 1
        if not hasattr(self, 'parent'): self.parent = {}
        while self.nframe in self.parent: self.nframe += 1
        fr = self.nframe; self.parent[fr] = f[2]
        for q, y in zip(L['params'], x): self.st.env[('v', fr, q['id'])] = y
        old = self.frame; self.frame = fr; self.depth += 1
        try: self.stmt(L['body']); r = ('none',)
        except _Ret as y: r = y.v
        finally: self.frame = old; self.depth -= 1
        return r
    def arrow(self, v):
        if v[0] == 'it': return self.deref(v)
        return super().arrow(v)
    def yes(self, f, x): return self.decide(self.truth(self.pred(f, x)))
    def call(self, e):
        f = e.get('f') or ''; n = e.get('n') or ''; A = e.get('a') or []; o = e.get('o')
        if f == 'std::reference_wrapper::get' or n in ('get', 'operator*') and o is not None and 'reference_wrapper' in (e.get('cls') or ''): return self.val(o)
        if f == 'std::get' and len(A) == 1 and e.get('ta') and e['ta'][0].rstrip('UL').isdigit():
            try: return self.read(self.lval(e))
            except Undecided: pass
        if n in ('ref', 'cref', 'addressof', '__addressof') and len(A) == 1: return ('addr', self.val(A[0])) if 'address' in n else self.val(A[0])
        if n in ('begin', 'end', 'cbegin', 'cend') and (o is not None or len(A) == 1):
            try: l = self.lval(o if o is not None else A[0])
            except Undecided: l = None
            c = self.lst(l) if l is not None else None
            if c is not None: return ('it', ('loc', l), ('int', 0 if 'begin' in n else len(c) - 1))
        if n in ('size', 'empty') and o is not None:
            try: c = self.lst(self.lval(o))
            except Undecided: c = None
            if c is not None: return ('int', len(c) - 1) if n == 'size' else ('bool', len(c) == 1)
        if n in ('find_if', 'find_if_not', 'find', 'any_of', 'none_of', 'all_of', 'count_if', 'remove_if', 'remove', 'for_each', 'count') and len(A) == 3:
            r = self.rng(self.val(A[0]), self.val(A[1]))
            if r: return self.algo(n, r, self.val(A[2]))
        if n == 'for_each' and len(A) == 2:
            try: l = self.lval(A[0]); c = self.lst(l)
            except Undecided: c = None
            if c is not None: return self.algo(n, (l, c, 0, len(c) - 1), self.val(A[1]))
        if n == 'erase' and o is not None and len(A) in (1, 2):
            v = [self.val(a) for a in A]
            r = self.rng(v[0], v[1]) if len(v) == 2 else self.rng(v[0], ('it', v[0][1], self.bump(v[0][2], 1))) if v[0][0] == 'it' else None
            if r:
                l, c, i, j = r
                if j > len(c) - 1 or i > j: self.fault('erases past the end'); return ('none',)
                self.write(l, c[:1 + i] + c[1 + j:]); return ('it', ('loc', l), ('int', i))
        if n == 'Observe' and o is not None:
            x = self.val(o)
            if x[0] == 'addr': x = x[1]
            r = ('none',)
            self.log(Ev(n=n, q=f, obj=x, args=[self.val(a) for a in A], res=r, i=self.uid(), line=e.get('l'), outs={}, nf=len(self.st.facts)))
            if self.detach is not None and self.detach[1] == x:
                c = self.lst(('f', self.detach[0]))
                if c is not None: self.write(('f', self.detach[0]), ('list',) + tuple(y for y in c[1:] if y != x))
            return r
        return super().call(e)
    def algo(self, n, r, f):
        l, c, i, j = r
        it = lambda k: ('it', ('loc', l), ('int', k))
        xs = c[1 + i:1 + j]
        same = lambda x: (x == f) if x[0] == f[0] == 'sym' else self.yes(f, x)
        if n in ('find_if', 'find', 'find_if_not'):
            for k, x in enumerate(xs):
                if (same(x) if n == 'find' else self.yes(f, x)) != (n == 'find_if_not'): return it(i + k)
            return it(j)
        if n == 'any_of': return ('bool', any([self.yes(f, x) for x in xs]))
        if n == 'none_of': return ('bool', not any([self.yes(f, x) for x in xs]))
        if n == 'all_of': return ('bool', all([self.yes(f, x) for x in xs]))
        if n in ('count_if', 'count'): return ('int', sum([bool(same(x)) for x in xs]))
        if n in ('remove_if', 'remove'):
            keep = [x for x in xs if not same(x)]
            tail = [('sym', 'moved')] * (len(xs) - len(keep))
            self.write(l, c[:1 + i] + tuple(keep) + tuple(tail) + c[1 + j:])
            return it(i + len(keep))
        for k, x in enumerate(xs):
            if l is not None and self.lst(l) != c: self.fault('the watchers are gone through while they change'); break
            self.pred(f, x)
        return ('none',)
    def rfor(self, s):
        try: l = self.lval(s['r'])
        except Undecided: l = None
        c = self.lst(l) if l is not None else None
        if c is None: return super().rfor(s)
        vloc = ('v', self.frame, s['var']['id'])
        for k in range(len(c) - 1):
            self.st.env[vloc] = c[1 + k]
            try: self.stmt(s['b'])
            except _Cont: pass
            except _Brk: break
            if self.lst(l) != c: self.fault('the watchers are gone through while they change'); break

def kind(t):
    """event class of an emission"""
    if not isinstance(t, tuple) or not t or t[0] != 'new': return None
    return t[1].split('<')[0].split('::')[-1]
def qkind(t): return t[1].split('<')[0].replace('const ', '') if kind(t) else None
def notes(p): return [(k, e) for k, e in enumerate(p.ev) if e.n == 'NotifyObservers']

def payload(F):
    """class -> accessor -> position of the constructor argument it hands out (None: not a constructor argument)"""
    out = {}
    for f in F.fns.values():
        if f['kind'] not in ('ctor', 'constructor') or not f.get('inits'): continue
        if not (f['q'].startswith((T, E)) and '/events.hpp' in f['file']): continue
        out.setdefault(f['cls'], []).append(f)
    return out

def check(F, P, R):
    R.rule('attach', 'attaching adds the observer unless it is attached already, and touches no other', 4)
    R.rule('detach', 'detaching removes the observer and no other', 4)
    R.rule('deliver', 'an event is delivered to every attached observer exactly once, also when an observer detaches itself while being notified', 8)
    R.rule('bundle', 'a bundle of observers hands every event to each of its parts once', 1)
    R.rule('carries', 'an event hands out the values it was made with', 6)
    R.rule('begin', 'every path announces its start first, with the times and the point it starts from', 3)
    R.rule('outcome', 'every step is announced as successful, failed or truncated according to what it was, once', 3)
    R.rule('ending', 'every path announces its ending exactly once, after everything else', 3)
    R.rule('step', 'every step announces its beginning, and prediction and correction exactly when they succeeded, with their results', 4)
    R.rule('precision', 'every change of precision while tracking is announced once, with the old and the new precision', 3)
    R.rule('endgame', 'an endgame announces convergence exactly when it reports success, and every approximation it judges', 4)
    watchers(F, P, R)
    bundle(F, P, R)
    acc = carries(F, P, R)
    for f in F.need(T + 'Tracker::TrackPath'): trackpath(F, P, R, f)
    for c in ('DoublePrecisionTracker', 'MultiplePrecisionTracker', 'AMPTracker'):
        for f in F.need(T + c + '::TrackerLoopInitialization'): begin(F, P, R, f, acc)
    for f in F.need(T + 'FixedPrecisionTracker::TrackerIteration') + F.need(T + 'AMPTracker::TrackerIteration'): step(F, P, R, f, acc)
    for f in F.need(T + 'AMPTracker::ChangePrecision'): precision(F, P, R, f, acc)
    for f in F.fn(E + 'AMPEndgame::RefineSampleImpl') or F.need(E + 'AMPEndgame::RefineSample'): egprecision(F, P, R, f, acc)
    writers(F, P, R)
    for c in ('PowerSeriesEndgame', 'CauchyEndgame'):
        for f in F.need(E + c + '::RunImpl'): endgame(F, P, R, f)

def field(F):
    c = F.need_cls(O) if hasattr(F, 'need_cls') else F.cls(O)
    c = c[0] if isinstance(c, list) else c
    fs = [x['n'] for x in c['fields'] if 'Observer' in x['t']]
    if len(fs) != 1: raise Undecided('watcher container')
    return fs[0]

def watchers(F, P, R):
    try: fld = field(F)
    except Undecided as x:
        for r in ('attach', 'detach', 'deliver'): R.skip(r, 'Observable', str(x))
        return
    W = [('sym', f'w{k}') for k in range(3)]
    def go(f, args, lst, detach=None):
        d = Flow16(F, P); d.unroll = 8; d.detach = detach
        st = St(); st.env[('f', fld)] = ('list',) + tuple(lst)
        R.fn(f)
        return d, d.run(f, args, st=st)
    for f in F.need(O + '::AddObserver'):
        for lst in ([], W[:1], W[:2], W):
            for x in lst + [('sym', 'new')]:
                inst = f'AddObserver {x[1]} to {len(lst)}'
                try: d, ps = go(f, [x], lst)
                except Undecided as y: R.skip('attach', inst, str(y)[:80]); continue
                want = lst if x in lst else lst + [x]
                judge(F, R, 'attach', inst, f, d, ps, fld, want)
    for f in F.need(O + '::RemoveObserver'):
        for lst in ([], W[:1], W[:2], W):
            for x in lst + [('sym', 'new')]:
                inst = f'RemoveObserver {x[1]} from {len(lst)}'
                try: d, ps = go(f, [x], lst)
                except Undecided as y: R.skip('detach', inst, str(y)[:80]); continue
                judge(F, R, 'detach', inst, f, d, ps, fld, [y for y in lst if y != x])
    for f in F.need(O + '::NotifyObservers'):
        ty = 'const' if f['params'][0]['t'].replace(' const', 'const ').startswith(('const', 'bertini::AnyEvent const')) or 'const' in f['params'][0]['t'] else 'mutable'
        for n in (0, 1, 3):
            for det in [None] + W[:n]:
                inst = f'NotifyObservers({ty}) {n} watchers' + (f', {det[1]} detaches itself' if det else '')
                ev = ('sym', 'event')
                try: d, ps = go(f, [ev], W[:n], (fld, det) if det else None)
                except Undecided as y: R.skip('deliver', inst, str(y)[:80]); continue
                bad = und = None
                for p in ps:
                    if p.facts: und = 'condition ' + str(p.facts[0][0])[:40]; continue
                    if p.kind not in ('ret', 'fall'): bad = bad or 'notifying throws'; continue
                    fault = [e.q for e in p.ev if e.n == '$fault']
                    got = [e for e in p.ev if e.n == 'Observe']
                    cnt = {w: sum(e.obj == w for e in got) for w in W[:n]}
                    if fault: bad = bad or fault[0]
                    elif any(e.obj not in W for e in got) or again(p): und = 'watcher notified'
                    else:
                        for w, k in cnt.items():
                            if k != 1: bad = bad or f'of {n} watchers, {w[1]} sees the event {k} times' + (f' when {det[1]} detaches itself' if det else '')
                    if not bad and any(e.args[:1] != [ev] for e in got): bad = 'another event is delivered' if all(e.args and e.args[0][0] == 'sym' for e in got) else None; und = und or 'event'
                if bad and not und: R.bad('deliver', inst, F.loc(f), bad, [])
                elif und: R.skip('deliver', inst, und)
                else: R.ok('deliver', inst)

def judge(F, R, rid, inst, f, d, ps, fld, want):
    bad = und = None
    for p in ps:
        if p.facts: und = 'condition ' + str(p.facts[0][0])[:40]; continue
        if p.kind not in ('ret', 'fall'): bad = 'throws'; continue
        fault = [e.q for e in p.ev if e.n == '$fault']
        if fault: bad = fault[0]; continue
        v = d.final(p, ('f', fld))
        c = d.unpush(v) if v[0] in ('list', 'pushed') else None
        if c is None: und = 'watcher list'; continue
        if sorted(c[1:], key=str) != sorted(want, key=str): bad = f'leaves the watchers {[x[1] for x in c[1:]]}, not {[x[1] for x in want]}'
    if und: R.skip(rid, inst, und)
    elif bad: R.bad(rid, inst, F.loc(f), bad, [])
    else: R.ok(rid, inst)

def bundle(F, P, R):
    fs = [f for f in F.fn('bertini::MultiObserver::Observe') if not f.get('pattern')]
    if not fs: fs = F.need('bertini::MultiObserver::Observe')
    for f in fs:
        d = Flow16(F, P); d.unroll = 8
        cs = F.cls('bertini::MultiObserver')
        fld = next((x['n'] for c in cs for x in c.get('fields', []) if 'tuple' in x['t']), None)
        if fld is None: R.skip('bundle', 'MultiObserver', 'parts'); continue
        st = St(); W = [('sym', f'o{k}') for k in range(3)]; st.env[('f', fld)] = ('list',) + tuple(W)
        R.fn(f)
        try: ps = d.run(f, [('sym', 'event')], st=st)
        except Undecided as x: R.skip('bundle', 'MultiObserver', str(x)[:80]); continue
        bad = und = None
        for p in ps:
            if p.kind not in ('ret', 'fall'): continue
            got = [e for e in p.ev if e.n == 'Observe']
            other = [e for e in p.ev if not e.n.startswith('$') and e.n != 'Observe']
            for w in W:
                k = sum(e.obj == w for e in got)
                if k != 1: bad = f'part {w[1]} sees the event {k} times'
            if any(e.args[:1] != [('sym', 'event')] for e in got): bad = bad or 'another event is handed on'
            if bad and (other or any(e.obj not in W for e in got)): und, bad = 'parts', None
        if und: R.skip('bundle', 'MultiObserver', und)
        elif bad: R.bad('bundle', 'MultiObserver', F.loc(f), bad, [])
        else: R.ok('bundle', 'MultiObserver')

def carries(F, P, R):
    """accessor positions per event class"""
    acc = {}
    NAMES = {'ResultingPoint': 'resulting_point', 'StartTime': 'start_time', 'EndTime': 'end_time', 'StartPoint': 'start_point', 'Previous': 'previous', 'Next': 'next', 'NewSample': 'new_point', 'NewTime': 'new_time', 'Get': 'obs'}
    seen = set()
    for f in F.fns.values():
        if f['kind'] not in ('method',) or f.get('pattern') or not f.get('body') or f['params'] or f['n'] not in NAMES: continue
        if f['file'].rsplit('/', 1)[-1] != 'events.hpp': continue
        cls = f['cls']
        ct = [c for c in F.fns.values() if c['kind'] == 'ctor' and c['cls'] == cls and c.get('clsid') == f.get('clsid') and c['params']]
        g = P.getter(f)
        inst = f"{cls.split('::', 1)[-1]}::{f['n']}"
        if not ct or g is None or g['k'] != 'mem':
            if inst not in seen: seen.add(inst); R.skip('carries', inst, 'accessor')
            continue
        R.fn(f)
        c = ct[0]
        ini = next((i for i in c.get('inits') or [] if i.get('field') == g['n']), None)
        src = None
        if ini is not None:
            e = ini.get('e') or ini.get('init') or (ini.get('a') or [None])[0]
            while isinstance(e, dict) and e.get('k') in ('cast', 'ctor', 'list') and len(e.get('a') or []) == 1: e = e['a'][0]
            if isinstance(e, dict) and e.get('k') == 'ref': src = next((i for i, p in enumerate(c['params']) if p['id'] == e['id']), None)
        if src is None:
            if inst not in seen: seen.add(inst); R.skip('carries', inst, 'initialiser')
            continue
        acc.setdefault(cls, {})[f['n']] = src
        t = lambda k: c['params'][k]['t']
        if inst in seen: continue
        seen.add(inst); R.ok('carries', inst)
    # two accessors of one event never hand out the same argument
    for cls, m in acc.items():
        inv = {}
        for a, k in m.items(): inv.setdefault(k, []).append(a)
        for k, a in inv.items():
            if len(a) > 1 and set(a) != {'Get'}: R.bad('carries', cls + ' accessors', cls, f'{" and ".join(a)} hand out the same value', [])
    return acc

def carried(acc, t, accessor):
    """the value an emitted event hands out through an accessor"""
    m = acc.get(qkind(t), {})
    if accessor not in m or 2 + m[accessor] >= len(t): return None
    return t[2 + m[accessor]]

def run(F, P, R, rid, f, opq, snap=(), dyn=None, rounds=False):
    R.fn(f); d = Flow9(F, P, opaque=opq); d.snapf = snap; d.rounds = rounds
    try: return d, d.run(f, param_args(f), dyn=dyn)
    except Undecided as x: R.skip(rid, name(f), str(x)[:80]); return d, None

def trackpath(F, P, R, f):
    s = f.get('clsid') or ''
    dyn = next((T + x for x in ('DoublePrecisionTracker', 'MultiplePrecisionTracker', 'AMPTracker') if x in s), None)
    d, ps = run(F, P, R, 'outcome', f, LOOP, dyn=dyn, rounds=True)
    if ps is None: return
    A, L = Judge(R, 'outcome', f, F), Judge(R, 'ending', f, F)
    OUT = ('SuccessfulStep', 'FailedStep', 'InfinitePathTruncation')
    for p in ps:
        if p.kind not in ('ret', 'round'): continue
        ns = notes(p)
        if any(kind(e.args[0]) is None for _, e in ns): A.U('event'); L.U('event'); continue
        virt = [e for e in p.ev if e.n in ('OnStepSuccess', 'OnStepFail', 'PostTrackCleanup', 'OnInfiniteTruncation')]
        if virt: A.U('dispatch of ' + virt[0].n); L.U('dispatch of ' + virt[0].n); continue
        en = [k for k, e in ns if kind(e.args[0]) == 'TrackingEnded']
        if p.kind == 'round':
            if en: L.B('the ending is announced though tracking goes on', p)
        elif len(en) != 1: L.B(f'a path returning {which(p, p.ret) or "a code"} announces its ending {len(en)} times', p)
        elif any(k > en[0] for k, e in ns) or any(e.n in ('TrackerIteration', 'TrackerLoopInitialization', 'ChangePrecision') for e in p.ev[en[0]:]): L.B('the ending is announced before the path has ended', p)
        steps = [k for k, e in enumerate(p.ev) if e.n == 'TrackerIteration']
        for k in steps:
            e = p.ev[k]; after = []
            for x in p.ev[k + 1:]:
                if x.n in ('TrackerIteration', '$again'): break
                after.append(x)
            got = [kind(x.args[0]) for x in after if x.n == 'NotifyObservers' and kind(x.args[0]) in OUT]
            gone = any(which(p, x.res) == 'GoingToInfinity' for x in after if x.n == 'CheckGoingToInfinity')
            st = status(p, e.res)
            want = 'InfinitePathTruncation' if gone else {'ok': 'SuccessfulStep', 'fail': 'FailedStep'}.get(st)
            if want is None: A.U('step verdict')
            elif got != [want]:
                if gone and [g for g in got if g in OUT] and got.count(want) == 1 and st is not None and sorted(got) == sorted([want, 'SuccessfulStep' if st == 'ok' else 'FailedStep']): continue
                A.B(f'a step {"found going to infinity" if gone else "that succeeded" if st == "ok" else "that failed"} is announced as {", ".join(got) or "nothing"}', p)
        first = steps[0] if steps else len(p.ev)
        if any(k < first and kind(e.args[0]) in OUT for k, e in ns) and not again(p): A.B('a step outcome is announced without a step', p)
    A.done(); L.done()

def begin(F, P, R, f, acc):
    d, ps = run(F, P, R, 'begin', f, COMMON + ('InitialRefinement', 'ChangePrecision', 'MultipleToDouble', 'MultipleToMultiple', 'DoubleToMultiple', 'SetStepSize', 'ResetCounters'))
    if ps is None: return
    J = Judge(R, 'begin', f, F)
    st, en, pt = [p['n'] for p in f['params']][:3]
    for p in ps:
        if p.kind != 'ret': continue
        ns = notes(p)
        if any(kind(e.args[0]) is None for _, e in ns): J.U('event'); continue
        ini = [k for k, e in ns if kind(e.args[0]) == 'Initializing']
        if len(ini) != 1: J.B(f'the start of a path is announced {len(ini)} times', p); continue
        if any(k < ini[0] for k, e in ns) or any(e.n in ('ChangePrecision', 'InitialRefinement') for e in p.ev[:ini[0]]): J.B('something else happens before the start is announced', p)
        t = p.ev[ini[0]].args[0]
        for a, w in (('StartTime', st), ('EndTime', en), ('StartPoint', pt)):
            v = carried(acc, t, a)
            if v is None: J.U('payload')
            elif v != ('sym', w):
                if v[0] == 'sym': J.B(f'the start event hands out {v[1]} as {a}', p)
                else: J.U('payload term')
    J.done()

def primitive(F, P): return Flow9(F, P, opaque=COMMON + ('EvalIterationStep', 'FullStep', 'EvalRHS', 'CriterionA', 'CriterionB', 'CriterionC', 'SetNormsCond', 'SetErrorEstimate', 'SetSizeProportion', 'RefineStoredPoint', 'MultipleToDouble', 'DoubleToMultiple', 'MultipleToMultiple'))
def step(F, P, R, f, acc):
    d, ps = run(F, P, R, 'step', f, STEP16)
    if ps is None: return
    J = Judge(R, 'step', f, F); memo = {}
    if len(ps) and all(not any(e.n in ('Predict', 'Correct') for e in p.ev) for p in ps):
        if any(notes(p) for p in ps):
            J.B('an event is announced twice by the dispatch on precision') if all(any(kind(e.args[0]) in ('NewStep',) for _, e in notes(p)) for p in ps) else None
            J.done()
        return
    FAIL = dict(Predict=('FirstStepPredictorMatrixSolveFailure', 'PredictorMatrixSolveFailure', 'PredictorHigherPrecisionNecessary'), Correct=('CorrectorMatrixSolveFailure', 'CorrectorHigherPrecisionNecessary'))
    OKE = dict(Predict='SuccessfulPredict', Correct='SuccessfulCorrect')
    for p in ps:
        if p.kind != 'ret': continue
        ns = notes(p)
        ks = [(k, kind(e.args[0]), e) for k, e in ns]
        if any(x is None for _, x, _ in ks): J.U('event'); continue
        new = [k for k, x, _ in ks if x == 'NewStep']
        work = [k for k, e in enumerate(p.ev) if e.n in ('Predict', 'Correct')]
        if len(new) != 1: J.B(f'a step announces its beginning {len(new)} times', p)
        elif work and new[0] > work[0] or any(k < new[0] for k, x, _ in ks): J.B('a step announces its beginning after it began', p)
        for w in ('Predict', 'Correct'):
            es = [(k, e) for k, e in enumerate(p.ev) if e.n == w]
            oks = [(k, e) for k, x, e in ks if x == OKE[w]]
            fl = [(k, x) for k, x, e in ks if x in FAIL[w]]
            what = 'prediction' if w == 'Predict' else 'correction'
            if not es:
                if oks: J.B(f'a successful {what} is announced that was not made', p)
                if fl: J.B(f'a failed {what} is announced that was not made', p)
                continue
            k0, e0 = es[-1]
            s = status(p, e0.res)
            failed = s == 'fail'
            if s is None:
                cs = result_codes(F, P, e0.c, lambda: primitive(F, P), memo) if e0.c is not None and e0.c.get('body') else {None}
                left = {x for x in cs if x is None or not excluded(p, e0.res, x)}
                if not left: continue
                if left == {'Success'}: s = 'ok'
                elif None not in left and 'Success' not in left: failed = True
            certain = s == 'ok'
            if failed:
                if oks: J.B(f'a failed {what} is announced as successful', p)
                c = which(p, e0.res)
                if not fl:
                    if c not in (None, 'GoingToInfinity') or c is None and p.fd.get(('cmp', '==', e0.res, ('enum', 'bertini::SuccessCode::GoingToInfinity'))) is False: J.B(f'a failed {what} ({c or "any code"}) is not announced', p)
                elif len(fl) > 1: J.B(f'a failed {what} is announced more than once', p)
                elif fl[0][0] < k0: J.B(f'a failed {what} is announced before it was made', p)
                elif c == 'HigherPrecisionNecessary' and 'HigherPrecision' not in fl[0][1] and 'AMP' in f['cls'] or c and c != 'HigherPrecisionNecessary' and 'HigherPrecision' in fl[0][1]: J.B(f'a {what} ending with {c} is announced as {fl[0][1]}', p)
            elif certain:
                if fl: J.B(f'a successful {what} is announced as failed', p)
                if len(oks) != 1: J.B(f'a successful {what} is announced {len(oks)} times', p); continue
                k1, e1 = oks[0]
                if k1 < k0: J.B(f'a successful {what} is announced before it was made', p)
                if w == 'Predict' and any(p.ev[k].n == 'Correct' for k in range(k0, k1)): J.B('the prediction is announced after the correction', p)
                v = carried(acc, e1.args[0], 'ResultingPoint')
                if v is None: J.U('payload')
                elif v != e0.outs.get(0):
                    if v[0] in ('sym', 'out'): J.B(f'the event of a successful {what} does not hand out its result', p)
                    else: J.U('result term')
            else: J.U(f'{what} verdict')
    J.done()

def precision(F, P, R, f, acc):
    d, ps = run(F, P, R, 'precision', f, ('NotifyObservers', 'PrecisionSanityCheck', 'MultipleToDouble', 'DoubleToMultiple', 'MultipleToMultiple', 'RefineStoredPoint'))
    if ps is None: return
    J = Judge(R, 'precision', f, F)
    new, cur = ('sym', f['params'][0]['n']), ('sym', 'current_precision_')
    WORK = ('MultipleToDouble', 'DoubleToMultiple', 'MultipleToMultiple')
    for p in ps:
        if p.kind != 'ret': continue
        ns = [(k, e) for k, e in notes(p)]
        if any(kind(e.args[0]) is None for _, e in ns): J.U('event'); continue
        ch = [(k, e) for k, e in ns if kind(e.args[0]) in ('PrecisionChanged', 'PrecisionIncreased', 'PrecisionDecreased')]
        work = [k for k, e in enumerate(p.ev) if e.n in WORK]
        same = holds(p, ('cmp', '==', new, cur)); same = holds(p, ('cmp', '==', cur, new)) if same is None else same
        if same: 
            if ch: J.B('a precision change is announced though the precision stays the same', p)
            continue
        if work:
            if len(ch) != 1: J.B(f'a precision change is announced {len(ch)} times', p); continue
            a, b = carried(acc, ch[0][1].args[0], 'Previous'), carried(acc, ch[0][1].args[0], 'Next')
            if a is None: a, b = ch[0][1].args[0][3:5] if len(ch[0][1].args[0]) >= 5 else (None, None)
            if a is None or b is None: J.U('payload')
            elif (a, b) == (new, cur) or a == new or b == cur: J.B('the announced precisions are the wrong way round', p)
            elif (a, b) != (cur, new):
                if a[0] == b[0] == 'sym': J.B(f'the change announced is from {a[1]} to {b[1]}', p)
                else: J.U('payload term')
        elif ch: J.B('a precision change is announced but not made', p)
    J.done()

def egprecision(F, P, R, f, acc):
    d, ps = run(F, P, R, 'precision', f, ('NotifyObservers', 'DefaultPrecision', 'ChangePrecision', 'Refine', 'Precision', 'LowestMultiplePrecision', 'PrecisionIncrement'))
    if ps is None: return
    J = Judge(R, 'precision', f, F)
    for p in ps:
        if p.kind != 'ret': continue
        ns = [e for _, e in notes(p)]
        if any(kind(e.args[0]) is None for e in ns): J.U('event'); continue
        ch = [e for e in ns if kind(e.args[0]) == 'PrecisionChanged']
        up = [e for e in p.ev if e.n == 'ChangePrecision'][1:]
        if len(ch) != len(up): J.B(f'a sample is refined at a higher precision, and that is announced {len(ch)} times' if up else 'a precision change is announced but not made', p); continue
        for e, c in zip(up, ch):
            b = carried(acc, c.args[0], 'Next'); a = carried(acc, c.args[0], 'Previous')
            if a is None or b is None: J.U('payload')
            elif a == e.args[0]: J.B('the announced precisions are the wrong way round', p)
            elif b != e.args[0]: J.B('the announced precision is not the new one', p)
    J.done()

def writers(F, P, R):
    """the precision of an adaptive tracker is switched only by ChangePrecision (announced) and by initialisation"""
    prim = ('MultipleToDouble', 'DoubleToMultiple', 'MultipleToMultiple')
    users = {}
    amp = [f for f in F.fns.values() if f.get('cls') == T + 'AMPTracker' and f.get('body') and not f.get('pattern')]
    for f in amp:
        for x in walk(f['body']):
            if x.get('k') == 'call' and x.get('n') in prim: users.setdefault(f['n'], []).append((f, x))
    # callers up to the announced entry points
    ok = {'ChangePrecision', 'TrackerLoopInitialization'} | set(prim)
    todo = [n for n in users if n not in ok]; seen = set()
    bad = False
    while todo:
        n = todo.pop()
        if n in seen: continue
        seen.add(n)
        callers = [g for g in amp if any(x.get('k') == 'call' and x.get('n') == n for x in walk(g['body'])) and g['n'] != n]
        if not callers or any(g.get('access') == 'public' for g in amp if g['n'] == n):
            f, x = users.get(n, [(next(g for g in amp if g['n'] == n), {'l': 0})])[0]
            R.bad('precision', f'AMPTracker::{n} switches precision', F.loc(f), f'{n} switches the precision of the tracker without announcing it', [f'{n}@{x.get("l")}']); bad = True
        todo += [g['n'] for g in callers if g['n'] not in ok]
    if not bad: R.ok('precision', 'AMPTracker: who switches precision')

EG = ('ComputeInitialSamples', 'RefineAllSamples', 'ComputeAllDerivatives', 'ComputeApproximationOfXAtT0', 'ComputeCauchyApproximationOfXAtT0', 'AdvanceTime', 'GetIntoEGZone', 'InitialCauchyLoops', 'ComputeCauchySamples', 'NotifyObservers', 'DehomogenizePoint', 'SetRandVec', 'ClearTimesAndSamples', 'NumVariables', 'FinalTolerance', 'EnsureAtPrecision')
def endgame(F, P, R, f):
    d, ps = run(F, P, R, 'endgame', f, EG, rounds=True)
    if ps is None: return
    J = Judge(R, 'endgame', f, F); seen = False
    ap = ('ComputeApproximationOfXAtT0', 'ComputeCauchyApproximationOfXAtT0')
    for p in ps:
        if p.kind not in ('ret', 'round'): continue
        ns = notes(p)
        ks = [(k, kind(e.args[0])) for k, e in ns]
        if any(x is None for _, x in ks): J.U('event'); continue
        conv = [k for k, x in ks if x == 'Converged']
        st = status(p, p.ret) if p.kind == 'ret' else None
        if st == 'ok':
            seen = True
            if len(conv) != 1: J.B(f'a successful run announces convergence {len(conv)} times', p)
        elif st == 'fail' and conv: J.B('a failed run announces convergence', p)
        elif st is None and conv: J.B('convergence is announced though the run may still fail', p)
        sec = [k for k, x in ks if x == 'SecurityMaxNormReached']
        if p.kind == 'ret' and which(p, p.ret) == 'SecurityMaxNormReached' and any(e.n in ap for e in p.ev) and len(sec) != 1 and not any(p.ret == e.res for e in p.ev): J.B('a run ended by the security check does not announce it', p)
        if sec and (p.kind != 'ret' or which(p, p.ret) != 'SecurityMaxNormReached'): J.B('the security check is announced though the run goes on or ends otherwise', p)
        # approximations judged: each successful one in the loop is announced once before the verdict
        last = [k for k, e in enumerate(p.ev) if e.n in ap]
        if st == 'ok' and last:
            n = sum(1 for k, x in ks if x == 'ApproximatedRoot' and k > last[-1])
            it = any(e.n in ('$iter',) for e in p.ev[:last[-1]])
            if it and n != 1: J.B(f'the approximation a run ends with is announced {n} times', p)
        if sec and last and sum(1 for k, x in ks if x == 'ApproximatedRoot' and k > last[-1]) != 1: J.B('an approximation judged by the security check is not announced once', p)
        for k, x in ks:
            if x == 'ApproximatedRoot':
                a = [e for e in p.ev[:k] if e.n in ap or e.n == '$again']
                if not a: J.B('an approximation is announced that was not made', p)
                elif a[-1].n in ap and status(p, a[-1].res) == 'fail': J.B('a failed approximation is announced', p)
    if not seen: J.U('no success path')
    J.done()
