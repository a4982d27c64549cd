"""C19: run-time choices of start system, tracker and endgame are honoured."""
import re, itertools
from denote import *
GROUPS = ['algorithms']
TECHNIQUE = 'the solver factories are interpreted symbolically on every combination of the run-time choices, following the instantiated call chain down to the class that is constructed, whose template arguments (start system, tracker, endgame and its flavour, storage policy) and forwarded arguments are compared with the choice'

TRACK = {'FixedDouble': ('DoublePrecisionTracker', 'FixedPrecEndgame'), 'FixedMultiple': ('MultiplePrecisionTracker', 'FixedPrecEndgame'), 'Adaptive': ('AMPTracker', 'AMPEndgame')}
END = {'PowerSeries': 'PowerSeriesEndgame', 'Cauchy': 'CauchyEndgame'}
START = {'TotalDegree': ('TotalDegree', 'CloneGiven'), 'MHom': ('MHomogeneous', 'CloneGiven')}

class D19(Den):
    def attr(self, o, n):
        if o == ('sym', 'rt') and n in self.rt: return self.rt[n]
        return super().attr(o, n)
    def read(self, loc):
        if loc[0] == 'attr' : pass
        return super().read(loc)
    def val(self, e):
        if e['k'] == 'mem' and e.get('n') in self.rt and 'ZeroDimRT' in str((e.get('b') or {}).get('t')):
            try: b = self.val(e['b'])
            except Undecided: b = None
            if b == ('sym', 'rt') or b is None: return self.rt[e['n']]
        return super().val(e)
    def build(self, e, args):
        text = ' '.join([e.get('t') or '', e.get('fid') or '', ' '.join(e.get('ta') or [])])
        if 'ZeroDim' not in text: return None
        return ('made', text, tuple(args))
    def call(self, e):
        n = e.get('n')
        if n in ('make_unique', 'make_shared'):
            r = self.build(e, [self.val(a) for a in e['a']])
            if r: return r
        return super().call(e)
    def ctor(self, e):
        t = e.get('t') or ''
        if 'unique_ptr' in t or 'shared_ptr' in t:
            if len(e['a']) >= 1: return self.val(e['a'][0])
        if 'integral_constant' in t: return ('sym', t)
        if 'runtime_error' in t or 'exception' in t or 'basic_string' in t: return ('none',)
        return super().ctor(e)
    def node(self, e): return super().node(e) if hasattr(super(), 'node') else None

def enumq(F, t, n):
    for q, en in F.enums.items():
        if q.endswith('blackbox::type::' + t):
            for c in en['consts']:
                if c['n'] == n if isinstance(c, dict) else c[0] == n: return ('enum', q + '::' + n)
    raise AnalysisBroken(f'no enumerator {t}::{n}')

def facets(text):
    out = {}
    def one(k, pat, opts):
        s = {o for o in opts if re.search(pat.format(o), text)}
        out[k] = s
    one('start', r'start_system(?:::|@S@){}\b', ('TotalDegree', 'MHomogeneous', 'User'))
    one('tracker', r'tracking(?:::|@S@){}\b', ('DoublePrecisionTracker', 'MultiplePrecisionTracker', 'AMPTracker'))
    one('endgame', r'endgame(?:::|@S@){}\b', ('PowerSeriesEndgame', 'CauchyEndgame'))
    one('flavour', r'endgame(?:::|@S@){}\b', ('FixedPrecEndgame', 'AMPEndgame'))
    one('storage', r'policy(?:::|@ST>2#T#T@|@\w*>?[\w#]*@){}\b', ('CloneGiven', 'RefToGiven'))
    return out

def check(F, P, R):
    R.rule('choice', 'every combination of run-time choices builds exactly the chosen start system, tracker, endgame and storage', 6)
    R.rule('refused', 'a start system the factory cannot build is refused', 1)
    R.rule('arguments', 'the systems given are handed to the solver, all of them and in order', 2)
    for factory, starts in (('MakeZeroDim', ('TotalDegree', 'MHom', 'User')), ('MakeUserHom', ('TotalDegree', 'MHom', 'User'))):
        for f in F.need('bertini::blackbox::' + factory):
            R.fn(f)
            for s, t, e in itertools.product(starts, TRACK, END):
                key = f'{factory}({s}, {t}, {e})'
                d = D19(F, P); d.rt = dict(start=enumq(F, 'Start', s), tracker=enumq(F, 'Tracker', t), endgame=enumq(F, 'Endgame', e))
                args = [('sym', 'rt')] + [('sym', f'given{i}') for i in range(len(f['params']) - 1)]
                try:
                    ps = d.function(f, args)
                    if factory == 'MakeZeroDim' and s == 'User':
                        if any(p.kind != 'throw' for p in ps): R.bad('refused', key, F.loc(f), f'{key} builds a solver though the generic factory has no start system of that kind', [factory])
                        else: R.ok('refused', key)
                        continue
                    want = dict(start='User', storage='RefToGiven') if factory == 'MakeUserHom' else dict(start=START[s][0], storage=START[s][1])
                    want.update(tracker=TRACK[t][0], flavour=TRACK[t][1], endgame=END[e])
                    ps = [p for p in ps]
                    for p in ps:
                        if p.kind == 'throw': R.bad('choice', key, F.loc(f), f'{key} is refused', [factory]); break
                        if p.kind == 'fall': R.bad('choice', key, F.loc(f), f'{key} falls off the end of a function that has to return a solver', [factory]); break
                        r = d.final(p, p.ret)
                        if r[0] != 'made': raise Undecided(str(r)[:60])
                        got = facets(r[1])
                        bad = [(k, got[k], w) for k, w in want.items() if got[k] and got[k] != {w}]
                        if any(not got[k] for k in want): raise Undecided('type of the solver: ' + str([k for k in want if not got[k]]))
                        if bad:
                            k, g, w = bad[0]
                            R.bad('choice', key, F.loc(f), f'{key} builds a solver whose {k} is {"/".join(sorted(g))}, not {w}', [factory]); break
                        if r[2] != tuple(args[1:]): R.bad('arguments', key + ' arguments', F.loc(f), f'{key} hands over {[x[1] if len(x) > 1 else x for x in r[2]]}', [factory]); break
                    else: R.ok('choice', key); R.ok('arguments', key)
                except (Undecided, NoPath, Crash, KeyError) as x: R.skip('choice', key, str(x)[:90])
