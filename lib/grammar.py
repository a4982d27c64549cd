"""Grammars: the parsing expression grammar a Boost.Spirit.Qi parser class denotes, read off the type-checked expression
templates in its constructor, with the Qi meaning of the combinators, skippers, attributes and semantic actions.

Only the vocabulary below is understood; anything else raises Undecided and the caller records the grammar as not decided.
"""
import re
from denote import Den, St, Undecided, _H
from facts import walk

UNUSED = ('unused',)
NONE = ('nothing',)

class Tup(list): pass

class Scope:
    """one grammar object: its rules, symbol tables and sub-grammars"""
    def __init__(s, cls, types): s.cls, s.types = cls, types; s.rules = {}; s.tables = {}; s.subs = {}; s.start = None; s.guard = set(); s.params = {}
    def __repr__(s): return f'<{s.cls}>'

def rule_type(t):
    """(attribute type or None, keeps the skipper) of a qi::rule member"""
    i = t.find('qi::rule<'); b = t[i + 9:]
    args = []; d = 0; cur = ''
    for ch in b:
        if ch in '<(': d += 1
        if ch in '>)':
            d -= 1
            if d < 0: break
        if ch == ',' and d == 0: args.append(cur.strip()); cur = ''; continue
        cur += ch
    args.append(cur.strip())
    attr = None; skip = False
    for a in args[1:]:
        if a.endswith('()'): attr = a[:-2].strip()
        elif 'tag::space' in a: skip = True
    return attr, skip

class Rule:
    def __init__(s, name, t): s.name = name; s.attr, s.skip = rule_type(t); s.p = None; s.auto = True; s.guard = False; s.line = 0

CHARS = {'alpha': str.isalpha, 'alnum': str.isalnum, 'digit': str.isdigit, 'space': str.isspace, 'char_': lambda c: True, 'graph': lambda c: not c.isspace()}

class GrammarDen(Den):
    """semantic actions: what they do to the values they are bound to"""
    def lval(self, e):
        if e['k'] == 'mem' and e.get('b') is not None and e['b']['k'] != 'this':
            try: l = self.lval(e['b'])
            except Undecided: l = None
            if l is not None and l[0] == 'f': return ('f', l[1] + '.' + e['n'])
        return super().lval(e)
    def eff(self, *x):
        l = ('f', '$eff'); self.write(l, self.st.env.get(l, ('list',)) + (x,))
        return ('none',)
    def read(self, loc):
        if loc[0] == 'f' and loc not in self.st.env: return ('sym', loc[1])
        return super().read(loc)
    def val(self, e):
        if e['k'] == 'cast' and (e.get('t') or '') == 'bool' and 'bool' not in (e['a'][0].get('t') or ''): return ('tobool', self.val(e['a'][0]))
        if e['k'] == 'str': return ('str', e['v'])
        return super().val(e)
    def call(self, e):
        n = e.get('n') or ''; A = e.get('a') or []; o = e.get('o'); f = e.get('f') or ''
        if n == 'FromString': return ('conv', self.val(A[0]))
        if n in ('stod', 'stoi', 'stof', 'stol'): return ('conv', self.val(A[0]))
        if n == 'pow' and len(A) == 2: return ('pow', self.val(A[0]), self.val(A[1]))
        if n in ('sin', 'cos', 'tan', 'exp', 'log', 'sqrt', 'asin', 'acos', 'atan') and len(A) == 1 and o is None: return ('fn', n, self.val(A[0]))
        if n == 'SetRoot' and o is not None: return self.eff('SetRoot', self.val(o), self.val(A[0]))
        if n == 'Make' and 'bertini::node' in f: return ('mk', (e.get('cls') or '').split('::')[-1]) + tuple(self.val(a) for a in A)
        if n == 'precision' or n == 'DefaultPrecision' and A: return ('none',)
        if n in ('real', 'imag') and o is not None and len(A) == 1:
            self.write(('f', self.lval(o)[1] + '.' + n), self.val(A[0])); return ('none',)
        if n == 'c_str' and o is not None: return self.val(o)
        return super().call(e)
    def binop(self, e):
        A = e['a']
        if e['op'] == '()' and A and A[0]['k'] == 'mem' and A[0]['n'] == 'add' and A[0].get('b') is not None and A[0]['b']['k'] == 'mem':
            return self.eff('add', A[0]['b']['n'], self.val(A[1]), self.val(A[2]))
        return super().binop(e)
    def ctor(self, e):
        t = e.get('t') or ''
        if 'basic_string' in t:
            A = [a for a in e['a'] if 'allocator' not in (a.get('t') or '')]
            return ('str', '') if not A else self.val(A[0])
        if 'number<' in t and e['a']: return ('conv', self.val(e['a'][0])) if (e['a'][0].get('t') or '').find('string') >= 0 else self.val(e['a'][0])
        return super().ctor(e)

class Grammar:
    def __init__(self, F, P):
        self.F, self.P = F, P
        self.memo = {}
        self.nact = 0; self.nrules = 0
    # ------------------------------------------------ construction
    def ctor_of(self, t):
        """the instantiated constructor of grammar class type t"""
        q = t.split('<')[0].strip()
        cs = [f for f in self.F.fns.values() if f['kind'] == 'ctor' and not f['pattern'] and f.get('body') and f['cls'] == q]
        if len(cs) > 1:
            m = [f for f in cs if self.cls_of(f) is not None and self.cls_of(f).get('t') == t]
            cs = m or cs
        if not cs: raise Undecided(f'no constructor of {q}')
        return cs[0]
    def cls_of(self, f):
        return self.F.classes.get(f['clsid']) if isinstance(self.F.classes, dict) else None
    def scope(self, ctor, args=None):
        c = self.cls_of(ctor)
        types = {fl['n']: fl['t'] for fl in c['fields']}
        s = Scope(ctor['cls'], types); s.ctor = ctor
        for n, t in types.items():
            if 'qi::rule<' in t: s.rules[n] = Rule(n, t)
            elif 'qi::symbols<' in t: s.tables[n] = {}
        for p, a in zip(ctor['params'], args or []): s.params[p['id']] = a
        for i in ctor.get('inits') or []:
            e = i.get('e')
            if i.get('base') and e is not None and e.get('a'):
                a = e['a'][0]
                if a['k'] == 'mem' and a['n'] in s.rules: s.start = a['n']
            fl = i.get('field')
            if fl and fl in types and fl not in s.rules and fl not in s.tables and 'bertini::parsing' in types[fl]:
                av = []
                for a in (e or {}).get('a') or []:
                    tabs = [x for x in walk(a) if x['k'] == 'mem' and x['n'] in s.tables]
                    av.append(('table', s, tabs[0]['n']) if tabs else None)
                s.subs[fl] = self.scope(self.ctor_of(types[fl]), av)
        for n, t in types.items():
            if n not in s.rules and n not in s.tables and n not in s.subs and t.startswith('bertini::parsing'): s.subs[n] = self.scope(self.ctor_of(t))
        self.exec(ctor['body'], s, {})
        for r in s.rules.values():
            if r.p is not None: self.nrules += 1
        if s.start is None and 'root_rule_' in s.rules: s.start = 'root_rule_'
        return s
    def exec(self, st, s, env, depth=0):
        if st is None: return
        k = st['k']
        if k == 'block':
            for x in st['s']: self.exec(x, s, env, depth)
        elif k == 'decl':
            for v in st['d']:
                if v['k'] == 'var' and v.get('init') is not None: env[v['id']] = (v['init'], env)
        elif k in ('nop', 'return'): pass
        elif k == 'op' and st['op'] in ('=', '%=') and self.rule_ref(st['a'][0], s, env) is not None:
            r = self.rule_ref(st['a'][0], s, env)
            rhs = st['a'][1]
            while rhs['k'] == 'op' and rhs['op'] == '=' and self.rule_ref(rhs['a'][0], s, env) is not None:
                q = self.rule_ref(rhs['a'][0], s, env); rhs = rhs['a'][1]
                if q is not r: q.p = ('rule', s, q); raise Undecided('chained rule definition')
            p = self.build(rhs, s, env)
            r.p = p; r.auto = st['op'] == '%=' or not self.has_action(p); r.line = st.get('l')
        elif k == 'op' and st['op'] in ('()', ','):
            self.table_add(st, s, env)
        elif k == 'call':
            n = st.get('n')
            if n == 'on_error':
                r = self.rule_ref(st['a'][0], s, env)
                if r is not None: r.guard = (st.get('ta') or ['fail'])[0]
            elif n in ('name', 'debug'): pass
            elif st.get('o') is None or st['o']['k'] == 'this':
                f = self.P.resolve(st, None, None)
                if f is not None and f.get('body') and depth < 4:
                    e2 = {p['id']: (a, env) for p, a in zip(f['params'], st['a'])}
                    self.exec(f['body'], s, e2, depth + 1)
                elif f is not None and f.get('q', '').startswith('bertini'): raise Undecided(f'call {n}')
        elif k in ('if', 'for', 'while', 'rfor', 'switch'):
            if any(x['k'] == 'op' and x['op'] in ('=', '%=') and self.rule_ref(x['a'][0], s, env) is not None for x in walk(st)): raise Undecided('rules defined under control flow')
            if any(x['k'] == 'mem' and x['n'] == 'add' for x in walk(st)): raise Undecided('symbols added under control flow')
        else: pass
    def table_add(self, st, s, env):
        if st['op'] == ',':
            for a in st['a']: self.exec(a, s, env)
            return
        a = st['a']; t = a[0]
        chain = None
        if t['k'] == 'op' and t['op'] == '()': chain = t; self.table_add(t, s, env)
        while t['k'] == 'op' and t['op'] == '()': t = t['a'][0]
        if t['k'] == 'mem' and t['n'] == 'add' and t.get('b') is not None:
            tab = self.table_ref(t['b'], s, env)
            if tab is None: raise Undecided('symbol table')
            key = self.string(a[1], s, env)
            tab[key] = self.const(a[2], s, env) if len(a) > 2 and a[2]['k'] != 'defarg' else NONE
    def const(self, e, s, env):
        if e['k'] == 'ref' and e.get('dk') == 'enum': return ('enum', e['q'])
        if e['k'] == 'mem' and e.get('dk') == 'enum': return ('enum', e['q'])
        if e['k'] == 'int': return ('int', int(e['v']))
        if e['k'] == 'cast': return self.const(e['a'][0], s, env)
        if e['k'] == 'ctor' and len(e['a']) == 1: return self.const(e['a'][0], s, env)
        if e['k'] == 'ref' and e.get('id') in env:
            x, en = env[e['id']]; return self.const(x, s, en)
        if e['k'] == 'call':
            if e.get('n') == 'at' and e.get('o') is not None:
                tab = self.table_ref(e['o'], s, env)
                if tab is not None: return tab[self.string(e['a'][0], s, env)]
            if not e.get('a') and e.get('f', '').startswith('bertini::node::'): return ('const', e['n'])
            if e.get('conv') and e.get('o') is not None: return self.const(e['o'], s, env)
        raise Undecided('constant')
    def string(self, e, s, env):
        if e['k'] == 'str': return e['v']
        if e['k'] == 'char': return chr(e['v']) if isinstance(e['v'], int) else e['v']
        if e['k'] in ('ctor', 'cast', 'list') and e['a']: return self.string(e['a'][0], s, env)
        if e['k'] == 'ctor': return ''
        if e['k'] == 'ref':
            if e.get('id') in env:
                x, en = env[e['id']]; return self.string(x, s, en)
            g = self.F.gvars.get(e.get('q'))
            if g is not None and g.get('init') is not None: return self.string(g['init'], s, env)
        if e['k'] == 'op' and e['op'] == '+': return self.string(e['a'][0], s, env) + self.string(e['a'][1], s, env)
        if e['k'] == 'call' and e.get('n') == 'c_str': return self.string(e['o'], s, env)
        if e['k'] == 'call' and e.get('conv'): return self.string(e['o'], s, env)
        raise Undecided('string')
    def rule_ref(self, e, s, env):
        if e['k'] == 'mem':
            b = e.get('b')
            if b is None or b['k'] == 'this': return s.rules.get(e['n'])
            if b['k'] == 'mem' and (b.get('b') is None or b['b']['k'] == 'this') and b['n'] in s.subs: return s.subs[b['n']].rules.get(e['n'])
        if e['k'] == 'ref' and e.get('id') in env:
            x, en = env[e['id']]
            if x['k'] in ('mem', 'ref', 'cast'): return self.rule_ref(x, s, en)
        if e['k'] == 'cast': return self.rule_ref(e['a'][0], s, env)
        return None
    def table_ref(self, e, s, env):
        if e['k'] == 'mem' and (e.get('b') is None or e['b']['k'] == 'this'): return s.tables.get(e['n'])
        if e['k'] == 'un' and e['op'] == '*' or e['k'] == 'op' and e['op'] in ('*', '->') and len(e['a']) == 1:
            x = e['a'][0]
            while x['k'] == 'cast': x = x['a'][0]
            if x['k'] == 'ref' and x.get('id') in s.params and s.params[x['id']]:
                _, s2, n = s.params[x['id']]; return s2.tables.get(n)
        if e['k'] == 'ref' and e.get('id') in env:
            x, en = env[e['id']]; return self.table_ref(x, s, en)
        return None
    def has_action(self, p):
        if isinstance(p, list): return any(self.has_action(x) for x in p)
        if not isinstance(p, tuple): return False
        if p and p[0] == 'act': return True
        if p and p[0] in ('rule', 'table', 'lit', 'chr'): return False
        return any(self.has_action(x) for x in p)
    def build(self, e, s, env):
        k = e['k']
        B = lambda x: self.build(x, s, env)
        if k == 'str': return ('lit', e['v'])
        if k == 'char': return ('lit', chr(e['v']) if isinstance(e['v'], int) else e['v'])
        if k == 'cast': return B(e['a'][0])
        r = self.rule_ref(e, s, env)
        if r is not None: return ('rule', s, r)
        t = self.table_ref(e, s, env)
        if t is not None: return ('table', t)
        if k == 'mem':
            b = e.get('b')
            if (b is None or b['k'] == 'this') and e['n'] in s.subs:
                sub = s.subs[e['n']]
                if sub.start is None: raise Undecided('grammar without start')
                return ('rule', sub, sub.rules[sub.start])
            raise Undecided(f"member {e['n']}")
        if k == 'ref':
            n = e['n']
            if e.get('id') in env:
                x, en = env[e['id']]; return self.build(x, s, en)
            if n in ('eps', 'eol', 'eoi'): return (n,)
            if n in CHARS: return ('chr', n, None)
            if n in ('uint_', 'int_', 'double_', 'bool_', 'float_', 'long_', 'ulong_', 'ushort_', 'short_'): return ('num', n)
            raise Undecided(f'terminal {n}')
        if k == 'ctor':
            if 'basic_string' in (e.get('t') or ''): return ('lit', self.string(e, s, env))
            if len(e['a']) == 1: return B(e['a'][0])
            raise Undecided('constructor in a grammar')
        if k == 'call':
            n = e.get('n')
            if e.get('conv') and e.get('o') is not None: return B(e['o'])
            if n in ('deep_copy', 'alias', 'copy') and e['a']: return B(e['a'][0])
            if n == 'to_string': pass
            f = self.P.resolve(e, None, None)
            if f is not None and f.get('body') and (f.get('q') or '').startswith('bertini'):
                e2 = {p['id']: (a, env) for p, a in zip(f['params'], e['a'])}
                return self.retexpr(f['body'], s, e2)
            raise Undecided(f'call {n} in a grammar')
        if k == 'op':
            op = e['op']; A = e['a']
            if op == '()':
                t = A[0]
                if t['k'] == 'ref' and t['n'] == 'lit': return ('lit', self.string(A[1], s, env))
                if t['k'] == 'ref' and t['n'] == 'char_':
                    a = [x for x in A[1:] if not (x['k'] in ('int', 'defarg') or x['k'] == 'cast' and x['a'][0]['k'] == 'int')]
                    if len(a) == 2: return ('chr', 'range', (self.string(a[0], s, env), self.string(a[1], s, env)))
                    v = self.string(a[0], s, env)
                    return ('chr', 'set', v) if a[0]['k'] != 'char' else ('chr', 'one', v)
                if t['k'] == 'ref' and t['n'] == 'eps': return ('eps',)
                lam, en = self.lam(t, env)
                if lam is not None:
                    e2 = dict(en); e2.update({p['id']: (a, env) for p, a in zip(lam['params'], A[1:])})
                    return self.retexpr(lam['body'], s, e2)
                raise Undecided('call in a grammar')
            if op == '[]':
                t = A[0]
                if t['k'] == 'ref' and t['n'] in ('no_case', 'lexeme', 'omit', 'as_string', 'raw', 'no_skip', 'skip', 'hold', 'matches', 'as'):
                    if t['n'] in ('hold', 'matches', 'skip', 'as'): raise Undecided(f"directive {t['n']}")
                    return (t['n'], B(A[1]))
                return ('act', B(t), (_H(A[1]), s, env))
            if len(A) == 1:
                m = {'*': 'star', '+': 'plus', '-': 'opt', '!': 'not', '&': 'and', '~': 'neg'}.get(op)
                if m is None: raise Undecided(f'operator {op}')
                return (m, B(A[0]))
            if op in ('>>', '>'):
                l, r_ = B(A[0]), B(A[1])
                def parts(x, o): return x[1] if x[0] == 'seq' and x[3] == o else [(x, False)]
                # a sequence node of the same operator is flattened; a parenthesised right operand of >> is its own sequence
                left = l[1] if l[0] == 'seq' else [(l, False)]
                if l[0] == 'seq' and l[3] != op: left = [(l, False)]
                return ('seq', left + [(r_, op == '>')], None, op)
            if op in ('|', '^', '||'):
                if op == '||': raise Undecided('operator ||')
                tag = 'alt' if op == '|' else 'perm'
                l, r_ = B(A[0]), B(A[1])
                return (tag, (l[1] if l[0] == tag else [l]) + (r_[1] if r_[0] == tag and tag == 'alt' else [r_]))
            if op == '-': return ('diff', B(A[0]), B(A[1]))
            if op == '%': return ('list', B(A[0]), B(A[1]))
            if op == '=' : raise Undecided('assignment in a grammar')
        raise Undecided(f'{k} in a grammar')
    def lam(self, e, env):
        while e['k'] == 'cast': e = e['a'][0]
        if e['k'] == 'lambda': return e, env
        if e['k'] == 'ref' and e.get('id') in env: return self.lam(*env[e['id']])
        return None, None
    def retexpr(self, body, s, env):
        for x in body['s']:
            if x['k'] == 'return': return self.build(x['e'], s, env)
            if x['k'] == 'decl':
                for v in x['d']:
                    if v['k'] == 'var' and v.get('init') is not None: env[v['id']] = (v['init'], env)
        raise Undecided('no parser returned')
    # ------------------------------------------------ actions
    def action(self, h, s, env):
        key = (id(h.e), id(s))
        if key not in self.memo: self.memo[key] = self.compile(h.e, s, env); self.nact += 1
        return self.memo[key]
    def compile(self, e, s, env):
        """-> function(frame) performing the action"""
        k = e['k']
        if k == 'op' and e['op'] == ',':
            fs = [self.compile(a, s, env) for a in e['a']]
            def seq(fr):
                for f in fs: f(fr)
            return seq
        if k == 'op' and e['op'] in ('=', '+=', '-=', '*=', '/=') and e['a'][0]['k'] == 'ref' and e['a'][0]['n'] in ('_val', '_a', '_b', '_r0'):
            tgt = e['a'][0]['n']; op = e['op'][:-1]
            v = self.expr(e['a'][1], s, env)
            def asg(fr):
                x = v(fr)
                if op: x = arith(op, fr.get(tgt), x)
                fr.set(tgt, x)
            return asg
        if k == 'call' and e.get('n') == 'bind': return self.bind(e, s, env)
        if k == 'call' and e.get('n') == 'val': return lambda fr: None
        v = self.expr(e, s, env)
        return lambda fr: v(fr)
    def bind(self, e, s, env):
        c = e['a'][0]; args = e['a'][1:]
        argf = [self.expr(a, s, env) for a in args]
        argn = [a['n'] if a['k'] == 'ref' else None for a in args]
        lam, en = self.lam(c, env)
        if lam is None:
            t = c
            while t['k'] in ('cast', 'un') : t = t['a'][0]
            if t['k'] in ('ref', 'mem') and t.get('dk') in ('method', 'function', 'fn', None) or t['k'] == 'ref':
                name = t['n']; q = t.get('q') or name
                fns = [f for f in self.F.fn(q)] if q else []
                if q.startswith('bertini::System::') or q.startswith('bertini::parsing::classic::SplitInputFile::'):
                    def meth(fr):
                        o = fr.get(argn[0]) if argn[0] in ('_val', '_a') else argf[0](fr)
                        if not isinstance(o, list): o = []; fr.set(argn[0], o)
                        o.append((name,) + tuple(f(fr) for f in argf[1:]))
                    return meth
                if len(fns) == 1 and not fns[0].get('cls'): lam = fns[0]
            if lam is None: raise Undecided('bound function')
        d = GrammarDen(self.F, self.P)
        vals = []
        for i, (p, n) in enumerate(zip(lam['params'], argn)):
            if p['t'].rstrip().endswith('&') and not p['t'].startswith('const '): vals.append(('alias', ('f', f'${i}')))
            else: vals.append(('sym', f'${i}'))
        fn = {'id': 'lambda', 'params': lam['params'], 'body': lam['body'], 'inits': [], 'ret': '', 'kind': 'function', 'n': 'lambda'}
        st = St()
        # captured constants
        ps = d.function(fn, vals, st=st)
        if len(ps) != 1 or ps[0].kind == 'throw': raise Undecided('branching action')
        p = ps[0]
        writes = {}
        for l, v in p.st.env.items():
            if l[0] == 'f' and l[1].startswith('$') and l[1] != '$eff':
                sv = d.st; d.st = p.st
                try: writes[l[1]] = d.resolve(v)
                finally: d.st = sv
        effs = p.st.env.get(('f', '$eff'), ('list',))[1:]
        def run(fr):
            cur = [f(fr) for f in argf]
            def sub(t):
                if isinstance(t, tuple) and len(t) == 2 and t[0] == 'sym' and isinstance(t[1], str) and t[1].startswith('$'):
                    n = t[1][1:].split('.')
                    v = cur[int(n[0])]
                    for x in n[1:]: v = v.get(x, ('sym', x)) if isinstance(v, dict) else ('attr', v, x)
                    return v
                if isinstance(t, tuple): return tuple(sub(x) for x in t)
                return t
            for l, v in writes.items():
                n = l[1:].split('.'); i = int(n[0]); tgt = argn[i]
                if len(n) == 1: cur2 = sub(v); fr.set(tgt, cur2); cur[i] = cur2
                else:
                    o = fr.get(tgt)
                    if not isinstance(o, dict): o = {}; fr.set(tgt, o)
                    o['.'.join(n[1:])] = sub(v)
            for x in effs:
                x = sub(x)
                if x[0] == 'add': s.tables[x[1]][strof(x[2])] = x[3]
                fr.eff(x)
        return run
    def expr(self, e, s, env):
        k = e['k']
        if k == 'ref':
            n = e['n']
            if re.fullmatch(r'_\d', n): i = int(n[1]) - 1; return lambda fr: fr.args[i] if i < len(fr.args) else UNUSED
            if n in ('_val', '_a', '_b', '_r0'): return lambda fr: fr.get(n)
            if e.get('dk') == 'enum': q = ('enum', e['q']); return lambda fr: q
            if e.get('id') in env:
                x, en = env[e['id']]; return self.expr(x, s, en)
            raise Undecided(f'{n} in an action')
        if k == 'mem' and e.get('dk') == 'enum': q = ('enum', e['q']); return lambda fr: q
        if k == 'str': v = e['v']; return lambda fr: v
        if k == 'int': v = ('int', int(e['v'])); return lambda fr: v
        if k == 'bool': v = ('bool', e['v'] in (True, 'true', 1)); return lambda fr: v
        if k in ('cast', 'list') and e['a']: return self.expr(e['a'][0], s, env)
        if k == 'call' and e.get('n') in ('val', 'ref', 'cref'): return self.expr(e['a'][0], s, env)
        if k == 'call' and e.get('conv') and e.get('o') is not None: return self.expr(e['o'], s, env)
        if k == 'call' and e.get('n') == 'bind': f = self.bind(e, s, env); return lambda fr: f(fr)
        if k == 'ctor':
            if 'basic_string' in (e.get('t') or ''):
                A = [a for a in e['a'] if 'allocator' not in (a.get('t') or '')]
                if not A: return lambda fr: ''
                return self.expr(A[0], s, env)
            if len(e['a']) == 1: return self.expr(e['a'][0], s, env)
        if k == 'op':
            op, A = e['op'], e['a']
            if op == '()':
                m = re.search(r'MakeSharedFunctor<([\w:]+)>', (A[0].get('t') or ''))
                if m:
                    fs = [self.expr(a, s, env) for a in A[1:]]; c = m.group(1).split('::')[-1]
                    self.check_maker(m.group(1))
                    return lambda fr: ('mk', c) + tuple(f(fr) for f in fs)
                raise Undecided('call in an action')
            if len(A) == 1 and op in '-+':
                f = self.expr(A[0], s, env); return (lambda fr: ('neg', f(fr))) if op == '-' else f
            if len(A) == 2 and op in ('+', '-', '*', '/'):
                f, g = self.expr(A[0], s, env), self.expr(A[1], s, env); return lambda fr: arith(op, f(fr), g(fr))
        if k == 'call' and e.get('n', '').endswith('_lazy') or k == 'call' and e.get('o') is None:
            n = e['n']
            impl = [f for f in self.F.fns.values() if not f['pattern'] and re.search(rf'\b{re.escape(n)}_impl(_\d+)?::operator\(\)', f['q'])]
            if impl:
                d = GrammarDen(self.F, self.P)
                ps = d.function(impl[0], [('sym', f'${i}') for i in range(len(impl[0]['params']))])
                if len(ps) != 1: raise Undecided('lazy function')
                t = ps[0].ret; fs = [self.expr(a, s, env) for a in e['a']]
                def sub(t, c):
                    if isinstance(t, tuple) and t[0] == 'sym' and t[1].startswith('$'): return c[int(t[1][1:])]
                    return tuple(sub(x, c) for x in t) if isinstance(t, tuple) else t
                return lambda fr: sub(t, [f(fr) for f in fs])
        raise Undecided(f'{k} in an action')
    def check_maker(self, t):
        for f in self.F.fns.values():
            if f['q'] == 'MakeSharedFunctor::operator()' and not f['pattern']:
                if not any(x['k'] == 'call' and x.get('n') == 'Make' for x in walk(f['body'])): raise Undecided('node factory')
    def pure(self, r):
        k = ('pure', id(r))
        if k not in self.memo:
            self.memo[k] = True; self.memo[k] = self.purep(r.p) if r.p is not None else True
        return self.memo[k]
    def purep(self, p):
        if isinstance(p, list): return all(self.purep(x) for x in p)
        if not isinstance(p, tuple): return True
        if p and p[0] in ('act', 'table'): return False
        if p and p[0] == 'rule': return self.pure(p[2])
        return all(self.purep(x) for x in p)
    # ------------------------------------------------ parsing
    def parse(self, scope, text, attr=None, skip=True):
        """phrase_parse: (matched, rest of the text, value, effects)"""
        ru = Run(self, text)
        r = scope.rules[scope.start]
        try:
            m = ru.rule(r, scope, 0, skip, False)
        except Expect: return False, text, None, ru.effs
        if m is None: return False, text, None, ru.effs
        j, v = m
        if skip: j = ru.skip(j)
        return True, text[j:], v, ru.effs

def strof(v):
    if isinstance(v, str): return v
    if isinstance(v, tuple) and v[0] == 'str': return v[1]
    if isinstance(v, tuple) and v[0] == 'conv': return strof(v[1])
    raise Undecided('not a text')
def flat(v):
    if v is UNUSED or v == UNUSED or v == NONE: return ''
    if isinstance(v, str): return v
    if isinstance(v, list): return ''.join(flat(x) for x in v)
    if isinstance(v, tuple) and v[0] == 'str': return v[1]
    raise Undecided('not a text')
def arith(op, a, b):
    if isinstance(a, tuple) and a[0] == 'str': a = a[1]
    if isinstance(b, tuple) and b[0] == 'str': b = b[1]
    if op == '+' and isinstance(a, (str, list)) and isinstance(b, (str, list)): return flat(a) + flat(b)
    return (op, a, b)

class Expect(Exception): pass
class Fr:
    def __init__(s, run, rule): s.run, s.rule = run, rule; s.v = {'_val': '' if rule.attr and 'basic_string' in rule.attr else {} if rule.attr and rule.attr.endswith('Config') or rule.attr and 'Config<' in rule.attr else None}; s.args = []
    def get(s, n): return s.v.get(n)
    def set(s, n, x): s.v[n] = x
    def eff(s, x): s.run.effs.append(x)

class Run:
    def __init__(s, G, text): s.G, s.t = G, text; s.effs = []; s.steps = 0; s.cache = {}
    def skip(s, i):
        while i < len(s.t) and s.t[i].isspace(): i += 1
        return i
    def rule(s, r, sc, i, sk, nc):
        if r.p is None: return None
        s.steps += 1
        if s.steps > 3000000: raise Undecided('text too long for the grammar')
        pure = s.G.pure(r)
        key = (id(r), i, sk)
        if pure and key in s.cache:
            return s.cache[key]
        if not r.skip and sk: i = s.skip(i)
        fr = Fr(s, r)
        try: m = s.p(r.p, i, sk and r.skip, False, fr)
        except Expect:
            if r.guard:
                if 'fail' in str(r.guard) or str(r.guard) in ('0', '1', '2', '3'): m = None
                else: raise
            else: raise
        if m is None:
            if pure: s.cache[key] = None
            return None
        j, a = m
        if r.attr is None: out = (j, UNUSED)
        elif r.auto:
            if 'basic_string' in r.attr: a = flat(a)
            elif isinstance(a, Tup) and len(a) == 1: a = a[0]
            elif isinstance(a, Tup) and re.match(r'(const )?std::(vector|deque|list)<', r.attr): a = [y for x in a for y in (x if isinstance(x, list) else [x])]
            out = (j, a)
        else: out = (j, fr.v['_val'])
        if pure: s.cache[key] = out
        return out
    def p(s, p, i, sk, nc, fr):
        k = p[0]
        if k == 'rule': return s.rule(p[2], p[1], i, sk, nc)
        if k == 'seq':
            out = Tup()
            for q, ex in p[1]:
                m = s.p(q, i, sk, nc, fr)
                if m is None:
                    if ex: raise Expect()
                    return None
                i, a = m
                if a is not UNUSED and a != UNUSED: out.append(a)
            return i, (UNUSED if not out else out[0] if len(out) == 1 else out)
        if k == 'alt':
            for q in p[1]:
                m = s.p(q, i, sk, nc, fr)
                if m is not None: return m
            return None
        if k == 'perm':
            todo = list(p[1]); got = False; again = True
            while again and todo:
                again = False
                for q in todo:
                    m = s.p(q, i, sk, nc, fr)
                    if m is not None: i = m[0]; todo.remove(q); got = again = True; break
            return (i, UNUSED) if got else None
        if k in ('star', 'plus', 'opt', 'list'):
            if k == 'opt':
                m = s.p(p[1], i, sk, nc, fr)
                if m is None: return i, UNUSED
                return m
            out = []; used = False; n = 0
            while True:
                j = i
                if k == 'list' and n:
                    m = s.p(p[2], j, sk, nc, fr)
                    if m is None: break
                    j = m[0]
                m = s.p(p[1], j, sk, nc, fr)
                if m is None: break
                if m[0] == i and n and k != 'list': break
                i = m[0]; n += 1
                if m[1] is not UNUSED and m[1] != UNUSED: out.append(m[1]); used = True
                if m[0] == j and k != 'list': break
            if not n and k != 'star': return None
            return i, (out if used or k == 'star' and s.attrful(p[1]) else UNUSED)
        if k == 'act':
            m = s.p(p[1], i, sk, nc, fr)
            if m is None: return None
            h, sc, env = p[2]
            f = s.G.action(h, sc, env)
            a = m[1]
            fr.args = list(a) if isinstance(a, Tup) else [] if a is UNUSED else [a]
            f(fr)
            return m
        if k == 'omit':
            m = s.p(p[1], i, sk, nc, fr); return None if m is None else (m[0], UNUSED)
        if k == 'no_case': return s.p(p[1], i, sk, True, fr)
        if k in ('lexeme', 'no_skip'):
            if k == 'lexeme' and sk: i = s.skip(i)
            return s.p(p[1], i, False, nc, fr)
        if k == 'as_string':
            m = s.p(p[1], i, sk, nc, fr); return None if m is None else (m[0], flat(m[1]))
        if k == 'raw':
            if sk: i = s.skip(i)
            m = s.p(p[1], i, sk, nc, fr); return None if m is None else (m[0], s.t[i:m[0]])
        if k == 'not': return (i, UNUSED) if s.p(p[1], i, sk, nc, fr) is None else None
        if k == 'and': return None if s.p(p[1], i, sk, nc, fr) is None else (i, UNUSED)
        if k == 'diff':
            if s.p(p[2], i, sk, nc, fr) is not None: return None
            return s.p(p[1], i, sk, nc, fr)
        if k == 'eps': return (s.skip(i) if sk else i), UNUSED
        if sk: i = s.skip(i)
        if k == 'lit':
            w = p[1]; x = s.t[i:i + len(w)]
            return (i + len(w), UNUSED) if x == w or nc and x.lower() == w.lower() else None
        if k == 'chr':
            if i >= len(s.t): return None
            c = s.t[i]
            ok = c in p[2] if p[1] == 'one' else p[2][0] <= c <= p[2][1] if p[1] == 'range' else s.inset(c, p[2]) if p[1] == 'set' else CHARS[p[1]](c)
            return (i + 1, c) if ok else None
        if k == 'eol':
            if s.t.startswith('\r\n', i): return i + 2, UNUSED
            return (i + 1, UNUSED) if i < len(s.t) and s.t[i] in '\r\n' else None
        if k == 'eoi': return (i, UNUSED) if i >= len(s.t) else None
        if k == 'num':
            pat = {'u': r'\d+', 'd': r'[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?', 'f': r'[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?', 'b': r'true|false'}.get(p[1][0], r'[+-]?\d+')
            m = re.match(pat, s.t[i:])
            return (i + m.end(), m.group(0)) if m else None
        if k == 'table':
            best = None
            for w in p[1]:
                x = s.t[i:i + len(w)]
                if (x == w or nc and x.lower() == w.lower()) and (best is None or len(w) > len(best)): best = w
            if best is None: return None
            v = p[1][best]
            return i + len(best), v
        raise Undecided(f'parser {k}')
    def inset(s, c, spec):
        i = 0
        while i < len(spec):
            if i + 2 < len(spec) and spec[i + 1] == '-':
                if spec[i] <= c <= spec[i + 2]: return True
                i += 3
            else:
                if c == spec[i]: return True
                i += 1
        return False
    def attrful(s, p): return p[0] in ('chr', 'table', 'num') or p[0] == 'diff' and s.attrful(p[1]) or p[0] == 'rule' and p[2].attr is not None
