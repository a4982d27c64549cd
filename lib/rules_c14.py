"""C14: the input language means what it says."""
import itertools
from denote import *
import grammar
from grammar import Grammar
from rules_c13 import accept_rule, FillDen
GROUPS = ['parsing', 'core/system']
TECHNIQUE = 'the parsing expression grammar (with its semantic actions) of the function and system parsers is extracted from the type-checked expression templates and compared with a reference grammar: every token string up to a bound must be refused by both or denote the same expression; symbolic summaries of the parse functions and of the System declarations they call'
NOTE = 'expressions are compared as elements of a large prime field with functions uninterpreted, so any algebraically equal tree is accepted; token strings are bounded in length (5 tokens in full, longer ones by derivation); names that begin with a declaration keyword are outside the bound'

Q = (1 << 61) - 1
def h(*a):
    x = 0x9E3779B97F4A7C15
    for y in a:
        for c in (str(y).encode()): x = ((x ^ c) * 0x100000001b3) % (1 << 64)
        x = (x * 6364136223846793005 + 1442695040888963407) % (1 << 64)
    return x % Q or 1
class Val:
    """element of the field; k: the integer it is known to be"""
    __slots__ = ('v', 'k')
    def __init__(s, v, k=None): s.v = v % Q; s.k = k
def num(text):
    """a decimal literal as an exact rational"""
    from fractions import Fraction
    try: f = Fraction(text)
    except ValueError: return None
    return Val(f.numerator * pow(f.denominator, Q - 2, Q), int(f) if f.denominator == 1 and abs(f) < 1000 else None)
def op(o, a, b):
    if o == '+': return Val(a.v + b.v, None if a.k is None or b.k is None else a.k + b.k)
    if o == '-': return Val(a.v - b.v, None if a.k is None or b.k is None else a.k - b.k)
    if o == '*': return Val(a.v * b.v, None if a.k is None or b.k is None else a.k * b.k)
    if o == '/': return Val(a.v * pow(b.v, Q - 2, Q))
    if o == '^': return Val(pow(a.v, b.k % (Q - 1), Q)) if b.k is not None and abs(b.k) < 64 else Val(h('pow', a.v, b.v))
    raise Undecided('operator ' + o)
def ev(t, env):
    """value of the expression a parse built"""
    k = t[0]
    if k == 'mk':
        if t[1] == 'Function':
            if isinstance(t[2], str): return env(t[2])
            return ev(t[2], env)
        if t[1] == 'Variable': return env(t[2])
        if t[1] in ('Integer', 'Float', 'Rational'):
            s = grammar.strof(t[2])
            if t[1] == 'Integer' and not s.lstrip('+-').isdigit(): return None # refused by the number type
            return num(s)
    if k in '+-*/' and len(t) == 3: return op(k, *both(t, env))
    if k == 'pow': return op('^', *both(t, env))
    if k == 'neg':
        a = ev(t[1], env)
        if a is None: raise NoNumber()
        return Val(-a.v, None if a.k is None else -a.k)
    if k == 'fn':
        a = ev(t[2], env)
        if a is None: raise NoNumber()
        return Val(h(t[1], a.v))
    if k == 'const': return Val(h('const', t[1].lower()))
    raise Undecided('expression ' + str(t)[:40])
class NoNumber(Exception): pass
def both(t, env):
    a, b = ev(t[1], env), ev(t[2], env)
    if a is None or b is None: raise NoNumber()
    return a, b

FUNS = ('sin', 'cos', 'tan', 'exp', 'log', 'sqrt')
CONSTS = {'pi': 'pi', 'Pi': 'pi', 'e': 'e', 'E': 'e', 'i': 'i', 'I': 'i'}
class Ref:
    """recursive descent over tokens: ordinary precedence, ^ and - and / to the left, a sign binds looser than ^ and tighter than *"""
    def __init__(s, toks, env): s.t, s.i, s.env, s.unsure = toks, 0, env, False
    def pk(s): return s.t[s.i] if s.i < len(s.t) else None
    def eat(s, x=None):
        y = s.pk()
        if y is None or x is not None and y != x: raise SyntaxError
        s.i += 1; return y
    def expr(s):
        a = s.term()
        while s.pk() in ('+', '-'): o = s.eat(); a = op(o, a, s.term())
        return a
    def term(s):
        a = s.factor()
        while s.pk() in ('*', '/'): o = s.eat(); a = op(o, a, s.factor())
        return a
    def factor(s):
        a = s.elem()
        while s.pk() == '^':
            s.eat()
            if s.pk() in ('+', '-'):
                j = s.i; a = op('^', a, s.elem())
                if '^' in s.t[j:s.i]: s.unsure = True    # x^-y^z: no reading is claimed
            else: a = op('^', a, s.elem())
        return a
    def elem(s):
        p = s.pk()
        if p == '-': s.eat(); a = s.factor(); return Val(-a.v, None if a.k is None else -a.k)
        if p == '+': s.eat(); return s.factor()
        if p == '(': s.eat(); a = s.expr(); s.eat(')'); return a
        if p in FUNS: s.eat(); s.eat('('); a = s.expr(); s.eat(')'); return Val(h(p, a.v))
        if p in CONSTS: s.eat(); return Val(h('const', CONSTS[p]))
        if p is not None and (p[0].isdigit() or p[0] == '.'): s.eat(); return num(p)
        if p is not None and p[0].isalpha(): s.eat(); return s.env(p)
        raise SyntaxError
    def run(s):
        a = s.expr()
        if s.i < len(s.t): raise SyntaxError
        return a

def scopes(s, seen=None):
    seen = {} if seen is None else seen
    if id(s) not in seen:
        seen[id(s)] = s
        for x in s.subs.values(): scopes(x, seen)
    return list(seen.values())

class Lang:
    def __init__(s, G, fn):
        s.G = G; s.S = G.scope(fn)
        s.tabs = [(t, dict(t)) for c in scopes(s.S) for t in c.tables.values()]
    def parse(s, text):
        for t, c in s.tabs: t.clear(); t.update(c)
        return s.G.parse(s.S, text)
    def expression(s, pre, text, names):
        """value of text as the definition of f, or None if the text is refused"""
        ok, rest, v, eff = s.parse(pre + 'function f; f = ' + text + ';')
        if not ok or rest.strip(): return None
        roots = [x for x in eff if x[0] == 'SetRoot' and x[1] == ('mk', 'Function', 'f')]
        if not roots: raise Undecided('no definition of f')
        try: return ev(roots[-1][2], lambda n: Val(h('name', n)))
        except NoNumber: return None

def derive(depth, leaves, ops):
    """expressions of bounded depth, as token lists"""
    if depth == 0: return [[l] for l in leaves]
    sub = derive(depth - 1, leaves, ops)
    return sub

def show(t): return ' '.join(t)

DECL = {'variable_group': ('AddVariableGroup', 'Variable'), 'hom_variable_group': ('AddHomVariableGroup', 'Variable'), 'variable': ('AddUngroupedVariables', 'Variable'),
        'function': ('AddFunctions', 'Function'), 'constant': ('AddConstants', 'Function'), 'parameter': ('AddParameters', 'Function'), 'implicit_parameter': ('AddImplicitParameters', 'Variable')}
FIELD = {'AddVariableGroup': 'variable_groups_', 'AddHomVariableGroup': 'hom_variable_groups_', 'AddUngroupedVariables': 'ungrouped_variables_', 'AddUngroupedVariable': 'ungrouped_variables_',
         'AddFunctions': 'functions_', 'AddFunction': 'functions_', 'AddConstants': 'constant_subfunctions_', 'AddConstant': 'constant_subfunctions_', 'AddParameters': 'explicit_parameters_', 'AddParameter': 'explicit_parameters_',
         'AddImplicitParameters': 'implicit_parameters_', 'AddImplicitParameter': 'implicit_parameters_', 'AddSubfunction': 'subfunctions_', 'AddSubfunctions': 'subfunctions_'}

def check(F, P, R):
    R.rule('expression', 'a text of tokens denotes the expression ordinary arithmetic gives it, and is refused if it is none', 1)
    R.rule('names', 'names and numbers are read whole: the longest declared name, decimal literals at their value, no name beginning inside another', 1)
    R.rule('declaration', 'each declaration keyword declares its kind of symbol, in order', 1)
    R.rule('refusal', 'undeclared, re-declared and incomplete texts are refused', 1)
    R.rule('complete', 'a parse function delivers a result only for a text parsed completely', 1)
    R.rule('container', 'each System::Add function appends to the container of its kind', 1)
    G = Grammar(F, P)
    fn = next((f for f in F.fns.values() if f['kind'] == 'ctor' and not f['pattern'] and f.get('body') and (f['cls'] or '').endswith('::SystemParser')), None)
    if fn is None: raise AnalysisBroken('no SystemParser constructor')
    R.fn(fn)
    ff = next((f for f in F.fns.values() if f['kind'] == 'ctor' and not f['pattern'] and f.get('body') and (f['cls'] or '').endswith('::FunctionParser')), fn)
    R.fn(ff)
    try: L = Lang(G, fn)
    except Undecided as x:
        for r in ('expression', 'names', 'declaration', 'refusal'): R.skip(r, 'SystemParser', str(x))
        L = None
    if L:
        expressions(F, R, L, ff)
        names(F, R, L, ff)
        declarations(F, R, L, fn)
    complete(F, P, R)
    container(F, P, R)
    R.extra = f'{G.nrules} grammar rules and {G.nact} semantic actions; {getattr(L, "ntext", 0)} token strings'

PRE = 'variable_group x, y, z; '
def reference(toks):
    r = Ref(toks, lambda n: Val(h('name', n)))
    try: return r.run(), r.unsure
    except AttributeError: return None, True
    except (SyntaxError, ZeroDivisionError): return None, r.unsure

def one(L, toks, text=None):
    """message if parser and reference disagree on the tokens"""
    want, unsure = reference(toks)
    if unsure: return None
    text = text if text is not None else show(toks)
    got = L.expression(PRE, text, None)
    L.ntext = getattr(L, 'ntext', 0) + 1
    if want is None and got is None: return None
    if want is None: return f'"{text}" is no expression, but is accepted'
    if got is None: return f'"{text}" is refused'
    if want.v != got.v: return f'"{text}" is read as a different expression'

def expressions(F, R, L, fn):
    loc = F.loc(fn)
    def group(key, it):
        n = 0
        try:
            for toks in it:
                n += 1
                m = one(L, toks) or one(L, toks, ''.join(toks))
                if m: return R.bad('expression', key, loc, m, ['grammar of ' + fn['cls'], 'rule exp_elem_/factor_/term_/expression_ or its action'])
            R.ok('expression', f'{key} ({n} token strings)')
        except Undecided as x: R.skip('expression', key, str(x))
    # every string of tokens up to length 4, and of the operator core up to length 6
    T1 = ['x', '2', '+', '-', '*', '/', '^', '(', ')', 'sin']
    glue = lambda t: all(not (a[-1].isalnum() and b[0].isalnum()) for a, b in zip(t, t[1:]))
    for n in (1, 2, 3, 4): group(f'all strings of {n} tokens', (list(t) for t in itertools.product(T1, repeat=n) if glue(t)))
    ops = ['+', '-', '*', '/', '^']
    def infix(k, sign):
        for os in itertools.product(ops, repeat=k - 1):
            for sg in itertools.product(('', '-') if sign else ('',), repeat=k):
                t = []
                for i in range(k):
                    if sg[i]: t.append(sg[i])
                    t.append('xyz2'[i % 4])
                    if i < k - 1: t.append(os[i])
                yield t
    group('two operands, any signs', infix(2, True)); group('three operands, any signs', infix(3, True)); group('four operands', infix(4, False))
    def brackets():
        for a, b, c in itertools.product(ops, repeat=3):
            for w in (['(', 'x', a, 'y', ')', b, 'z', c, '2'], ['x', a, '(', 'y', b, 'z', ')', c, '2'], ['x', a, 'y', b, '(', 'z', c, '2', ')'],
                      ['(', 'x', a, 'y', b, 'z', ')', c, '2'], ['x', a, '(', 'y', b, 'z', c, '2', ')'], ['-', '(', 'x', a, 'y', ')', b, 'z'], ['x', a, '-', '(', 'y', b, 'z', ')', c, '2']): yield w
    group('bracketed', brackets())
    def calls():
        for f in FUNS:
            yield [f, '(', 'x', ')']
            for o in ops:
                yield [f, '(', 'x', o, 'y', ')']; yield [f, '(', 'x', ')', o, 'y']; yield ['x', o, f, '(', 'y', ')']; yield ['-', f, '(', 'y', ')', o, 'x']; yield ['x', o, '-', f, '(', '-', 'y', ')']
            for g in FUNS: yield [f, '(', g, '(', 'x', ')', ')']; yield [f, '(', 'x', ')', '*', g, '(', 'y', ')']
            yield [f, 'x']; yield [f, '(', ')']; yield [f, '(', 'x']; yield [f]
    group('function calls', calls())
    def consts():
        for c in CONSTS:
            yield [c]
            for o in ops: yield [c, o, 'x']; yield ['x', o, c]; yield ['-', c, o, 'x']
    group('special numbers', consts())

def names(F, R, L, fn):
    loc = F.loc(fn)
    def same(key, pre, text, toks, path='symbol_'):
        try:
            want, _ = reference(toks) if toks is not None else (None, False)
            ok, rest, v, eff = L.parse(pre + 'function f; f = ' + text + ';')
            got = None
            if ok and not rest.strip():
                roots = [x for x in eff if x[0] == 'SetRoot' and x[1] == ('mk', 'Function', 'f')]
                if not roots: raise Undecided('no definition')
                try: got = ev(roots[-1][2], lambda n: Val(h('name', n)))
                except NoNumber: got = None
            if want is None and got is not None: return R.bad('names', key, loc, f'"{text}" after "{pre.strip()}" is accepted', [path])
            if want is not None and got is None: return R.bad('names', key, loc, f'"{text}" after "{pre.strip()}" is refused', [path])
            if want is not None and want.v != got.v: return R.bad('names', key, loc, f'"{text}" after "{pre.strip()}" denotes something else', [path])
            R.ok('names', key)
        except Undecided as x: R.skip('names', key, str(x))
    for n in ('0', '7', '10', '100', '0.5', '.25', '3.', '12.75', '1e2', '1E2', '1e-2', '2.5e3', '.5E-1', '3.e2', '007', '123456789012345678901234567890', '0.000000000000000000000000000001'):
        same('number ' + n, PRE, n, [n], 'number rules'); same(f'number x*{n}', PRE, 'x*' + n, ['x', '*', n], 'number rules'); same(f'number {n}-x', PRE, n + '-x', [n, '-', 'x'], 'number rules')
        same(f'number -{n}', PRE, '-' + n, ['-', n], 'number rules')
    for pre, ns in (('variable_group x, x1, x12; ', ('x', 'x1', 'x12')), ('variable_group ab; variable_group a, abc; ', ('a', 'ab', 'abc')), ('variable_group index, pie, eps, exp1, sinus; ', ('index', 'pie', 'eps', 'exp1', 'sinus')),
                    ('variable_group x_1, x[2], Y; ', ('x_1', 'x[2]', 'Y')), ('variable_group X, x; ', ('x', 'X'))):
        for n in ns:
            same(f'name {n}', pre, n, [n]); same(f'name {n}+2', pre, n + '+2', [n, '+', '2']); same(f'name sin({n})', pre, f'sin({n})', ['sin', '(', n, ')']); same(f'name 2*{n}^2', pre, f'2*{n}^2', ['2', '*', n, '^', '2'])
    for t in ('x1', 'xy', '2x', 'x2', 'w', 'x y', 'x(y)', 'sinx', 'si(x)', 'x..y', '1.2.3', '1e', '2e+', 'x**y', 'x,y', 'x;y', 'ln(x)', 'abs(x)', '()', 'x=y'):
        same(f'not an expression: {t}', PRE, t, None)

def declarations(F, R, L, fn):
    loc = F.loc(fn)
    A = ['a1', 'b', 'c_3']
    def run(rid, key, text, want, roots=None):
        try:
            ok, rest, v, eff = L.parse(text)
            if not ok or rest.strip(): return R.bad(rid, key, loc, f'"{text}" is refused', ['system grammar'])
            v = v or []
            got = [(n, a if isinstance(a, list) else [a]) for n, a in v]
            if got != want:
                s = lambda l: '; '.join(f"{n}({', '.join(str(x[2]) if isinstance(x, tuple) else str(x) for x in a)})" for n, a in l)
                return R.bad(rid, key, loc, f'"{text}" makes the calls {s(got)}, not {s(want)}', ['system grammar, action of the root rule'])
            if roots is not None:
                g = {}
                for x in eff:
                    if x[0] == 'SetRoot': g[x[1][2]] = ev(x[2], lambda n: Val(h('name', n))).v
                w = {k: reference(t)[0].v for k, t in roots.items()}
                if g != w: return R.bad(rid, key, loc, f'"{text}" gives definitions to {sorted(k for k in set(g) | set(w) if g.get(k) != w.get(k))} other than the text', ['system grammar, definition_ and subfunction_'])
            R.ok(rid, key)
        except (Undecided, NoNumber, AttributeError, TypeError, IndexError) as x: R.skip(rid, key, str(x)[:80])
    mk = lambda k, ns: [('mk', k, n) for n in ns]
    for kw, (m, k) in DECL.items():
        for n in (1, 2, 3):
            run('declaration', f'{kw} of {n}', f'{kw} {", ".join(A[:n])};', [(m, mk(k, A[:n]))])
            run('declaration', f'{kw} of {n}, tight', f'\n{kw}  {",".join(reversed(A[:n]))} ;\n', [(m, mk(k, A[:n][::-1]))])
        for kw2, (m2, k2) in DECL.items():
            run('declaration', f'{kw} then {kw2}', f'{kw} p1, q; {kw2} r, s;', [(m, mk(k, ['p1', 'q'])), (m2, mk(k2, ['r', 's']))])
    run('declaration', 'pathvariable', 'pathvariable t;', [('AddPathVariable', mk('Variable', ['t']))])
    run('declaration', 'subfunction', 'variable_group x; g = x^2; h1 = g+x; function f; f = h1*g;', [('AddVariableGroup', mk('Variable', ['x'])), ('AddSubfunction', mk('Function', ['g'])), ('AddSubfunction', mk('Function', ['h1'])), ('AddFunctions', mk('Function', ['f']))],
        {'g': ['x', '^', '2'], 'h1': ['g', '+', 'x'], 'f': ['h1', '*', 'g']})
    run('declaration', 'definitions go to their own function', 'variable_group x, y; function f, f1, f12; f1 = x+y; f12 = y-x; f = x*y;', [('AddVariableGroup', mk('Variable', ['x', 'y'])), ('AddFunctions', mk('Function', ['f', 'f1', 'f12']))],
        {'f': ['x', '*', 'y'], 'f1': ['x', '+', 'y'], 'f12': ['y', '-', 'x']})
    run('declaration', 'constants and parameters have definitions', 'variable_group x; pathvariable t; constant c; parameter p; c = 3; p = t^2; function f; f = c*x+p;', [('AddVariableGroup', mk('Variable', ['x'])), ('AddPathVariable', mk('Variable', ['t'])), ('AddConstants', mk('Function', ['c'])), ('AddParameters', mk('Function', ['p'])), ('AddFunctions', mk('Function', ['f']))],
        {'c': ['3'], 'p': ['t', '^', '2'], 'f': ['c', '*', 'x', '+', 'p']})
    def refuse(key, text):
        try:
            ok, rest, v, eff = L.parse(text)
            if ok and not rest.strip(): return R.bad('refusal', key, loc, f'"{text}" is accepted', ['system grammar'])
            R.ok('refusal', key)
        except Undecided as x: R.skip('refusal', key, str(x))
    for kw in list(DECL) + ['pathvariable']:
        for t in (f'{kw} ;', f'{kw} a', f'{kw} a, ;', f'{kw} a b;', f'{kw} 3;', f'{kw} a,a;', f'{kw} sin+;'): refuse(t, t)
        for d in list(DECL) + ['pathvariable']:
            if d in ('variable', 'variable_group'): refuse(f'{kw} {d};', f'{kw} {d};')
            refuse(f'{d} a; {kw} a;', f'{d} a; {kw} a;')
        for c in CONSTS: refuse(f'{kw} {c};', f'{kw} {c};')
    for t in ('function f; f = x;', 'variable_group x; function f; f = x', 'variable_group x; function f; f x;', 'variable_group x; function f; g = f', 'variable_group x; x = 3;', 'function f; f = ;', 'variable_group x; foo x;', 'variable_group x; function f; f = x; garbage'): refuse(t, t)

def complete(F, P, R):
    def lst(): return [('list', ('int', 1), ('int', 2), ('int', 3))]
    fs = [f for f in F.fn('bertini::parsing::classic::parse') if len(f['params']) == 3]
    for f in fs:
        R.fn(f)
        key = 'parse<' + f['params'][2]['t'].replace('&', '').strip().split('::')[-1] + '>'
        def good(d, M, p, acc):
            if p.kind == 'throw': return None if not acc else 'a completely parsed text is refused'
            v = M.ev(p.ret, {})
            if not acc and v: return 'success is reported for a text that was not parsed completely'
            if acc and not v: return 'a completely parsed text is reported as a failure'
            out = p.st.env.get(('v', 'out', 0))
            if not acc and out is not None and out != ('sym', 'before'): return 'the output is changed though the text was not parsed completely'
            if acc and out == ('sym', 'before'): return 'the output is not set though the text was parsed'
        d = ParseDen(F, P); d.ends = []
        run_accept(F, P, R, 'complete', key, f, d, good)
    cs = [f for f in F.fns.values() if f['kind'] == 'ctor' and f['cls'] == 'bertini::System' and not f['pattern'] and f.get('body') and len(f['params']) == 1 and 'basic_string' in f['params'][0]['t'] + f['params'][0].get('ct', '') or f['kind'] == 'ctor' and f['cls'] == 'bertini::System' and f.get('body') and len(f['params']) == 1 and 'std::string' in f['params'][0]['t']]
    for f in cs[:1]:
        R.fn(f)
        def good(d, M, p, acc):
            if acc and p.kind == 'throw': return 'a completely parsed text is refused'
            if not acc and p.kind != 'throw': return 'a system is built from a text that was not parsed completely'
        accept_rule(F, P, R, 'complete', 'System(string)', f, lst(), good)

class ParseDen(FillDen):
    def ctor(self, e):
        t = e.get('t') or ''
        if not e['a'] and ('mpfr' in t or 'number<' in t or 'complex' in t): return ('sym', 'default')
        if 'complex' in t: return ('sym', 'filled')
        return super().ctor(e)
    def call(self, e):
        if e.get('n') == 'precision' : return ('sym', 'prec')
        if e.get('n') == 'phrase_parse':
            r = super().call(e)
            return r
        return super().call(e)
    def lval(self, e):
        if e['k'] == 'ref' and e.get('id') == self.outid: return ('v', 'out', 0)
        return super().lval(e)

def run_accept(F, P, R, rid, key, fn, d, good):
    d.outid = fn['params'][2]['id']
    L = ('list', ('int', 1), ('int', 2), ('int', 3))
    try:
        ps = d.function(fn, [('it', L, ('int', 0)), ('it', L, ('int', 3)), ('sym', 'before')])
        if not d.ends: raise Undecided('no parser call')
        for ok in (True, False):
            for al in (True, False):
                M = FillM(0, 1, None, choose={'ok': ok, 'all': al})
                p = M.pick(ps)
                msg = good(d, M, p, ok and al)
                if msg: return R.bad(rid, key, F.loc(fn), msg + f" (parser {'matched' if ok else 'did not match'}, {'all' if al else 'part'} of the text consumed)", ['when the parse ends so, this function takes the wrong exit'])
        R.ok(rid, key)
    except (Undecided, NoPath, Crash, KeyError, TypeError) as x: R.skip(rid, key, str(x)[:80])
from rules_c13 import FillM

def container(F, P, R):
    for name, fld in FIELD.items():
        for f in F.fn('bertini::System::' + name):
            if len(f['params']) != 1: continue
            R.fn(f)
            many = 'vector' in f['params'][0]['t'] or name in ('AddUngroupedVariables', 'AddImplicitParameters') or 'VariableGroup' in f['params'][0]['t']
            splice = many and name not in ('AddVariableGroup', 'AddHomVariableGroup')
            d = Den(F, P)
            old = ('list', ('sym', 'o1'), ('sym', 'o2')); new = ('list', ('sym', 'n1'), ('sym', 'n2')) if many else ('sym', 'n1')
            st = St({('f', fl): old for fl in set(FIELD.values())}, {}, ())
            st.env[('f', 'time_order_of_variable_groups_')] = ('list',)
            try:
                ps = d.function(f, [new], st=st)
                for p in ps:
                    if p.kind == 'throw': continue
                    want = ('list', ('sym', 'o1'), ('sym', 'o2')) + (new[1:] if splice else (new,))
                    got = p.st.env.get(('f', fld))
                    ch = [x for x in set(FIELD.values()) if x != fld and p.st.env.get(('f', x)) != old]
                    if ch: R.bad('container', f'{name}', F.loc(f), f'{name} changes {ch[0]}', [name]); break
                    if got != want:
                        if got == old: R.bad('container', name, F.loc(f), f'{name} does not append to {fld}', [name]); break
                        if got and got[0] == 'list' and all(x[0] == 'sym' for x in got[1:]):
                            R.bad('container', name, F.loc(f), f'{name} leaves {fld} as {", ".join(x[1] for x in got[1:])} where o1, o2 were there and n1{", n2" if splice else ""} came in', [name]); break
                        raise Undecided(f'{fld} = {str(got)[:60]}')
                else: R.ok('container', f'{name}({f["params"][0]["t"].split("::")[-1]})')
            except (Undecided, NoPath, Crash, KeyError, TypeError) as x: R.skip('container', name, str(x)[:90])
