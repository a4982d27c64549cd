"""Extraction and loading of facts.  Everything is read from /repo's current working tree."""
import os, sys, json, subprocess, hashlib, re, time, fcntl, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('B2_REPO', '/repo')
CORE = REPO + '/core'
BUILD = VERIF + '/build'

class AnalysisBroken(Exception):
    """The analysis cannot give an answer (vanished anchor, parse failure): an error exit, never a pass."""

def _sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode()); h.update(b'\0')
    return h.hexdigest()[:24]

def build_tool():
    os.makedirs(BUILD, exist_ok=True)
    src = VERIF + '/tool/b2facts.cpp'
    key = _sha(open(src, 'rb').read())
    exe = f'{BUILD}/b2facts-{key}'
    if os.path.exists(exe): return exe
    with open(BUILD + '/tool.lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(exe): return exe
        flags = subprocess.check_output(['llvm-config-18', '--cxxflags'], text=True).split()
        flags = [f for f in flags if not f.startswith(('-O', '-std='))]
        tmp = exe + '.tmp'
        r = subprocess.run(['clang++', '-O1', '-std=c++17', '-fno-rtti', *flags, src, '-o', tmp, '-L/usr/lib/llvm-18/lib',
                            '-l:libclang-cpp.so.18.1', '-lLLVM-18'], capture_output=True, text=True)
        if r.returncode: raise AnalysisBroken('cannot build the fact extractor:\n' + r.stderr[-3000:])
        os.rename(tmp, exe)
    return exe

def flags():
    inc = [f'{CORE}', f'{CORE}/include']
    b = f'{REPO}/_build/core/include'
    cfg = b if os.path.exists(b + '/bertini2/config.h') else VERIF + '/tu/fallback_config'
    inc += [cfg, f'{cfg}/bertini2', f'{CORE}/include/bertini2', '/usr/include/eigen3']
    return ['-std=gnu++17', '-w', '-DHAVE_CONFIG_H', '-resource-dir', '/usr/lib/llvm-18/lib/clang/18'] + ['-I' + i for i in inc]

def library_sources():
    """The .cpp files the build compiles, read from the Makemodule.am files."""
    out = []
    for root, _, fs in os.walk(CORE + '/src'):
        for f in fs:
            if f != 'Makemodule.am': continue
            for m in re.finditer(r'(src/[\w/]+\.cpp)', re.sub(r'(?m)^\s*#.*$', '', open(os.path.join(root, f)).read())):
                if 'unity' in m.group(1): continue
                p = f'{CORE}/{m.group(1)}'
                if os.path.exists(p) and p not in out: out.append(p)
    return sorted(out)

def tree_hash():
    h = hashlib.sha256()
    n = 0
    for base in (CORE + '/include', CORE + '/src'):
        for root, ds, fs in os.walk(base):
            ds.sort()
            for f in sorted(fs):
                if f.endswith(('.hpp', '.cpp', '.h', '.am', '.tpp', '.ipp')):
                    p = os.path.join(root, f); h.update(p.encode()); h.update(open(p, 'rb').read()); n += 1
    return h.hexdigest()[:24], n

def _run(exe, out, roots, src):
    tmp = out + f'.{os.getpid()}.tmp'
    r = subprocess.run([exe, tmp, roots, src, '--', *flags()], capture_output=True, text=True)
    ok = r.returncode == 0 and os.path.exists(tmp)
    if ok:
        with open(tmp, 'rb') as f:
            f.seek(max(0, os.path.getsize(tmp) - 200)); ok = b'"rec":"end"' in f.read()
    if not ok:
        if os.path.exists(tmp): os.remove(tmp)
        return False, r.stderr[-3000:]
    os.rename(tmp, out)
    return True, ''

def extract(groups):
    """Return list of fact files for the groups ('core','algorithms','parsing')."""
    exe = build_tool()
    th, nfiles = tree_hash()
    key = _sha(th, os.path.basename(exe), *[open(f'{VERIF}/tu/{t}.cpp').read() for t in ('algorithms', 'parsing', 'systems')], ' '.join(flags()))
    cdir = f'{BUILD}/cache/{key}'
    os.makedirs(cdir, exist_ok=True)
    # keep the cache small: only the two most recent trees
    try:
        ds = sorted((os.path.getmtime(f'{BUILD}/cache/{d}'), d) for d in os.listdir(f'{BUILD}/cache') if d != key)
        for _, d in ds[:-3]: shutil.rmtree(f'{BUILD}/cache/{d}', ignore_errors=True)
    except OSError: pass
    with open(f'{cdir}/lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        jobs = []; outs = []
        srcs = library_sources()
        if len(srcs) < 20: raise AnalysisBroken(f'only {len(srcs)} library sources found')
        items = []
        for g in groups:
            if g == 'core' or g.startswith('core/'):
                sel = [p for p in srcs if g == 'core' or (p[len(CORE) + 5:] + '/').startswith(g[5:].rstrip('/') + '/')]
                if not sel: raise AnalysisBroken(f'no library source matches {g}')
                items += [(p, f"{cdir}/core.{p[len(CORE) + 5:].replace('/', '.')}.jsonl") for p in sel]
            else: items.append((f'{VERIF}/tu/{g}.cpp', f'{cdir}/{g}.jsonl'))
        big = lambda it: (-10**9 if '/tu/' in it[0] else 0) - os.path.getsize(it[0]) - (10**6 if '/system/' in it[0] else 0)
        items = sorted(set(items), key=lambda it: (big(it), it[0]))
        outs = [o for _, o in items]
        jobs = [(s_, o) for s_, o in items if not os.path.exists(o)]
        with ThreadPoolExecutor(8) as ex:
            rs = list(ex.map(lambda j: (_run(exe, j[1], CORE, j[0]), j), jobs))
        if any(not r[0] and 'IO failure' in r[1] for r, _ in rs): # the cache folder was taken away meanwhile
            os.makedirs(cdir, exist_ok=True)
            rs = [(r if r[0] else _run(exe, j[1], CORE, j[0]), j) for r, j in rs]
        bad = [(j[0], r[1]) for r, j in rs if not r[0]]
        if bad: raise AnalysisBroken('does not parse: ' + ', '.join(b[0] for b in bad) + '\n' + bad[0][1])
    return outs, nfiles

class Facts:
    def __init__(self, groups):
        t = time.time()
        files, self.nfiles = extract(groups)
        self.fns = {}; self.by_q = {}; self.classes = {}; self.cls_by_q = {}; self.enums = {}; self.gvars = {}; self.all_gvars = []
        for fi, path in enumerate(files):
            for line in open(path):
                d = json.loads(line)
                r = d['rec']
                if r == 'fn':
                    key = d['id'] or (d['q'], d['file'], d['line'])
                    if key in self.fns: continue
                    d['tu'] = fi
                    d['file'] = d['file'].replace(REPO + '/', '')
                    self.fns[key] = d
                    self.by_q.setdefault(d['q'], []).append(d)
                elif r == 'cls':
                    if d['id'] in self.classes: continue
                    d['file'] = d['file'].replace(REPO + '/', '')
                    self.classes[d['id']] = d
                    self.cls_by_q.setdefault(d['q'], []).append(d)
                elif r == 'enum': self.enums[d['q']] = d
                elif r == 'gvar':
                    d['file'] = d['file'].replace(REPO + '/', '')
                    self.gvars.setdefault(d['q'], d)
                    self.all_gvars.append(d)
        self.extract_s = time.time() - t
    # ---- lookups
    def fn(self, q, **kw):
        """All concrete (non-pattern) functions with this qualified name, by default."""
        out = [f for f in self.by_q.get(q, []) if f.get('body') is not None]
        if not kw.get('pattern'): 
            conc = [f for f in out if not f['pattern']]
        else: conc = [f for f in out if f['pattern']]
        return conc
    def need(self, q, **kw):
        r = self.fn(q, **kw)
        if not r: raise AnalysisBroken(f'anchor vanished: no definition of {q} found')
        return r
    def cls(self, q, pattern=False):
        cs = [c for c in self.cls_by_q.get(q, []) if c['pattern'] == pattern]
        return cs
    def need_cls(self, q, pattern=False):
        c = self.cls(q, pattern)
        if not c: raise AnalysisBroken(f'anchor vanished: no class {q}')
        return c[0]
    def bases(self, c, seen=None):
        """Transitive bases (class records known under the root)."""
        out = []
        for b in c['bases']:
            bc = self.classes.get(b.get('id'))
            if bc is None:
                cand = self.cls_by_q.get(b.get('q'), [])
                bc = cand[0] if cand else None
            if bc is not None and bc['id'] not in [x['id'] for x in out]:
                out.append(bc); out += [x for x in self.bases(bc) if x['id'] not in [y['id'] for y in out]]
        return out
    def derived(self, q):
        """Non-pattern classes having q among their transitive bases."""
        return [c for c in self.classes.values() if not c['pattern'] and any(b['q'] == q for b in self.bases(c))]
    def loc(self, f, line=None):
        return f"{f['file']}:{line if line is not None else f['line']}"

def walk(x):
    """All dict nodes of an AST, pre-order."""
    st = [x]
    while st:
        n = st.pop()
        if isinstance(n, dict):
            if 'k' in n: yield n
            for v in reversed(list(n.values())):
                if isinstance(v, (dict, list)): st.append(v)
        elif isinstance(n, list):
            st.extend(reversed(n))

if __name__ == '__main__':
    t = time.time(); f = Facts(['core', 'algorithms', 'parsing'])
    print(len(f.fns), len(f.classes), len(f.gvars), f.extract_s)
