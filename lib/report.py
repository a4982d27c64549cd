"""Check runner support: rule instances, known findings, evidence."""
import json, os, sys, time, traceback
from facts import VERIF, REPO, AnalysisBroken, Facts

class Report:
    def __init__(self, pid):
        self.pid = pid; self.rules = {}; self.viol = []; self.notes = []; self.t0 = time.time(); self.assumptions = []
        self.functions = set()
    def rule(self, rid, text, need=1):
        self.rules[rid] = dict(text=text, need=need, checked=0, samples=[], violations=0, skipped=[])
        return rid
    def ok(self, rid, inst):
        r = self.rules[rid]; r['checked'] += 1
        if len(r['samples']) < 400: r['samples'].append(inst)
    def bad(self, rid, key, where, msg, path=None):
        """key: construct identity without line numbers."""
        r = self.rules[rid]; r['checked'] += 1
        if any(v['key'] == key for v in self.viol): return
        r['violations'] += 1
        self.viol.append(dict(rule=rid, key=key, where=where, msg=msg, path=path or []))
    def skip(self, rid, inst, why=''):
        self.rules[rid]['skipped'].append([inst, why])
    def fn(self, *fs):
        for f in fs: self.functions.add(f"{f['q']} ({f['file']}:{f['line']})" if isinstance(f, dict) else f)

def known():
    """Open known findings: lines 'open: property=<id> key=<key> :: <what>'."""
    p = VERIF + '/known_findings.txt'
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if not l.startswith('open: property='): continue
            h, what = l.split(' :: ', 1)
            pid, key = h[len('open: property='):].split(' key=', 1)
            out.append(dict(property=pid, key=key, what=what))
    return out

def finish(R, facts, tier, level, technique):
    for rid, r in R.rules.items():
        if r['checked'] + len(r['skipped']) < r['need'] and not R.viol: R.notes.append(f'{rid}: only {r["checked"]} instances found, {r["need"]} expected: the anchors moved')
    if R.notes and os.environ.get('B2_STRICT'): raise AnalysisBroken('; '.join(R.notes))
    kn = {(k['property'], k['key']): k for k in known()}
    new = []; listed = []
    for v in R.viol:
        k = kn.get((R.pid, v['key']))
        (listed if k else new).append((v, k))
    for v, k in listed: print(f"KNOWN-FINDING: property={R.pid} {k['what']} [{v['key']} at {v['where']}]")
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    replay = f'{VERIF}/evidence/{R.pid}.violations.txt'
    if new:
        with open(replay, 'w') as f:
            for v, _ in new:
                f.write(f"{R.pid} {v['rule']}: {R.rules[v['rule']]['text']}\n  at {v['where']}\n  construct {v['key']}\n  {v['msg']}\n")
                if v['path']: f.write('  path: ' + ' -> '.join(v['path']) + '\n')
                f.write('\n')
    elif os.path.exists(replay): os.remove(replay)
    wall = time.time() - R.t0
    ninst = sum(r['checked'] for r in R.rules.values())
    ev = dict(property=R.pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level=level, wall_s=round(wall, 2),
              violations=len(new),
              coverage=dict(explanation=f'{technique}. {ninst} rule instances decided over {len(R.functions)} functions; '
                            f'{facts.nfiles} source files hashed, {len(facts.fns)} function bodies and {len(facts.classes)} classes lowered from /repo.',
                            rules={k: dict(rule=r['text'], instances=r['checked'], violations=r['violations'], examples=r['samples'][:40], undecided=r['skipped'][:40]) for k, r in R.rules.items()},
                            functions_analysed=sorted(R.functions)[:300], obligations=ninst,
                            not_decided=R.notes, known_findings=[v['key'] for v, _ in listed], new=[dict(v) for v, _ in new]),
              assumptions=R.assumptions or ['clang resolves the program as g++ does; the witness units in tu/ instantiate the templates that are used'])
    json.dump(ev, open(f'{VERIF}/evidence/{R.pid}.json', 'w'), indent=1, default=str)
    for v, _ in new: print(f"{R.pid} {v['rule']} {v['where']}: {v['msg']} [{v['key']}]" + (('\n   path: ' + ' -> '.join(v['path'])) if v['path'] else ''))
    if new:
        print(f'VIOLATION property={R.pid} replay={replay}')
        return 1
    for n in R.notes: print(f'NOT-DECIDED property={R.pid}: {n}')
    print(f'{R.pid}: {ninst} instances of {len(R.rules)} rules hold ({wall:.1f} s)')
    return 0
