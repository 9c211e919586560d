#!/usr/bin/env python3-vt
"""check.py <property> [--tier quick|thorough]: decides one property on /repo's current tree.
exit 0: every obligation of the property was accepted (or, where the verifier gave no answer
for a unit, its bounded stand-in found nothing); exit 1: VIOLATION line."""
import sys, os, json, time, re, hashlib, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
from concurrent.futures import ProcessPoolExecutor
from vp import registry, tree

def work(job):
    sys.setrecursionlimit(20000)
    kind, name, tr, deadline, opts = job
    try:
        if kind == 'unit':
            from vp import unit
            r = unit.verify(registry.UNITS[name], tr, deadline=deadline)
            d = dict(vars(r)); d['assumptions'] = sorted(map(str, r.assumptions)); d['kind'] = kind
            return d
        mod = __import__('vp.' + name, fromlist=['run'])
        return dict(mod.run(tr, deadline, opts), kind=kind, unit=name, tree=tr)
    except BaseException as e:
        return dict(kind=kind, unit=name, tree=tr, undecided='internal: %s: %s' % (type(e).__name__, str(e)[:300]), trace=traceback.format_exc(), obls=[], functions=[], contracts={},
                    assumptions=[], covers={}, missing=[], loops=[], solver_time=0, queries=0, wall=0)

def known(prop):
    out = []
    p = os.path.join(HERE, 'known_findings.jsonl')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l:
                d = json.loads(l)
                if d.get('property') == prop and d.get('kind') == 'known': out.append(d)
    return out

def matches(k, o):
    return k.get('obligation') == o['name'] and re.search(k.get('where', ''), o['where'] or '') and re.search(k.get('detail', ''), o['detail'] or '')

def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    budget = 600 if tier == 'quick' else 780
    spec = registry.CHECKS[prop]
    jobs = []
    for u in spec.get('units', ()):
        tu = registry.UNITS[u].tu
        trees = ['devel']
        if registry.UNITS[u].both_trees:
            try: same = tree.same_trees(tu)
            except tree.Broken: same = False
            if not same: trees.append('release')
        for t in trees: jobs.append(('unit', u, t, budget - 120, None))
    for m in spec.get('modules', ()): jobs.append(('module', m, 'both', budget - 60, dict(tier=tier, seed=seed, prop=prop)))
    with ProcessPoolExecutor(8) as pool: res = list(pool.map(work, jobs))
    # ---- judge
    obls, fails, undec = [], [], []
    for r in res:
        mine = [o for o in r['obls'] if prop in o['props']]
        for o in mine: o['unit'], o['tree'] = r['unit'], r['tree']
        obls += mine
        fails += [o for o in mine if o['status'] == 'fail']
        if r['undecided']: undec.append(r)
    kn = known(prop)
    listed = [(k, [o for o in fails if matches(k, o)]) for k in kn]
    fails = [o for o in fails if not any(matches(k, o) for k in kn)]
    replays = []
    bounded = None
    viol = []
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    if fails or undec or tier == 'thorough':
        try:
            from vp import replay
            bounded = replay.run(prop, [o for o in fails], tier, seed, max(60, budget - (time.time() - t0) - 30))
        except ImportError: bounded = None
    bad = (bounded or {}).get('failures') or []
    if fails or bad:
        rp = os.path.join(HERE, 'evidence', '%s.replay.txt' % prop)
        with open(rp, 'w') as f:
            f.write('property %s\n' % prop)
            for b in bad[:5]: f.write('\n== replayed on the real code ==\n%s\n' % b)
            seen = set()
            for o in fails:
                key = (o['unit'], o['name'], o['where'])
                if key in seen: continue
                seen.add(key)
                if len(seen) > 25: break
                f.write('\n== failed obligation ==\nunit: %s (%s headers)\nobligation: %s\nwhere: %s\n%s\n' % (o['unit'], o['tree'], o['name'], o['where'], o['detail']))
                if o.get('model'): f.write('model:\n  ' + '\n  '.join(o['model'][:60]) + '\n')
        seen = set()
        for o in fails:
            key = (o['unit'], o['name'], o['where'])
            if key in seen: continue
            seen.add(key)
            if len(seen) <= 12: print('failed obligation: [%s] %s -- %s' % (o['unit'], o['name'], o['where']))
        for b in bad[:3]: print('replayed: ' + b.split('\n')[0])
        line = 'VIOLATION property=%s replay=%s' % (prop, rp)
        if not bad: line += ' no-failing-input-found'
        viol.append(line)
    for k, hit in listed:
        if hit or k.get('always'): print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    for r in undec:
        print('not decided by proof: unit %s (%s headers): %s' % (r['unit'], r['tree'], r['undecided']))
        if r.get('trace') and os.environ.get('VP_DEBUG'): print(r['trace'])
    if undec: print('BOUNDED property=%s %s' % (prop, (bounded or {}).get('summary', 'no stand-in for this unit')))
    n = len(obls); ok = sum(o['status'] == 'ok' for o in obls)
    st = sum(r['solver_time'] for r in res)
    funcs = sorted({f for r in res for f in r['functions']})
    cov = dict(obligations=n, discharged=ok,
               checker_cmd='cd /verif && python3-vt check.py %s --tier %s' % (prop, tier),
               trusted_base=registry.TRUSTED + spec.get('trusted', []),
               distinct_obligations=len({(o['unit'], o['name'], o['where']) for o in obls}),
               back_end=spec.get('backend', registry.BACKEND), solver_time_s=round(st, 2), solver_queries=sum(r['queries'] for r in res),
               functions_under_contract=funcs,
               contracts_assumed_on_dependencies={k: v for r in res for k, v in r['contracts'].items()},
               loops_with_invariants=sorted({str(l[:2]) for r in res for l in r['loops']}),
               covers={c: n_ for r in res for c, n_ in r['covers'].items()},
               units=[dict(unit=r['unit'], headers=r['tree'], undecided=r['undecided'], wall_s=round(r['wall'], 1)) for r in res],
               per_obligation=summarise(obls))
    if bounded is not None: cov['bounded_runs'] = {k: v for k, v in bounded.items() if k != 'failures'}
    for r in res:
        if r.get('extra'): cov.setdefault('extra', {}).update(r['extra'])
    assume = sorted({a for r in res for a in r['assumptions']} | set(spec.get('assumptions', [])))
    level = spec.get('level', 'proof')
    if undec: assume.append('NOT PROVED in this run: ' + '; '.join('%s: %s' % (r['unit'], r['undecided']) for r in undec))
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=assume, wall_s=round(time.time() - t0, 2), violations=len(viol))
    json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1, default=str)
    print('%s: %d obligations, %d discharged, %d functions under contract, %.1f s (solver %.1f s)%s' % (prop, n, ok, len(funcs), time.time() - t0, st, ', %d unit(s) not decided' % len(undec) if undec else ''))
    for v in viol: print(v)
    sys.stdout.flush()
    sys.exit(1 if viol else 0)

def summarise(obls):
    d = {}
    for o in obls:
        k = o['name']
        e = d.setdefault(k, dict(count=0, ok=0, time_s=0.0))
        e['count'] += 1; e['ok'] += o['status'] == 'ok'; e['time_s'] = round(e['time_s'] + (o['time'] or 0), 3)
    return d

if __name__ == '__main__': main()
