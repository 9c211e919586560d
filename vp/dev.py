import sys, os, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from vp import unit
def run(name, tree_='devel', **kw):
    from vp import registry
    u = registry.UNITS[name]
    r = unit.verify(u, tree_, **kw)
    print(name, tree_, 'undecided:', r.undecided, 'wall %.1f solver %.1f q %d' % (r.wall, r.solver_time, r.queries))
    if getattr(r, 'trace', None): print(r.trace[-1500:])
    from collections import Counter
    print(Counter(o['status'] for o in r.obls), 'covers', r.covers, 'missing', r.missing)
    print('loops', r.loops)
    seen = set()
    for o in r.obls:
        if o['status'] != 'ok' and (o['name'], o['where']) not in seen:
            seen.add((o['name'], o['where']))
            print('  FAIL' if o['status'] == 'fail' else '  UNK', o['name'], o['props'], o['where'], '\n      ', o['detail'][:1500])
    return r
if __name__ == '__main__':
    for n in sys.argv[1:]: run(n, deadline=float(os.environ.get('DL', '600')))
