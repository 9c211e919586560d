"""C20: watcher-nodejs/lib/watcher.ts. The TypeScript compiler erases the types; what is left is executed by
vp/jsexec.py against contracts of createRequire and of the Node bridge (verified as C16). As in
units_py.py, every reachable state of the watches is left by every operation once."""
import os, re, time, json, subprocess, traceback
import z3
from . import tree
from .sym import Undecided
from .script import *
from . import jsexec as J
from .jsexec import *
from .units_py import header

COVERS = ('constructed', 'library missing', 'open failed', 'closed', 'closed, not clean', 'closed again', 'event', 'event without associated path', 'event after closing', 'second watch')
HERE = os.path.dirname(os.path.abspath(__file__))

def parse(f):
    r = subprocess.run(['node', os.path.join(HERE, 'ts', 'parse.cjs'), f], capture_output=True, text=True, timeout=120)
    if r.returncode: raise tree.Broken('watcher.ts: ' + r.stderr[-300:])
    d = json.loads(r.stdout)
    if 'error' in d: raise tree.Broken('watcher.ts: ' + d['error'])
    return d['ast']

class Watched:
    def __init__(self, n): self.n, self.obj, self.cb, self.status = n, None, None, 'new'

class Job:
    def __init__(self, deadline):
        self.w = World(('C20',), deadline)
        self.ast = parse(os.path.join(tree.REPO, 'watcher-nodejs/lib/watcher.ts'))
        _, self.effects, self.kinds = header()
        self.seen = set()
    def modules(self, it):
        p, w = it.path, self.w
        def require(this, name=UND, *r):
            w.contract('require')
            if not (isinstance(name, str) and name.endswith('.node')): raise Undecided('module %r is required' % (name,))
            if p.choose(2) == 1: p.ghost['missing'] = True; it.throw('Error', 'Cannot find module')
            o = JSObj('bridge'); o.strict = True
            o.p['watch'] = Native('bridge.watch', lambda this, *a: self.open(it, a))
            return o
        def create(this, *a): w.contract('createRequire'); return Native('require', require)
        m = JSObj('node:module'); m.strict = True; m.p['createRequire'] = Native('createRequire', create)
        m.p['default'] = m
        return {'node:module': m, 'module': m}
    def open(self, it, a):
        p, w = it.path, self.w
        w.contract('bridge.watch')
        if len(a) != 2:
            w.ob('open: path and callback are given', False); raise Dead()
        cur = p.ghost['starting']
        w.ob('open: a watcher is opened by watch, once', cur is not None and cur.status == 'new')
        if cur is None or cur.status != 'new': raise Dead()
        ok = istext(a[0])
        w.ob('open: the path is a text', ok)
        w.ob('open: the path is the one given', p.text_eq(a[0], sym(cur.path)) if ok else False)
        w.ob('open: the callback is a function', isfun(a[1]))
        if not isfun(a[1]): raise Dead()
        p.trace.append(('open', a[0]))
        if p.choose(2) == 1: p.ghost['excuse'] = 'open failed'; cur.status = 'open failed'; it.throw('Error', 'Failed to open watcher')
        cur.cb, cur.status = a[1], 'open'
        o = JSObj('watcher')
        o.strict = True
        def close(this, *x):
            w.contract('bridge.close')
            if cur.status != 'open': return False
            w.ob('close: a watcher is closed when its watch is', p.ghost['closing'] is cur)
            if p.ghost['closing'] is not cur: raise Dead()
            cur.status = 'closed'; p.trace.append(('close', cur.n))
            cur.clean = p.fresh('clean', z3.BoolSort())
            return SBool(cur.clean)
        o.p['close'] = Native('bridge.close %d' % cur.n, close)
        return o
    # ---------------------------------------------------------------- events
    def event(self, it, who):
        p, w = it.path, self.w
        time_, name, assoc = p.fresh('time', z3.IntSort()), p.fresh('name'), p.fresh('associated')
        effects, kinds = sorted(self.effects.items(), key=lambda x: x[1]), sorted(self.kinds.items(), key=lambda x: x[1])
        ename, ecode = effects[p.choose(len(effects))]
        kname, kcode = kinds[p.choose(len(kinds))]
        null = p.choose(2) == 1
        ev = JSObj()
        ev.p = dict(effectTime=SInt(time_), pathName=sym(name), associatedPathName=None if null else sym(assoc), effectType=ecode, pathType=kcode)
        before = self.state(it); n0 = len(p.trace)
        try: it.call(who.cb, UND, [ev]); raised = None
        except JsThrow as r: raised = r.v
        w.ob('event: telling it does not fail', raised is None, repr(raised and getattr(raised, 'p', raised)))
        got = [t for t in p.trace[n0:] if t[0] == 'callback']
        w.ob('event: told exactly once', len(got) == 1)
        w.ob('event: no watcher is opened or closed by it', not any(t[0] in ('open', 'close') for t in p.trace[n0:]))
        if raised is None and len(got) == 1:
            w.ob('event: told to the callback given', got[0][1] == who.n)
            e = got[0][2]
            ok = isinstance(e, JSObj)
            w.ob('event: told as an object', ok)
            if ok: self.judge(it, e, time_, name, None if null else assoc, ename, kname)
            w.cover('event' if who.status == 'open' else 'event after closing')
            if null: w.cover('event without associated path')
        if self.state(it) == before: raise Dead()
    def judge(self, it, e, time_, name, assoc, ename, kname):
        w, p = self.w, it.path
        v = it.get(e, 'effectTime')
        w.ob('event: same time', it.int(v) == time_ if isnum(v) else False)
        v = it.get(e, 'pathName')
        w.ob('event: same path name', p.text_eq(v, sym(name)) if istext(v) else False)
        v = it.get(e, 'associatedPathName')
        if assoc is None: w.ob('event: no associated path when there is none', v is None)
        elif v is None: w.ob('event: the associated path is told', assoc == EMPTY)
        else: w.ob('event: same associated path', p.text_eq(v, sym(assoc)) if istext(v) else False)
        for n, cls, nm in (('effectType', 'EffectType', ename), ('pathType', 'PathType', kname)):
            l = nm.lower().split('_'); want = l[0] + ''.join(x.capitalize() for x in l[1:])
            v = it.get(e, n)
            C = p.ghost['exports'].get(cls)
            w.ob('event: the names are exported', isinstance(C, JSObj))
            w.ob('event: same %s' % ('effect type' if n == 'effectType' else 'path type'), v == want and isinstance(v, str) and isinstance(C, JSObj) and it.get(C, want) == want, '%r, not %r' % (v, want))
    # ---------------------------------------------------------------- histories
    OPS = ('close', 'event', 'second', 'close2', 'event2')
    def run(self, p):
        it = Interp(self.w, p, {}, self.seen)
        it.modules = self.modules(it)
        p.ghost.update(watches=[], starting=None, closing=None, excuse=None, missing=False)
        try: p.ghost['exports'] = it.module(self.ast)
        except JsThrow as r:
            self.w.ob('the module loads when the bridge is there', p.ghost['missing'], repr(getattr(r.v, 'p', r.v))); self.w.cover('library missing'); return
        self.it = it
        if not self.start(it, 0): return
        for k in range(60):
            key = self.state(it); d = tuple(p.dec[:p.k])
            if self.known.setdefault(key, d) != d: return
            if len(self.known) > 300: raise Undecided('the states of a watch do not close')
            if not self.op(it, self.OPS[p.choose(len(self.OPS))]): return
        raise Undecided('the states of a watch do not close')
    def start(self, it, n):
        p, w = it.path, self.w
        x = Watched(n); x.path = p.fresh('path'); x.clean = None
        p.ghost['watches'].append(x); p.ghost['starting'] = x; p.ghost['excuse'] = None
        f = p.ghost['exports'].get('watch')
        if not isfun(f): raise Undecided('watch')
        cb = Native('user callback', lambda this, *a: (p.trace.append(('callback', n, a[0] if len(a) == 1 else None)), UND)[1])
        try: o = it.call(f, UND, [sym(x.path), cb]); raised = None
        except JsThrow as r: raised = r.v
        p.ghost['starting'] = None
        if raised is not None:
            if p.ghost['excuse']: w.cover(p.ghost['excuse'])
            w.ob('watch: fails only when the bridge is missing or refuses', bool(p.ghost['excuse'] or p.ghost['missing']), repr(getattr(raised, 'p', raised)))
            w.ob('watch: a failure leaves nothing open', x.status != 'open')
            return False
        w.ob('watch: a watcher was opened', x.status == 'open')
        if x.status != 'open': return False
        ok = isinstance(o, JSObj) and isfun(it.get(o, 'close'))
        w.ob('watch: gives something that can be closed', ok)
        if not ok: return False
        x.obj = o
        w.cover('second watch' if n else 'constructed')
        return True
    def op(self, it, op):
        p, w = it.path, self.w
        ws = p.ghost['watches']
        if op == 'second':
            if len(ws) > 1: return False
            was = ws[0].status
            r = self.start(it, 1)
            w.ob('second: another watch leaves the first as it was', ws[0].status == was)
            return r
        if op[-1] == '2':
            if len(ws) < 2: return False
            who = ws[1]
        else: who = ws[0]
        if who.obj is None: return False
        others = [(o, o.status) for o in ws if o is not who]
        if op.startswith('event'): self.event(it, who)
        else:
            was = who.status; p.ghost['closing'] = who
            try: r = it.call(it.get(who.obj, 'close'), who.obj, []); raised = None
            except JsThrow as x: raised = x.v
            p.ghost['closing'] = None
            w.ob('close: does not fail', raised is None, repr(raised and getattr(raised, 'p', raised)))
            if raised is not None: return False
            w.ob('close: the watcher is closed afterwards', who.status == 'closed')
            if was == 'open' and who.status == 'closed':
                ok = isbool(r)
                w.ob("close: tells the bridge's result", it.bool(r) == who.clean if ok else False)
                w.cover('closed')
                if w.check([z3.Not(who.clean)]) == 'sat': w.cover('closed, not clean')
            elif was == 'closed':
                w.ob('close: closing again gives false', z3.Not(it.bool(r)) if isbool(r) else False); w.cover('closed again')
        for o, s in others: w.ob('other watches are left alone', o.status == s)
        return True
    def state(self, it):
        seen, order, consts = {}, {}, set()
        def canon(x): return re.sub(r'!\d+', lambda m: '!%d' % order.setdefault(m.group(0), len(order)), x)
        def names(t):
            if z3.is_const(t) and '!' in t.decl().name() and not t.decl().name().startswith('lit!'): consts.add(t.decl().name())
            for a in t.children(): names(a)
        def c(x):
            if concrete(x): return repr(x)
            if isinstance(x, (SInt, SBool)): names(x.t); return 'n:' + canon(x.t.sexpr())
            if isinstance(x, SText):
                for k, v in x.p:
                    if k == 's': names(v)
                return 't:' + canon(repr(x))
            if id(x) in seen: return 'ref%d' % seen[id(x)]
            seen[id(x)] = len(seen)
            if isinstance(x, Env): return ('env', tuple((k, c(v)) for k, v in sorted(x.v.items()) if k != 'arguments'), c(x.up) if x.up is not None and x.up is not it.glob else '')
            if isinstance(x, (JSArr,)): return ('arr', tuple(c(v) for v in x.a), tuple((k, c(v)) for k, v in x.p.items()))
            if isinstance(x, JSMap): return ('map', tuple((c(a), c(b)) for a, b in x.m))
            if isinstance(x, JSFunc): return ('fn', x.node.get('start'), c(x.env) if x.env is not it.glob else '', tuple((k, c(v)) for k, v in x.p.items()))
            if isinstance(x, Native): return ('native', x.name)
            if isinstance(x, JSObj): return (x.cls, tuple((k, c(v)) for k, v in x.p.items()), c(x.proto) if x.proto is not None else '')
            if isinstance(x, Getter): return ('get', c(x.get) if x.get else '', c(x.set) if x.set else '')
            return type(x).__name__
        ws = it.path.ghost['watches']
        r = (tuple((o.status, c(o.obj) if o.obj is not None else '', c(o.cb) if o.cb is not None else '') for o in ws), c(it.top))
        facts, rest = [], list(it.path.pc)
        def about(t): return z3.is_const(t) and t.decl().name() in consts or any(about(a) for a in t.children())
        while True:
            new = [t for t in rest if about(t)]
            if not new: break
            rest = [t for t in rest if not any(t is u for u in new)]
            for t in new: facts.append(t.sexpr()); names(t)
        return r + (tuple(sorted({canon(x) for x in facts})),)
    def main(self):
        self.known = {}
        self.w.explore(self.run)
        self.w.functions = {'watcher.ts ' + n for n in self.seen}

def run(tr, deadline, opts):
    t0 = time.time(); und = trace = None; j = None
    try:
        j = Job(t0 + deadline); j.main()
    except (Undecided, tree.Broken) as e: und = str(e)
    except RecursionError: und = 'recursion limit'
    except Exception as e:
        und = 'internal: %s: %s' % (type(e).__name__, str(e)[:200]); trace = traceback.format_exc()
    w = j.w if j else World(('C20',), t0)
    w.assumptions |= {'JavaScript executes the constructs of the source as vp/jsexec.py does', 'the Node bridge keeps C16: it calls the callback with one event object, on the thread of the script', 'the user callback does not throw'}
    return w.result('typescript', t0, COVERS, und, trace)

if __name__ == '__main__':
    r = run('both', 300, {})
    print('undecided:', r['undecided'], 'wall %.1f' % r['wall'], 'q', r['queries'])
    if r['trace']: print(r['trace'])
    from collections import Counter
    print(Counter(o['status'] for o in r['obls']), r['covers'])
    seen = set()
    for o in r['obls']:
        if o['status'] != 'ok' and o['name'] not in seen: seen.add(o['name']); print('FAIL', o['name'], o['where'], o['detail'])
    print(r['functions'])
