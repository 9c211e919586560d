"""A unit: one (or a few) real functions with their contract; and its runner."""
import time, traceback, os, re
import z3
from .sym import *
from . import tree, loops
from .stdmodel import LIB, Text, Str, CBuf, FuncVal, MapVal, FutureVal, gettext, str_eq, settext
from .oscontracts import OS

class Unit:
    name = '?'
    tu = 'core'
    tags = {}                    # obligation tag -> property ids
    default_props = ()           # properties for tags not listed
    covers = ()                  # names of cover points that must be reached
    needs = ()                   # function keys under contract (for the report)
    opts = {}
    both_trees = True
    def __init__(self, code):
        self.code, self.k = code, code.k
        self.mod = code.mod
    def overrides(self): return {}
    def main(self, ex): raise NotImplementedError
    # ---- joining paths
    joins = ()                   # contract names at which equal states are joined
    join_skip = ('sysfail', 'sym:err')
    def on_join(self, ex, st, key): pass
    def pc0(self, st): return []
    def join(self, ex, st, key):
        """True when an equal state was already explored from here"""
        from .join import fingerprint
        from .oscontracts import errno_obj
        self.on_join(ex, st, key)
        if not ex.feasible(st): return True
        fp = key + fingerprint(ex, st, self.join_skip)
        seen = self.__dict__.setdefault('_joined', set())
        if fp in seen: return True
        seen.add(fp)
        st.pc = list(self.pc0(st))
        st.trace = [('joined', key)]
        for g in self.join_skip: st.ghost.pop(g, None)
        st.wobj(errno_obj(ex, st)).cells[0] = (4, ex.fresh('errno', 32))
        ex.cover('joined paths at ' + key)
        return False
    # hooks with sane defaults
    def stop_fd(self, st): raise Undecided('no stop request here')
    def on_mark(self, c, kind, fd, path, mask, flags=None): pass
    def handle_of(self, c, p): raise Undecided('file handle outside a batch')
    def do_read(self, c): raise Undecided('read')
    def task_result(self, c, fut): raise Undecided('future')
    def loop_plan(self, ex, st, key):
        p = loops.LoopPlan()
        p.name = '%s/%s' % (short(ex.mod.dem.get(key[0], key[0])).split('::')[-1] if '{' not in short(ex.mod.dem.get(key[0], key[0])) else 'lambda in ' + lamname(ex.mod.dem.get(key[0], key[0])), key[1])
        return p
    def explain(self, ex, st, model): 
        out = []
        for t in st.trace[-14:]:
            out.append(show(t, model))
        return 'history: ' + '; '.join(out)
    def user_callback(self, c, fv, args):
        """the user's callback: receives the event, changes nothing of ours"""
        ev = snapshot(self, c, args[0])
        c.st.trace.append(('cb', ev))
        self.on_cb(c, ev)
        return None
    def on_cb(self, c, ev): pass
    def props_of(self, tags):
        out = []
        for t in tags:
            out += list(self.tags.get(t, ()))
        return tuple(dict.fromkeys(out or self.default_props))

def lamname(d):
    m = re.findall(r'watcher::adapter::([\w:]+?)::\{lambda', d)
    return m[0] if m else 'lambda'

class Ev:
    __slots__ = ('path', 'et', 'pt', 'time', 'assoc')
    def __init__(self, path, et, pt, time, assoc): self.path, self.et, self.pt, self.time, self.assoc = path, et, pt, time, assoc
    def __repr__(self): return 'event(%r,et=%s,pt=%s%s)' % (self.path, self.et, self.pt, ', with %r' % (self.assoc,) if self.assoc else '')

def snapshot(u, c, p, depth=0):
    ex, st, k = c.ex, c.st, u.k
    ex.check_ptr(st, p, k['ev.size'], 'read of an event')
    path = gettext(c, ex.padd(p, k['ev.path']), 'event name').s
    et = ex.load(st, ex.padd(p, k['ev.et']), 4); pt = ex.load(st, ex.padd(p, k['ev.pt']), 4)
    tm = ex.load(st, ex.padd(p, k['ev.time']), 8)
    a = ex.load(st, ex.padd(p, k['ev.assoc']), 8)
    for v, w in ((et, 'effect'), (pt, 'path type'), (tm, 'time'), (a, 'associated event')):
        if isinstance(v, Undef): ex.mem_fault(st, 'event %s never initialised' % w)
        if isinstance(v, Junk): raise Undecided('event field lost')
    if isinstance(a, int): a = Ptr(None, a)
    if isinstance(a, Lazy): raise Undecided('event link')
    assoc = None
    if not a.null:
        if depth > 3: raise Undecided('event nesting')
        assoc = snapshot(u, c, a, depth + 1)
    return Ev(path, et, pt, tm, assoc)

def show(t, model=None):
    def one(x):
        if isinstance(x, Ev): return repr(x)
        if z3.is_expr(x):
            if model is not None:
                try: return str(model.eval(x, model_completion=True))[:60]
                except Exception: pass
            return str(x)[:60].replace('\n', ' ')
        return str(x)[:200]
    if isinstance(t, tuple): return t[0] + '(' + ', '.join(one(x) for x in t[1:]) + ')'
    return str(t)

class Result:
    def __init__(self, unit, tree_):
        self.unit, self.tree = unit, tree_
        self.obls = []          # (name, props, status, where, detail, time, tags)
        self.undecided = None
        self.functions = []
        self.contracts = {}
        self.assumptions = set()
        self.covers = {}
        self.missing = []
        self.loops = []
        self.solver_time = 0.0
        self.queries = 0
        self.wall = 0.0
        self.smt = []

def verify(ucls, tree_, deadline=420, libs=None):
    t0 = time.time()
    res = Result(ucls.name, tree_)
    try:
        code = tree.load(ucls.tu, tree_)
        cuts = {}
        n = 0
        while True:
            u = ucls(code)
            lib = dict(LIB); lib.update(OS)
            if libs: lib.update(libs)
            ex = Exec(code.mod, lib, u.overrides(), u, dict(u.opts, deadline=t0 + deadline))
            ex.cut = cuts
            try:
                u.main(ex)
                break
            except PathEnd: break          # an obligation in main itself failed
            except NeedCut as e:
                n += 1
                if n > 30 or e.key in cuts: raise Undecided('loop cuts do not converge')
                cuts[e.key] = True
    except (Undecided, tree.Broken) as e:
        res.undecided = str(e)
        try:
            w = ''
            res.undecided += w
        except Exception: pass
    except Infeasible:
        res.undecided = 'contradictory set-up'
    except RecursionError:
        res.undecided = 'recursion limit'
    except Exception as e:
        if os.environ.get('VP_DEBUG'): raise
        res.undecided = 'internal: %s: %s' % (type(e).__name__, str(e)[:300])
        res.trace = traceback.format_exc()
    res.wall = time.time() - t0
    if 'ex' in dir():
        pass
    try:
        for o in ex.obls:
            res.obls.append(dict(name=o.name, props=u.props_of(o.props), tags=o.props, status=o.status, where=o.where,
                                 detail=o.detail, model=model_text(o.model), time=o.time))
        res.functions = sorted({rustname(code.mod.dem.get(f, f)) if tree_rust(code) else short(code.mod.dem.get(f, f)) for f in ex.used_funcs if ours(code.mod.dem.get(f, f))} | {n + ' (inlined by the compiler)' for n in getattr(u, 'inlined', ())})
        res.contracts = {rustname(k) if tree_rust(code) else k: n for k, n in ex.used_contracts.items()}
        res.assumptions = set(ex.assumptions)
        res.covers = dict(ex.covers)
        res.missing = [c for c in u.covers if c not in ex.covers]
        res.loops = list(ex.loop_report)
        res.solver_time = ex.solver.t
        res.queries = ex.solver.nq
        res.steps = ex.steps
    except UnboundLocalError: pass
    if res.undecided is None and not res.obls: res.undecided = 'no obligation was generated'
    if res.undecided is None and res.missing: res.undecided = 'vacuous: never reached: ' + ', '.join(res.missing)
    if res.undecided is None:
        unk = [o for o in res.obls if o['status'] == 'unknown']
        if unk: res.undecided = 'solver gave no answer on: ' + unk[0]['name']
    return res

def tree_rust(code): return code.tu == 'rust'
def rustname(d): return re.sub(r'\[[0-9a-f]+\]', '', d).replace('vp::w::', 'watcher-rs ')

def ours(d):
    n = split_name(d)[0]
    if '::w::' in d: return 'drop_glue' not in d and 'drop_in_place' not in d
    if n.startswith('vp_') or n.startswith('<') or n.startswith(('core::', 'alloc::')): return False
    return 'wtr' in n or n in ('main',) or n.startswith(('Args', 'json', 'receive', 'watcher_')) or not n.startswith(('std::', '__', 'operator', '_'))

def model_text(m):
    if m is None: return None
    try:
        out = []
        for d in m.decls():
            if d.arity() == 0:
                out.append('%s = %s' % (d.name(), m[d]))
        return sorted(out)[:80]
    except Exception: return None
