"""Joining paths: at a chosen call, states that are equal up to the names of symbols
are explored once. The kept state forgets its path condition (a sound weakening)."""
import z3
from .sym import *
from .stdmodel import Text, CBuf, MapVal, FuncVal, FutureVal, Str

class Namer:
    def __init__(self):
        self.n, self.objs, self.todo = {}, {}, []
    def sym(self, name):
        if name not in self.n: self.n[name] = len(self.n)
        return self.n[name]
    def obj(self, oid):
        if oid not in self.objs:
            self.objs[oid] = len(self.objs); self.todo.append(oid)
        return self.objs[oid]
    def expr(self, e):
        out, seen = [], set()
        st = [e]
        while st:
            x = st.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.append(x)
            st.extend(x.children())
        t = e.sexpr()
        import re
        names = sorted({x.decl().name() for x in out}, key=len, reverse=True)
        if not names: return t
        pat = re.compile('|'.join(re.escape(n) for n in names))
        return pat.sub(lambda m: m.group(0) if '!' not in m.group(0) else 'v%d' % self.sym(m.group(0)), t)

def val(nm, v):
    if v is None or isinstance(v, (int, str, bytes, bool)): return v
    if isinstance(v, Ptr):
        if v.obj is None: return ('p', None, off(nm, v.off))
        return ('p', nm.obj(v.obj), off(nm, v.off), v.reg)
    if isinstance(v, FuncP): return ('f', v.name)
    if isinstance(v, Undef): return 'undef'
    if isinstance(v, Junk): return 'junk'
    if isinstance(v, Lazy): return ('lazy', id(v))
    if z3.is_expr(v): return ('z', nm.expr(v))
    if isinstance(v, Str): return ('s',) + tuple((x[0], x[1] if x[0] == 'l' else nm.expr(x[1])) for x in v.p)
    if isinstance(v, Text): return ('text', val(nm, v.s), v.kind, val(nm, v.buf))
    if isinstance(v, CBuf): return ('cbuf', val(nm, v.s), val(nm, v.n), v.cap)
    if isinstance(v, MapVal): return ('map', nm.sym(v.base), tuple(tuple(val(nm, y) for y in u) for u in v.ups))
    if isinstance(v, FuncVal): return ('fv', v.kind, v.target, None if v.oid is None else nm.obj(v.oid))
    if isinstance(v, (tuple, list)): return tuple(val(nm, x) for x in v)
    return ('o', id(v))
def off(nm, o): return o if isinstance(o, int) else nm.expr(o)

def concretise(ex, st, v):
    if z3.is_bv(v) and not z3.is_bv_value(v) and ex.feasible(st):
        m = ex.solver.get_model(st.pc)
        if m is None: return v
        x = m.eval(v, model_completion=True)
        if z3.is_bv_value(x) and ex.valid(st, v == x): return x.as_long()
    return v

def fingerprint(ex, st, skip_ghosts=(), nm=None):
    nm = nm or Namer()
    out = []
    for f in st.stack:
        used = live_regs(f)
        out.append((f.fn.name, f.block, f.idx, tuple((r, val(nm, f.regs[r])) for r in sorted(used) if r in f.regs)))
        for a in f.allocas: out.append(nm.obj(a) if a in st.mem else None)
    i = 0
    while nm.todo:
        oid = nm.todo.pop(0)
        o = st.mem.get(oid)
        if o is None: out.append('dead'); continue
        if o.name == 'errno': continue
        for k in sorted(o.cells):
            n, v = o.cells[k]
            v = concretise(ex, st, v)
            if v is not o.cells[k][1]: st.wobj(oid).cells[k] = (n, v); o = st.mem[oid]
            out.append((k, n, val(nm, v)))
        out.append(tuple(sorted((r.lo, r.hi, r.kind, r.esz, None if r.arr is None else nm.expr(r.arr), id(r.info) if r.info is not None else 0) for r in o.regions)))
        out.append(tuple(sorted(o.zero)))
    for oid, o in st.mem.items():
        if o.name.startswith('@') and oid not in nm.objs and not o.const: out.append((o.name, tuple((k, n, val(nm, v)) for k, (n, v) in sorted(o.cells.items()))))
    for g in sorted((g for g in st.ghost if isinstance(g, str)), key=str):
        if g not in skip_ghosts: out.append((g, val(nm, st.ghost[g])))
    return repr(out)

def live_regs(f):
    """registers some instruction reachable from here may read"""
    key = (f.block, f.idx)
    cache = f.fn.__dict__.setdefault('_live', {}) if hasattr(f.fn, '__dict__') else {}
    if key in cache: return cache[key]
    used = set()
    def refs(x):
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] == 'local' and isinstance(x[1], str): used.add(x[1])
            for y in x: refs(y)
        elif isinstance(x, list):
            for y in x: refs(y)
    seen, todo = set(), [(f.block, f.idx)]
    while todo:
        b, i0 = todo.pop()
        for i in f.fn.blocks[b][i0:]:
            refs(i.args); refs(i.extra)
            if i.op in ('br', 'switch'):
                for l in labels(i):
                    if l in f.fn.blocks and l not in seen: seen.add(l); todo.append((l, 0))
    cache[key] = used
    return used

def labels(i):
    out = []
    def go(x):
        if isinstance(x, str): out.append(x)
        elif isinstance(x, (tuple, list)):
            for y in x: go(y)
    go(i.extra)
    return out
