"""Cutting a loop at its head with an inductive invariant.

The invariant is found, then proved, per loop and entry:
 - memory cells no iteration changes keep their entry value (frame, checked at
   every back edge by comparing memories);
 - small changed integers and ghost flags are enumerated jointly: the set of
   head valuations is closed under the loop body (checked at every back edge);
 - other changed integers are arbitrary, restricted by those candidate relations
   that hold on entry and survive every iteration (Houdini);
 - changed pointers have one of the observed shapes, with the plan's position;
 - changed texts and maps are arbitrary, temporaries are unusable.
Then the body is executed once more from the head with that invariant, and only
then are obligations recorded."""
import z3
from .sym import *
from .stdmodel import Text, CBuf, MapVal, FuncVal, FutureVal, Str

class LoopPlan:
    """what a unit knows about one of its loops"""
    name = 'loop'
    nvariants = 1                                 # the head is covered by this many cases
    variant = 0
    def entry(self, ex, st): pass                 # before the cut (may check obligations)
    def before_head(self, ex, st): pass           # ghosts the cells may be stated in
    def int_at_head(self, ex, st, c): return None # a term known equal to the cell
    def head(self, ex, st): pass                  # after havoc, before assuming candidates
    def candidates(self, ex, cells): return []    # [(name, fn(st)->cond)]
    def positions(self, ex, st, obj): return []   # [(name, offset term fn(st), null condition fn(st))]
    def ptr_cond(self, ex, cell, ptr): return None # condition fn(st) under which the pointer cell has that concrete value (NULL included)
    def map_at_head(self, ex, st, base): pass
    def region_at_head(self, ex, st, oid, r): return None
    def back(self, ex, st): pass                  # obligations at the back edge
    def exit(self, ex, st): pass                  # obligations when the loop is left
    def unchanged_ghost(self): return ()

def same(a, b):
    if a is b: return True
    if isinstance(a, int) and isinstance(b, int): return a == b
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if a.obj != b.obj: return False
        if isinstance(a.off, int) and isinstance(b.off, int): return a.off == b.off
        return z3.is_expr(a.off) and z3.is_expr(b.off) and a.off.eq(b.off)
    if isinstance(a, FuncP) and isinstance(b, FuncP): return a == b
    if z3.is_expr(a) and z3.is_expr(b): return a.eq(b)
    if isinstance(a, Undef) and isinstance(b, Undef): return True
    if isinstance(a, Junk) and isinstance(b, Junk): return True
    if isinstance(a, Text) and isinstance(b, Text): return same_str(a.s, b.s) and a.kind == b.kind and a.buf == b.buf
    if isinstance(a, CBuf) and isinstance(b, CBuf): return same_str(a.s, b.s) and same(a.n, b.n) and a.cap == b.cap
    if isinstance(a, MapVal) and isinstance(b, MapVal):
        return a.base == b.base and len(a.ups) == len(b.ups) and all(x is y for x, y in zip(a.ups, b.ups))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, FuncVal) and isinstance(b, FuncVal): return (a.kind, a.target, a.oid) == (b.kind, b.target, b.oid)
    if isinstance(a, FutureVal) and isinstance(b, FutureVal): return same(a.valid, b.valid) and a.task is b.task
    try: return bool(a == b) if type(a) is type(b) and not isinstance(a, Ghost) else False
    except Exception: return False

def same_str(a, b):
    return len(a.p) == len(b.p) and all(x[0] == y[0] and (x[1] == y[1] if x[0] == 'l' else x[1].eq(y[1])) for x, y in zip(a.p, b.p))

def isint(v): return isinstance(v, int) or (z3.is_expr(v) and (z3.is_bv(v) or z3.is_bool(v)))

def gval(v):
    """hashable image of a ghost value"""
    if isinstance(v, (int, str, bytes, bool, type(None))): return v
    if z3.is_expr(v): return ('z', v.sexpr())
    if isinstance(v, (tuple, list)): return tuple(gval(x) for x in v)
    if isinstance(v, dict): return tuple(sorted(((str(k), gval(x)) for k, x in v.items())))
    if isinstance(v, (set, frozenset)): return tuple(sorted(map(str, v)))
    return ('o', id(v))

class Cell:
    __slots__ = ('oid', 'off', 'size', 'kind', 'vals', 'opts', 'var', 'chain')
    def __init__(self, oid, off, size, kind):
        self.oid, self.off, self.size, self.kind = oid, off, size, kind
        self.vals, self.opts, self.var, self.chain = [], [], None, 0
    def __repr__(self): return 'Cell(%s+%s:%s %s)' % (self.oid, self.off, self.size, self.kind)

MAXENUM = 24
import os
DEBUG = os.environ.get('VP_LOOPS')

class Cut:
    def __init__(self, ex, st, key):
        self.ex, self.entry, self.key = ex, st, key
        f = st.stack[-1]
        self.depth, self.uid = len(st.stack), f.uid
        self.body = ex.loops(f.fn)[key[1]]
        if f.fn.blocks[f.block][0].op == 'phi': raise Undecided('phi at the head of a cut loop (%s, %s)' % (short(ex.mod.dem.get(key[0], key[0])), key[1]))
        self.plan = (ex.unit.loop_plan(ex, st, key) if ex.unit is not None and hasattr(ex.unit, 'loop_plan') else None) or LoopPlan()
        self.cells = {}          # (oid, off) -> Cell
        self.dead = set()        # objects gone at some back edge
        self.regs = {}           # (oid, lo) -> havoc'd regions
        self.cands = None        # surviving candidates
        self.dropped = set()
        self.tuples = {}         # key -> (cell values, ghost values)
        self.gkeys = set()
        self.known = False       # what the loop changes, by and large

    # ---- head construction
    def entry_tuple(self):
        return self.tuple_of(self.entry)

    def tuple_of(self, st):
        cv = []
        for k in sorted(self.cells):
            c = self.cells[k]
            if c.kind == 'enum':
                o = st.mem.get(c.oid)
                v = o.cells.get(c.off) if o else None
                cv.append((k, v[1] if v else None))
        gv = [(g, st.ghost.get(g)) for g in sorted(self.gkeys, key=str)]
        key = (tuple((k, gval(v)) for k, v in cv), tuple((g, gval(v)) for g, v in gv))
        return key, (cv, gv)

    def make_head(self, tup):
        ex = self.ex
        st = self.entry.clone()
        st.fresh_block = False
        for oid in self.dead: st.mem.pop(oid, None)
        vals = dict(tup[0])
        self.plan.before_head(ex, st)
        for k in sorted(self.cells):
            c = self.cells[k]
            if c.oid not in st.mem: continue
            o = st.wobj(c.oid)
            # remove whatever overlaps
            for kk in [kk for kk, (n, v) in o.cells.items() if kk < c.off + c.size and c.off < kk + n and kk != c.off]:
                del o.cells[kk]
            if c.kind == 'absent':
                o.cells.pop(c.off, None); continue
            if c.kind == 'enum': v = vals[k]
            elif c.kind == 'int':
                c.var = self.plan.int_at_head(ex, st, c) 
                if c.var is None: c.var = ex.fresh('h', c.size * 8)
                v = c.var
            elif c.kind == 'text':
                v = Text(Str.sym(ex.fresh('htext', 'str')), c.vals[0].kind)
            elif c.kind == 'map':
                ex.fresh_n += 1
                base = 'm%d' % ex.fresh_n
                v = MapVal(base)
                self.plan.map_at_head(ex, st, base)
            elif c.kind == 'ptr': v = ('ptr', c)     # below
            else: v = Junk('changed by the loop %s' % self.plan.name)
            if c.kind != 'ptr': o.cells[c.off] = (c.size, v)
        for (oid, lo), kind in self.regs.items():
            if oid not in st.mem: continue
            o = st.wobj(oid)
            for r in o.regions:
                if r.lo == lo:
                    if r.kind == 'kbuf':
                        r.info = None; r.kind = 'junk'
                    else:
                        ex.fresh_n += 1
                        r.arr = z3.Array('harr!%d' % ex.fresh_n, z3.BitVecSort(64), z3.BitVecSort(r.esz * 8))
                        self.plan.region_at_head(ex, st, oid, r)
        for g, v in tup[1]:
            if v is None: st.ghost.pop(g, None)
            else: st.ghost[g] = v
        st.trace = self.entry.trace + [('loop', self.plan.name)]
        self.plan.base = len(st.trace)
        self.plan.head(ex, st)
        for k in sorted(self.cells):
            c = self.cells[k]
            if c.kind == 'ptr' and c.oid in st.mem:
                o = st.wobj(c.oid)
                opts = []
                for tag, val, conds in self.ptr_opts(st, c): opts.append((val, conds))
                o.cells[c.off] = (8, Lazy(opts))
        for name, fn in self.live_cands():
            cnd = fn(st)
            if cnd is not None: st.pc.append(cnd)
        f = st.stack[-1]
        f.arrivals = {k: v for k, v in f.arrivals.items() if k not in self.body}
        return st

    def ptr_opts(self, st, c):
        out = []
        for o in c.opts:
            if o[0] == 'null':
                conds = [o2[2](st) for o2 in self.plan.positions(self.ex, st, c) if o2[2] is not None and ('nullcond', c.oid, c.off) not in self.dropped]
                f = self.ptr_fn(c, NULL)
                out.append(('null', NULL, conds + ([f(st)] if f else [])))
            elif o[0] == 'conc':
                f = self.ptr_fn(c, o[1])
                out.append(('conc', o[1], [f(st)] if f else []))
            elif o[0] == 'pos':
                _, obj, base, reg, pname = o
                for pn, term, nc in self.plan.positions(self.ex, st, c):
                    if pn == pname: out.append(('pos', Ptr(obj, simp(term(st) + base), reg), []))
        return out

    def ptr_fn(self, c, v):
        if ('ptrcond', c.oid, c.off) in self.dropped: return None
        return self.plan.ptr_cond(self.ex, c, v)

    def live_cands(self):
        return [(n, f) for n, f in (self.cands or []) if n not in self.dropped]

    def cellval(self, st, c):
        o = st.mem.get(c.oid)
        if o is None: return None
        v = o.cells.get(c.off)
        if v is None or v[0] != c.size: return None
        return v[1]

    # ---- comparing a back-edge state with the head it came from
    def diff(self, head, st):
        """cells of head's objects that differ in st and are not yet tracked"""
        new = False
        for oid, ho in head.mem.items():
            bo = st.mem.get(oid)
            if bo is ho: continue
            if bo is None:
                if oid not in self.dead: self.dead.add(oid); new = True
                continue
            keys = set(ho.cells) | set(bo.cells)
            for k in keys:
                hv, bv = ho.cells.get(k), bo.cells.get(k)
                if hv is not None and bv is not None and hv[0] == bv[0] and same(hv[1], bv[1]): continue
                if (oid, k) in self.cells and self.cells[(oid, k)].size >= max(x[0] for x in (hv, bv) if x): continue
                size = max(x[0] for x in (hv, bv) if x)
                if DEBUG: print('  new cell', oid, k, size, hv, bv)
                self.add_cell(oid, k, size, ho, bo); new = True
            hr = {r.lo: r for r in ho.regions}; br = {r.lo: r for r in bo.regions}
            for lo in set(hr) | set(br):
                a, b = hr.get(lo), br.get(lo)
                if a is None:
                    # region appeared: adopt it at the entry as well
                    if DEBUG: print('  new region', oid, b.lo, b.hi, b.kind)
                    self.adopt_region(oid, b); new = True; continue
                if b is None: raise Undecided('array view lost in a loop')
                if a.kind != b.kind or (a.arr is not None and b.arr is not None and not a.arr.eq(b.arr)) or a.info is not b.info:
                    if (oid, lo) not in self.regs: self.regs[(oid, lo)] = 1; new = True
            if ho.zero != bo.zero:
                # zero intervals lost by writes: forget them at entry
                eo = self.entry.wobj(oid) if oid in self.entry.mem else None
                if eo is not None and not all(any(c <= a and b <= d for c, d in bo.zero) for a, b in eo.zero):
                    if DEBUG: print('  zero', oid, eo.zero, bo.zero)
                    self.weaken_zero(oid, bo.zero); new = True
        for g in set(head.ghost) | set(st.ghost):
            if not isinstance(g, str) or g == 'P' or g.startswith('sym:') or g in self.plan.unchanged_ghost(): continue
            if g not in self.gkeys and gval(head.ghost.get(g)) != gval(st.ghost.get(g)):
                self.gkeys.add(g); new = True
                if DEBUG: print('  ghost', g)
        return new

    def weaken_zero(self, oid, bz):
        eo = self.entry.wobj(oid)
        out = []
        for a, b in eo.zero:
            for c, d in bz:
                lo, hi = max(a, c), min(b, d)
                if lo < hi: out.append((lo, hi))
        lost = [(a, b) for a, b in eo.zero]
        # bytes that were zero at entry but not tracked any more become cells of their own: give up precision
        for a, b in eo.zero:
            cover = sorted((max(a, c), min(b, d)) for c, d in out if max(a, c) < min(b, d))
            p = a
            for c, d in cover + [(b, b)]:
                if p < c:
                    # [p,c) was zero: keep as 8/4/1 byte zero cells only when small
                    if c - p <= 64:
                        q = p
                        while q < c:
                            w = 8 if q % 8 == 0 and q + 8 <= c else 4 if q % 4 == 0 and q + 4 <= c else 1
                            if not any(k < q + w and q < k + n for k, (n, v) in eo.cells.items()): eo.cells[q] = (w, 0)
                            q += w
                p = max(p, d)
        eo.zero = out

    def adopt_region(self, oid, r):
        eo = self.entry.wobj(oid)
        if any(x.lo == r.lo for x in eo.regions):
            self.regs[(oid, r.lo)] = 1; return
        if r.kind == 'kbuf':
            # filled inside the loop: unusable at the head
            for k in [k for k, (n, v) in eo.cells.items() if r.lo <= k < r.hi]: del eo.cells[k]
            eo.zero = [z for a, b in eo.zero for z in ((a, min(b, r.lo)), (max(a, r.hi), b)) if z[0] < z[1]]
            eo.regions.append(Region(r.lo, r.hi, 'junk', 1))
            return
        for k in [k for k, c in self.cells.items() if k[0] == oid and r.lo <= k[1] < r.hi]: del self.cells[k]
        p = Ptr(oid, r.lo, (r.lo, r.hi))
        nr = self.ex.make_region(self.entry, p, eo, None, r.esz)
        if nr is None: raise Undecided('array view of mixed cells in a loop')
        self.regs[(oid, r.lo)] = 1

    def add_cell(self, oid, off, size, ho, bo):
        eo = self.entry.mem.get(oid)
        if eo is None: return
        over = [k for k in self.cells if k[0] == oid and k[1] < off + size and off < k[1] + self.cells[k].size]
        lo, hi = off, off + size
        for k in over:
            c = self.cells.pop(k)
            lo, hi = min(lo, c.off), max(hi, c.off + c.size)
        ev = eo.cells.get(lo)
        exact = ev is not None and ev[0] == hi - lo
        evs = ev[1] if exact else None
        if evs is None and hi - lo in (1, 2, 4, 8):
            if any(a <= lo and hi <= b for a, b in eo.zero) and not any(k < hi and lo < k + n for k, (n, v) in eo.cells.items()): evs = 0
        c = Cell(oid, lo, hi - lo, None)
        c.vals = []
        self.cells[(oid, lo)] = c
        if evs == 0 and not exact:
            w = self.entry.wobj(oid); w.cells[lo] = (hi - lo, 0)
        self.classify(c, evs)
        bv = bo.cells.get(lo)
        if bv is not None and bv[0] == c.size: self.observe(c, bv[1])
        elif bv is None: self.observe(c, None)

    def classify(self, c, v):
        if v is None: c.kind = 'junk'
        elif isinstance(v, int): 
            c.kind = 'enum'
        elif isint(v): c.kind = 'int'
        elif isinstance(v, (Ptr, Lazy)):
            c.kind = 'ptr'
            if isinstance(v, Lazy): c.kind = 'junk'
            else: self.ptr_observe(c, v)
        elif isinstance(v, Text): c.kind = 'text'; c.vals = [v]
        elif isinstance(v, MapVal): c.kind = 'map'
        else: c.kind = 'junk'

    def observe(self, c, v):
        k = c.kind
        r = self.observe_(c, v)
        if DEBUG and r: print('  grew', c, k, '->', c.kind, str(v)[:100])
        return r
    def observe_(self, c, v):
        """join a back-edge value into the cell's abstraction; True when it grew"""
        k = c.kind
        if k == 'junk': return False
        if v is None:
            c.kind = 'junk'; return True
        if k == 'enum':
            if isinstance(v, int): return False
            if isint(v): c.kind = 'int'; return True
            if isinstance(v, Ptr):
                ev = self.cellval(self.entry, c)
                if ev == 0 and c.size == 8:
                    c.kind = 'ptr'; self.ptr_observe(c, NULL); self.ptr_observe(c, v); return True
            c.kind = 'junk'; return True
        if k == 'int':
            if isint(v): return False
            c.kind = 'junk'; return True
        if k == 'ptr':
            if isinstance(v, int) and v == 0: v = NULL
            if isinstance(v, Ptr): return self.ptr_observe(c, v)
            c.kind = 'junk'; return True
        if k == 'text':
            if isinstance(v, Text): return False
            c.kind = 'junk'; return True
        if k == 'map':
            if isinstance(v, MapVal): return False
            c.kind = 'junk'; return True
        return False

    def ptr_observe(self, c, v):
        if v.null:
            o = ('null',)
            if any(x[0] == 'null' for x in c.opts): return False
            c.opts.append(o); return True
        if v.obj not in self.entry.mem:
            if any(x[0] == 'junk' for x in c.opts): return False
            c.kind = 'junk'; return True
        eo = self.entry.mem[v.obj]
        for r in eo.regions:
            if v.reg is not None and r.lo <= v.reg[0] and v.reg[1] <= r.hi or (isinstance(v.off, int) and r.lo <= v.off < r.hi and r.kind == 'kbuf'):
                ps = self.plan.positions(self.ex, self.entry, c)
                if ps:
                    for x in c.opts:
                        if x[0] == 'pos' and x[1] == v.obj: return False
                    c.opts.append(('pos', v.obj, r.lo, v.reg or (r.lo, r.hi), ps[0][0])); return True
        if isinstance(v.off, int):
            for x in c.opts:
                if x[0] == 'conc' and same(x[1], v): return False
            c.opts.append(('conc', v)); 
            if len(c.opts) > 6: c.kind = 'junk'
            return True
        c.kind = 'junk'; return True

    # ---- checks at an edge into the head
    def edge_ok(self, st, entry=False):
        """which candidates and pointer shapes fail on this edge; drops them"""
        ex = self.ex
        bad = False
        for name, fn in list(self.live_cands()):
            cnd = fn(st)
            if cnd is None: continue
            if not ex.valid(st, cnd):
                if DEBUG and not entry: print('  drop', name, ex.where(st))
                self.dropped.add(name); bad = True
        for k, c in list(self.cells.items()):
            if c.kind != 'ptr': continue
            v = self.cellval(st, c)
            if isinstance(v, Lazy): continue
            if isinstance(v, int): v = Ptr(None, v)
            if not isinstance(v, Ptr): c.kind = 'junk'; bad = True; continue
            f = self.ptr_fn(c, v)
            if f is not None and not ex.valid(st, f(st)): self.dropped.add(('ptrcond', c.oid, c.off)); bad = True
            if v.null:
                for pn, term, nc in self.plan.positions(ex, st, c):
                    if nc is not None and ('nullcond', c.oid, c.off) not in self.dropped and not ex.valid(st, nc(st)):
                        self.dropped.add(('nullcond', c.oid, c.off)); bad = True
                continue
            hit = False
            for o in c.opts:
                if o[0] == 'conc' and same(o[1], v): hit = True
                if o[0] == 'pos' and o[1] == v.obj:
                    for pn, term, nc in self.plan.positions(ex, st, c):
                        if pn == o[4] and ex.valid(st, tobv(v.off, 64) == simp(term(st) + o[2])): hit = True
            if not hit:
                c.kind = 'junk'; bad = True
        return bad

def gencands(ex, cut):
    """order relations between a changed integer and unchanged ones of the same frame"""
    out = []
    st = cut.entry
    frame = st.stack[-1]
    ints = [c for c in cut.cells.values() if c.kind == 'int']
    for c in ints:
        w = c.size * 8
        def val(s, c=c, w=w):
            v = cut.cellval(s, c)
            return None if v is None or not isint(v) else tobv(v, w)
        others = []
        for a in frame.allocas:
            o = st.mem.get(a)
            if o is None or (a, 0) in cut.cells: continue
            v = o.cells.get(0)
            if v is not None and v[0] == c.size and isint(v[1]) and len(o.cells) == 1: others.append((a, 0))
        # numbers the frame's pointers lead to
        for a in frame.allocas:
            o = st.mem.get(a)
            v = o.cells.get(0) if o is not None else None
            if v is None or not isinstance(v[1], Ptr) or v[1].null or not isinstance(v[1].off, int): continue
            t = st.mem.get(v[1].obj)
            if t is None: continue
            n = 0
            for k in sorted(t.cells):
                x = t.cells[k]
                if v[1].off <= k < v[1].off + 64 and x[0] == c.size and z3.is_expr(x[1]) and z3.is_bv(x[1]) and (v[1].obj, k) not in cut.cells and (v[1].obj, k) not in others and n < 4:
                    others.append((v[1].obj, k)); n += 1
        def mk(f, val=val):
            return lambda s: (lambda v: None if v is None else f(v, s))(val(s))
        for b in others:
            def oth(s, b=b, w=w):
                x = s.mem[b[0]].cells.get(b[1]) if b[0] in s.mem else None
                return tobv(x[1], w) if x is not None and x[0] * 8 == w and isint(x[1]) else None
            for nm, rel in (('sle', lambda x, y: x <= y), ('ule', z3.ULE), ('sge', lambda x, y: x >= y)):
                out.append((('rel', nm, c.oid, c.off, b), mk(lambda v, s, rel=rel, oth=oth: None if oth(s) is None else rel(v, oth(s)))))
        for d in ints:
            if d is c or d.size != c.size: continue
            def oth2(s, d=d, w=w):
                v = cut.cellval(s, d)
                return None if v is None else tobv(v, w)
            out.append((('rel2', c.oid, c.off, d.oid, d.off), mk(lambda v, s, oth2=oth2: None if oth2(s) is None else v <= oth2(s))))
        ev = cut.cellval(st, c)
        if ev is not None and isint(ev):
            e = tobv(ev, w)
            out.append((('ge0', c.oid, c.off), mk(lambda v, s, e=e: v >= e)))
            out.append((('le0', c.oid, c.off), mk(lambda v, s, e=e: v <= e)))
    return out

def cut_loop(ex, st, key):
    cut = Cut(ex, st, key)
    plan = cut.plan
    plan.entry(ex, st)
    ex.n_loops_cut += 0 if ex.quiet else 1
    loop = (cut.depth, key[1], cut.body, cut.uid)
    saved_cut = None
    # ---- find an inductive invariant (silent), then prove it and collect the exits
    for attempt in range(8):
        tuples = search(ex, st, cut, plan, loop)
        mark = (len(ex.obls), dict(ex.covers), len(ex.loop_report), getattr(ex, 'inductive', 0))
        exits = prove(ex, cut, plan, loop, tuples)
        if exits is not None: break
        del ex.obls[mark[0]:]; ex.covers = mark[1]; del ex.loop_report[mark[2]:]; ex.inductive = mark[3]
    else: raise Undecided('loop invariant not stable (%s)' % plan.name)
    if not ex.quiet:
        ex.loop_report.append((short(ex.mod.dem.get(key[0], key[0])), key[1], len(tuples), len(cut.live_cands())))
    return exits

def heads(ex, cut, plan, loop, tup):
    hs = []
    for plan.variant in range(0 if cut.known else plan.nvariants - 1, plan.nvariants): hs.append(cut.make_head(tup))
    for head in hs:
        if not ex.feasible(head): continue
        ex.cover('loop head %s' % plan.name)
        for kind, s, v in ex.explore(head.clone(), -1, loop): yield head, kind, s

def search(ex, st, cut, plan, loop):
    """head states: closed under the body but for candidate relations, which the proof confirms"""
    ex.quiet += 1
    saved = ex.sampling
    try:
        for rnd in range(40):
            if DEBUG: print('round', rnd, plan.name, 'cells', sorted(map(str, cut.cells.values())), 'dropped', len(cut.dropped), 'live', len(cut.live_cands()), 'q', ex.solver.nq, '%.1f' % ex.solver.t, flush=True)
            # candidates for the current cells
            cut.cands = [(n, f) for n, f in plan.candidates(ex, cut) + gencands(ex, cut)]
            cut.edge_ok(st, True)
            cut.known = bool(cut.cells)
            k0, t0 = cut.tuple_of(st)
            tuples = {k0: t0}
            todo = [k0]
            if saved is None: ex.sampling = {}
            grew = False         # the shape of the head changed
            while todo and not grew:
                k = todo.pop()
                for head, kind, s in heads(ex, cut, plan, loop, tuples[k]):
                    if kind != 'back': continue
                    try: plan.back(ex, s)
                    except (PathEnd, Infeasible): continue
                    if cut.diff(head, s): grew = True
                    for kk, c in list(cut.cells.items()):
                        if c.kind != 'junk' and c.oid in s.mem and cut.observe(c, cut.cellval(s, c)): grew = True
                    if grew: continue
                    kinds = [c.kind for c in cut.cells.values()]
                    cut.edge_ok(s)
                    if kinds != [c.kind for c in cut.cells.values()]: grew = True; continue
                    nk, nt = cut.tuple_of(s)
                    for (ck, cv) in nt[0]:
                        if cv is None: cut.cells[ck].kind = 'junk'; grew = True
                    if grew: continue
                    if nk not in tuples:
                        tuples[nk] = nt; todo.append(nk)
                        # widen counters
                        for (ck, cv), (_, pv) in zip(nt[0], tuples[k][0]):
                            c = cut.cells[ck]
                            if cv == pv + 1: c.chain += 1
                            else: c.chain = max(0, c.chain - 1) if cv != pv else c.chain
                            if c.chain >= 2: c.kind = 'int'; grew = True
                        if len(tuples) > MAXENUM:
                            big = None
                            for idx, (ck, cv) in enumerate(nt[0]):
                                n = len({gval(t[0][idx][1]) for t in tuples.values()})
                                if big is None or n > big[0]: big = (n, ck)
                            if big is None or big[0] < 2: raise Undecided('too many ghost states at a loop head')
                            cut.cells[big[1]].kind = 'int'; grew = True
            if not grew: return tuples
        raise Undecided('no inductive invariant found for the loop %s' % plan.name)
    finally:
        ex.quiet -= 1
        ex.sampling = saved

def prove(ex, cut, plan, loop, tuples):
    """the body once more, from every head state, with obligations; None when the
    invariant turns out too strong (it has then been weakened)"""
    exits = []
    q0 = ex.quiet
    try: return prove_(ex, cut, plan, loop, tuples)
    finally: ex.quiet = q0
def prove_(ex, cut, plan, loop, tuples):
    exits = []
    bad = False
    for k in tuples:
        for head, kind, s in heads(ex, cut, plan, loop, tuples[k]):
            if kind == 'back':
                try: plan.back(ex, s)
                except (PathEnd, Infeasible): continue
                if cut.diff(head, s): return None
                if cut.edge_ok(s): bad = True
                if cut.tuple_of(s)[0] not in tuples: return None
                if bad: ex.quiet = max(1, ex.quiet); continue
                if not ex.quiet: ex.inductive = getattr(ex, 'inductive', 0) + 1
            else:
                plan.exit(ex, s)
                exits.append(s)
    return None if bad else exits
