"""Symbolic execution of LLVM IR with loop cutting: the VC generator.

Paths fork on symbolic branches; loops whose exit is symbolic are cut at the
head with an inductive invariant (see loops.py); every obligation goes to z3.
"""
import z3, time, re
from . import ir

BV = z3.BitVec
def bvv(v, w): return z3.BitVecVal(v, w)
STR = z3.DeclareSort('Str')
litid = z3.Function('litid', STR, z3.IntSort())
slen = z3.Function('slen', STR, z3.BitVecSort(64))
scat = z3.Function('scat', STR, STR, STR)
sjoin = z3.Function('pjoin', STR, STR, STR)
charat = z3.Function('charat', STR, z3.BitVecSort(64), z3.BitVecSort(8))

class Undecided(Exception):
    """the verifier cannot treat this code: neither proof nor violation"""
class Infeasible(Exception):
    pass
class PathEnd(Exception):
    """path ended here (violation already recorded, or abort)"""
class ProbeEnd(Exception): pass
class NeedCut(Exception):
    def __init__(self, key): self.key = key

class Ptr:
    __slots__ = ('obj', 'off', 'reg')
    def __init__(self, obj, off=0, reg=None):
        self.obj, self.off, self.reg = obj, off, reg
    def __repr__(self):
        return 'Ptr(%s+%s)' % (self.obj, self.off)
    @property
    def null(self): return self.obj is None and isinstance(self.off, int) and self.off == 0
NULL = Ptr(None, 0)

class FuncP:
    __slots__ = ('name',)
    def __init__(self, name): self.name = name
    def __repr__(self): return 'FuncP(%s)' % self.name
    def __eq__(self, o): return isinstance(o, FuncP) and o.name == self.name
    def __hash__(self): return hash(self.name)

class Undef:
    def __repr__(self): return 'undef'
UNDEF = Undef()

class Junk:
    """value not known after a loop cut (dead temporaries): may be overwritten, not read"""
    __slots__ = ('why',)
    def __init__(self, why=''): self.why = why
    def __repr__(self): return 'junk(%s)' % self.why

class Lazy:
    """pointer-sized value with finitely many shapes, chosen when first read.
    opts: list of (value, [assumptions])"""
    __slots__ = ('opts',)
    def __init__(self, opts): self.opts = opts

class Ghost:
    """base of abstract values of library objects kept in one memory cell"""
    pass

class Region:
    """part of an object with symbolic indexing.
    kind 'arr': z3 array of elements; kind 'kbuf': kernel-filled buffer"""
    __slots__ = ('lo', 'hi', 'kind', 'esz', 'arr', 'info')
    def __init__(self, lo, hi, kind, esz=1, arr=None, info=None):
        self.lo, self.hi, self.kind, self.esz, self.arr, self.info = lo, hi, kind, esz, arr, info
    def copy(self):
        return Region(self.lo, self.hi, self.kind, self.esz, self.arr, self.info)

class Obj:
    __slots__ = ('size', 'cells', 'name', 'kind', 'regions', 'zero', 'owner', 'const', 'ty')
    def __init__(self, size, name, kind, owner):
        self.size, self.name, self.kind, self.owner = size, name, kind, owner
        self.cells = {}
        self.regions = []
        self.zero = []          # byte intervals known to be zero unless overwritten
        self.const = False
        self.ty = None
    def clone(self, owner):
        o = Obj(self.size, self.name, self.kind, owner)
        o.cells = dict(self.cells)
        o.regions = [r.copy() for r in self.regions]
        o.zero = list(self.zero)
        o.const = self.const
        o.ty = self.ty
        return o

class Frame:
    __slots__ = ('fn', 'block', 'idx', 'prev', 'regs', 'allocas', 'ret', 'hook', 'arrivals', 'uid')
    def __init__(self, fn, ret=None, hook=None):
        self.fn, self.block, self.idx, self.prev = fn, fn.order[0], 0, None
        self.regs, self.allocas, self.ret, self.hook = {}, [], ret, hook
        self.arrivals = {}
        self.uid = None
    def clone(self):
        f = Frame.__new__(Frame)
        f.fn, f.block, f.idx, f.prev = self.fn, self.block, self.idx, self.prev
        f.regs = dict(self.regs); f.allocas = list(self.allocas)
        f.ret, f.hook = self.ret, self.hook
        f.arrivals = dict(self.arrivals)
        f.uid = self.uid
        return f

_sid = [0]
class State:
    def __init__(self):
        _sid[0] += 1
        self.id = _sid[0]
        self.mem = {}
        self.stack = []
        self.pc = []
        self.trace = []
        self.ghost = {}
        self.forks = 0
        self.wlog = None
        self.atomics = 0
        self.fresh_block = False    # just arrived at a block by a jump
        self.retval = None
        self.models = ()            # models of a prefix of pc: (model, the prefix, axioms)
    def clone(self):
        s = State.__new__(State)
        s.models = self.models
        _sid[0] += 1
        s.id = _sid[0]
        s.mem = dict(self.mem)
        s.stack = [f.clone() for f in self.stack]
        s.pc = list(self.pc)
        s.trace = list(self.trace)
        s.ghost = dict(self.ghost)
        s.forks = self.forks
        s.wlog = None if self.wlog is None else set(self.wlog)
        s.atomics = self.atomics
        s.fresh_block, s.retval = self.fresh_block, self.retval
        # both now share objects: force copy on write on either side
        _sid[0] += 1
        self.id = _sid[0]
        return s
    def obj(self, oid):
        return self.mem.get(oid)
    def wobj(self, oid):
        o = self.mem[oid]
        if o.owner != self.id:
            o = o.clone(self.id)
            self.mem[oid] = o
        return o

class Obligation:
    __slots__ = ('name', 'props', 'ok', 'status', 'where', 'detail', 'model', 'time', 'unit', 'tree')
    def __init__(self, name, props, status, where, detail, model=None, t=0, unit=None, tree=None):
        self.name, self.props, self.status, self.where, self.detail, self.model, self.time = name, props, status, where, detail, model, t
        self.unit, self.tree = unit, tree

def isc(v): return isinstance(v, int)
def tobv(v, w):
    if isinstance(v, int): return bvv(v, w)
    if z3.is_bool(v): return z3.If(v, bvv(1, w), bvv(0, w))
    return v
def tobool(v):
    if isinstance(v, int): return z3.BoolVal(v != 0)
    if z3.is_bool(v): return v
    return v != 0
def simp(v):
    if isinstance(v, int): return v
    v = z3.simplify(v)
    if z3.is_bv_value(v): return v.as_long()
    if z3.is_true(v): return 1
    if z3.is_false(v): return 0
    return v

def sx(v, w):
    return v - (1 << w) if v >> (w - 1) else v

class Solver:
    def __init__(self, timeout=20000, logic='QF_AUFBV'):
        self.new = lambda: z3.SolverFor(logic) if logic else z3.Solver()
        self.s = self.new()
        self.timeout = timeout
        self.s.set('timeout', timeout)
        self.stack = []
        self.nq = 0
        self.t = 0.0
        self.cache = {}
        self.base = []              # axioms, valid everywhere
        self.nbase = 0
        self.unknowns = 0
    def check(self, pc, extra=()):
        if self.nbase < len(self.base):
            if self.stack: self.s.pop(len(self.stack)); self.stack = []
            for a in self.base[self.nbase:]: self.s.add(a)
            self.nbase = len(self.base)
            self.cache = {k: v for k, v in self.cache.items() if v[0] == 'unsat'}
        key = (tuple(x.get_id() for x in pc), tuple(x.get_id() for x in extra))
        if key in self.cache:
            self.model = None
            return self.cache[key][0]
        t0 = time.time()
        k = 0
        while k < len(self.stack) and k < len(pc) and self.stack[k].eq(pc[k]): k += 1
        if len(self.stack) > k:
            self.s.pop(len(self.stack) - k)
            del self.stack[k:]
        for c in pc[k:]:
            self.s.push(); self.s.add(c); self.stack.append(c)
        if extra:
            self.s.push()
            for e in extra: self.s.add(e)
        r = self.s.check()
        self.model = self.s.model() if r == z3.sat else None
        if extra: self.s.pop()
        self.nq += 1
        self.t += time.time() - t0
        r = str(r)
        # keep the expressions alive so that ids stay unique
        self.cache[key] = (r, list(pc), list(extra))
        return r
    def get_model(self, pc, extra=()):
        s = self.new(); s.set('timeout', self.timeout)
        for c in self.base: s.add(c)
        for c in pc: s.add(c)
        for c in extra: s.add(c)
        if s.check() == z3.sat: return s.model()
        return None

class Choice:
    """nondeterminism inside a contract or a specification: re-executed per decision"""
    def __init__(self, ex, st, dec, work):
        self.ex, self.st, self.dec, self.work, self.k = ex, st, dec, work, 0
    def branch(self, cond):
        cond = simp(cond) if not isinstance(cond, bool) else int(cond)
        if isinstance(cond, int): return bool(cond)
        if not z3.is_bool(cond): cond = cond != 0
        if self.k < len(self.dec):
            d = self.dec[self.k]; self.k += 1
            self.st.pc.append(cond if d else z3.Not(cond)); 
            return d
        d = self.sample(2)
        if d is not None:
            # a search run: one of the two will do
            c2 = cond if d else z3.Not(cond)
            if not self.ex.feasible(self.st, c2): d = not d
            else: self.st.pc.append(c2)
            self.dec = self.dec[:self.k] + [bool(d)]; self.k += 1
            return bool(d)
        t = self.ex.feasible(self.st, cond)
        f = self.ex.feasible(self.st, z3.Not(cond))
        if t and f:
            self.ex.sample_seen((self.name, self.k, self.site))
            self.work.append(self.dec[:self.k] + [False])
            self.dec = self.dec[:self.k] + [True]
            self.k += 1
            self.st.forks += 1
            self.st.pc.append(cond)
            return True
        if not t and not f: raise Infeasible()
        # only one way: recorded, so that a run with more decisions passes here alike
        self.dec = self.dec[:self.k] + [t]; self.k += 1
        return t
    site = None
    memo = None
    def sample(self, n):
        if self.memo is None or self.ex.sampling is None: return None
        key = (tuple(self.dec[:self.k]), self.calls); self.calls += 1
        if key not in self.memo: self.memo[key] = self.ex.sampled((self.name, self.k, self.site), n)
        return self.memo[key]
    def choose(self, n, label=None):
        """arbitrary choice among n outcomes"""
        if self.k < len(self.dec):
            d = self.dec[self.k]; self.k += 1
            return d
        d = self.sample(n)
        if d is not None:
            self.dec = self.dec[:self.k] + [d]; self.k += 1
            return d
        self.ex.sample_seen((self.name, self.k, self.site))
        for j in range(n - 1, 0, -1):
            self.work.append(self.dec[:self.k] + [j])
        self.dec = self.dec[:self.k] + [0]
        self.k += 1
        if n > 1: self.st.forks += 1
        return 0
    def assume(self, cond):
        cond = simp(cond)
        if isinstance(cond, int):
            if not cond: raise Infeasible()
            return
        self.st.pc.append(cond)
        if not self.ex.feasible(self.st): raise Infeasible()

LOCKLESS = None

class Exec:
    def __init__(self, mod, libs=None, overrides=None, unit=None, opts=None):
        self.mod = mod
        self.T = mod.types
        self.libs = libs or {}
        self.overrides = overrides or {}
        self.unit = unit
        # the bit-vector solver knows nothing of floating point: a unit with some says so
        self.solver = Solver(logic=getattr(unit, 'logic', 'QF_AUFBV'))
        self.obls = []
        self.fresh_n = 0
        self.oid = 0
        self.cut = {}               # (fn,header) -> True
        self.loops_info = {}
        self.gobj = {}
        self.steps = 0
        self.max_steps = (opts or {}).get('max_steps', 6_000_000)
        self.deadline = (opts or {}).get('deadline')
        self.used_contracts = {}
        self.used_funcs = set()
        self.covers = {}
        self.assumptions = set()
        self.lits = {}
        self.litsyms = []
        self.quiet = 0              # >0: obligations are evaluated silently (Houdini rounds)
        self.quiet_fail = False
        self.sampling = None
        self.plan_for = None
        self.n_loops_cut = 0
        self.loop_report = []
        self.probing, self.probe_end = False, None
        self.base = State()
        self.callnames = {}
        self.noted = set()

    # ------------------------------------------------------------ utils
    def fresh(self, name, w):
        self.fresh_n += 1
        if w == 'bool': return z3.Bool('%s!%d' % (name, self.fresh_n))
        if w == 'str': return z3.Const('%s!%d' % (name, self.fresh_n), STR)
        return BV('%s!%d' % (name, self.fresh_n), w)

    # while an invariant is looked for, not every combination of outcomes is tried: what a
    # search run misses, the proof finds
    SAMPLES = 5
    def sample_seen(self, site):
        if self.sampling is not None: self.sampling[site] = self.sampling.get(site, 0) + 1
    def sampled(self, site, of=2):
        if self.sampling is None or not self.quiet: return None
        n = self.sampling.get(site, 0)
        if n < self.SAMPLES: return None
        self.sampling[site] = n + 1
        return (n * 2654435761 >> 7) % of
    def witness(self, st, cond):
        """is a model at hand in which the path and cond hold?"""
        keep = []; hit = False
        n = len(st.pc); nb = len(self.solver.base)
        for m, pre, b in st.models:
            k = len(pre)
            if b != nb or k > n or any(x is not y for x, y in zip(pre, st.pc)): continue
            ok = True
            for c in st.pc[k:]:
                if not z3.is_true(m.eval(c, model_completion=True)): ok = False; break
            if not ok: continue
            keep.append((m, tuple(st.pc) if k < n else pre, b))
            if not hit and (cond is None or z3.is_true(m.eval(cond, model_completion=True))): hit = True
        st.models = tuple(keep[-3:])
        return hit

    def feasible(self, st, extra=None):
        if extra is not None and not z3.is_expr(extra): extra = z3.BoolVal(bool(extra))
        if self.witness(st, extra): return True
        r = self.solver.check(st.pc, [extra] if extra is not None else [])
        if r == 'sat' and self.solver.model is not None: st.models = st.models + ((self.solver.model, tuple(st.pc), len(self.solver.base)),)
        return r != 'unsat'

    def valid(self, st, cond):
        cond = simp(cond)
        if isinstance(cond, int): return bool(cond)
        n = z3.Not(cond)
        if self.witness(st, n): return False
        r = self.solver.check(st.pc, [n])
        if r == 'sat' and self.solver.model is not None: st.models = st.models + ((self.solver.model, tuple(st.pc), len(self.solver.base)),)
        return r == 'unsat'

    def where(self, st):
        for f in reversed(st.stack):
            i = f.idx
            b = f.fn.blocks[f.block]
            if i < len(b) and b[i].dbg is not None:
                d = self.mod.locs.get(b[i].dbg)
                n = self.mod.dem.get(f.fn.name, f.fn.name)
                if d and ('wtr' in n or 'main' in n or 'Args' in n or 'json' in n):
                    return 'line %d in %s' % (d[0], short(n))
        return ''

    def ob(self, st, name, cond, props, detail='', assume=True):
        """obligation: pc => cond"""
        cond = simp(cond) if not isinstance(cond, bool) else int(cond)
        t0 = time.time()
        if self.quiet:
            # while an invariant is looked for nothing is recorded: what is assumed suffices
            if isinstance(cond, int):
                if not cond and assume: raise PathEnd()
                return bool(cond)
            if assume: st.pc.append(cond)
            return True
        if isinstance(cond, int):
            status = 'ok' if cond else 'fail'
            if not cond:
                # reachable?
                r = self.solver.check(st.pc)
                if r == 'unsat': status = 'ok'
                elif r == 'unknown': status = 'unknown'
            model = None
        else:
            r = self.solver.check(st.pc, [z3.Not(cond)])
            status = {'unsat': 'ok', 'sat': 'fail'}.get(r, 'unknown')
        if self.quiet:
            if status != 'ok': self.quiet_fail = True
        else:
            model = None
            if status == 'fail':
                ex = [] if isinstance(cond, int) else [z3.Not(cond)]
                model = self.solver.get_model(st.pc, ex)
            o = Obligation(name, props, status, self.where(st), detail, model, time.time() - t0)
            if status == 'fail' and self.unit is not None:
                try: o.detail = (detail + ' ' if detail else '') + self.unit.explain(self, st, model)
                except Exception: pass
            self.obls.append(o)
        if status != 'ok' and assume:
            if isinstance(cond, int): raise PathEnd()
            st.pc.append(cond)
            if not self.feasible(st): raise PathEnd()
        return status == 'ok'

    def cover(self, name):
        if not self.quiet:
            self.covers[name] = self.covers.get(name, 0) + 1

    def new_obj(self, st, size, name, kind='heap'):
        self.oid += 1
        st.mem[self.oid] = Obj(size, name, kind, st.id)
        return self.oid

    # ------------------------------------------------------------ strings
    def lit(self, b):
        """the Str constant of a literal, pairwise distinct by axiom"""
        if b not in self.lits:
            c = z3.Const('lit!' + repr(b)[2:-1], STR)
            self.solver.base.append(z3.And(litid(c) == len(self.lits), slen(c) == len(b)))
            self.lits[b] = c
        return self.lits[b]

    # ------------------------------------------------------------ memory
    def mem_fault(self, st, what):
        self.ob(st, 'memory: ' + what, False, ('MEM',))
        raise PathEnd()

    def find_region(self, o, off, reg):
        if isinstance(off, int):
            for r in o.regions:
                if r.lo <= off < r.hi: return r
            return None
        if reg is not None:
            for r in o.regions:
                if r.lo <= reg[0] and reg[1] <= r.hi: return r
        else:
            if len(o.regions) == 1: return o.regions[0]
        return None

    def check_ptr(self, st, p, size, what):
        if isinstance(p, Lazy): raise Undecided('unresolved pointer')
        if isinstance(p, Junk): raise Undecided('pointer value lost at a loop head (%s)' % p.why)
        if isinstance(p, Undef): self.mem_fault(st, '%s through an uninitialised pointer' % what)
        if not isinstance(p, Ptr):
            if isinstance(p, FuncP): raise Undecided('access to function memory')
            if isinstance(p, int) and p < 4096: self.mem_fault(st, '%s through a null pointer' % what)
            raise Undecided('%s through an integer' % what)
        if p.obj is None: self.mem_fault(st, '%s through a null pointer' % what)
        o = st.mem.get(p.obj)
        if o is None: self.mem_fault(st, '%s of an object that is no longer alive' % what)
        if isinstance(p.off, int):
            if o.size is not None and (sx(p.off, 64) < 0 or p.off + size > o.size):
                self.mem_fault(st, '%s outside object %s (offset %d, size %s)' % (what, o.name, sx(p.off, 64), o.size))
        return o

    def load(self, st, p, size, ty=None):
        """raw load; may raise Undecided. Returns value: int/bv, Ptr, Ghost, Undef"""
        o = self.check_ptr(st, p, size, 'read')
        off = p.off
        r = self.find_region(o, off, p.reg) if o.regions else None
        if r is not None: return self.region_load(st, p, o, r, off, size, ty)
        if not isinstance(off, int):
            off = simp(off)
            if not isinstance(off, int):
                if o.kind == 'text' and len(o.cells) == 1 and 0 in o.cells and getattr(o.cells[0][1], 'byteload', None):
                    return o.cells[0][1].byteload(self, st, off, size)
                r = self.make_region(st, p, o, off, size)
                if r is None:
                    raise Undecided('read at a symbolic offset in %s' % o.name)
                return self.region_load(st, p, st.mem[p.obj], r, off, size, ty)
        c = o.cells.get(off)
        if c is not None and c[0] == size:
            return c[1]
        return self.assemble(st, o, off, size, p)

    def assemble(self, st, o, off, size, p=None):
        # collect bytes
        hits = []
        for k, (n, v) in o.cells.items():
            if k < off + size and off < k + n: hits.append((k, n, v))
        if not hits:
            for lo, hi in o.zero:
                if lo <= off and off + size <= hi: return 0
            for lo, hi in o.zero:
                if lo < off + size and off < hi: 
                    raise Undecided('partly initialised read in %s' % o.name)
            if o.kind == 'const': return 0
            return UNDEF
        if len(hits) == 1:
            k, n, v = hits[0]
            if isinstance(v, Ghost):
                f = getattr(v, 'byteload', None)
                if f is not None: return f(self, st, off - k, size)
                raise Undecided('raw access to the inside of a library object (%s in %s)' % (type(v).__name__, o.name))
            if isinstance(v, (Junk, Undef)): return v
            if isinstance(v, (Ptr, FuncP, Lazy)): raise Undecided('partial pointer read')
        bs = []
        for b in range(size):
            a = off + b
            byte = None
            for k, n, v in hits:
                if k <= a < k + n:
                    if isinstance(v, (Junk, Undef)): byte = v; break
                    if isinstance(v, Ghost) or isinstance(v, (Ptr, FuncP, Lazy)):
                        raise Undecided('raw access to the inside of a library object (%s)' % type(v).__name__)
                    if z3.is_expr(v) and z3.is_fp(v): raise Undecided('byte access to floating point')
                    if isinstance(v, int): byte = (v >> (8 * (a - k))) & 255
                    else:
                        vv = tobv(v, n * 8)
                        byte = simp(z3.Extract(8 * (a - k) + 7, 8 * (a - k), vv))
                    break
            if byte is None:
                for lo, hi in o.zero:
                    if lo <= a < hi: byte = 0
            if byte is None: byte = UNDEF
            bs.append(byte)
        if any(isinstance(b, (Undef, Junk)) for b in bs):
            for b in bs:
                if isinstance(b, Junk): return b
            return UNDEF
        if all(isinstance(b, int) for b in bs):
            return int.from_bytes(bytes(bs), 'little')
        return simp(z3.Concat(*[tobv(b, 8) for b in reversed(bs)])) if size > 1 else bs[0]

    def make_region(self, st, p, o, off, size):
        """turn an array sub-object into a z3 array for symbolic indexing"""
        reg = p.reg
        if reg is None: return None
        lo, hi = reg
        if o.kind == 'const' or o.const: pass
        # element size = access size
        n = (hi - lo) // size
        arr = None
        o2 = st.wobj(p.obj)
        zero = any(a <= lo and hi <= b for a, b in o.zero)
        if zero: arr = z3.K(z3.BitVecSort(64), bvv(0, size * 8))
        else:
            self.fresh_n += 1
            arr = z3.Array('arr!%d' % self.fresh_n, z3.BitVecSort(64), z3.BitVecSort(size * 8))
        drop = []
        for k, (m, v) in sorted(o2.cells.items()):
            if k < hi and lo < k + m:
                if isinstance(v, Ghost): return None
                if m != size or (k - lo) % size: return None
                if isinstance(v, (Undef, Junk)): drop.append(k); continue
                if not (isinstance(v, int) or z3.is_bv(v)): return None
                arr = z3.Store(arr, bvv((k - lo) // size, 64), tobv(v, size * 8))
                drop.append(k)
        for k in drop: del o2.cells[k]
        r = Region(lo, hi, 'arr', size, arr)
        o2.regions.append(r)
        return r

    def region_load(self, st, p, o, r, off, size, ty):
        rel = simp(tobv(off, 64) - r.lo) if not isinstance(off, int) else off - r.lo
        if r.kind == 'kbuf':
            return r.info.load(self, st, r, rel, size)
        if r.kind == 'junk': raise Undecided('array contents lost at a loop head')
        ok = z3.ULE(tobv(rel, 64), r.hi - r.lo - size)
        self.ob(st, 'memory: read inside its array', ok, ('MEM',))
        if size != r.esz: raise Undecided('mixed-size access to an array')
        idx = simp(z3.UDiv(tobv(rel, 64), bvv(r.esz, 64))) if not isinstance(rel, int) else rel // r.esz
        if not isinstance(rel, int):
            idx = simp(self.divexact(rel, r.esz))
        v = simp(z3.Select(r.arr, tobv(idx, 64)))
        if r.info is not None and hasattr(r.info, 'on_read'): r.info.on_read(self, st, r, idx, v)
        return v

    def divexact(self, rel, k):
        """rel is a multiple of k by construction (index * k)"""
        if k == 1: return rel
        sh = {2: 1, 4: 2, 8: 3}.get(k)
        if sh: return z3.LShR(rel, sh)
        return z3.UDiv(rel, bvv(k, 64))

    def store(self, st, p, size, val, ty=None):
        o = self.check_ptr(st, p, size, 'write')
        if o.const: self.mem_fault(st, 'write to a constant')
        off = p.off
        if not isinstance(off, int): off = simp(off)
        if p.reg is not None and isinstance(off, int):
            # array sub-object bounds
            if not (p.reg[0] <= off and off + size <= p.reg[1]) and off >= p.reg[1]:
                self.mem_fault(st, 'write outside its array in %s' % o.name)
        r = self.find_region(o, off, p.reg) if o.regions else None
        o = st.wobj(p.obj)
        if r is not None: r = self.find_region(o, off, p.reg)
        if r is None and not isinstance(off, int):
            h = self.sym_store_hook(st, p, o, off, size, val)
            if h: return
            r = self.make_region(st, p, o, off, size)
            if r is None: raise Undecided('write at a symbolic offset in %s' % o.name)
            o = st.mem[p.obj]
        if r is not None:
            if r.kind == 'junk': raise Undecided('array contents lost at a loop head')
            if r.kind == 'kbuf':
                return r.info.store(self, st, p.obj, r, simp(tobv(off, 64) - r.lo), size, val)
            rel = simp(tobv(off, 64) - r.lo)
            ok = z3.ULE(tobv(rel, 64), r.hi - r.lo - size)
            self.ob(st, 'memory: write inside its array', ok, ('MEM',))
            if size != r.esz: raise Undecided('mixed-size access to an array')
            idx = rel // r.esz if isinstance(rel, int) else simp(self.divexact(rel, r.esz))
            if isinstance(val, (Undef, Junk)): val = self.fresh('undefelt', size * 8)
            r.arr = z3.Store(r.arr, tobv(idx, 64), tobv(val, size * 8))
            if st.wlog is not None: st.wlog.add((p.obj, 'r', r.lo))
            if r.info is not None and hasattr(r.info, 'on_write'): r.info.on_write(self, st, r, idx, val)
            return
        self.put(st, p.obj, o, off, size, val)

    def sym_store_hook(self, st, p, o, off, size, val):
        # a byte write at a symbolic position of a buffer holding text: NUL termination
        if size == 1 and isinstance(val, int):
            for k, (n, v) in o.cells.items():
                f = getattr(v, 'put_byte', None)
                if f is not None:
                    rel = simp(tobv(off, 64) - k)
                    if p.reg is None or (p.reg[0] <= k < p.reg[1]):
                        self.ob(st, 'memory: write inside its array', z3.ULT(tobv(rel, 64), bvv(n, 64)), ('MEM',))
                        nv = f(self, st, rel, val)
                        if nv is not None:
                            o.cells[k] = (n, nv)
                            if st.wlog is not None: st.wlog.add((p.obj, k, n))
                            return True
        return False

    def put(self, st, oid, o, off, size, val):
        if st.wlog is not None: st.wlog.add((oid, off, size))
        c = o.cells.get(off)
        if c is not None and c[0] == size:
            o.cells[off] = (size, val); return
        over = [k for k, (n, v) in o.cells.items() if k < off + size and off < k + n]
        for k in over:
            n, v = o.cells[k]
            if k >= off and k + n <= off + size:
                del o.cells[k]; continue
            f = getattr(v, 'put_byte', None) if isinstance(v, Ghost) else None
            if f is not None and size == 1:
                nv = f(self, st, off - k, val)
                if nv is not None:
                    o.cells[k] = (n, nv); return
            if isinstance(v, Ghost):
                g = getattr(v, 'clobber', None)
                if g is not None:
                    nv = g(self, st, off - k, size, val)
                    if nv is not None:
                        o.cells[k] = (n, nv); return
                raise Undecided('partial overwrite of a library object (%s)' % type(v).__name__)
            # split integer cell
            del o.cells[k]
            if isinstance(v, (Ptr, FuncP, Lazy)): continue
            for b in range(n):
                a = k + b
                if off <= a < off + size: continue
                if isinstance(v, (Undef, Junk)): o.cells[a] = (1, v)
                elif isinstance(v, int): o.cells[a] = (1, (v >> (8 * b)) & 255)
                else: o.cells[a] = (1, simp(z3.Extract(8 * b + 7, 8 * b, tobv(v, n * 8))))
        o.cells[off] = (size, val)

    def getcell(self, st, p, what='object'):
        o = self.check_ptr(st, p, 1, 'access')
        if not isinstance(p.off, int): raise Undecided('library object at a symbolic address')
        c = o.cells.get(p.off)
        return None if c is None else c[1]

    def setghost(self, st, p, size, val):
        o = self.check_ptr(st, p, size, 'write')
        if not isinstance(p.off, int): raise Undecided('library object at a symbolic address')
        o = st.wobj(p.obj)
        self.put(st, p.obj, o, p.off, size, val)

    def delcell(self, st, p):
        o = self.check_ptr(st, p, 1, 'destroy')
        o = st.wobj(p.obj)
        if p.off in o.cells:
            if st.wlog is not None: st.wlog.add((p.obj, p.off, o.cells[p.off][0]))
            del o.cells[p.off]

    def kill(self, st, oid):
        st.mem.pop(oid, None)

    def memcpy(self, st, d, s, n):
        if isinstance(n, int) and n == 0: return
        if not isinstance(n, int): raise Undecided('copy of symbolic length')
        so = self.check_ptr(st, s, n, 'read')
        do = self.check_ptr(st, d, n, 'write')
        if not isinstance(s.off, int) or not isinstance(d.off, int):
            # small copies through scalar accesses
            if n in (1, 2, 4, 8):
                self.store(st, d, n, self.load(st, s, n)); return
            for b in range(0, n, 4):
                m = min(4, n - b)
                if m == 3: raise Undecided('odd symbolic copy')
                self.store(st, self.padd(d, b), m, self.load(st, self.padd(s, b), m))
            return
        items = []
        for r in so.regions:
            if r.lo < s.off + n and s.off < r.hi:
                if s.off <= r.lo and r.hi <= s.off + n:
                    items.append(('r', r))
                elif n in (1, 2, 4, 8):
                    self.store(st, d, n, self.load(st, s, n)); return
                elif r.kind == 'kbuf' and n <= 64:
                    for b in range(0, n, 4):
                        m = min(4, n - b)
                        self.store(st, self.padd(d, b), m, self.load(st, self.padd(s, b), m))
                    return
                else: raise Undecided('partial copy of a symbolic array')
        zero = [(max(a, s.off), min(b, s.off + n)) for a, b in so.zero if a < s.off + n and s.off < b]
        for k, (m, v) in so.cells.items():
            if k < s.off + n and s.off < k + m:
                if s.off <= k and k + m <= s.off + n: items.append((k, m, v))
                elif isinstance(v, Ghost):
                    g = getattr(v, 'slice', None)
                    nv = g(self, st, s.off - k, n) if g else None
                    if nv is None: raise Undecided('partial copy of a library object')
                    items.append((max(k, s.off), n, nv))
                else:
                    lo, hi = max(k, s.off), min(k + m, s.off + n)
                    for a in range(lo, hi):
                        items.append((a, 1, self.assemble(st, so, a, 1)))
        delta = d.off - s.off
        self.wipe(st, d, n)
        do = st.wobj(d.obj)
        for it in items:
            if it[0] == 'r':
                r = it[1].copy(); r.lo += delta; r.hi += delta
                do.regions.append(r)
            else:
                k, m, v = it
                do.cells[k + delta] = (m, v)
        for a, b in zero: do.zero.append((a + delta, b + delta))

    def wipe(self, st, p, n):
        """forget [p, p+n)"""
        do = st.wobj(p.obj)
        if do.const: self.mem_fault(st, 'write to a constant')
        lo, hi = p.off, p.off + n
        if st.wlog is not None: st.wlog.add((p.obj, lo, n))
        for k in list(do.cells):
            m, v = do.cells[k]
            if k < hi and lo < k + m:
                if lo <= k and k + m <= hi: del do.cells[k]
                else: 
                    if isinstance(v, Ghost): raise Undecided('partial overwrite of a library object')
                    del do.cells[k]
                    for a in range(k, k + m):
                        if not (lo <= a < hi):
                            if isinstance(v, (Undef, Junk, Ptr)): do.cells[a] = (1, v if not isinstance(v, Ptr) else UNDEF)
                            elif isinstance(v, int): do.cells[a] = (1, (v >> (8 * (a - k))) & 255)
                            else: do.cells[a] = (1, simp(z3.Extract(8 * (a - k) + 7, 8 * (a - k), tobv(v, m * 8))))
        nr = []
        for r in do.regions:
            if r.lo < hi and lo < r.hi:
                if not (lo <= r.lo and r.hi <= hi): raise Undecided('partial overwrite of a symbolic array')
            else: nr.append(r)
        do.regions = nr
        nz = []
        for a, b in do.zero:
            if a < hi and lo < b:
                if a < lo: nz.append((a, lo))
                if hi < b: nz.append((hi, b))
            else: nz.append((a, b))
        do.zero = nz

    def memset(self, st, p, byte, n):
        if isinstance(n, int) and n == 0: return
        if not isinstance(n, int) or not isinstance(p.off, int): raise Undecided('memset of symbolic extent')
        self.check_ptr(st, p, n, 'write')
        self.wipe(st, p, n)
        do = st.wobj(p.obj)
        if isinstance(byte, int) and byte == 0:
            do.zero.append((p.off, p.off + n))
        elif n <= 64:
            for b in range(n): do.cells[p.off + b] = (1, byte)
        else: raise Undecided('large non-zero memset')

    def padd(self, p, n):
        if isinstance(p.off, int) and isinstance(n, int):
            return Ptr(p.obj, (p.off + n) & ((1 << 64) - 1), p.reg)
        return Ptr(p.obj, simp(tobv(p.off, 64) + tobv(n, 64)), p.reg)

    # ------------------------------------------------------------ constants
    def global_obj(self, st, name):
        """object id of a global; created once, shared by all states"""
        if name in self.mod.aliases: 
            v = self.mod.aliases[name]
            if v[0] == 'global': return self.gptr(st, v[1])
        if name not in self.gobj:
            self.oid += 1
            self.gobj[name] = self.oid
        oid = self.gobj[name]
        if oid not in st.mem:
            if name in self.mod.globals:
                t, init, const = self.mod.globals[name]
                o = Obj(self.T.size(t), '@' + name, 'global', st.id)
                o.const = const
                o.ty = t
                st.mem[oid] = o
                if init is not None and init[0] not in ('undef',):
                    o.const = False
                    self.init_const(st, oid, 0, t, init)
                    st.wobj(oid).const = const
            else:
                o = Obj(None, '@' + name, 'global', st.id)
                st.mem[oid] = o
        return oid

    def gptr(self, st, name):
        if name in self.mod.funcs or name in self.mod.decls: return FuncP(name)
        if name in self.mod.aliases:
            v = self.mod.aliases[name]
            if v[0] == 'global': return self.gptr(st, v[1])
        return Ptr(self.global_obj(st, name), 0)

    def init_const(self, st, oid, off, t, c):
        o = st.wobj(oid)
        k = c[0]
        if k == 'cstr':
            from .stdmodel import CBuf, Str
            b = c[1]
            n = len(b)
            if n and b[-1] == 0 and 0 not in b[:-1]:
                o.cells[off] = (n, CBuf(Str.lit(b[:-1]), n))
            else:
                for i, x in enumerate(b): o.cells[off + i] = (1, x)
        elif k == 'zero':
            o.zero.append((off, off + self.T.size(t)))
        elif k == 'agg':
            rt = self.T.resolve(t)
            if rt[0] == 'struct':
                offs, _ = self.T.layout(rt)
                for (et, ec), eo in zip(c[2], offs): self.init_const(st, oid, off + eo, et, ec)
            else:
                es = self.T.size(rt[2])
                for i, (et, ec) in enumerate(c[2]): self.init_const(st, oid, off + i * es, et, ec)
        elif k == 'undef': pass
        else:
            o.cells[off] = (self.T.size(t), self.const(st, t, c))

    def const(self, st, ty, c):
        k = c[0]
        if k == 'int': return c[2]
        if k == 'null': return NULL
        if k == 'undef': return UNDEF
        if k == 'zero':
            r = self.T.resolve(ty)
            if r[0] == 'i': return 0
            if r[0] == 'ptr': return NULL
            if r[0] == 'fp': return self.fpconst(r[1], '0.0')
            return self.zero_agg(r)
        if k == 'global': return self.gptr(st, c[1])
        if k == 'cgep':
            p = self.const(st, ir.PTR, c[2])
            return self.gep(st, c[1], p, [(t, self.const(st, t, v)) for t, v in c[3]])
        if k == 'fp': return self.fpconst(c[1], c[2])
        if k == 'agg':
            return [self.const(st, t, v) for t, v in c[2]]
        if k == 'cast':
            v = self.const(st, c[2], c[3])
            return self.cast(st, c[1], c[2], c[4], v)
        if k == 'cbin':
            raise Undecided('constant expression')
        raise Undecided('constant %s' % k)

    def zero_agg(self, r):
        if r[0] == 'struct':
            return [self.const(None, t, ('zero', t)) for t in r[1]]
        if r[0] == 'arr':
            return [self.const(None, r[2], ('zero', r[2])) for _ in range(r[1])]
        raise Undecided('zero of %r' % (r,))

    FPS = {'float': (8, 24), 'double': (11, 53), 'x86_fp80': (15, 64)}
    def fpsort(self, k): return z3.FPSort(*self.FPS[k])
    def fpconst(self, k, txt):
        s = self.fpsort(k)
        if txt.startswith('0xK'):
            v = int(txt[3:], 16)
            sign, exp, man = v >> 79, (v >> 64) & 0x7fff, v & ((1 << 64) - 1)
            if exp == 0 and man == 0: return z3.FPVal(0.0, s)
            if exp == 0x7fff: 
                return z3.fpPlusInfinity(s) if not sign else z3.fpMinusInfinity(s)
            # explicit integer bit
            frac = man & ((1 << 63) - 1)
            return z3.fpFP(z3.BitVecVal(sign, 1), z3.BitVecVal(exp, 15), z3.BitVecVal(frac, 63))
        if txt.startswith('0x'):
            v = int(txt[2:], 16)
            d = z3.fpBVToFP(z3.BitVecVal(v, 64), z3.Float64())
            return simplify_fp(d if k == 'double' else z3.fpFPToFP(z3.RNE(), d, s))
        return z3.FPVal(float(txt), s)

    # ------------------------------------------------------------ operands
    def val(self, st, f, ty, op):
        k = op[0]
        if k == 'local':
            try: return f.regs[op[1]]
            except KeyError: raise Undecided('register %s unset' % op[1])
        if k == 'int': return op[2]
        return self.const(st, ty, op)

    # ------------------------------------------------------------ gep
    def gep(self, st, bt, p, idx):
        if isinstance(p, (Undef, Junk)): return p
        if isinstance(p, int): p = Ptr(None, p)
        if isinstance(p, FuncP): raise Undecided('arithmetic on a function pointer')
        off = 0; sym = None; reg = p.reg
        t = bt
        base = p.off
        def add(n, sz):
            nonlocal off, sym
            if isinstance(n, int): off += n * sz
            else:
                e = n * bvv(sz, 64) if sz != 1 else n
                sym = e if sym is None else sym + e
        first = True
        for it, v in idx:
            w = self.T.resolve(it)[1]
            if isinstance(v, (Undef, Junk)): raise Undecided('undefined index')
            if isinstance(v, int): v = sx(v, w)
            else:
                v = tobv(v, w)
                if w < 64: v = z3.SignExt(64 - w, v)
            if first:
                add(v, self.T.size(t)); first = False; continue
            r = self.T.resolve(t)
            if r[0] == 'struct':
                offs, _ = self.T.layout(r)
                off += offs[v]
                t = r[1][v]
            elif r[0] in ('arr', 'vec'):
                es = self.T.size(r[2])
                if r[1] > 0 and isinstance(base, int) and sym is None and p.obj is not None:
                    cur = base + off
                    if reg is None or (reg[0] <= cur and cur + r[1] * es <= reg[1]):
                        reg = (cur, cur + r[1] * es)
                add(v, es)
                t = r[2]
            else: raise Undecided('gep into %r' % (r,))
        if sym is None and isinstance(base, int):
            return Ptr(p.obj, (base + off) & ((1 << 64) - 1), reg)
        e = tobv(base, 64)
        if sym is not None: e = e + sym
        if off: e = e + bvv(off & ((1 << 64) - 1), 64)
        return Ptr(p.obj, simp(e), reg)

    # ------------------------------------------------------------ arithmetic
    def binop(self, st, op, w, a, b, flags=()):
        if isinstance(a, (Undef, Junk)) or isinstance(b, (Undef, Junk)):
            for x in (a, b):
                if isinstance(x, Junk): return x
            return UNDEF
        if isinstance(a, (Ptr, FuncP)) or isinstance(b, (Ptr, FuncP)):
            if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr) and (a.obj == b.obj):
                return simp(tobv(a.off, 64) - tobv(b.off, 64))
            if op == 'add' and isinstance(a, Ptr): return self.padd(a, b)
            if op == 'add' and isinstance(b, Ptr): return self.padd(b, a)
            if op == 'sub' and isinstance(a, Ptr) and not isinstance(b, Ptr):
                return self.padd(a, simp(-tobv(b, 64)))
            if op == 'and' and isinstance(b, int) and isinstance(a, Ptr): 
                return self.fresh('ptrbits', w)
            raise Undecided('pointer arithmetic %s' % op)
        m = (1 << w) - 1
        if 'nsw' in flags and op in ('add', 'sub', 'mul') and w > 1:
            self.check_nsw(st, op, w, a, b)
        if isinstance(a, int) and isinstance(b, int):
            if op == 'add': return (a + b) & m
            if op == 'sub': return (a - b) & m
            if op == 'mul': return (a * b) & m
            if op == 'and': return a & b
            if op == 'or': return a | b
            if op == 'xor': return a ^ b
            if op in ('shl', 'lshr', 'ashr'):
                if b >= w: self.mem_fault(st, 'shift by %d' % b)
                if op == 'shl': return (a << b) & m
                if op == 'lshr': return a >> b
                return (sx(a, w) >> b) & m
            if b == 0: self.mem_fault(st, 'division by zero')
            if op == 'udiv': return a // b
            if op == 'urem': return a % b
            x, y = sx(a, w), sx(b, w)
            q = abs(x) // abs(y)
            if (x < 0) != (y < 0): q = -q
            if op == 'sdiv': return q & m
            if op == 'srem': return (x - q * y) & m
        if w == 1:
            A, B = tobool(a), tobool(b)
            if op == 'and': return simp(z3.And(A, B))
            if op == 'or': return simp(z3.Or(A, B))
            if op in ('xor', 'add', 'sub'): return simp(z3.Xor(A, B))
            raise Undecided('i1 %s' % op)
        A, B = tobv(a, w), tobv(b, w)
        if op == 'add': r = A + B
        elif op == 'sub': r = A - B
        elif op == 'mul': r = A * B
        elif op == 'and': r = A & B
        elif op == 'or': r = A | B
        elif op == 'xor': r = A ^ B
        elif op == 'shl': r = A << B
        elif op == 'lshr': r = z3.LShR(A, B)
        elif op == 'ashr': r = A >> B
        else:
            self.ob(st, 'memory: no division by zero', B != 0, ('MEM',))
            r = {'udiv': z3.UDiv, 'urem': z3.URem, 'sdiv': lambda x, y: x / y, 'srem': z3.SRem}[op](A, B)
        return simp(r)

    def check_nsw(self, st, op, w, a, b):
        if isinstance(a, int) and isinstance(b, int):
            x, y = sx(a, w), sx(b, w)
            v = {'add': x + y, 'sub': x - y, 'mul': x * y}[op]
            if not (-(1 << (w - 1)) <= v < (1 << (w - 1))): 
                self.ob(st, 'arithmetic: no signed overflow', False, ('MEM', 'ARITH'))
            return
        A, B = tobv(a, w), tobv(b, w)
        if op == 'add': c = z3.And(z3.BVAddNoOverflow(A, B, True), z3.BVAddNoUnderflow(A, B))
        elif op == 'sub': c = z3.And(z3.BVSubNoOverflow(A, B), z3.BVSubNoUnderflow(A, B, True))
        else: c = z3.And(z3.BVMulNoOverflow(A, B, True), z3.BVMulNoUnderflow(A, B))
        self.ob(st, 'arithmetic: no signed overflow', c, ('MEM', 'ARITH'))

    def icmp(self, st, pred, ty, a, b):
        r = self.T.resolve(ty)
        if isinstance(a, (Undef, Junk)) or isinstance(b, (Undef, Junk)):
            for x in (a, b):
                if isinstance(x, Junk): return x
            return UNDEF
        if r[0] == 'ptr' or isinstance(a, (Ptr, FuncP)) or isinstance(b, (Ptr, FuncP)):
            return self.pcmp(st, pred, a, b)
        w = r[1]
        if isinstance(a, int) and isinstance(b, int):
            if pred[0] == 's' : a, b = sx(a, w), sx(b, w)
            p = pred[-2:]
            return int({'eq': a == b, 'ne': a != b, 'gt': a > b, 'ge': a >= b, 'lt': a < b, 'le': a <= b}[p])
        if w == 1:
            A, B = tobool(a), tobool(b)
            if pred == 'eq': return simp(A == B)
            if pred == 'ne': return simp(A != B)
            raise Undecided('i1 compare')
        A, B = tobv(a, w), tobv(b, w)
        return simp({'eq': lambda: A == B, 'ne': lambda: A != B,
                     'ugt': lambda: z3.UGT(A, B), 'uge': lambda: z3.UGE(A, B), 'ult': lambda: z3.ULT(A, B), 'ule': lambda: z3.ULE(A, B),
                     'sgt': lambda: A > B, 'sge': lambda: A >= B, 'slt': lambda: A < B, 'sle': lambda: A <= B}[pred]())

    def pcmp(self, st, pred, a, b):
        if isinstance(a, int): a = Ptr(None, a)
        if isinstance(b, int): b = Ptr(None, b)
        if isinstance(a, FuncP) or isinstance(b, FuncP):
            same = a == b if isinstance(a, FuncP) and isinstance(b, FuncP) else False
            if pred == 'eq': return int(same)
            if pred == 'ne': return int(not same)
            raise Undecided('function pointer order')
        if not isinstance(a, Ptr) or not isinstance(b, Ptr):
            if z3.is_expr(a) or z3.is_expr(b): raise Undecided('pointer compared with an unknown integer')
            raise Undecided('pointer comparison %r %r' % (a, b))
        if a.obj != b.obj:
            # distinct objects (or null): never equal
            if pred == 'eq': return 0
            if pred == 'ne': return 1
            if a.null: # null vs object ordering: null is lowest address
                return int(pred in ('ult', 'ule'))
            if b.null: return int(pred in ('ugt', 'uge'))
            raise Undecided('ordering of unrelated pointers')
        A, B = a.off, b.off
        if isinstance(A, int) and isinstance(B, int):
            x, y = sx(A, 64), sx(B, 64)
            p = pred[-2:]
            return int({'eq': x == y, 'ne': x != y, 'gt': x > y, 'ge': x >= y, 'lt': x < y, 'le': x <= y}[p])
        # offsets are small: signed comparison of offsets equals address order
        A, B = tobv(A, 64), tobv(B, 64)
        return simp({'eq': lambda: A == B, 'ne': lambda: A != B,
                     'ugt': lambda: A > B, 'uge': lambda: A >= B, 'ult': lambda: A < B, 'ule': lambda: A <= B,
                     'sgt': lambda: A > B, 'sge': lambda: A >= B, 'slt': lambda: A < B, 'sle': lambda: A <= B}[pred]())

    def cast(self, st, op, tf, tt, v):
        if isinstance(v, (Undef, Junk)): return v
        rf, rt = self.T.resolve(tf), self.T.resolve(tt)
        if op in ('bitcast', 'addrspacecast'):
            if rf[0] == rt[0]: return v
            raise Undecided('bitcast')
        if op == 'ptrtoint':
            if isinstance(v, Ptr) and v.obj is None: return v.off
            return v
        if op == 'inttoptr':
            if isinstance(v, int): return Ptr(None, v)
            if isinstance(v, (Ptr, FuncP)): return v
            raise Undecided('integer to pointer')
        if isinstance(v, (Ptr, FuncP)):
            raise Undecided('cast of a pointer')
        if op in ('trunc', 'zext', 'sext'):
            wf, wt = rf[1], rt[1]
            if isinstance(v, int):
                if op == 'sext': return sx(v, wf) & ((1 << wt) - 1)
                return v & ((1 << wt) - 1)
            if op == 'trunc':
                if z3.is_bool(v): return v
                if wt == 1: return simp(z3.Extract(0, 0, v) == 1)
                return simp(z3.Extract(wt - 1, 0, v))
            if wf == 1:
                b = tobool(v)
                hi = 1 if op == 'zext' else (1 << wt) - 1
                return simp(z3.If(b, bvv(hi, wt), bvv(0, wt)))
            return simp(z3.ZeroExt(wt - wf, v) if op == 'zext' else z3.SignExt(wt - wf, v))
        RM = z3.RNE()
        if op in ('fpext', 'fptrunc'): return simplify_fp(z3.fpFPToFP(RM, v, self.fpsort(rt[1])))
        if op == 'sitofp': return simplify_fp(z3.fpSignedToFP(RM, tobv(v, rf[1]), self.fpsort(rt[1])))
        if op == 'uitofp': return simplify_fp(z3.fpUnsignedToFP(RM, tobv(v, rf[1]), self.fpsort(rt[1])))
        if op in ('fptosi', 'fptoui'):
            w = rt[1]
            s = op == 'fptosi'
            lo = z3.FPVal(-(2.0 ** (w - 1)) if s else -1.0, v.sort()); hi = z3.FPVal(2.0 ** (w - 1 if s else w), v.sort())
            self.ob(st, 'arithmetic: float to integer in range', z3.And(z3.Not(z3.fpIsNaN(v)), z3.fpLT(v, hi), z3.fpGEQ(v, lo) if s else z3.fpGT(v, lo)), ('MEM', 'ARITH'))
            return simp(z3.fpToSBV(z3.RTZ(), v, z3.BitVecSort(w)) if s else z3.fpToUBV(z3.RTZ(), v, z3.BitVecSort(w)))
        raise Undecided('cast %s' % op)

    def fcmp(self, st, pred, a, b):
        if isinstance(a, (Undef, Junk)): return a
        un = z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
        p = pred[1:]
        base = {'eq': z3.fpEQ(a, b), 'gt': z3.fpGT(a, b), 'ge': z3.fpGEQ(a, b), 'lt': z3.fpLT(a, b), 'le': z3.fpLEQ(a, b),
                'ne': z3.And(z3.Not(un), z3.Not(z3.fpEQ(a, b)))}
        if pred == 'ord': return simp(z3.Not(un))
        if pred == 'uno': return simp(un)
        if pred[0] == 'o': return simp(base[p])
        if p == 'ne': return simp(z3.Not(z3.fpEQ(a, b)))
        return simp(z3.Or(un, base[p]))

    # ------------------------------------------------------------ control flow
    def loops(self, fn):
        if fn.name in self.loops_info: return self.loops_info[fn.name]
        ir.body(self.mod, fn)
        succ = {}
        for l, b in fn.blocks.items():
            t = b[-1]
            if t.op == 'br': succ[l] = list(t.extra)
            elif t.op == 'switch': succ[l] = [t.extra[0]] + [x[1] for x in t.extra[1]]
            else: succ[l] = []
        pred = {l: [] for l in fn.blocks}
        for l, ss in succ.items():
            for s in ss: pred[s].append(l)
        # dominators
        order = []
        seen = set()
        def dfs(r):
            stack = [(r, iter(succ[r]))]; seen.add(r)
            while stack:
                n, it = stack[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s); stack.append((s, iter(succ[s]))); break
                else:
                    order.append(n); stack.pop()
        entry = fn.order[0]
        dfs(entry)
        rpo = order[::-1]
        dom = {n: set(rpo) for n in rpo}
        dom[entry] = {entry}
        ch = True
        while ch:
            ch = False
            for n in rpo:
                if n == entry: continue
                ps = [p for p in pred[n] if p in dom]
                nd = set.intersection(*[dom[p] for p in ps]) | {n} if ps else {n}
                if nd != dom[n]: dom[n] = nd; ch = True
        loops = {}
        for n in rpo:
            for s in succ[n]:
                if s in dom[n]:
                    bodyset = loops.setdefault(s, {s})
                    work = [n]
                    while work:
                        x = work.pop()
                        if x in bodyset: continue
                        bodyset.add(x)
                        work += [p for p in pred[x] if p in dom]
        self.loops_info[fn.name] = loops
        return loops

    def goto(self, st, f, target):
        """phis are evaluated at block entry"""
        prev = f.block
        f.prev, f.block, f.idx = prev, target, 0
        st.fresh_block = True
        b = f.fn.blocks[target]
        if b[0].op == 'phi':
            vals = []
            for i in b:
                if i.op != 'phi': break
                for v, l in i.extra:
                    if l == prev: vals.append((i.res, self.val(st, f, i.ty, v))); break
                f.idx += 1
            for r, v in vals: f.regs[r] = v
            if target.startswith('arrayinit.body') and prev != target: self.fill_idiom(st, f, target, b)

    def fill_idiom(self, st, f, target, b):
        """compiler-made loop storing zeros over a whole array: done in one step"""
        t = b[-1]
        if t.op != 'br' or not t.args or target not in t.extra or b[0].op != 'phi' or b[1].op == 'phi': return
        cur = b[0].res
        alias = {cur: 0}; stores = []; nxt = None; done = None
        for i in b[1:-1]:
            if i.op == 'getelementptr' and i.args[0][0] == 'local' and i.args[0][1] in alias:
                idx = [(ty, v[2]) for ty, v in i.extra if v[0] == 'int']
                if len(idx) != len(i.extra): return
                p = self.gep(st, i.ty, Ptr(None, 1 << 32), idx)
                alias[i.res] = alias[i.args[0][1]] + p.off - (1 << 32)
            elif i.op == 'store':
                v, p = i.args[0], i.args[1]
                if p[0] != 'local' or p[1] not in alias or not (v[0] == 'null' or v[0] == 'zero' or (v[0] == 'int' and v[2] == 0)): return
                stores.append((alias[p[1]], self.T.size(i.ty)))
            elif i.op == 'icmp' and i.extra == 'eq':
                done = i
            else: return
        nx = [v for v, l in b[0].extra if l == target]
        if not nx or nx[0][0] != 'local' or nx[0][1] not in alias or done is None: return
        step = alias[nx[0][1]]
        ends = [a for a in done.args if not (a[0] == 'local' and a[1] == nx[0][1])]
        if len(ends) != 1 or step <= 0: return
        cov = set()
        for o, n in stores: cov |= set(range(o, o + n))
        if cov != set(range(step)): return
        p0 = f.regs[cur]; pe = self.val(st, f, ir.PTR, ends[0])
        if not (isinstance(p0, Ptr) and isinstance(pe, Ptr) and p0.obj == pe.obj and isinstance(p0.off, int) and isinstance(pe.off, int)): return
        n = pe.off - p0.off
        if n <= 0 or n % step: return
        self.memset(st, Ptr(p0.obj, p0.off), 0, n)
        exit_ = [l for l in t.extra if l != target][0]
        self.goto(st, f, exit_)

    # result of exploring: list of ('ret', state, value) | ('back', state) | ('exit', state)
    def call_function(self, st, name, args, hook=None):
        """push a frame for a defined function"""
        fn = ir.body(self.mod, self.mod.funcs[name])
        self.used_funcs.add(name)
        if len(st.stack) > 120: raise Undecided('call depth')
        f = Frame(fn, None, hook)
        self.fresh_n += 1
        f.uid = self.fresh_n
        if len(args) < len(fn.params): raise Undecided('argument count of %s' % name)
        for (pn, pt, pa), a in zip(fn.params, args):
            f.regs[pn] = a
        st.stack.append(f)
        return f

    def run(self, name, args, st):
        """execute function `name`; list of (state, return value) of completed paths"""
        st.stack_base = len(st.stack)
        depth = len(st.stack)
        self.call_function(st, name, args)
        out = []
        for kind, s, v in self.explore(st, depth):
            if kind == 'ret': out.append((s, v))
        return out

    def explore(self, st, depth, loop=None):
        """run until frame count == depth (returned from), or, if loop=(depth_of_frame, header, body):
        until back at header or leaving body"""
        out = []
        work = [st]
        while work:
            s = work.pop()
            try:
                r = self.step_until(s, depth, loop, work)
            except (PathEnd, Infeasible):
                continue
            if r is not None: out.append(r)
        return out

    def step_until(self, st, depth, loop, work):
        while True:
            if len(st.stack) == depth: return ('ret', st, st.retval)
            if loop is not None and len(st.stack) < loop[0]: return ('exit', st, None)
            f = st.stack[-1]
            if st.fresh_block:
                st.fresh_block = False
                if loop is not None and len(st.stack) == loop[0] and f.uid == loop[3]:
                    if f.block == loop[1]: return ('back', st, None)
                    if f.block not in loop[2]:
                        st.fresh_block = True
                        return ('exit', st, None)
                lp = self.loops(f.fn)
                if f.block in lp:
                    key = (f.fn.name, f.block)
                    if key in self.cut and not self.straight_out(st, f):
                        from . import loops as L
                        for s2 in L.cut_loop(self, st, key): work.append(s2)
                        return None
                    if f.prev is not None and f.prev in lp[f.block]:
                        n, fk = f.arrivals.get(f.block, (0, st.forks))
                        n += 1
                        f.arrivals[f.block] = (n, fk)
                        sym = st.ghost.get(('symexit', f.uid, f.block))
                        if n > 300 or ((sym and n >= 1) or (n >= 5 and st.forks > fk)) and n >= getattr(self.unit, 'unroll', lambda *a: 0)(self, st, key):
                            raise NeedCut(key)
                    else:
                        f.arrivals[f.block] = (0, st.forks)
                        st.ghost.pop(('symexit', f.uid, f.block), None)
            r = self.exec_one(st, f, work)
            if r == 'stop': return None

    def straight_out(self, st, f):
        """does this arrival at a loop head leave the loop at once, without any fork?"""
        if self.probing: return True
        body = self.loops(f.fn)[f.block]
        s = st.clone()
        self.quiet += 1; self.probing = True
        work = []
        loop = (len(s.stack), f.block, body, f.uid)
        n0, self.probe_end = self.steps, self.steps + 80
        try:
            r = self.step_until(s, -1, loop, work)
        except (ProbeEnd, NeedCut, PathEnd, Infeasible, Undecided): r = None
        finally:
            self.quiet -= 1; self.probing = False; self.probe_end = None
        return r is not None and r[0] == 'exit' and not work

    def exec_one(self, st, f, work):
        self.steps += 1
        if self.probe_end is not None and self.steps > self.probe_end: raise ProbeEnd()
        if self.steps & 1023 == 0:
            if self.deadline and time.time() > self.deadline: raise Undecided('time budget used up')
            if self.steps > self.max_steps: raise Undecided('step budget used up')
        i = f.fn.blocks[f.block][f.idx]
        op = i.op
        if op == 'call':
            return self.exec_call(st, f, i, work)
        if op == 'br':
            if not i.args:
                self.goto(st, f, i.extra[0])
                return
            c = self.val(st, f, ('i', 1), i.args[0])
            return self.do_branch(st, f, c, i.extra[0], i.extra[1], work)
        if op == 'ret':
            v = self.val(st, f, i.ty, i.args[0]) if i.args else None
            return self.do_ret(st, f, v)
        if op == 'switch':
            w = self.T.resolve(i.ty)[1]
            c = self.val(st, f, i.ty, i.args[0])
            if isinstance(c, (Undef, Junk)): self.undef_branch(st, c)
            if isinstance(c, int):
                t = i.extra[0]
                for v, l in i.extra[1]:
                    if v[2] == c: t = l; break
                self.goto(st, f, t)
                return
            rest = []
            bylab = {}
            for v, l in i.extra[1]:
                cond = tobv(c, w) == bvv(v[2], w)
                bylab.setdefault(l, []).append(cond)
                rest.append(z3.Not(cond))
            alts = [(z3.Or(*cs), l) for l, cs in bylab.items()]
            alts.append((z3.And(*rest) if rest else z3.BoolVal(True), i.extra[0]))
            feas = [(cnd, l) for cnd, l in alts if self.feasible(st, cnd)]
            for cnd, l in feas[1:]:
                s2 = st.clone(); s2.forks += 1
                s2.pc.append(cnd)
                self.goto(s2, s2.stack[-1], l)
                self.mark_symexit(s2, f, [l])
                work.append(s2)
            if not feas: return 'stop'
            if len(feas) > 1: st.pc.append(feas[0][0]); st.forks += 1
            self.goto(st, f, feas[0][1])
            return
        if op == 'unreachable':
            self.ob(st, 'control: unreachable point not reached', False, ('MEM',))
            return 'stop'
        # straight-line
        R = f.regs
        if op == 'load':
            p = self.val(st, f, ir.PTR, i.args[0])
            v = self.typed_load(st, p, i.ty, work, f, i)
            if v is STOP: return 'stop'
            R[i.res] = v
        elif op == 'store':
            v = self.val(st, f, i.ty, i.args[0])
            p = self.val(st, f, ir.PTR, i.args[1])
            self.typed_store(st, p, i.ty, v)
        elif op == 'alloca':
            n = self.val(st, f, ('i', 32), i.args[0])
            if not isinstance(n, int): raise Undecided('variable length array')
            oid = self.new_obj(st, self.T.size(i.ty) * n, '%' + (i.res or ''), 'alloca')
            f.allocas.append(oid)
            st.mem[oid].ty = i.ty
            R[i.res] = Ptr(oid, 0)
        elif op == 'getelementptr':
            p = self.val(st, f, ir.PTR, i.args[0])
            R[i.res] = self.gep(st, i.ty, p, [(t, self.val(st, f, t, v)) for t, v in i.extra])
        elif op in ir.BIN:
            a = self.val(st, f, i.ty, i.args[0]); b = self.val(st, f, i.ty, i.args[1])
            if op[0] == 'f' : R[i.res] = self.fbin(op, a, b)
            else:
                r = self.T.resolve(i.ty)
                R[i.res] = self.binop(st, op, r[1], a, b, i.extra)
        elif op == 'icmp':
            a = self.val(st, f, i.ty, i.args[0]); b = self.val(st, f, i.ty, i.args[1])
            R[i.res] = self.icmp(st, i.extra, i.ty, a, b)
        elif op in ir.CASTS:
            R[i.res] = self.cast(st, op, i.extra, i.ty, self.val(st, f, i.extra, i.args[0]))
        elif op == 'fcmp':
            R[i.res] = self.fcmp(st, i.extra, self.val(st, f, i.ty, i.args[0]), self.val(st, f, i.ty, i.args[1]))
        elif op == 'fneg':
            R[i.res] = z3.fpNeg(self.val(st, f, i.ty, i.args[0]))
        elif op == 'select':
            c = self.val(st, f, ('i', 1), i.args[0])
            a = self.val(st, f, i.ty, i.args[1]); b = self.val(st, f, i.ty, i.args[2])
            if isinstance(c, (Undef, Junk)): self.undef_branch(st, c)
            if isinstance(c, int): R[i.res] = a if c else b
            elif self.T.resolve(i.ty)[0] == 'i' and not any(isinstance(x, (Undef, Junk, Ptr)) for x in (a, b)):
                w = self.T.resolve(i.ty)[1]
                if w == 1: R[i.res] = simp(z3.If(tobool(c), tobool(a), tobool(b)))
                else: R[i.res] = simp(z3.If(tobool(c), tobv(a, w), tobv(b, w)))
            else:
                # fork
                s2 = st.clone()
                cc = tobool(c)
                tf, ff = self.feasible(st, cc), self.feasible(st, z3.Not(cc))
                if tf and ff:
                    s2.pc.append(z3.Not(cc)); s2.forks += 1
                    s2.stack[-1].regs[i.res] = b; s2.stack[-1].idx += 1
                    work.append(s2)
                    st.pc.append(cc); st.forks += 1
                R[i.res] = a if tf else b
        elif op == 'phi':
            raise Undecided('phi in mid-block')
        elif op == 'extractvalue':
            v = self.val(st, f, i.ty, i.args[0])
            for k in i.extra: 
                if isinstance(v, (Undef, Junk)): break
                v = v[k]
            R[i.res] = v
        elif op == 'insertvalue':
            v = self.val(st, f, i.ty, i.args[0])
            x = self.val(st, f, i.extra[0], i.args[1])
            v = self.agg_ins(i.ty, v, i.extra[1], x)
            R[i.res] = v
        elif op == 'atomicrmw':
            p = self.val(st, f, ir.PTR, i.args[0]); v = self.val(st, f, i.ty, i.args[1])
            old = self.typed_load(st, p, i.ty, work, f, i)
            if old is STOP: return 'stop'
            w = self.T.resolve(i.ty)[1]
            new = v if i.extra == 'xchg' else self.binop(st, i.extra, w, old, v)
            self.typed_store(st, p, i.ty, new)
            R[i.res] = old
        elif op == 'cmpxchg':
            p = self.val(st, f, ir.PTR, i.args[0]); e = self.val(st, f, i.ty, i.args[1]); n = self.val(st, f, i.ty, i.args[2])
            old = self.typed_load(st, p, i.ty, work, f, i)
            if old is STOP: return 'stop'
            eq = self.icmp(st, 'eq', i.ty, old, e)
            if isinstance(eq, int):
                if eq: self.typed_store(st, p, i.ty, n)
            else:
                w = self.T.resolve(i.ty)[1]
                self.typed_store(st, p, i.ty, simp(z3.If(eq, tobv(n, w), tobv(old, w))))
            R[i.res] = [old, eq]
        elif op == 'fence': pass
        elif op == 'freeze':
            R[i.res] = self.val(st, f, i.ty, i.args[0])
        else:
            raise Undecided('instruction %s' % op)
        f.idx += 1

    def agg_ins(self, ty, v, idx, x):
        if isinstance(v, (Undef, Junk)):
            r = self.T.resolve(ty)
            n = len(r[1]) if r[0] == 'struct' else r[1]
            v = [UNDEF] * n
        v = list(v)
        if len(idx) == 1: v[idx[0]] = x
        else:
            r = self.T.resolve(ty)
            et = r[1][idx[0]] if r[0] == 'struct' else r[2]
            v[idx[0]] = self.agg_ins(et, v[idx[0]], idx[1:], x)
        return v

    def fbin(self, op, a, b):
        RM = z3.RNE()
        if isinstance(a, (Undef, Junk)): return a
        if isinstance(b, (Undef, Junk)): return b
        return simplify_fp({'fadd': lambda: z3.fpAdd(RM, a, b), 'fsub': lambda: z3.fpSub(RM, a, b), 'fmul': lambda: z3.fpMul(RM, a, b), 'fdiv': lambda: z3.fpDiv(RM, a, b)}[op]())

    def typed_load(self, st, p, ty, work, f, i):
        r = self.T.resolve(ty)
        size = self.T.size(r)
        if r[0] in ('struct', 'arr'):
            offs = self.T.layout(r)[0] if r[0] == 'struct' else [k * self.T.size(r[2]) for k in range(r[1])]
            ets = r[1] if r[0] == 'struct' else [r[2]] * r[1]
            return [self.typed_load(st, self.padd(p, o), t, work, f, i) for o, t in zip(offs, ets)]
        v = self.load(st, p, size, r)
        if isinstance(v, Lazy):
            # fork over the shapes, writing the chosen one back
            alts = v.opts
            good = []
            for val, conds in alts:
                s2 = st.clone()
                ok = True
                for c in conds:
                    c = simp(c)
                    if isinstance(c, int):
                        if not c: ok = False
                        continue
                    s2.pc.append(c)
                if ok and (not conds or self.feasible(s2)):
                    o = s2.wobj(p.obj)
                    o.cells[p.off] = (size, val)
                    s2.forks += 1
                    good.append(s2)
            for s2 in good: work.append(s2)
            return STOP
        if r[0] == 'i':
            if isinstance(v, (Ghost,)): raise Undecided('integer read of a library object (%s)' % type(v).__name__)
            if isinstance(v, z3.ExprRef) and z3.is_fp(v): raise Undecided('integer read of floating point')
            w = r[1]
            if isinstance(v, (Undef, Junk, Ptr, FuncP)):
                if isinstance(v, Ptr) and v.obj is None: return v.off
                return v
            if w == size * 8: return tobv(v, w) if z3.is_expr(v) and z3.is_bool(v) else v
            if isinstance(v, int): return v & ((1 << w) - 1)
            if z3.is_bool(v): return v if w == 1 else z3.If(v, bvv(1, w), bvv(0, w))
            if w == 1: return simp(z3.Extract(0, 0, v) == 1)
            return simp(z3.Extract(w - 1, 0, v))
        if r[0] == 'ptr':
            if isinstance(v, int): return Ptr(None, v)
            if z3.is_expr(v): return Junk('pointer made of an integer')
            if isinstance(v, Ghost): raise Undecided('pointer read of a library object (%s)' % type(v).__name__)
            return v
        if r[0] == 'fp':
            if isinstance(v, int) and v == 0: return self.fpconst(r[1], '0.0')
            if isinstance(v, int) and r[1] == 'double': return simplify_fp(z3.fpBVToFP(bvv(v, 64), z3.Float64()))
            return v
        raise Undecided('load of %r' % (r,))

    def typed_store(self, st, p, ty, v):
        r = self.T.resolve(ty)
        if r[0] in ('struct', 'arr'):
            if isinstance(v, (Undef, Junk)):
                return
            offs = self.T.layout(r)[0] if r[0] == 'struct' else [k * self.T.size(r[2]) for k in range(r[1])]
            ets = r[1] if r[0] == 'struct' else [r[2]] * r[1]
            for o, t, x in zip(offs, ets, v): self.typed_store(st, self.padd(p, o), t, x)
            return
        size = self.T.size(r)
        if r[0] == 'i':
            w = r[1]
            if w == 1 and z3.is_expr(v): v = simp(z3.If(tobool(v), bvv(1, 8), bvv(0, 8)))
            elif w != size * 8 and z3.is_expr(v) : v = simp(z3.ZeroExt(size * 8 - w, v))
        self.store(st, p, size, v, r)

    def undef_branch(self, st, c):
        if isinstance(c, Junk): raise Undecided('branch on a value lost at a loop head (%s)' % c.why)
        self.ob(st, 'memory: no decision on uninitialised data', False, ('MEM',))
        raise PathEnd()

    def mark_symexit(self, st, f, targets):
        lp = self.loops(f.fn)
        for h, bodyset in lp.items():
            if f.prev in bodyset or f.block in bodyset:
                st.ghost[('symexit', f.uid, h)] = True

    def do_branch(self, st, f, c, a, b, work):
        if isinstance(c, (Undef, Junk)): self.undef_branch(st, c)
        if isinstance(c, int):
            self.goto(st, f, a if c else b)
            return
        c = tobool(c)
        site = (f.fn.name, f.block)
        d = self.sampled(site)
        if d is not None:
            c2 = c if d else z3.Not(c)
            if self.feasible(st, c2): st.pc.append(c2); self.goto(st, f, a if d else b)
            else: self.goto(st, f, b if d else a)
            return
        tf = self.feasible(st, c)
        ff = self.feasible(st, z3.Not(c))
        if tf and ff:
            # does this branch leave a loop that contains it?
            lp = self.loops(f.fn); leaves = False
            for h, bs in lp.items():
                if f.block in bs and ((a in bs) != (b in bs)):
                    st.ghost[('symexit', f.uid, h)] = True; leaves = True
            if not leaves: self.sample_seen(site)
            s2 = st.clone()
            s2.pc.append(z3.Not(c)); s2.forks += 1
            self.goto(s2, s2.stack[-1], b)
            work.append(s2)
            st.pc.append(c); st.forks += 1
            self.goto(st, f, a)
            return
        if not tf and not ff: return 'stop'
        self.goto(st, f, a if tf else b)

    def do_ret(self, st, f, v):
        for o in f.allocas: st.mem.pop(o, None)
        st.stack.pop()
        st.retval = v
        if f.hook is not None:
            f.hook(self, st, v)
            v = st.retval
        if f.ret is not None and st.stack:
            st.stack[-1].regs[f.ret] = v
        return None

    # ------------------------------------------------------------ calls
    def exec_call(self, st, f, i, work):
        callee = i.extra
        args = []
        for t, v, at in i.args:
            if v is None: args.append(None); continue
            x = self.val(st, f, t, v)
            if 'byval' in at:
                # caller's copy
                n = self.T.size(at['byval'])
                oid = self.new_obj(st, n, 'byval', 'alloca')
                f.allocas.append(oid)
                self.memcpy(st, Ptr(oid, 0), x, n)
                x = Ptr(oid, 0)
            args.append(x)
        if callee[0] == 'global':
            name = callee[1]
        elif callee[0] == 'local':
            v = f.regs[callee[1]]
            if isinstance(v, Junk): raise Undecided('call through a value lost at a loop head')
            if not isinstance(v, FuncP):
                h = getattr(self.unit, 'indirect', None)
                if h is not None:
                    def fn(c): return h(c, v)
                    return self.nd_call(st, f, i, args, fn, work, None)
                raise Undecided('indirect call')
            name = v.name
        else: raise Undecided('call of %r' % (callee,))
        return self.dispatch(st, f, i, name, args, work)

    def dispatch(self, st, f, i, name, args, work):
        h = self.lookup(name)
        if not self.quiet and self.unit is not None and self.callnames.get(name) in getattr(self.unit, 'joins', ()):
            if self.unit.join(self, st, self.callnames[name]): return 'stop'
        if h is not None:
            self.used_contracts[self.callnames.get(name, name)] = self.used_contracts.get(self.callnames.get(name, name), 0) + 1
            def fn(c): return h(c)
            return self.nd_call(st, f, i, args, fn, work, name)
        if name in self.mod.funcs:
            fr = self.call_function(st, name, args)
            fr.ret = i.res
            f.idx += 1
            st.fresh_block = False
            return
        raise Undecided('no contract for external function %s' % self.mod.dem.get(name, name))

    def nd_call(self, st, f, i, args, fn, work, name):
        outs = self.run_nd(st, lambda c: fn(c), i=i, args=args, name=name)
        first = None
        for s, r in outs:
            fr = s.stack[-1] if s.stack else None
            if isinstance(r, Enter):
                # contract asks to execute a function body (e.g. a closure)
                fr = self.call_function(s, r.name, r.args, r.hook)
                fr.ret = i.res if r.keep else None
                s.stack[-2].idx += 1
            else:
                if i.res is not None: fr.regs[i.res] = r
                fr.idx += 1
            work.append(s)
        return 'stop'

    def run_nd(self, st, fn, i=None, args=None, name=None):
        out = []
        todo = [[]]
        memo = {} if self.sampling is not None and self.quiet else None
        site = (st.stack[-1].fn.name, st.stack[-1].block, st.stack[-1].idx) if st.stack else None
        while todo:
            dec = todo.pop()
            s = st.clone()
            c = Choice(self, s, dec, todo)
            c.memo, c.site, c.calls = memo, site, 0
            c.args, c.ins, c.name = args, i, name
            try:
                r = fn(c)
            except (Infeasible, PathEnd):
                continue
            out.append((c.st, r))
        return out

    def lookup(self, name):
        if name in self.lookup_cache: return self.lookup_cache[name]
        h = None
        dem = self.mod.dem.get(name, name)
        key, params = split_name(dem)
        self.callnames[name] = key
        if name in self.overrides: h = self.overrides[name]
        elif key in self.overrides: h = self.overrides[key]
        elif name.startswith('llvm.'):
            for k, v in self.libs.items():
                if k.startswith('llvm.') and name.startswith(k): h = v; break
        else:
            h = self.libs.get(key)
            if h is None and name in self.libs: h = self.libs[name]
        if h is not None:
            def wrap(c, h=h, dem=dem, params=params, key=key):
                c.dem, c.params, c.key = dem, params, key
                return h(c)
            self.lookup_cache[name] = wrap
            return wrap
        self.lookup_cache[name] = None
        return None

    @property
    def lookup_cache(self):
        if not hasattr(self, '_lc'): self._lc = {}
        return self._lc

class Enter:
    """returned by a contract: run this function next"""
    def __init__(self, name, args, hook=None, keep=True):
        self.name, self.args, self.hook, self.keep = name, args, hook, keep

STOP = object()

def simplify_fp(v):
    return z3.simplify(v)

# ---------------------------------------------------------------- demangled names
_ops = ['operator<<=', 'operator>>=', 'operator<=>', 'operator->*', 'operator<<', 'operator>>', 'operator<=', 'operator>=', 'operator->', 'operator<', 'operator>', 'operator()', 'operator[]']
_ph = {o: 'operator\x01%d\x02' % k for k, o in enumerate(_ops)}
_hp = {v: k for k, v in _ph.items()}

def split_name(dem):
    """demangled -> (qualified name without template arguments, [parameter types])"""
    s = dem
    s = s.split(' [clone')[0]
    for o in _ops:
        s = s.replace(o, _ph[o])
    s = s.replace('\x02 <', '\x02<')
    # trailing qualifiers
    while True:
        t = re.sub(r'\s+(const|volatile|&|&&)$', '', s)
        t = re.sub(r'\[abi:[^\]]*\]', '', t)
        if t == s: break
        s = t
    params = []
    if s.endswith(')'):
        d = 0
        for k in range(len(s) - 1, -1, -1):
            if s[k] == ')': d += 1
            elif s[k] == '(':
                d -= 1
                if d == 0: break
        params = splitargs(s[k + 1:-1])
        s = s[:k]
    # strip templates and locate last space at depth 0
    out = []; d = 0; b = 0; last = 0
    k = 0
    while k < len(s):
        ch = s[k]
        if ch in '<': d += 1
        elif ch in '>': d -= 1
        elif ch in '({': 
            b += 1
            if d == 0: out.append(ch)
        elif ch in ')}':
            b -= 1
            if d == 0: out.append(ch)
        elif d == 0:
            if ch == ' ' and b == 0:
                if ''.join(out).endswith('operator') : out.append(ch)
                elif re.search(r'(^|::)operator (bool|new|delete|[A-Za-z_:]*)$', ''.join(out) + ' ') and 'operator' in ''.join(out).split('::')[-1]: out.append(ch)
                else: out = []
            else: out.append(ch)
        k += 1
    name = ''.join(out)
    for v, o in _hp.items(): name = name.replace(v, o)
    for o, v in _ph.items(): params = [x.replace(v, o) for x in params]
    name = name.replace('__cxx11::', '').replace('_V2::', '').strip()
    return name, params

def splitargs(s):
    out = []; d = 0; cur = ''
    for ch in s:
        if ch in '<({[': d += 1
        elif ch in '>)}]': d -= 1
        if ch == ',' and d == 0: out.append(cur.strip()); cur = ''
        else: cur += ch
    if cur.strip(): out.append(cur.strip())
    return out

def short(n):
    k = split_name(n)[0]
    return k
