"""inotify::do_ev_recv and fanotify::do_ev_recv: decoding of a batch of kernel records,
with every helper inlined, for every batch the kernel may deliver."""
from .unit import *
from .units_life import entry_names
from .units_loop import Loop, NS, MarkSpec, is_warning, map_at, diff_states, read_c, M1
from .oscontracts import fds, uses_fd, fail_errno, EAGAIN, EINTR, M1L
from .loops import LoopPlan, same, isint
from .stdmodel import Str, Text, MapVal, CBuf, FuncVal, str_eq, sjoin, map_has, map_path, bufspace

B64 = z3.BitVecSort(64)
def fnc(name, w): return z3.Function(name, B64, STR if w == 'str' else z3.BitVecSort(w))
def z64(v): return v if v.size() == 64 else z3.ZeroExt(64 - v.size(), v)

class Rec: pass

class Chain:
    """a buffer the kernel filled with variable-length records: [0, L), cut at
    0, next(0), next(next(0)), ... Only positions reached that way are records."""
    def __init__(self, unit, L): self.unit, self.L = unit, L
    def locate(self, ex, st, rel):
        """(record, offset in it)"""
        r = tobv(rel, 64)
        ps = st.ghost.get('sym:recs', ())
        for q in ps:
            d = simp(r - q.pos)
            if isinstance(d, int) and d < 65536: return q, d
        if ex.quiet: return None, None
        if ex.solver.check(st.pc, [r == ex.fresh('loc', 64)]) != 'sat' or ex.solver.model is None: return None, None
        m = ex.solver.model
        rv = m.eval(r, model_completion=True).as_long()
        for q in reversed(ps):
            d = rv - m.eval(q.pos, model_completion=True).as_long()
            if d in self.unit.offsets() and ex.valid(st, r == q.pos + d): return q, d
        return None, None
    def inside(self, ex, st, rel, size, q=None, d=None):
        r = z3.simplify(tobv(rel, 64) - st.ghost['P']); R = st.ghost['sym:R']
        if q is not None and not ex.quiet:
            # inside a record of the batch?
            n = st.ghost['sym:recs'].index(q)
            if n < st.ghost.get('sym:n', 0):
                d = z3.simplify(r - q.at)
                c = z3.And(z3.ULE(d, 8192), z3.ULE(d + size, z64(q.len) if q.full else q.to - q.at))
                if ex.valid(st, c):
                    ex.ob(st, 'memory: only bytes the kernel delivered are read', True, ('MEM',)); return
        ex.ob(st, 'memory: only bytes the kernel delivered are read', z3.And(z3.ULE(r, R), z3.ULE(r + size, R)), ('MEM',))
    def load(self, ex, st, reg, rel, size):
        q, d = self.locate(ex, st, rel)
        self.inside(ex, st, rel, size, q, d)
        if q is None and ex.quiet: return ex.fresh('unk', size * 8)     # (while looking for the invariant)
        if q is None: raise Undecided('read at an unknown place of the batch (%s)' % str(rel)[:200].replace('\n', ' '))
        v = self.unit.field(ex, st, q, d, size)
        if v is None: raise Undecided('read of %d bytes at offset %s of a record' % (size, d))
        return simp(v)
    def store(self, ex, st, oid, reg, rel, size, val): raise Undecided('write into the batch')
    def cstr(self, ex, st, reg, rel):
        q, d = self.locate(ex, st, rel)
        t = None if q is None else self.unit.text(ex, st, q, d)
        if t is None:
            q, t = self.unit.text_at(ex, st, tobv(rel, 64))
            if t is None and ex.quiet: return Str.sym(ex.fresh('unk', 'str'))
        self.inside(ex, st, rel, 1, q)
        if t is None: raise Undecided('text at an unknown place of the batch')
        return t

class BatchPlan(LoopPlan):
    """the loop over the records of a batch"""
    cut = None
    @property
    def nvariants(self): return self.unit.ahead + 1
    def candidates(self, ex, cut):
        self.cut = cut
        out = []
        L = self.unit.L(cut.entry)
        if L is None: return out
        for c in cut.cells.values():
            if c.kind != 'int': continue
            w = c.size * 8
            def val(st, c=c, w=w):
                v = cut.cellval(st, c)
                return None if v is None or not isint(v) else tobv(v, w)
            def P(st, w): return z3.Extract(w - 1, 0, st.ghost['P']) if w < 64 else st.ghost['P']
            def mk(f, val=val, w=w):
                def g(st):
                    v = val(st)
                    return None if v is None else f(v, st, w)
                return g
            if w >= 32:
                out.append((('=P', c.oid, c.off), mk(lambda v, st, w: v == P(st, w))))
                out.append((('=L-P', c.oid, c.off), mk(lambda v, st, w: v == (z3.Extract(w - 1, 0, st.ghost['sym:R']) if w < 64 else st.ghost['sym:R']))))
                out.append((('n*min<=P', c.oid, c.off), mk(lambda v, st, w: z3.And(z3.ULE(v, 4096), z3.ULE(z3.ZeroExt(7, z3.Extract(12, 0, v)) * self.unit.min_rec, z3.Extract(19, 0, st.ghost['P']))))))
        out += self.unit.more_cands(ex, cut, self)
        return out
    def positions(self, ex, st, cell):
        if self.unit.L(st) is None: return []
        return [('P', lambda s: s.ghost['P'], lambda s: s.ghost['sym:R'] == 0)]
    def before_head(self, ex, st):
        u = self.unit
        # P bytes are handled, R remain: no record, one, two, or more
        w = u.lw; v = self.variant
        p = z3.ZeroExt(64 - w, ex.fresh('P', w))
        st.ghost['P'] = p
        u.make_records(ex, st)
        recs = st.ghost['sym:recs']
        r = recs[v - 1].to if v else bvv(0, 64)
        if v == u.ahead: r = z3.simplify(r + z3.ZeroExt(64 - w, ex.fresh('S', w)))
        st.ghost['sym:R'] = r; st.ghost['sym:n'] = v
        st.pc.append(u.L(st) == p + r)
        for f in u.wellformed(ex, st, recs[:v]): st.pc.append(f)
    def head(self, ex, st):
        self.unit.head(ex, st, self)
    def int_at_head(self, ex, st, c):
        w = c.size * 8
        names = {n for n, f in self.cut.live_cands()} if self.cut is not None else ()
        for nm, g in (('=P', 'P'), ('=L-P', 'sym:R')):
            if (nm, c.oid, c.off) in names: return z3.Extract(w - 1, 0, st.ghost[g]) if w < 64 else st.ghost[g]
        return None
    def cursors(self, st, newp, used):
        out = []
        for c in self.cut.cells.values():
            v = self.cut.cellval(st, c)
            if c.kind == 'ptr' and any(o[0] == 'pos' for o in c.opts):
                o = [o for o in c.opts if o[0] == 'pos'][0]
                if isinstance(v, int) and v == 0: v = NULL
                if not isinstance(v, Ptr): continue
                if v.null: out.append(st.ghost['sym:R'] == used)
                elif v.obj == o[1]: out.append(tobv(v.off, 64) == newp + o[2])
            elif c.kind == 'int' and ('=P', c.oid, c.off) not in self.cut.dropped and c.size >= 4 and v is not None and isint(v):
                w = c.size * 8
                out.append(tobv(v, w) == (z3.Extract(w - 1, 0, newp) if w < 64 else newp))
        return out
    def back(self, ex, st):
        u = self.unit
        L = u.L(st)
        if ex.quiet and not self.cut.known: return        # what changes is not known yet
        used = u.iteration(ex, st, self, False)
        newp = z3.simplify(st.ghost['P'] + used)
        cur = self.cursors(st, newp, used)
        bad = False
        if not ex.quiet and cur:
            for cond, to in u.taken:
                s = st.clone()
                if len(u.taken) > 1: s.pc.append(cond)
                cs = self.cursors(s, z3.simplify(st.ghost['P'] + to), to)
                if not ex.ob(s, 'records: the batch is continued with the next unhandled record', z3.Or(*cs), ('RECORDS', 'NEXT'), assume=False): bad = True
        if cur and (bad or ex.quiet):
            c = simp(z3.Or(*cur))
            if isinstance(c, int):
                if not c: raise PathEnd()
            else: st.pc.append(c)
        if fds(st) != st.ghost['sym:fds']:
            ex.ob(st, 'descriptors: decoding keeps and closes none', False, ('CLOSE',), assume=False)
            st.ghost['fds'] = st.ghost['sym:fds']
        st.ghost['sym:R'] = z3.simplify(st.ghost['sym:R'] - used)
        st.ghost['P'] = newp
        if not ex.feasible(st): raise PathEnd()
        u.after(ex, st, self)
    def exit(self, ex, st):
        u = self.unit
        used = u.iteration(ex, st, self, True)
        ex.ob(st, 'records: the batch is handled to its end', z3.Or(used == st.ghost['sym:R'], u.giving_up(st)), ('RECORDS', 'NEXT'), assume=False)
        st.ghost['done'] = 1
        u.leave(ex, st, self)

class Batch(Loop):
    name = '?'
    kind = None
    covers = ()
    joins = ()
    default_props = ()
    def overrides(self):
        ns = entry_names(self.mod, NS + 'walkdir_do')
        if not ns: raise tree.Broken('walkdir_do not found')
        return {n: self.walk for n in ns}
    def walk(self, c):
        """set-up only: the map may hold anything afterwards"""
        ex, st = c.ex, c.st
        if not self.setting_up: raise Undecided('directory walk while decoding')
        from .units_loop import closure_type
        from .stdmodel import find_callop
        op = find_callop(ex, closure_type(c))
        if op is None: raise Undecided('visitor of walkdir_do')
        self.havoc(ex, st, self.visitor_frame(ex, st, op, c.args[1], self.kind))
        return None
    setting_up = False
    def on_mark(self, c, kind, fd, path, mask, flags=None):
        if self.setting_up: return
        Loop.on_mark(self, c, kind, fd, path, mask, flags)
    def on_cb(self, c, e): pass
    def on_wait(self, c): raise Undecided('wait while decoding')
    def L(self, st): return st.ghost.get('sym:L')

    # ---- a running backend, as set up by the real code
    def sysres(self, ex):
        k = self.k
        st = ex.base.clone()
        pre = 'in' if self.kind == 'inotify' else 'fa'
        self.pre = pre
        ns = entry_names(self.mod, NS + self.kind + '::make_sysres')
        if not ns: raise tree.Broken('%s::make_sysres not found' % self.kind)
        fn = self.mod.funcs[ns[0]]
        from . import ir
        n = len(ir.body(self.mod, fn).params)
        sr = ex.new_obj(st, k[pre + '.size'], 'system resources', 'heap')
        base = ex.new_obj(st, 4096, 'base path', 'heap'); st.mem[base].cells[0] = (4096, CBuf(Str.sym(z3.Const('P', STR)), 4096))
        cb = ex.new_obj(st, 32, 'callback', 'heap'); st.mem[cb].cells[0] = (32, FuncVal('user'))
        fd = ex.fresh('il', 32); st.pc.append(fd >= 0)
        lv = ex.new_obj(st, k['sb.size'], 'stop request', 'heap')
        st.mem[lv].cells[k['sb.is']] = (4, k['sb.pending']); st.mem[lv].cells[k['sb.fd']] = (4, fd)
        st.ghost['sym:il'] = fd; st.ghost['ext_fds'] = (fd,)
        clo = ex.new_obj(st, 8, 'closure', 'heap')
        args = [Ptr(sr, 0), Ptr(clo, 0), Ptr(base, 0), Ptr(cb, 0), Ptr(lv, 0)]
        if n == 4: args.pop(1)
        if n != len(args): raise Undecided('arguments of make_sysres')
        ex.quiet += 1; self.setting_up = True
        try: outs = ex.run(ns[0], args, st)
        finally: ex.quiet -= 1; self.setting_up = False
        good = []
        for s, r in outs:
            v = s.mem[sr].cells.get(k[pre + '.ok'])
            if v and isinstance(v[1], int) and v[1] == k['r.pending'] and len(fds(s)) == 2: good.append(s)
        if not good: raise Undecided('no successful set-up found')
        s = good[0]
        s.pc = [fd >= 0] + [z3.And(tobv(f, 32) >= 0, tobv(f, 32) != fd) for f, l in fds(s)]
        s.trace = []
        o = s.wobj(sr)
        lo, hi = k[pre + '.ke'], k[pre + '.il']
        self.fdoff = lo + k[pre + 'ke.fd']
        self.maps = []
        for off in list(o.cells):
            sz, v = o.cells[off]
            if off == self.fdoff: continue
            if off == k[pre + '.ok']:
                w = sz * 8; okv = ex.fresh('ok', w); s.pc.append(z3.ULT(okv, k['r.complete'])); o.cells[off] = (sz, okv)
            elif lo <= off < hi:
                if isinstance(v, MapVal):
                    self.maps.append(off); o.cells[off] = (sz, MapVal('dm0'))
                elif isinstance(v, int) or z3.is_bv(v): 
                    # buffers: anything from earlier batches
                    del o.cells[off]
                else: raise Undecided('system resources hold %r' % (v,))
        o.zero = [z for a, b in o.zero for z in ((a, min(b, lo)), (max(a, hi), b)) if z[0] < z[1]]
        from .oscontracts import errno_obj
        s.wobj(errno_obj(ex, s)).cells[0] = (4, ex.fresh('errno', 32))
        for g in ('waited', 'sysfail'): s.ghost.pop(g, None)
        self.sr, self.cbobj, self.clo, self.lv = sr, cb, clo, lv
        return s

    def main(self, ex):
        st = self.sysres(ex)
        self.setup(ex, st)
        ns = entry_names(self.mod, NS + self.kind + '::do_ev_recv')
        if not ns: raise tree.Broken('%s::do_ev_recv not found' % self.kind)
        fn = self.mod.funcs[ns[0]]
        from . import ir
        n = len(ir.body(self.mod, fn).params)
        args = [Ptr(self.clo, 0), Ptr(self.cbobj, 0), Ptr(self.sr, 0)][-n:]
        s0 = st.clone()
        for s, r in ex.run(ns[0], args, st): self.check(ex, s0, s, r)

    def setup(self, ex, st): pass

    # ---- read()
    min_room = 0
    min_rec = 16
    def do_read(self, c):
        ex, st, k = c.ex, c.st, self.k
        fd, buf, n = c.args[:3]
        uses_fd(c, fd, 'read')
        own = [f for f, l in fds(st) if l == self.kind]
        ex.ob(st, 'records: read from the event source', bool(own) and ex.valid(st, tobv(fd, 32) == tobv(own[-1], 32)), ('RECORDS',), assume=False)
        if 'sym:L' in st.ghost or st.ghost.get('readfail'): raise Undecided('several reads in one turn')
        room = bufspace(ex, st, buf)
        if room is None or not isinstance(room, int) or not isinstance(n, int): raise Undecided('size of the read buffer')
        ex.ob(st, 'memory: read writes inside its buffer', n <= room, ('MEM',))
        ex.ob(st, 'records: the buffer has room for the largest record', n >= self.min_room, ('RECORDS',), assume=False)
        if c.choose(2) == 1:
            e = fail_errno(c)
            st.trace.append(('read', None, e)); st.ghost['readfail'] = 1
            return M1L
        self.lw = n.bit_length()
        L = z3.ZeroExt(64 - self.lw, ex.fresh('L', self.lw))
        st.pc.append(z3.ULE(L, n))
        if not isinstance(buf.off, int): raise Undecided('read into a symbolic place')
        ex.wipe(st, buf, n)
        st.wobj(buf.obj).regions.append(Region(buf.off, buf.off + n, 'kbuf', 1, None, Chain(self, L)))
        st.ghost['sym:L'] = L; st.ghost['P'] = bvv(0, 64); st.ghost['sym:R'] = L
        st.ghost['kbuf'] = (buf.obj, buf.off)
        st.trace.append(('read', L))
        self.assume_records(ex, st)
        return L

    def make_records(self, ex, st):
        """the records at P and after it, arbitrary"""
        recs = []
        q = st.ghost['P']
        for j in range(self.ahead):
            r = self.record(ex, q, j)
            # where it starts and ends, counted from P
            r.at = recs[-1].to if recs else bvv(0, 64)
            r.to = z3.simplify(r.at + (r.next - q))
            recs.append(r); q = r.next
        st.ghost['sym:recs'] = recs
        st.ghost.pop('sym:n', None)
    def assume_records(self, ex, st):
        self.make_records(ex, st)
        for f in self.wellformed(ex, st, st.ghost['sym:recs']): st.pc.append(f)
    ahead = 3

    def loop_plan(self, ex, st, key):
        nm = Unit.loop_plan(self, ex, st, key).name
        if self.L(st) is not None and not st.ghost.get('done'): p = BatchPlan()
        else: p = self.other_plan(ex, st, key)
        p.name = nm; p.unit = self
        return p
    def other_plan(self, ex, st, key): return LoopPlan()
    def more_cands(self, ex, cut, plan): return []
    def after(self, ex, st, plan): pass
    def leave(self, ex, st, plan): pass
    def giving_up(self, st): return z3.BoolVal(False)

    # ---- one iteration against its specification
    def head(self, ex, st, plan):
        st.ghost['sym:base'] = len(st.trace); st.ghost['sym:fds'] = fds(st)
        st.ghost['sym:dm'] = {off: st.mem[self.sr].cells[off][1] for off in self.maps}

    def iteration(self, ex, st, plan, leaving):
        """checks what was done since the head; returns how many bytes of records that handled"""
        L, P = self.L(st), st.ghost['P']
        base = st.ghost['sym:base']
        seg = [(i, t) for i, t in enumerate(st.trace) if i >= base]
        used = None
        cases = self.cases(ex, st, P, L)
        cases.append(('end of the batch', z3.BoolVal(st.ghost['sym:n'] == 0), bvv(0, 64), None))
        cases = [c for c in cases if not z3.is_false(z3.simplify(c[1]))]
        self.taken = []
        for name, cond, to, chk in self.pick(ex, st, cases):
            self.taken.append((cond, to))
            used = to if used is None else z3.If(cond, to, used)
            if ex.quiet or chk is None: continue
            s = st.clone(); s.pc.append(cond)
            ex.cover('record: ' + name)
            chk(ex, s, seg, name)
        if not ex.quiet:
            s = st.clone()
            if st.ghost['sym:n'] == 0 and ex.feasible(s):
                ex.ob(s, 'records: nothing is told or watched but for a record', not [t for i, t in seg if t[0] in ('cb', 'add_watch', 'fa_mark')], ('RECORDS',), assume=False)
                self.same_maps(ex, s)
        return bvv(0, 64) if used is None else z3.simplify(used)

    def has(self, st, q):
        n = st.ghost.get('sym:n')
        if n is not None: return z3.BoolVal(st.ghost['sym:recs'].index(q) < n)
        return z3.ULT(q.at, st.ghost['sym:R'])
    def within(self, st, q):
        if 'sym:n' in st.ghost: return z3.BoolVal(True)
        return z3.Implies(self.has(st, q), z3.ULE(q.to, st.ghost['sym:R']))
    def pick(self, ex, st, cases):
        """the possible ones among the (exhaustive) cases"""
        out = []
        while True:
            extra = z3.And(*[z3.Not(c[1]) for c in out]) if out else z3.BoolVal(True)
            if not ex.feasible(st, extra): return [c for c in cases if c in out]
            got = None
            for m, pre, b in st.models:
                if len(pre) == len(st.pc) and z3.is_true(m.eval(extra, model_completion=True)):
                    got = [c for c in cases if c not in out and z3.is_true(m.eval(c[1], model_completion=True))]
                    break
            if not got: return [c for c in cases if ex.feasible(st, c[1])]
            out.append(got[0])

    def same_maps(self, ex, s):
        for off in self.maps:
            a, b = s.ghost['sym:dm'][off], s.mem[self.sr].cells.get(off, (0, None))[1]
            if not isinstance(b, MapVal): raise Undecided('path map lost')
            self.check_dm(ex, s, a, b, None)

    def one_warning(self, ex, s, cbs, prefix, name):
        ok = len(cbs) == 1
        ex.ob(s, 'records: exactly one warning for %s' % name, ok, ('RECORDS', 'WARN'), assume=False)
        if ok:
            e = cbs[0][1][1]
            p0 = e.path.p[0] if e.path.p else None
            pre = p0 is not None and p0[0] == 'l' and p0[1].startswith(prefix)
            ex.ob(s, 'records: the warning for %s is %s' % (name, prefix.decode()), z3.And(is_warning(self.k, e), z3.BoolVal(pre)), ('RECORDS', 'WARN'), assume=False)
            ex.ob(s, 'records: a warning has no associated event', e.assoc is None, ('WARN',), assume=False)

    def the_event(self, ex, s, cbs, name, path, et, pt, assoc=None):
        """exactly one event as specified; et and pt are terms"""
        ok = len(cbs) >= 1
        evs = [t[1] for i, t in cbs]
        ex.ob(s, 'records: %s is reported as exactly one event' % name, len(evs) == 1, ('RECORDS',), assume=False)
        if not evs: return
        self.event_is(ex, s, evs[-1], name, path, et, pt)
        if assoc is None: ex.ob(s, 'records: no associated event for %s' % name, evs[-1].assoc is None, ('RECORDS',), assume=False)
        else:
            a = evs[-1].assoc
            ex.ob(s, 'records: %s carries its other half' % name, a is not None, ('RECORDS',), assume=False)
            if a is not None:
                self.event_is(ex, s, a, 'the other half of ' + name, assoc[0], et, assoc[1])
                ex.ob(s, 'records: %s has two halves' % name, a.assoc is None, ('RECORDS',), assume=False)
    def event_is(self, ex, s, e, name, path, et, pt):
        if isinstance(path, Str): path = [(z3.BoolVal(True), path)]
        ex.ob(s, 'records: name of %s' % name, z3.And(*[z3.Implies(c, str_eq(ex, e.path, p)) for c, p in path]), ('RECORDS', 'NAME'), assume=False)
        ex.ob(s, 'records: effect of %s' % name, tobv(e.et, 32) == et, ('RECORDS',), assume=False)
        ex.ob(s, 'records: path type of %s' % name, tobv(e.pt, 32) == pt, ('RECORDS',), assume=False)

    # ---- the end
    def check(self, ex, s0, s, r):
        k = self.k
        w = k['r.size'] * 8
        R = tobv(r, w)
        rf = [t for t in s.trace if t[0] == 'read' and t[1] is None]
        ex.ob(s, 'records: one read per turn', len([t for t in s.trace if t[0] == 'read']) == 1, ('RECORDS',), assume=False)
        ex.ob(s, 'descriptors: decoding keeps and closes none', fds(s) == fds(s0), ('CLOSE',), assume=False)
        ex.ob(s, 'event loop: decoding never ends the watch as complete', R != k['r.complete'], ('WAIT',), assume=False)
        ex.ob(s, 'errors: decoding is never reported as an unavailable backend', R != k['r.fanotify'], ('FATAL', 'BACKEND'), assume=False)
        cbs = [t for t in s.trace if t[0] == 'cb']
        if rf:
            e = rf[0][2]
            ex.ob(s, 'records: nothing is told when nothing could be read', not cbs, ('RECORDS', 'ERR'), assume=False)
            ex.ob(s, 'errors: finding no data is no failure', z3.Implies(e == EAGAIN, z3.ULT(R, k['r.complete'])), ('ERR', 'FATAL'), assume=False)
            ex.ob(s, 'errors: a failed read is fatal, as e/sys/api/read', z3.Implies(z3.And(e != EAGAIN, e != EINTR), R == k['r.e'] + self.TEXT.index('e/sys/api/read@')), ('ERR', 'FATAL'), assume=False)
            ex.cover('read failed'); 
            for off in self.maps:
                self.check_dm(ex, s, s0.mem[self.sr].cells[off][1], s.mem[self.sr].cells[off][1], None)
        else:
            ex.cover('batch handled')
            self.result(ex, s, R)
            if not s.ghost.get('done'):
                # the records were not handled in a loop: only an empty batch ends like that
                ex.ob(s, 'records: the batch is handled to its end', self.L(s) == 0, ('RECORDS', 'NEXT'), assume=False)
        self.frame(ex, s0, s)

    def result(self, ex, s, R):
        ex.ob(s, 'records: a batch is no failure', z3.ULT(R, self.k['r.complete']), ('RECORDS', 'ERR', 'FATAL'), assume=False)

    def frame(self, ex, s0, s):
        lo, hi = self.k[self.pre + '.ke'], self.k[self.pre + '.il']
        for what, oid, off in diff_states(s0, s):
            o = s0.mem[oid]
            if o.name == 'errno': continue
            if what == 'dead': raise Undecided('decoding destroys %s' % o.name)
            if oid == self.sr and lo <= off < hi and off != self.fdoff: continue
            raise Undecided('decoding changes %s at %s' % (o.name, off))

def simp_bv(v):
    v = z3.simplify(v)
    return v

# ================================================================ inotify
IN = dict(MODIFY=2, FROM=0x40, TO=0x80, CREATE=0x100, DELETE=0x200, DELSELF=0x400, MOVSELF=0x800, UNMOUNT=0x2000, OVERFLOW=0x4000, IGNORED=0x8000, ISDIR=0x40000000)
REAL = IN['CREATE'] | IN['DELETE'] | IN['MODIFY'] | IN['FROM'] | IN['TO']

class InRecv(Batch):
    name = 'inrecv'
    kind = 'inotify'
    tags = {'RECORDS': ('C04',), 'NAME': ('C04',), 'NEXT': ('C04', 'C06'), 'MEM': ('C06',), 'WALK': ('C07',), 'DM': ('C07',), 'WARN': ('C09',), 'ERR': ('C09',), 'FATAL': ('C09',),
            'CLOSE': ('C10',), 'WAIT': ('C03',), 'BACKEND': ('C08',), 'DEFER': ('C07',)}
    min_room = 16 + 256
    covers = ('read failed', 'batch handled', 'record: queue overflow', 'record: unknown directory', 'record: nothing to report', 'record: a lone record', 'record: a rename pair',
              'record: a created directory', 'directory marked', 'directory not marked', 'a watch ends')
    needs = ('inotify::do_ev_recv', 'parse_ev', 'peek', 'do_mark', 'defer_dm_rm_wd', 'send_msg', 'is_dir')
    F = {0: 'wd', 4: 'mask', 8: 'cookie', 12: 'len'}
    def record(self, ex, pos, j):
        r = Rec()
        r.pos = pos; r.full = False
        for n, w in (('wd', 32), ('mask', 32), ('cookie', 32)): setattr(r, n, ex.fresh('%s%d' % (n, j), w))
        r.len = z3.ZeroExt(20, ex.fresh('len%d' % j, 12))
        r.name = ex.fresh('name%d' % j, 'str')
        r.next = z3.simplify(pos + 16 + z64(r.len))
        return r
    def offsets(self): return (0, 4, 8, 12, 16)
    def field(self, ex, st, q, d, size):
        v = lambda off: getattr(q, self.F[off])
        if d in self.F and size == 4: return v(d)
        if d + size <= 16:
            b = d - d % 4
            if d % 4 + size <= 4: return z3.Extract(8 * (d % 4 + size) - 1, 8 * (d % 4), v(b))
            if d % 4 == 0 and size == 8: return z3.Concat(v(d + 4), v(d))
        return None
    def text(self, ex, st, q, d):
        if d != 16: return None
        ex.ob(st, 'memory: a name is read only where there is one', q.len != 0, ('MEM',))
        return Str.sym(q.name)
    def text_at(self, ex, st, rel): return None, None
    def wellformed(self, ex, st, ps):
        """what the kernel promises about records"""
        R = st.ghost['sym:R']
        out = []
        for q in ps:
            m, n, wd, ck = q.mask, q.len, q.wd, q.cookie
            out += [z3.ULE(n, 256), self.within(st, q),
                    z3.Or(*[z3.Extract(15, 0, m) == (1 << b) for b in range(16) if b != 12]), m & ~bvv(0x4000EFFF, 32) == 0,
                    z3.Implies(m & REAL != 0, n != 0),
                    z3.Implies(m & IN['OVERFLOW'] != 0, wd == M1(32)),
                    z3.Implies(ck != 0, m & (IN['FROM'] | IN['TO']) != 0)]
        for a, b in zip(ps, ps[1:]):
            out.append(z3.Implies(z3.And(self.has(st, b), a.cookie != 0, a.cookie == b.cookie),
                                  z3.And(a.mask & IN['FROM'] != 0, b.mask & IN['TO'] != 0, (a.mask ^ b.mask) & IN['ISDIR'] == 0)))
        return out

    def cases(self, ex, st, P, L):
        k = self.k
        if not self.maps: raise Undecided('no path map')
        dm = st.ghost['sym:dm'][self.maps[0]]
        r0, r1 = st.ghost['sym:recs'][:2]
        N1, N2 = r0.to, r1.to
        m = r0.mask
        R = st.ghost['sym:R']
        rec = z3.BoolVal(st.ghost['sym:n'] > 0)
        hit, dirp = map_at(ex, dm, r0.wd)
        hit1, dir1 = map_at(ex, dm, r1.wd)
        ov = m & IN['OVERFLOW'] != 0
        real = m & REAL != 0
        pair = z3.And(self.has(st, r1), m & (IN['FROM'] | IN['TO']) != 0, r0.cookie != 0, r0.cookie == r1.cookie, hit1)
        newdir = z3.And(m & IN['CREATE'] != 0, m & IN['ISDIR'] != 0)
        # a watch that ended takes its directory away only after the batch
        def pt(q): return z3.If(q.mask & IN['ISDIR'] != 0, bvv(k['pt.dir'], 32), bvv(k['pt.file'], 32))
        et = z3.If(m & IN['CREATE'] != 0, bvv(k['et.create'], 32), z3.If(m & IN['DELETE'] != 0, bvv(k['et.destroy'], 32), z3.If(m & IN['MODIFY'] != 0, bvv(k['et.modify'], 32), bvv(k['et.rename'], 32))))
        name = Str.sym(sjoin(dirp, r0.name)); name1 = Str.sym(sjoin(dir1, r1.name))
        def cbs(seg): return [(i, t) for i, t in seg if t[0] == 'cb']
        def marks(seg): return [t for i, t in seg if t[0] in ('add_watch', 'fa_mark', 'rm_watch')]
        def nomark(ex, s, seg):
            ex.ob(s, 'walk: only a new directory is put under watch', not marks(seg), ('WALK',), assume=False)
            self.same_maps(ex, s)
        def overflow(ex, s, seg, n):
            self.one_warning(ex, s, cbs(seg), b'w/sys/q_overflow@', 'a queue overflow'); nomark(ex, s, seg)
        def unknown(ex, s, seg, n):
            self.one_warning(ex, s, cbs(seg), b'w/sys/phantom@', 'a record of an unknown directory'); nomark(ex, s, seg)
        def nothing(ex, s, seg, n):
            ex.ob(s, 'records: no event for a record about the directory itself, or of another kind', not cbs(seg), ('RECORDS',), assume=False); nomark(ex, s, seg)
        def single(ex, s, seg, n):
            self.the_event(ex, s, cbs(seg), 'a lone record', name, et, pt(r0)); nomark(ex, s, seg)
        def created(ex, s, seg, n):
            cb = cbs(seg)
            ex.ob(s, 'records: a created directory is reported', len(cb) >= 1, ('RECORDS',), assume=False)
            if not cb: return
            last = cb[-1][0]
            ex.ob(s, 'walk: a new directory is watched before its creation is told', not [1 for i, t in seg if i > last and t[0] in ('add_watch', 'fa_mark')], ('WALK',), assume=False)
            good = self.check_visit(ex, s, s.ghost['sym:base'], name, 'inotify', upto=last)
            self.the_event(ex, s, cb[-1:], 'a created directory', name, et, pt(r0))
            a = s.ghost['sym:dm'][self.maps[0]]; b = s.mem[self.sr].cells.get(self.maps[0], (0, None))[1]
            if not isinstance(b, MapVal): raise Undecided('path map lost')
            self.check_dm(ex, s, a, b, good)
        def renamed(ex, s, seg, n):
            fr = r0.mask & IN['FROM'] != 0
            pick = lambda a, b: Str.sym(z3.simplify(z3.If(fr, a.term(ex), b.term(ex)))) if not ex.valid(s, fr) else a
            self.the_event(ex, s, cbs(seg), 'a rename pair', pick(name, name1), bvv(k['et.rename'], 32), pt(r0), (pick(name1, name), pt(r0)))
            nomark(ex, s, seg)
        T = z3.And(rec, z3.Not(ov), hit, real)
        return [('queue overflow', z3.And(rec, ov), N1, overflow),
                ('unknown directory', z3.And(rec, z3.Not(ov), z3.Not(hit)), N1, unknown),
                ('nothing to report', z3.And(rec, z3.Not(ov), hit, z3.Not(real)), N1, nothing),
                ('a created directory', z3.And(T, newdir), N1, created),
                ('a rename pair', z3.And(T, z3.Not(newdir), pair), N2, renamed),
                ('a lone record', z3.And(T, z3.Not(newdir), z3.Not(pair)), N1, single)]

    # ---- directories whose watch ended: dropped after the batch, and only those.
    # W is an arbitrary descriptor; gone(W) tells whether its end was among the records so far
    def setup(self, ex, st):
        self.W = z3.BitVec('W', 32)
        self.J = z3.BitVec('J', 64)
        st.ghost['sym:gone'] = z3.BoolVal(False)
        st.ghost['sym:jW'] = {}
    def ends(self, q): return z3.And(q.mask & IN['DELSELF'] != 0, q.mask & IN['MOVSELF'] == 0, q.wd == self.W)
    def head(self, ex, st, plan):
        Batch.head(self, ex, st, plan)
        st.ghost['sym:gone'] = ex.fresh('gone', 'bool')
        st.ghost['sym:jW'] = {}
        for c in plan.cut.cells.values() if plan.cut else ():
            if c.kind in ('int', 'enum'): st.ghost['sym:jW'][(c.oid, c.off)] = ex.fresh('jW', 64)
        st.ghost['sym:jWhead'] = dict(st.ghost['sym:jW'])
        st.ghost['sym:idx'] = {(c.oid, c.off): plan.cut.cellval(st, c) for c in plan.cut.cells.values() if c.kind in ('int', 'enum')}
    def after(self, ex, st, plan):
        self.note_end(ex, st)
    def note_end(self, ex, st):
        """the record just handled may have ended the watch W (back edges only)"""
        e = self.ends(st.ghost['sym:recs'][0])
        if ex.feasible(st, e): ex.cover('a watch ends')
        st.ghost['sym:gone'] = z3.Or(st.ghost['sym:gone'], e)
        new = {}
        for key, j in st.ghost['sym:jW'].items():
            h = st.ghost['sym:idx'].get(key)
            new[key] = z3.If(e, z64(tobv(h, 64)) if isint(h) and not isinstance(h, int) else (bvv(h, 64) if isinstance(h, int) else j), j)
        st.ghost['sym:jW'] = new
    def arrays(self, cut):
        out = set()
        for src in (cut.entry,):
            o = src.mem.get(self.sr)
            if o is not None:
                for r in o.regions:
                    if r.kind == 'arr' and r.esz == 4: out.add(r.lo)
        return sorted(out)
    def arr(self, st, lo):
        for r in st.mem[self.sr].regions:
            if r.lo == lo and r.kind == 'arr': return r.arr
        return None
    def more_cands(self, ex, cut, plan):
        out = []
        W = self.W
        for lo in self.arrays(cut):
            for c in cut.cells.values():
                if c.kind != 'int' or c.size != 8: continue
                key = (c.oid, c.off)
                def only(st, c=c, lo=lo):
                    v = cut.cellval(st, c); a = self.arr(st, lo)
                    if v is None or not isint(v) or a is None: return None
                    j = self.J      # an arbitrary index: proved for it, so for all
                    return z3.Implies(z3.And(z3.ULT(j, tobv(v, 64)), z3.Select(a, j) == W), st.ghost['sym:gone'])
                def some(st, c=c, lo=lo, key=key):
                    v = cut.cellval(st, c); a = self.arr(st, lo)
                    if v is None or not isint(v) or a is None: return None
                    j = st.ghost['sym:jW'].get(key)
                    if j is None:
                        # on entry nothing is gone
                        return z3.Not(st.ghost['sym:gone'])
                    return z3.Implies(st.ghost['sym:gone'], z3.And(z3.ULT(j, tobv(v, 64)), z3.Select(a, j) == W))
                out.append((('only', lo) + key, only)); out.append((('some', lo) + key, some))
        return out
    def leave(self, ex, st, plan):
        """what was proved for an arbitrary index is used, after the loop, at every index read"""
        if ex.quiet: return
        for n, f in plan.cut.live_cands():
            if n[0] != 'only': continue
            inst = f(st)
            if inst is None: continue
            for r in st.wobj(self.sr).regions:
                if r.lo == n[1] and r.kind == 'arr': r.info = Instances(self.J, inst, r.info, r.arr)
    def check(self, ex, s0, s, r):
        Batch.check(self, ex, s0, s, r)
        if self.L(s) is None or not s.ghost.get('done') or not self.maps: return
        # the map at the end of the loop, less the ended watches
        a = s.ghost['sym:dm'][self.maps[0]]; b = s.mem[self.sr].cells.get(self.maps[0], (0, None))[1]
        if not isinstance(b, MapVal): raise Undecided('path map lost')
        ha, pa = map_at(ex, a, self.W); hb, pb = map_at(ex, b, self.W)
        gone = s.ghost['sym:gone']
        ex.ob(s, 'walk: the path of a removed directory is dropped after the batch', z3.Implies(gone, z3.Not(hb)), ('DEFER',), assume=False)
        ex.ob(s, 'walk: no other recorded directory is dropped', z3.Implies(z3.And(z3.Not(gone), ha), z3.And(hb, pb == pa)), ('DEFER',), assume=False)
        ex.ob(s, 'walk: the end of a batch records no directory', z3.Implies(z3.Not(ha), z3.Not(hb)), ('DEFER',), assume=False)
    def other_plan(self, ex, st, key):
        return RemovePlan()

class Instances:
    def __init__(self, J, inst, more, arr): self.J, self.inst, self.more, self.arr = J, inst, more, arr
    def on_read(self, ex, st, r, idx, v):
        if r.arr.eq(self.arr): st.pc.append(z3.substitute(self.inst, (self.J, tobv(idx, 64))))
        if self.more is not None: self.more.on_read(ex, st, r, idx, v)

class RemovePlan(LoopPlan):
    """the loop that drops the paths of ended watches"""
    def candidates(self, ex, cut):
        u = self.unit
        out = []
        if not u.maps: return out
        W = u.W; off = u.maps[0]
        def mp(st):
            v = st.mem[u.sr].cells.get(off)
            return v[1] if v and isinstance(v[1], MapVal) else None
        m0 = cut.entry.mem[u.sr].cells.get(off)
        if not m0 or not isinstance(m0[1], MapVal): return out
        h0, p0 = map_at(ex, m0[1], W)
        def kept(st):
            m = mp(st)
            if m is None: return None
            h, p = map_at(ex, m, W)
            return z3.And(z3.Implies(h, z3.And(h0, p == p0)), z3.Implies(z3.And(h0, z3.Not(h)), st.ghost['sym:gone']))
        out.append((('kept',), kept))
        for c in cut.cells.values():
            if c.kind != 'int' or c.size != 8: continue
            for key, j in list(cut.entry.ghost.get('sym:jW', {}).items()):
                def done(st, c=c, key=key):
                    m = mp(st); v = cut.cellval(st, c)
                    if m is None or v is None or not isint(v): return None
                    h, p = map_at(ex, m, W)
                    j = st.ghost['sym:jW'].get(key)
                    return None if j is None else z3.Implies(z3.And(st.ghost['sym:gone'], z3.ULT(j, tobv(v, 64))), z3.Not(h))
                def below(st, c=c, key=key):
                    m = mp(st); v = cut.cellval(st, c)
                    if m is None or v is None or not isint(v): return None
                    h, p = map_at(ex, m, W)
                    j = st.ghost['sym:jW'].get(key)
                    return None if j is None else z3.Implies(z3.And(st.ghost['sym:gone'], z3.UGE(j, tobv(v, 64))), z3.Not(h))
                out.append((('done', c.oid, c.off) + key, done)); out.append((('below', c.oid, c.off) + key, below))
        return out


# ================================================================ fanotify
FA = dict(MODIFY=2, FROM=0x40, TO=0x80, CREATE=0x100, DELETE=0x200, OVERFLOW=0x4000, ONDIR=0x40000000)
FHEAD, FINFO, FNAME, DFID_NAME, FVERS = 24, 36, 44, 2, 3
EFFECTS = FA['MODIFY'] | FA['FROM'] | FA['TO'] | FA['CREATE'] | FA['DELETE']

class FaRecv(Batch):
    name = 'farecv'
    kind = 'fanotify'
    tags = {'RECORDS': ('C05',), 'NAME': ('C05',), 'NEXT': ('C05', 'C06'), 'MEM': ('C06',), 'WALK': ('C07',), 'DM': ('C07',), 'WARN': ('C09',), 'ERR': ('C09',), 'FATAL': ('C09',),
            'CLOSE': ('C10',), 'WAIT': ('C03',), 'BACKEND': ('C08',)}
    min_room = 24 + 20 + 128 + 256
    min_rec = 24
    covers = ('read failed', 'batch handled', 'record: queue overflow', 'record: unusable descriptor', 'record: no directory entry', 'record: a lone record', 'record: a rename pair',
              'record: a created directory', 'record: foreign version', 'directory marked', 'directory not marked', 'unresolved', 'unresolved pair')
    needs = ('fanotify::do_ev_recv', 'parse_ev', 'peek', 'do_mark', 'pathof', 'send_msg', 'is_dir')
    def record(self, ex, pos, j):
        r = Rec()
        r.pos = pos; r.full = True
        r.len = z3.ZeroExt(19, ex.fresh('elen%d' % j, 13))
        for n, w in (('vers', 8), ('mlen', 16), ('mask', 64), ('fd', 32), ('pid', 32), ('itype', 8), ('ilen', 16), ('hb', 32), ('fsid', 64), ('htype', 32)):
            setattr(r, n, ex.fresh('%s%d' % (n, j), w))
        r.hb = z3.ZeroExt(24, ex.fresh('hb%d' % j, 8))
        r.name = ex.fresh('name%d' % j, 'str')
        r.next = z3.simplify(pos + z64(r.len))
        return r
    F = {0: ('len', 32), 4: ('vers', 8), 6: ('mlen', 16), 8: ('mask', 64), 16: ('fd', 32), 20: ('pid', 32), 24: ('itype', 8), 26: ('ilen', 16), 28: ('fsid', 64), 36: ('hb', 32), 40: ('htype', 32)}
    def offsets(self): return tuple(self.F) + (44,)
    def field(self, ex, st, q, d, size):
        for off, (n, w) in self.F.items():
            if off <= d and d + size <= off + w // 8:
                v = getattr(q, n)
                if size * 8 != w: v = z3.Extract(8 * (d - off + size) - 1, 8 * (d - off), v)
                # past the end of the record there may be anything
                if d >= FHEAD: v = z3.If(z3.ULE(bvv(d + size, 32), q.len), v, ex.fresh('past', size * 8))
                return v
        return None
    def text(self, ex, st, q, d): return None
    def text_at(self, ex, st, rel):
        for q in st.ghost.get('sym:recs', ()):
            if ex.valid(st, rel == q.pos + FNAME + z64(q.hb)):
                ex.ob(st, 'memory: a name is read only where there is one', self.named(q), ('MEM',))
                return q, Str.sym(q.name)
        return None, None
    def handle_of(self, c, h):
        ex, st = c.ex, c.st
        kb = st.ghost.get('kbuf')
        if kb is None or h.obj != kb[0]: raise Undecided('file handle outside the batch')
        rel = simp(tobv(h.off, 64) - kb[1])
        for q in st.ghost.get('sym:recs', ()):
            if ex.valid(st, tobv(rel, 64) == q.pos + FINFO):
                ex.ob(st, 'memory: a file handle is used only where there is one', self.named(q), ('MEM',))
                return q.pos
        if ex.quiet: return ex.fresh('unk', 64)
        ex.ob(st, 'memory: a file handle is used only where there is one', False, ('MEM',))
        raise PathEnd()
    def usable(self, q): return z3.And(q.vers == FVERS, q.fd == M1(32), q.mask & FA['OVERFLOW'] == 0)
    def named(self, q): return z3.And(self.usable(q), q.itype == DFID_NAME)
    def wellformed(self, ex, st, ps):
        R = st.ghost['sym:R']
        out = []
        for q in ps:
            m = q.mask
            e = z3.Extract(15, 0, m)
            out += [z3.UGE(q.len, FHEAD), z3.ULE(q.len, 4096), self.within(st, q),
                    m & ~bvv(EFFECTS | FA['OVERFLOW'] | FA['ONDIR'], 64) == 0, e != 0,
                    z3.Implies(m & FA['OVERFLOW'] != 0, z3.And(e == FA['OVERFLOW'], q.len == FHEAD)),
                    # effects of the same object and name are merged, renames are not
                    z3.Implies(m & (FA['FROM'] | FA['TO']) != 0, z3.And(z3.Or(e == FA['FROM'], e == FA['TO']), self.named(q))),
                    z3.Implies(self.usable(q), z3.UGE(q.len, FHEAD + 20)),
                    z3.Implies(self.named(q), z3.And(z3.ULE(q.hb, 128), slen(q.name) != 0, z3.ULE(slen(q.name), 255), z3.UGE(z64(q.len), FNAME + 1 + z64(q.hb) + slen(q.name))))]
        for a, b in zip(ps, ps[1:]):
            out.append(z3.Implies(z3.And(self.has(st, b), self.fromto(a, b)), (a.mask ^ b.mask) & FA['ONDIR'] == 0))
        return out
    def fromto(self, a, b):
        F, T = FA['FROM'], FA['TO']
        return z3.Or(z3.And(a.mask & F != 0, b.mask & T != 0), z3.And(a.mask & T != 0, b.mask & F != 0))

    def resolve(self, ex, s, seg, q, what):
        """the path of the record's directory, as the kernel told it: Str, or None when it did not"""
        tr = [t for i, t in seg]
        tried = False; res = None
        for i, t in enumerate(tr):
            if t[0] != 'open_handle' or not (t[1].eq(q.pos) or ex.valid(s, t[1] == q.pos)): continue
            tried = True; res = None
            if t[2] is None: continue
            p = Str.lit('/proc/self/fd/') + self.dec(s, t[2])
            for u in tr[i + 1:]:
                if u[0] == 'readlink' and ex.valid(s, str_eq(ex, u[1], p)): res = u[2]
        ex.ob(s, 'records: the directory of %s is looked up' % what, tried, ('RECORDS', 'NAME'), assume=False)
        return res if tried else False
    def dec(self, s, fd):
        from .stdmodel import dec_text
        return dec_text(s, z3.simplify(z3.SignExt(32, tobv(fd, 32))))

    def unresolved(self, ex, st):
        """whether looking up a directory failed since the head of the loop"""
        seg = st.trace[st.ghost.get('sym:base', 0):]
        for i, t in enumerate(seg):
            if t[0] != 'open_handle': continue
            if t[2] is None: return True
            rl = [u for u in seg[i + 1:] if u[0] in ('readlink', 'open_handle')]
            if not rl or rl[0][0] != 'readlink' or rl[0][2] is None: return True
        return False
    def cases(self, ex, st, P, L):
        k = self.k
        r0, r1 = st.ghost['sym:recs'][:2]
        m = r0.mask
        R = st.ghost['sym:R']
        rec = z3.BoolVal(st.ghost['sym:n'] > 0)
        ver = r0.vers != FVERS
        badfd = r0.fd != M1(32)
        ov = m & FA['OVERFLOW'] != 0
        entry = r0.itype == DFID_NAME
        newdir = z3.And(m & FA['CREATE'] != 0, m & FA['ONDIR'] != 0)
        pair = z3.And(self.has(st, r1), self.fromto(r0, r1))
        half = False
        if self.unresolved(ex, st):
            # one half may still be told on its own
            half = ex.feasible(st, pair); pair = z3.BoolVal(False)
        pt = z3.If(m & FA['ONDIR'] != 0, bvv(k['pt.dir'], 32), bvv(k['pt.file'], 32))
        def cbs(seg): return [(i, t) for i, t in seg if t[0] == 'cb']
        def nomark(ex, s, seg):
            ex.ob(s, 'walk: only a new directory is put under watch', not [t for i, t in seg if t[0] in ('add_watch', 'fa_mark', 'rm_watch')], ('WALK',), assume=False)
        def warned(prefix, what):
            def f(ex, s, seg, n):
                self.one_warning(ex, s, cbs(seg), prefix, what); nomark(ex, s, seg)
            return f
        def foreign(ex, s, seg, n):
            ex.ob(s, 'records: no event for a record of a foreign version', not cbs(seg), ('RECORDS',), assume=False); nomark(ex, s, seg)
        def paths(ex, s, d, q):
            """[(condition, path)] of a record; paths that are too long are out of scope"""
            dot = str_eq(ex, Str.sym(q.name), Str.lit('.'))
            s.pc.append(z3.ULE(tobv(d.length(), 64) + slen(q.name) + 2, 4096))
            return [(dot, d), (z3.Not(dot), d + Str.lit('/') + Str.sym(q.name))]
        def et_of(ex, s, e):
            """merged effects: any of them may be told"""
            t = tobv(e.et, 32)
            return z3.Or(*[z3.And(m & FA[a] != 0, t == k['et.' + b]) for a, b in (('CREATE', 'create'), ('DELETE', 'destroy'), ('MODIFY', 'modify'), ('FROM', 'rename'), ('TO', 'rename'))])
        def lone(ex, s, seg, n):
            if half: ex.cover('unresolved pair')
            d = self.resolve(ex, s, seg, r0, n)
            if d is False: return
            if d is None:
                ex.cover('unresolved')
                warned(b'w/sys/bad_fd@', 'a record whose directory is gone')(ex, s, seg, n); return
            ps = paths(ex, s, d, r0)
            if not ex.feasible(s): return
            cb = cbs(seg)
            if n == 'a created directory' and cb:
                last = cb[-1][0]
                ex.ob(s, 'walk: a new directory is watched before its creation is told', not [1 for i, t in seg if i > last and t[0] in ('add_watch', 'fa_mark')], ('WALK',), assume=False)
                for c, p in ps:
                    s2 = s.clone(); s2.pc.append(c)
                    if ex.feasible(s2): self.check_visit(ex, s2, s.ghost['sym:base'], p, 'fanotify', upto=last)
                cb = cb[-1:]
            else: nomark(ex, s, seg)
            ex.ob(s, 'records: %s is reported as exactly one event' % n, len(cb) == 1, ('RECORDS',), assume=False)
            if len(cb) != 1: return
            e = cb[0][1][1]
            ex.ob(s, 'records: effect of %s' % n, et_of(ex, s, e), ('RECORDS',), assume=False)
            self.event_is(ex, s, e, n, ps, tobv(e.et, 32), pt)
            ex.ob(s, 'records: no associated event for %s' % n, e.assoc is None, ('RECORDS',), assume=False)
        def renamed(ex, s, seg, n):
            d0 = self.resolve(ex, s, seg, r0, n); d1 = self.resolve(ex, s, seg, r1, n) if d0 is not None else None
            if d0 is False or d1 is False: return
            nomark(ex, s, seg)
            p0, p1 = paths(ex, s, d0, r0), paths(ex, s, d1, r1)
            if not ex.feasible(s): return
            for fr, a, b in ((m & FA['FROM'] != 0, p0, p1), (m & FA['FROM'] == 0, p1, p0)):
                s2 = s.clone(); s2.pc.append(fr)
                if ex.feasible(s2): self.the_event(ex, s2, cbs(seg), n, a, bvv(k['et.rename'], 32), pt, (b, pt))
        ok = z3.And(rec, z3.Not(ver), z3.Not(badfd), z3.Not(ov), entry)
        N1, N2 = r0.to, r1.to
        return [('foreign version', z3.And(rec, ver), N1, foreign),
                ('unusable descriptor', z3.And(rec, z3.Not(ver), badfd), N1, warned(b'w/sys/bad_fd@', 'an unusable record')),
                ('queue overflow', z3.And(rec, z3.Not(ver), z3.Not(badfd), ov), N1, warned(b'w/sys/q_overflow@', 'a queue overflow')),
                ('no directory entry', z3.And(rec, z3.Not(ver), z3.Not(badfd), z3.Not(ov), z3.Not(entry)), N1, warned(b'w/sys/bad_meta@', 'a record without a name')),
                ('a rename pair', z3.And(ok, pair), N2, renamed),
                ('a created directory', z3.And(ok, newdir), N1, lone),
                ('a lone record', z3.And(ok, z3.Not(pair), z3.Not(newdir)), N1, lone)]
    def giving_up(self, st):
        """a record this program cannot read ends the watch"""
        r0 = st.ghost['sym:recs'][0]
        return z3.And(self.has(st, r0), r0.vers != FVERS)
    def leave(self, ex, st, plan): st.ghost['sym:gaveup'] = self.giving_up(st)
    def result(self, ex, s, R):
        g = s.ghost.get('sym:gaveup', z3.BoolVal(False))
        ex.ob(s, 'records: a batch is no failure', z3.Or(g, z3.ULT(R, self.k['r.complete'])), ('RECORDS', 'ERR', 'FATAL'), assume=False)
        ex.ob(s, 'records: a record of a foreign version ends the watch, as e/sys/lim/kernel_version', z3.Implies(g, R == self.k['r.e'] + self.TEXT.index('e/sys/lim/kernel_version@')), ('RECORDS', 'ERR', 'FATAL'), assume=False)
