"""The Rust binding (C15): the real lib.rs compiled by rustc, over contracts of the standard library's
text functions, of the allocator, of the futures channel and of the C interface (C13)."""
import re
from .unit import *
from .stdmodel import read_cstr

TOP = 1 << 63
class Msg(Ghost):
    """an item in a channel"""
    __slots__ = ('oid',)
    def __init__(self, oid): self.oid = oid

class Rust(Unit):
    name = 'rust'
    tu = 'rust'
    both_trees = False
    tags = {'EV': ('C15',), 'OPEN': ('C15',), 'CLOSE1': ('C15',), 'MEM': ('C15',), 'OWN': ('C15',), 'ARITH': ('C15',)}
    covers = ('layouts', 'opened', 'open: no watcher', 'open: path with NUL', 'event delivered', 'event delivered with associated', 'event of unknown codes', 'event of a path that is not UTF-8', 'event of an empty path',
              'two events', 'event during closing', 'closed cleanly', 'closed badly', 'closed again', 'dropped open', 'dropped closed', 'pending')
    inlined = ('c_chars_as_str', 'effect_type_from_c', 'path_type_from_c', 'ev_from_c')

    def overrides(self):
        o = {'wtr_watcher_open': self.wopen, 'wtr_watcher_close': self.wclose, 'llvm.memcpy.p0.p0.i64': self.copy, 'llvm.memmove.p0.p0.i64': self.copy}
        for n in ('chan', 'send', 'poll', 'clone_tx', 'drop_tx', 'drop_rx', 'close_rx', 'shut'): o['vp_' + n] = getattr(self, n)
        plain = {'__rustc::__rust_alloc': self.alloc, '__rustc::__rust_alloc_zeroed': self.alloc, '__rustc::__rust_dealloc': self.dealloc, '__rustc::__rust_no_alloc_shim_is_unstable_v2': lambda c: None,
                 'core::str::converts::from_utf8': self.from_utf8, '<core::ffi::c_str::CStr>::to_str': self.cstr_to_str,
                 '<&str as <alloc::ffi::c_str::CString>::new::SpecNewImpl>::spec_new_impl': self.cstring_new, '<&[u8] as <alloc::ffi::c_str::CString>::new::SpecNewImpl>::spec_new_impl': self.cstring_new,
                 'alloc::raw_vec::handle_error': self.noroom, 'alloc::alloc::handle_alloc_error': self.noroom}
        for n in self.mod.decls:
            d = re.sub(r'\[[0-9a-f]+\]', '', self.mod.dem.get(n, n))
            if plain.get(d): o[n] = plain[d]
            elif d.startswith('core::panicking::') or d in ('core::result::unwrap_failed', 'core::option::unwrap_failed', 'core::option::expect_failed'): o[n] = self.panic
        return o

    # ---------------------------------------------------------------- the standard library
    def text_at(self, c, p, n):
        """the text of n bytes at p"""
        ex, st = c.ex, c.st
        if isinstance(n, int) and n == 0: return Str.lit(b'')
        if not isinstance(p, Ptr): raise Undecided('text')
        if p.obj is None:
            ex.ob(st, 'memory: only the empty text is nowhere', tobv(n, 64) == 0, ('MEM',)); return Str.lit(b'')
        o = ex.check_ptr(st, p, 1, 'read')
        v = o.cells.get(p.off)
        if v is None or not isinstance(v[1], CBuf):
            if isinstance(n, int) and n <= 4096:
                b = [ex.load(st, ex.padd(p, i), 1) for i in range(n)]
                if all(isinstance(x, int) for x in b): return Str.lit(bytes(b))
            raise Undecided('text made of symbolic bytes')
        s = v[1].s
        ln = tobv(s.length(), 64)
        if ex.valid(st, tobv(n, 64) == ln): return s
        l = s.literal
        if l is not None and isinstance(n, int) and n == len(l) + 1 and v[1].n is None: return Str.lit(l + b'\0')
        raise Undecided('part of a text')
    def copy(self, c):
        ex, st = c.ex, c.st
        d, s, n = c.args[:3]
        if isinstance(s, Ptr) and s.obj is not None and not (isinstance(n, int) and n == 0):
            o = ex.check_ptr(st, s, 1, 'read')
            v = o.cells.get(s.off)
            if v is not None and isinstance(v[1], CBuf):
                t = self.text_at(c, s, n)
                if not isinstance(d, Ptr): raise Undecided('copy')
                ex.check_ptr(st, d, 1, 'write')
                cap = st.ghost.get('sym:cap', {}).get(d.obj)
                if cap is None or d.off != 0: raise Undecided('text copied to part of an array')
                ex.ob(st, 'memory: a copied text fits', z3.ULE(tobv(n, 64), tobv(cap, 64)), ('MEM',))
                st.wobj(d.obj).cells[0] = (1 << 20, CBuf(t, None, t.length()))
                return d
        ex.memcpy(st, d, s, n); return d
    def alloc(self, c):
        ex, st = c.ex, c.st
        n = c.args[0]
        ex.assumptions.add('memory allocation does not fail')
        oid = ex.new_obj(st, n if isinstance(n, int) and n <= 4096 else None, 'heap memory', 'heap')
        if c.key.endswith('zeroed') and isinstance(n, int): st.mem[oid].zero = [(0, n)]
        st.ghost['sym:cap'] = dict(st.ghost.get('sym:cap', {}), **{}); st.ghost['sym:cap'][oid] = n
        return Ptr(oid, 0)
    def dealloc(self, c):
        ex, st = c.ex, c.st
        p, n = c.args[0], c.args[1]
        if not isinstance(p, Ptr) or p.obj is None: ex.mem_fault(st, 'release of what was not allocated')
        if p.obj not in st.mem: ex.mem_fault(st, 'memory released twice')
        if st.mem[p.obj].kind != 'heap' or p.off != 0: ex.mem_fault(st, 'release of what was not allocated')
        cap = st.ghost.get('sym:cap', {}).get(p.obj)
        if cap is not None and isinstance(n, int) == isinstance(cap, int) or z3.is_expr(n): ex.ob(st, 'memory: released with the size it has', tobv(n, 64) == tobv(cap, 64), ('MEM',), assume=False)
        ex.kill(st, p.obj)
        return None
    def noroom(self, c):
        c.ex.assumptions.add('memory allocation does not fail, and no text is longer than the address space holds'); raise PathEnd()
    def panic(self, c):
        c.st.trace.append(('panic',))
        self.on_panic(c)
        raise PathEnd()
    def on_panic(self, c):
        nul = c.st.ghost.get('sym:nul')
        c.ex.ob(c.st, 'control: no panic', bool(nul), ('MEM', 'OPEN', 'EV'))
        c.ex.ob(c.st, 'open: a path with a NUL opens nothing', not any(t[0] == 'wopen' for t in c.st.trace), ('OPEN',), assume=False)
        c.ex.cover('open: path with NUL')
    def from_utf8(self, c):
        ex, st = c.ex, c.st
        out, p, n = c.args[:3]
        t = self.text_at(c, p, n)
        known = st.ghost.get('sym:utf8', {})
        key = repr(t)
        l = t.literal
        if key in known: ok = known[key]
        elif l is not None:
            try: l.decode('utf-8'); ok = 1
            except UnicodeDecodeError: ok = 0
        else:
            ok = 1 - c.choose(2)
            st.ghost['sym:utf8'] = dict(known, **{key: ok})
            # the empty text is well-formed
            if not ok: c.assume(tobv(t.length(), 64) != 0)
        ex.check_ptr(st, out, 24, 'write'); ex.wipe(st, out, 24)
        if ok:
            ex.store(st, out, 8, 0); ex.store(st, ex.padd(out, 8), 8, p); ex.store(st, ex.padd(out, 16), 8, n)
        else:
            ex.store(st, out, 8, 1); ex.store(st, ex.padd(out, 8), 8, ex.fresh('valid_up_to', 64)); ex.store(st, ex.padd(out, 16), 8, ex.fresh('error_len', 64))
        return None
    def cstr_to_str(self, c):
        c.args = [c.args[0], c.args[1], simp(tobv(c.args[2], 64) - 1)]
        return self.from_utf8(c)
    def cstring_new(self, c):
        ex, st = c.ex, c.st
        out, p, n = c.args[:3]
        t = self.text_at(c, p, n)
        ex.check_ptr(st, out, 32, 'write'); ex.wipe(st, out, 32)
        l = t.literal
        nul = st.ghost.get('sym:nul') and key_of(t) == repr(Str.sym(z3.Const('P', STR))) or (l is not None and b'\0' in l)
        cap = simp(tobv(n, 64) + 1)
        oid = ex.new_obj(st, None, 'C string', 'heap')
        st.ghost['sym:cap'] = dict(st.ghost.get('sym:cap', {})); st.ghost['sym:cap'][oid] = cap
        c.assume(z3.ULT(tobv(n, 64), bvv(TOP - 1, 64)))
        if not nul:
            st.mem[oid].cells[0] = (1 << 20, CBuf(t, None))
            ex.store(st, out, 8, (1 << 64) - 1); ex.store(st, ex.padd(out, 8), 8, Ptr(oid, 0)); ex.store(st, ex.padd(out, 16), 8, cap)
        else:
            ex.store(st, out, 8, cap); ex.store(st, ex.padd(out, 8), 8, Ptr(oid, 0)); ex.store(st, ex.padd(out, 16), 8, n); ex.store(st, ex.padd(out, 24), 8, ex.fresh('nul_position', 64))
        return None

    # ---------------------------------------------------------------- the futures channel
    def ch(self, c, p):
        if not isinstance(p, Ptr) or p.obj is None: c.ex.mem_fault(c.st, 'use of a channel that was never made')
        if p.obj not in c.st.mem: c.ex.mem_fault(c.st, 'use of a channel that is gone')
        s = c.st.ghost.get('sym:chan', {}).get(p.obj)
        if s is None: c.ex.mem_fault(c.st, 'use of something that is not a channel')
        return s            # (room, queue, senders, receiver)
    def setch(self, st, p, s): st.ghost['sym:chan'] = dict(st.ghost.get('sym:chan', {})); st.ghost['sym:chan'][p.obj] = s
    def chan(self, c):
        ex, st = c.ex, c.st
        p = Ptr(ex.new_obj(st, None, 'channel', 'res'), 0)
        ex.assumptions.add('a channel of the futures crate hands every item over once and in order (own stand-in with the same interface)')
        self.setch(st, p, (c.args[0], (), 1, 1)); return p
    def send(self, c):
        ex, st = c.ex, c.st
        room, q, tx, rx = self.ch(c, c.args[0])
        if not tx: ex.mem_fault(st, 'use of a sender that was dropped')
        if not rx: return 1
        if room != (1 << 64) - 1 and c.choose(2): return 2
        n = c.args[2]
        m = ex.new_obj(st, n, 'item', 'res')
        ex.memcpy(st, Ptr(m, 0), c.args[1], n)
        self.setch(st, c.args[0], (room, q + (m,), tx, rx)); st.trace.append(('sent', c.args[0].obj, m))
        return 0
    def poll(self, c):
        ex, st = c.ex, c.st
        room, q, tx, rx = self.ch(c, c.args[0])
        if not rx: ex.mem_fault(st, 'use of a receiver that was dropped')
        want = st.ghost.get('sym:waker')
        st.trace.append(('polled', c.args[0].obj))
        if q:
            ex.memcpy(st, c.args[1], Ptr(q[0], 0), c.args[2])
            self.setch(st, c.args[0], (room, q[1:], tx, rx)); return 2
        if not tx or rx == 2: return 1
        if want is not None: ex.ob(st, 'poll: the task that waits is the one to be woken', isinstance(c.args[3], Ptr) and c.args[3].obj == want.obj and c.args[3].off == want.off, ('EV',), assume=False)
        return 0
    def clone_tx(self, c): room, q, tx, rx = self.ch(c, c.args[0]); self.setch(c.st, c.args[0], (room, q, tx + 1, rx))
    def drop_tx(self, c):
        room, q, tx, rx = self.ch(c, c.args[0])
        if not tx: c.ex.mem_fault(c.st, 'a sender is dropped twice')
        self.setch(c.st, c.args[0], (room, q, tx - 1, rx))
    def drop_rx(self, c):
        room, q, tx, rx = self.ch(c, c.args[0])
        if not rx: c.ex.mem_fault(c.st, 'a receiver is dropped twice')
        self.setch(c.st, c.args[0], (room, q, tx, 0))
    def close_rx(self, c):
        room, q, tx, rx = self.ch(c, c.args[0]); self.setch(c.st, c.args[0], (room, q, tx, 2))
    def shut(self, c): return 0 if self.ch(c, c.args[0])[3] == 1 else 1

    # ---------------------------------------------------------------- the C interface (C13)
    def wopen(self, c):
        ex, st = c.ex, c.st
        path = read_cstr(c, c.args[0])
        if not isinstance(c.args[1], FuncP): raise Undecided('callback given to the watcher')
        if c.choose(2): st.trace.append(('wopen', None, path, c.args[1], c.args[2])); return NULL
        oid = ex.new_obj(st, None, 'watcher', 'res')
        st.ghost['sym:open'] = st.ghost.get('sym:open', ()) + (oid,)
        st.trace.append(('wopen', oid, path, c.args[1], c.args[2]))
        self.during.append(st.clone())
        return Ptr(oid, 0)
    def wclose(self, c):
        ex, st = c.ex, c.st
        h = c.args[0]
        if isinstance(h, Undef): ex.mem_fault(st, 'closing a watcher that was never opened')
        if isinstance(h, int): h = Ptr(None, h)
        if not isinstance(h, Ptr): raise Undecided('handle')
        if h.obj is None:
            ex.ob(st, 'close: null or the watcher is closed', h.null, ('CLOSE1',)); return 0
        if ('closed', h.obj) in st.ghost.get('sym:done', ()):
            ex.ob(st, 'close: a watch is closed through the C interface at most once', False, ('CLOSE1',)); raise PathEnd()
        if h.obj not in st.ghost.get('sym:open', ()): ex.mem_fault(st, 'closing a watcher that is not open')
        self.closing.append(st.clone())
        r = c.choose(2)
        st.ghost['sym:done'] = st.ghost.get('sym:done', ()) + (('closed', h.obj),)
        st.trace.append(('wclose', h.obj, r))
        return r

    # ---------------------------------------------------------------- running
    def main(self, ex):
        self.ex = ex
        ex.used_funcs.update(n for n in self.mod.funcs if '::w::' in self.mod.dem.get(n, n) and 'fmt::Debug' not in self.mod.dem.get(n, n))
        self.layouts(ex)
        for nul in (0, 1):
            st = ex.base.clone()
            P = Str.sym(z3.Const('P', STR))
            if nul: st.ghost['sym:nul'] = 1
            st.pc.append(z3.ULT(tobv(P.length(), 64), bvv(TOP, 64)))
            p = ex.new_obj(st, None, 'given path', 'view'); st.mem[p].cells[0] = (1 << 20, CBuf(P, None, P.length()))
            w = ex.new_obj(st, self.k['watch.size'], 'watch', 'stackish'); self.w = Ptr(w, 0)
            self.base = set(st.mem)
            self.during, self.closing = [], []
            for s, r in ex.run('vp_new', [Ptr(p, 0), P.length(), self.w], st):
                op = [t for t in s.trace if t[0] == 'wopen']
                r = self.yes(ex, s, r)
                if nul: ex.ob(s, 'open: a path with a NUL opens nothing', not op and not r, ('OPEN',), assume=False); ex.cover('open: path with NUL'); continue
                ex.ob(s, 'open: opens one watcher', len(op) == 1, ('OPEN',))
                ex.ob(s, 'open: on exactly the given path', str_eq(ex, op[0][2], P), ('OPEN',), assume=False)
                ex.ob(s, 'open: tells whether it is open', r == (op[0][1] is not None), ('OPEN',))
                if op[0][1] is None:
                    ex.ob(s, 'open: a failure leaves nothing behind', self.clean(s), ('OWN', 'OPEN'), assume=False); ex.cover('open: no watcher'); continue
                ex.cover('opened')
                ex.kill(s, p)
                self.open(ex, s, op[0])
    def yes(self, ex, s, r):
        if isinstance(r, int): return bool(r & 1)
        r = tobool(r)
        if ex.valid(s, r): return True
        if ex.valid(s, z3.Not(r)): return False
        raise Undecided('answer')
    def clean(self, s):
        return not [o for o, v in s.mem.items() if o not in self.base and v.kind == 'heap'] and not any(tx or rx for _, _, tx, rx in s.ghost.get('sym:chan', {}).values())

    def layouts(self, ex):
        """what the contracts write is what the compiled code reads"""
        st = ex.base.clone()
        T = Str.lit(b'abc')
        o = ex.new_obj(st, None, 'text', 'view'); st.mem[o].cells[0] = (1 << 20, CBuf(T, None, 3))
        for fn, contract, size, n in (('vp_ok_str', self.from_utf8, 24, 3), ('vp_ok_cstr', self.cstring_new, 32, 4)):
            for good in (1, 0):
                s = st.clone()
                out = ex.new_obj(s, size, 'result', 'stackish'); a = ex.new_obj(s, 8, 'a', 'stackish'); b = ex.new_obj(s, 8, 'b', 'stackish')
                t = Ptr(o, 0)
                if not good:
                    bad = ex.new_obj(s, None, 'text', 'view'); s.mem[bad].cells[0] = (1 << 20, CBuf(Str.lit(b'a\0\xff'), None, 3)); t = Ptr(bad, 0)
                class C: pass
                c = C(); c.ex, c.st, c.args, c.key = ex, s, [Ptr(out, 0), t, 3], fn
                c.assume = lambda x: None
                contract(c)
                for s1, r in ex.run(fn, [Ptr(out, 0), Ptr(a, 0), Ptr(b, 0)], s):
                    r = self.yes(ex, s1, r)
                    if r != bool(good): raise Undecided('the layout of %s is another' % fn)
                    if good:
                        q, m = ex.load(s1, Ptr(a, 0), 8), ex.load(s1, Ptr(b, 0), 8)
                        if not isinstance(q, Ptr) or q.obj is None or not isinstance(s1.mem[q.obj].cells[0][1], CBuf) or m != n: raise Undecided('the layout of %s is another' % fn)
        ex.cover('layouts')

    def event(self, ex, s, w, i, assoc, same=None):
        """the C interface tells event i; yields the states after it"""
        k = self.k
        _, _, _, cb, cx = w
        ev = ex.new_obj(s, k['c.size'], 'event view', 'stackish')
        E, EA = Str.sym(z3.Const('E%d' % i, STR)), Str.sym(z3.Const('EA%d' % i, STR))
        for t in (E, EA): s.pc.append(z3.ULT(tobv(t.length(), 64), bvv(TOP, 64)))
        p = ex.new_obj(s, None, 'path text', 'view'); s.mem[p].cells[0] = (1 << 20, CBuf(E, None))
        a = ex.new_obj(s, None, 'associated path text', 'view'); s.mem[a].cells[0] = (1 << 20, CBuf(EA, None))
        tm, et, pt = (z3.BitVec('E%d_%s' % (i, n), b) for n, b in (('time', 64), ('et', 8), ('pt', 8)))
        c = s.mem[ev].cells
        c[k['c.time']] = (8, tm); c[k['c.path']] = (8, Ptr(p, 0)); c[k['c.assoc']] = (8, Ptr(a, 0) if assoc else NULL); c[k['c.et']] = (1, et); c[k['c.pt']] = (1, pt)
        n0 = len(s.trace)
        for s1, _ in ex.run(cb.name, [Ptr(ev, 0), cx], s):
            ex.ob(s1, 'event: handed to the stream once', len([t for t in s1.trace[n0:] if t[0] == 'sent']) == 1, ('EV',))
            for o in (ev, p, a): ex.kill(s1, o)
            yield s1
    def next(self, ex, s, i, assoc):
        """the stream yields event i"""
        k = self.k
        v = ex.new_obj(s, k['view.size'], 'view', 'stackish')
        wk = Ptr(ex.new_obj(s, None, 'waiting task', 'view'), 0); s.ghost['sym:waker'] = wk
        E, EA = Str.sym(z3.Const('E%d' % i, STR)), Str.sym(z3.Const('EA%d' % i, STR))
        tm, et, pt = (z3.BitVec('E%d_%s' % (i, n), b) for n, b in (('time', 64), ('et', 8), ('pt', 8)))
        for s1, r in ex.run('vp_next', [self.w, wk, Ptr(v, 0)], s):
            ex.ob(s1, 'stream: yields the event that was told', ex.valid(s1, tobv(r, 8) == 2) if not isinstance(r, int) else r & 255 == 2, ('EV',))
            ld = lambda o, n: ex.load(s1, Ptr(v, o), n)
            ex.ob(s1, 'stream: the same time', tobv(ld(0, 8), 64) == tm, ('EV',), assume=False)
            self.textis(ex, s1, 'path', ld(8, 8), ld(16, 8), E)
            has = ld(24, 8)
            ex.ob(s1, 'stream: an associated path exactly when there is one', tobv(has, 64) == (1 if assoc else 0), ('EV',))
            if assoc: self.textis(ex, s1, 'associated path', ld(32, 8), ld(40, 8), EA)
            codes = k['codes']
            def mapped(c, cs):
                r = bvv(5, 8)
                for n, x in list(enumerate(cs))[::-1]: r = z3.If(c == x, bvv(n, 8), r)
                return r
            ex.ob(s1, 'stream: the effect its code names', tobv(ld(48, 1), 8) == mapped(et, codes[:6]), ('EV',), assume=False)
            ex.ob(s1, 'stream: the kind its code names', tobv(ld(49, 1), 8) == mapped(pt, codes[6:]), ('EV',), assume=False)
            if ex.feasible(s1, z3.UGT(et, 6)): ex.cover('event of unknown codes')
            ex.cover('event delivered with associated' if assoc else 'event delivered')
            s1.ghost.pop('sym:waker', None)
            yield s1
    def textis(self, ex, s, what, p, n, t):
        ok = s.ghost.get('sym:utf8', {}).get(repr(t))
        name = 'stream: the %s text (empty when it is not UTF-8)' % what
        ln = tobv(t.length(), 64)
        if ok is None:
            # nobody asked: then it may be told only when it is text for certain
            ex.ob(s, name, ex.valid(s, ln == 0) and ex.valid(s, tobv(n, 64) == 0), ('EV',), assume=False); return
        if not ok:
            ex.ob(s, name, tobv(n, 64) == 0, ('EV',), assume=False); ex.cover('event of a path that is not UTF-8'); return
        if isinstance(n, int) and n == 0 or isinstance(p, Ptr) and p.obj is None or isinstance(p, int):
            ex.ob(s, name, z3.And(tobv(n, 64) == 0, ln == 0), ('EV',), assume=False); ex.cover('event of an empty path'); return
        if not isinstance(p, Ptr): raise Undecided('text of the stream')
        ex.ob(s, name + ': length', tobv(n, 64) == ln, ('EV',), assume=True)
        if ex.valid(s, ln == 0): ex.cover('event of an empty path'); return
        o = ex.check_ptr(s, p, 1, 'read'); v = o.cells.get(p.off)
        if v is None or not isinstance(v[1], CBuf): raise Undecided('text of the stream')
        ex.ob(s, name, str_eq(ex, v[1].s, t), ('EV',), assume=False)

    def open(self, ex, s, w):
        # events from the moment of opening
        for d in self.during:
            for s1 in self.event(ex, d.clone(), [t for t in d.trace if t[0] == 'wopen'][-1], 0, 1): pass
        self.during = []
        pend = s.clone()
        wk = Ptr(ex.new_obj(pend, None, 'waiting task', 'view'), 0); pend.ghost['sym:waker'] = wk
        v = ex.new_obj(pend, self.k['view.size'], 'view', 'stackish')
        for s1, r in ex.run('vp_next', [self.w, wk, Ptr(v, 0)], pend):
            ex.ob(s1, 'stream: waits while there is no event', isinstance(r, int) and r & 255 == 0, ('EV',)); ex.cover('pending')
        for assoc in (0, 1):
            for s1 in self.event(ex, s.clone(), w, 1, assoc):
                for s2 in self.next(ex, s1.clone(), 1, assoc): pass
                if assoc: continue
                # a second event does not disturb the first
                for s2 in self.event(ex, s1, w, 2, 1):
                    for s3 in self.next(ex, s2.clone(), 1, 0):
                        for s4 in self.next(ex, s3, 2, 1): ex.cover('two events')
                    # whatever was not taken is let go when the watch is dropped
                    for s3, _ in ex.run('vp_drop', [self.w], s2): pass
        # close and drop, combined
        self.close(ex, s.clone(), w, 0)
        self.drop(ex, s.clone(), w)
    def evclosing(self, ex, w):
        cs, self.closing = self.closing, []
        for d in cs:
            for s1 in self.event(ex, d.clone(), w, 3, 1): ex.cover('event during closing')
    def close(self, ex, s, w, n):
        n0 = len(s.trace)
        for s1, r in ex.run('vp_close', [self.w], s):
            r = self.yes(ex, s1, r)
            cl = [t for t in s1.trace[n0:] if t[0] == 'wclose']
            self.evclosing(ex, w)
            if n == 0:
                ex.ob(s1, 'close: closes the watcher', len(cl) == 1 and cl[0][1] == w[1], ('CLOSE1',))
                ex.ob(s1, 'close: says whether the watcher stopped cleanly', r == bool(cl[0][2]), ('CLOSE1',), assume=False)
                ex.cover('closed cleanly' if cl[0][2] else 'closed badly')
                self.close(ex, s1.clone(), w, 1)
            else:
                ex.ob(s1, 'close: closing again is no success', not r and not cl, ('CLOSE1',), assume=False); ex.cover('closed again')
            self.drop(ex, s1, w)
    def drop(self, ex, s, w):
        was = any(t[0] == 'wclose' for t in s.trace)
        for s1, _ in ex.run('vp_drop', [self.w], s):
            self.evclosing(ex, w)
            cl = [t for t in s1.trace if t[0] == 'wclose']
            ex.ob(s1, 'drop: the watcher was closed once', len(cl) == 1 and cl[0][1] == w[1], ('CLOSE1',), assume=False)
            ex.ob(s1, 'drop: nothing is left', self.clean(s1), ('OWN', 'CLOSE1'), assume=False)
            ex.cover('dropped closed' if was else 'dropped open')

def key_of(t): return repr(t)
