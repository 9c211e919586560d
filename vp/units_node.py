"""The Node bridge (C16): every function of watcher-napi.cpp, over contracts of the Node runtime
(N-API) and of the C interface (C13)."""
from .unit import *
from .stdmodel import read_cstr, put_cstr, bufspace
from .units_api import EventUnit, ET, PT

OKAY = 0
HASNUL = z3.Function('holds a NUL', STR, z3.BoolSort())
def hasnul(ex, s): return HASNUL(s.term(ex))

class JsVal(Ghost):
    """a value of the script side"""
    __slots__ = ('kind', 'v')
    def __init__(self, kind, v=None): self.kind, self.v = kind, v
    def __repr__(self): return '%s(%s)' % (self.kind, self.v)

class Node(Unit):
    name = 'node'
    tu = 'node'
    both_trees = False
    tags = {'EV': ('C16',), 'OPEN': ('C16',), 'CLOSE1': ('C16',), 'MEM': ('C16',), 'OWN': ('C16',), 'ARITH': ('C16',)}
    covers = ('module', 'opened', 'open: wrong number of arguments', 'open: bad path', 'open: no watcher', 'event queued', 'event not queued', 'event delivered', 'event delivered with associated',
              'event drained', 'closed cleanly', 'closed badly', 'closed again', 'finalized after close', 'faults')
    needs = ()
    faulty = False       # in the second pass every call of the runtime may fail

    def overrides(self):
        o = {}
        for n in dir(self):
            if n.startswith('napi_') or n.startswith('wtr_'): o[n] = getattr(self, n)
        return o

    # ---------------------------------------------------------------- ghost state of the runtime
    def js(self, ex, st, kind, v=None):
        oid = ex.new_obj(st, None, 'script value', 'js'); st.mem[oid].cells[0] = (8, JsVal(kind, v))
        return Ptr(oid, 0)
    def val(self, st, h):
        if isinstance(h, Ptr) and h.obj in st.mem and h.off == 0:
            v = st.mem[h.obj].cells.get(0)
            if v is not None and isinstance(v[1], JsVal): return v[1]
        return None
    def handle(self, c, h, what):
        """a handle given to the runtime: it checks null itself, anything else must be a value of its own"""
        if isinstance(h, Undef): c.ex.mem_fault(c.st, 'uninitialised handle given to %s' % what)
        if isinstance(h, (Junk, Lazy)): raise Undecided('handle')
        if isinstance(h, int): h = Ptr(None, h)
        if h.null: return None
        v = self.val(c.st, h)
        if v is None: c.ex.mem_fault(c.st, 'something that is not a script value given to %s' % what)
        return v
    def fails(self, c):
        """may this call fail? a status when it does"""
        if not self.faulty: return None
        if c.branch_free if hasattr(c, 'branch_free') else c.choose(2): return self.bad(c)
        return None
    def bad(self, c):
        r = c.ex.fresh('napi_status', 32); c.assume(z3.And(r > 0, r < 24)); return r
    def give(self, c, out, kind, v=None):
        """a call that makes a value: with faults, its outcome is left open (a handle the runtime will
        check again, and any status), since only the runtime looks at it"""
        ex, st = c.ex, c.st
        if self.faulty:
            r = ex.fresh('napi_status', 32); c.assume(z3.And(r >= 0, r < 24))
            ex.store(st, out, 8, self.js(ex, st, 'any'))
            return r
        ex.store(st, out, 8, self.js(ex, st, kind, v)); return OKAY
    def text(self, c, p, n):
        if n not in ((1 << 64) - 1,): raise Undecided('text of a given length')
        if isinstance(p, Ptr) and p.null: return None
        return read_cstr(c, p)

    def napi_create_object(self, c): return self.give(c, c.args[1], 'object')
    def napi_get_null(self, c): return self.give(c, c.args[1], 'null')
    def napi_get_undefined(self, c): return self.give(c, c.args[1], 'undefined')
    def napi_get_global(self, c): return self.give(c, c.args[1], 'global')
    def napi_create_int64(self, c): return self.give(c, c.args[2], 'number', tobv(c.args[1], 64))
    def napi_create_int32(self, c): return self.give(c, c.args[2], 'number', simp(z3.SignExt(32, tobv(c.args[1], 32))))
    def napi_create_uint32(self, c): return self.give(c, c.args[2], 'number', simp(z3.ZeroExt(32, tobv(c.args[1], 32))))
    def napi_get_boolean(self, c): return self.give_bool(c)
    def give_bool(self, c):
        b = c.args[1]
        b = (b & 1) != 0 if isinstance(b, int) else tobool(b)
        return self.give(c, c.args[2], 'bool', b) if not self.faulty else self.keep_bool(c, b)
    def keep_bool(self, c, b):
        c.ex.store(c.st, c.args[2], 8, self.js(c.ex, c.st, 'bool', b)); return OKAY
    def napi_create_string_utf8(self, c):
        s = self.text(c, c.args[1], c.args[2])
        if s is None: return self.bad(c)
        return self.give(c, c.args[3], 'string', s)
    def napi_set_named_property(self, c):
        ex, st = c.ex, c.st
        o, v = self.handle(c, c.args[1], c.name), self.handle(c, c.args[3], c.name)
        key = read_cstr(c, c.args[2]).literal
        if o is None or v is None: return self.bad(c)
        if key is None: raise Undecided('property of an unknown name')
        if self.faulty and v.kind != 'function':
            r = ex.fresh('napi_status', 32); c.assume(z3.And(r >= 0, r < 24)); return r
        st.trace.append(('setprop', c.args[1].obj, key.decode(), v))
        return OKAY
    def napi_call_function(self, c):
        ex, st = c.ex, c.st
        f = self.handle(c, c.args[2], c.name); self.handle(c, c.args[1], c.name)
        argc = c.args[3]
        if not isinstance(argc, int): raise Undecided('argument count')
        args = []
        for i in range(argc):
            h = ex.load(st, ex.padd(c.args[4], 8 * i), 8); args.append((h, self.handle(c, h, c.name)))
        if f is None or self.faulty:
            return self.bad(c) if f is None else self.give(c, c.args[5], 'any') if isinstance(c.args[5], Ptr) and not c.args[5].null else self.bad(c)
        st.trace.append(('call', f, args))
        if isinstance(c.args[5], Ptr) and not c.args[5].null: ex.store(st, c.args[5], 8, self.js(ex, st, 'any'))
        return OKAY
    def napi_get_cb_info(self, c):
        ex, st = c.ex, c.st
        env, info, pargc, pargv, pthis, pdata = c.args
        args, data = st.ghost['sym:cbinfo']
        nz = lambda p: isinstance(p, Ptr) and not p.null
        if nz(pargc):
            n = ex.load(st, pargc, 8)
            if not isinstance(n, int): raise Undecided('room for arguments')
            if nz(pargv):
                for i in range(n): ex.store(st, ex.padd(pargv, 8 * i), 8, args[i] if i < len(args) else self.js(ex, st, 'undefined'))
            ex.store(st, pargc, 8, len(args))
        if nz(pthis): ex.store(st, pthis, 8, self.js(ex, st, 'any'))
        if nz(pdata): ex.store(st, pdata, 8, data)
        ex.assumptions.add('the Node runtime calls native functions with a valid environment and call information')
        return OKAY
    def napi_throw_error(self, c): c.st.trace.append(('throw',)); return OKAY
    napi_throw_type_error = napi_throw_range_error = napi_throw_error
    def napi_typeof(self, c):
        v = self.handle(c, c.args[1], c.name)
        r = c.ex.fresh('napi_valuetype', 32)
        if v is not None and v.kind in ('string', 'function'): r = {'string': 4, 'function': 7}[v.kind]
        c.ex.store(c.st, c.args[2], 4, r); return OKAY
    def napi_get_value_string_utf8(self, c):
        ex, st = c.ex, c.st
        v = self.handle(c, c.args[1], c.name)
        buf, size, out = c.args[2], c.args[3], c.args[4]
        if v is None or v.kind != 'string': return self.bad(c)
        f = self.fails(c)
        if f is not None: return f
        n = tobv(v.v.length(), 64)
        if not isinstance(buf, Ptr) or buf.null:
            ex.store(st, out, 8, simp(n)); return OKAY
        if not isinstance(size, int): raise Undecided('room for text')
        ex.check_ptr(st, buf, size, 'write')
        ex.wipe(st, buf, size)
        fits = c.branch(z3.ULT(n, bvv(size, 64)))
        if fits and c.branch(hasnul(ex, v.v)):
            # read as a C text, it ends at its first NUL
            t = ex.fresh('cut', 'str')
            st.pc.append(t != v.v.term(ex)); st.pc.append(z3.ULT(tobv(Str.sym(t).length(), 64), n))
            st.wobj(buf.obj).cells[buf.off] = (size, CBuf(Str.sym(t), size)); k = n
        elif fits:
            st.wobj(buf.obj).cells[buf.off] = (size, CBuf(v.v, size)); k = n
        else:
            t = ex.fresh('cut', 'str')
            st.pc.append(t != v.v.term(ex)); st.pc.append(tobv(Str.sym(t).length(), 64) == size - 1)
            st.wobj(buf.obj).cells[buf.off] = (size, CBuf(Str.sym(t), size)); k = bvv(size - 1, 64)
        if isinstance(out, Ptr) and not out.null: ex.store(st, out, 8, simp(k))
        return OKAY
    # ---- resources
    def res(self, st): return st.ghost.get('sym:res', ())
    def acquire(self, c, kind, out, info):
        ex, st = c.ex, c.st
        oid = ex.new_obj(st, None, kind, 'res'); st.mem[oid].cells[0] = (8, JsVal(kind, info))
        st.ghost['sym:res'] = self.res(st) + ((kind, oid),)
        ex.store(st, out, 8, Ptr(oid, 0))
        return OKAY
    def resource(self, c, h, kind):
        if isinstance(h, Undef): c.ex.mem_fault(c.st, 'use of a %s that was never made' % kind)
        if isinstance(h, int): h = Ptr(None, h)
        if not isinstance(h, Ptr): raise Undecided(kind)
        if h.null: return None
        if (kind, h.obj) not in self.res(c.st): c.ex.mem_fault(c.st, 'use of a %s that is not open' % kind)
        return c.st.mem[h.obj].cells[0][1].v
    def napi_create_reference(self, c):
        self.handle(c, c.args[1], c.name)
        f = self.fails(c)
        if f is not None: return f
        return self.acquire(c, 'reference', c.args[3], self.val(c.st, c.args[1]))
    def napi_delete_reference(self, c):
        if self.resource(c, c.args[1], 'reference') is None: return self.bad(c)
        c.st.ghost['sym:res'] = tuple(x for x in self.res(c.st) if x != ('reference', c.args[1].obj))
        c.st.trace.append(('delref',)); return OKAY
    def napi_create_threadsafe_function(self, c):
        ex, st = c.ex, c.st
        env, func, resource, name, qsize, threads, fdata, fcb, context, call_js, out = c.args
        fv = self.handle(c, func, c.name); self.handle(c, name, c.name)
        f = self.fails(c)
        if f is not None: return f
        ex.ob(st, 'open: the queue to the script side has room and one owner', z3.And(tobv(threads, 64) == 1), ('OPEN',), assume=False)
        if not (isinstance(fcb, Ptr) and fcb.null): raise Undecided('finalizer of the queue')
        return self.acquire(c, 'queue', out, (fv, context, call_js))
    def napi_release_threadsafe_function(self, c):
        if self.resource(c, c.args[0], 'queue') is None: return self.bad(c)
        c.st.ghost['sym:res'] = tuple(x for x in self.res(c.st) if x != ('queue', c.args[0].obj))
        c.st.trace.append(('release',)); return OKAY
    def napi_call_threadsafe_function(self, c):
        ex, st = c.ex, c.st
        q = self.resource(c, c.args[0], 'queue')
        if q is None: return self.bad(c)
        if c.choose(2) == 0:
            st.trace.append(('queued', q, c.args[1], c.args[2])); ex.cover('event queued'); return OKAY
        st.trace.append(('unqueued', c.args[1])); ex.cover('event not queued')
        return self.bad(c)
    napi_acquire_threadsafe_function = napi_unref_threadsafe_function = napi_ref_threadsafe_function = lambda self, c: (_ for _ in ()).throw(Undecided('share of a queue'))
    def napi_create_function(self, c):
        ex, st = c.ex, c.st
        if not isinstance(c.args[3], FuncP): raise Undecided('native function')
        if self.faulty and c.choose(2): return self.bad(c)
        ex.store(st, c.args[5], 8, self.js(ex, st, 'function', (c.args[3].name, c.args[4])))
        return OKAY
    def fin(self, c, h, data, cb, hint):
        self.handle(c, h, c.name)
        if self.val(c.st, h) is None: return self.bad(c)
        f = self.fails(c)
        if f is not None: return f
        if isinstance(cb, FuncP): c.st.ghost['sym:fin'] = c.st.ghost.get('sym:fin', ()) + ((cb.name, data, hint),)
        return OKAY
    def napi_add_finalizer(self, c): return self.fin(c, c.args[1], c.args[2], c.args[3], c.args[4])
    def napi_wrap(self, c): return self.fin(c, c.args[1], c.args[2], c.args[3], c.args[4])
    # ---- the C interface (C13)
    def wtr_watcher_open(self, c):
        ex, st = c.ex, c.st
        path = read_cstr(c, c.args[0])
        # nothing of the path is kept by the caller's buffer; events may come from now on
        if not isinstance(c.args[1], FuncP): raise Undecided('callback given to the watcher')
        if c.choose(2):
            st.trace.append(('wopen', None, path, c.args[1], c.args[2])); return NULL
        oid = ex.new_obj(st, None, 'watcher', 'res')
        st.ghost['sym:res'] = self.res(st) + (('watcher', oid),)
        st.trace.append(('wopen', oid, path, c.args[1], c.args[2]))
        self.during.append(st.clone())
        return Ptr(oid, 0)
    def wtr_watcher_close(self, c):
        ex, st = c.ex, c.st
        h = c.args[0]
        if isinstance(h, Undef): ex.mem_fault(st, 'closing a watcher that was never opened')
        if isinstance(h, int): h = Ptr(None, h)
        if h.null: st.trace.append(('wclose', None, 0)); return 0
        if ('watcher', h.obj) not in self.res(st): ex.mem_fault(st, 'closing a watcher that is not open')
        # events may come until it is closed: what they need has to be there
        cx = st.ghost.get('sym:cx')
        if cx is not None and cx.obj not in st.mem: ex.mem_fault(st, 'what events need is released before the watcher is closed')
        q = [t for t in st.trace if t[0] == 'release']
        ex.ob(st, 'close: the queue to the script side stays until the watcher is closed', len(q) == st.ghost.get('sym:rel0', 0), ('CLOSE1',))
        r = c.choose(2)
        if r: st.ghost['sym:res'] = tuple(x for x in self.res(st) if x != ('watcher', h.obj))
        st.trace.append(('wclose', h.obj, r))
        return r

    # ---------------------------------------------------------------- running
    def enter(self, ex, st, fn, args, data=NULL):
        """the runtime calls a native function"""
        st.ghost['sym:cbinfo'] = (tuple(args), data)
        return ex.run(fn, [self.env, Ptr(self.info, 0)], st)
    def owned(self, st, base): return [o for o, v in st.mem.items() if o not in base and v.kind in ('heap', 'malloc')]
    def entry(self, ex):
        n = [n for n in self.mod.funcs if split_name(self.mod.dem.get(n, n))[0] == 'mod_init']
        if not n:
            # the function the runtime's registration is given
            n = [n for n in self.mod.funcs if n == 'napi_register_module_v1']
        if not n: raise tree.Broken('module initialisation not found')
        return n[0]

    def main(self, ex):
        self.ex = ex
        for self.faulty in (False, True): self.one(ex)

    def one(self, ex):
        st = ex.base.clone()
        self.env = Ptr(ex.new_obj(st, None, 'environment', 'res'), 0); self.info = ex.new_obj(st, None, 'call information', 'res')
        exports = self.js(ex, st, 'object')
        native = None
        for s, r in ex.run(self.entry(ex), [self.env, exports], st.clone()):
            sp = [t for t in s.trace if t[0] == 'setprop' and t[1] == exports.obj]
            if self.faulty and not sp: continue
            ex.ob(s, 'module: offers watch, and nothing else', len(sp) == 1 and sp[0][2] == 'watch' and sp[0][3].kind == 'function', ('OPEN',))
            ex.ob(s, 'module: hands back its exports', isinstance(r, Ptr) and r.obj == exports.obj, ('OPEN',), assume=False)
            native = sp[0][3].v
            ex.cover('module')
        if native is None: raise Undecided('watch is not offered')
        for n in (0, 1, 3):
            s0 = st.clone()
            args = [self.js(ex, s0, 'any') for _ in range(n)]; base = set(s0.mem)
            self.during = []
            for s, r in self.enter(ex, s0, native[0], args, native[1]): self.refused(ex, s, r, base); ex.cover('open: wrong number of arguments')
        # a path that is no text, one of any length
        for kind in ('any', 'string'):
            s0 = st.clone()
            P = Str.sym(z3.Const('P', STR))
            cb = self.js(ex, s0, 'function', 'the script callback')
            args = [self.js(ex, s0, kind, P if kind == 'string' else None), cb]
            base = set(s0.mem)
            self.during = []
            for s, r in self.enter(ex, s0, native[0], args, native[1]):
                w = [t for t in s.trace if t[0] == 'wopen']
                if not any(t[1] is not None for t in w):
                    if w: self.refused(ex, s, r, base, opened=True); ex.cover('open: no watcher')
                    else:
                        self.refused(ex, s, r, base); ex.cover('open: bad path')
                        # only what is not a path may be refused
                        if kind == 'string' and not self.faulty: ex.ob(s, 'open: only a path too long for the system, or with a NUL, is refused', z3.Or(z3.UGE(tobv(P.length(), 64), bvv(4096, 64)), hasnul(ex, P)), ('OPEN',), assume=False)
                    continue
                ex.ob(s, 'open: one watcher', len(w) == 1, ('OPEN',))
                if kind != 'string':
                    ex.ob(s, 'open: only a text is a path', False, ('OPEN',), assume=False); continue
                ex.ob(s, 'open: on exactly the given path', str_eq(ex, w[0][2], P), ('OPEN',), assume=False)
                self.opened(ex, s, r, w[0], cb, base)

    def refused(self, ex, s, r, base, opened=False):
        ex.ob(s, 'open: a refusal opens nothing', opened or not any(t[0] == 'wopen' for t in s.trace), ('OPEN',), assume=False)
        ex.ob(s, 'open: a refusal is told', any(t[0] == 'throw' for t in s.trace) and isinstance(r, Ptr) and r.null, ('OPEN',), assume=False)
        ex.ob(s, 'open: a refusal leaves nothing behind', not self.owned(s, base) and not self.res(s), ('OWN', 'OPEN'), assume=False)
        if self.faulty: ex.cover('faults')

    def opened(self, ex, s, r, w, cb, base):
        _, wid, path, bridge, cx = w
        if self.faulty: ex.cover('faults')
        # close is offered on what is returned
        sp = [t for t in s.trace if t[0] == 'setprop' and isinstance(r, Ptr) and t[1] == r.obj and t[2] == 'close']
        if not self.faulty: ex.ob(s, 'open: returns something with close', len(sp) == 1 and sp[0][3].kind == 'function', ('OPEN',))
        q = [x for x in self.res(s) if x[0] == 'queue']
        if not self.faulty:
            ex.ob(s, 'open: one queue to the script side', len(q) == 1, ('OPEN',))
            fv = s.mem[q[0][1]].cells[0][1].v
            ex.ob(s, 'open: the queue calls the given callback', fv[0] is not None and fv[0].kind == 'function' and fv[0].v == 'the script callback', ('OPEN',))
            ex.cover('opened')
        # events: from the moment of opening
        for s1 in [d for d in self.during] + [s]:
            _, _, _, bridge1, cx1 = [t for t in s1.trace if t[0] == 'wopen'][-1]
            for assoc in (0, 1): self.event(ex, s1.clone(), bridge1, cx1, base, assoc)
        self.during = []
        if sp: self.closing(ex, s, sp[0][3], w, base)

    def event(self, ex, s, bridge, cx, base, assoc):
        k = self.k
        ev = ex.new_obj(s, k['c.size'], 'event view', 'stackish')
        p = ex.new_obj(s, None, 'path text', 'view'); s.mem[p].cells[0] = (1 << 20, CBuf(Str.sym(z3.Const('E', STR)), None))
        a = ex.new_obj(s, None, 'associated path text', 'view'); s.mem[a].cells[0] = (1 << 20, CBuf(Str.sym(z3.Const('EA', STR)), None))
        tm, et, pt = z3.BitVec('E_time', 64), z3.BitVec('E_et', 8), z3.BitVec('E_pt', 8)
        cells = s.mem[ev].cells
        cells[k['c.time']] = (8, tm); cells[k['c.path']] = (8, Ptr(p, 0)); cells[k['c.assoc']] = (8, Ptr(a, 0) if assoc else NULL); cells[k['c.et']] = (1, et); cells[k['c.pt']] = (1, pt)
        before = set(self.owned(s, base)); n0 = len(s.trace)
        for s1, _ in ex.run(bridge.name, [Ptr(ev, 0), cx], s):
            seg = s1.trace[n0:]
            tries = [t for t in seg if t[0] in ('queued', 'unqueued')]
            noqueue = not any(x[0] == 'queue' for x in self.res(s1))
            ex.ob(s1, 'event: handed to the script side once', len(tries) == 1 or (noqueue and not tries), ('EV',))
            for o in (ev, p, a): ex.kill(s1, o)      # the view is over
            if not tries or tries[0][0] == 'unqueued':
                ex.ob(s1, 'event: what cannot be queued is released', set(self.owned(s1, base)) == before, ('EV', 'OWN'), assume=False); continue
            _, q, data, mode = tries[0]
            ex.ob(s1, 'event: the watching thread does not wait for the script side', mode == 0, ('EV',), assume=False)
            if not isinstance(q[2], FuncP):
                ex.ob(s1, 'event: the queue has a receiver', False, ('EV',), assume=False); continue
            # the script side takes it, or the queue is torn down with the event in it (no environment then)
            for drained in (0, 1):
                s2 = s1.clone(); n1 = len(s2.trace)
                env, f = (NULL, NULL) if drained else (self.env, self.js(ex, s2, 'function', 'the script callback'))
                if drained and not self.faulty: continue
                for s3, _ in ex.run(q[2].name, [env, f, q[1], data], s2):
                    ex.ob(s3, 'event: its copy is released once', set(self.owned(s3, base)) == before, ('EV', 'OWN'), assume=False)
                    if drained: ex.cover('event drained')
                    if self.faulty: continue
                    calls = [t for t in s3.trace[n1:] if t[0] == 'call']
                    ex.ob(s3, 'event: the script callback is called once with one event', len(calls) == 1 and calls[0][1].v == 'the script callback' and len(calls[0][2]) == 1 and calls[0][2][0][1] is not None and calls[0][2][0][1].kind == 'object', ('EV',))
                    oid = calls[0][2][0][0].obj
                    props = {}
                    for t in s3.trace[n1:]:
                        if t[0] == 'setprop' and t[1] == oid: props[t[2]] = t[3]
                    ex.ob(s3, 'event: has the five properties', set(props) == {'effectTime', 'pathName', 'associatedPathName', 'effectType', 'pathType'}, ('EV',))
                    num = lambda n, v, what: ex.ob(s3, 'event: the same %s' % what, props[n].kind == 'number' and props[n].v == v, ('EV',), assume=False)
                    num('effectTime', tm, 'time'); num('effectType', z3.SignExt(56, et), 'effect code'); num('pathType', z3.SignExt(56, pt), 'path kind code')
                    ex.ob(s3, 'event: the same path', props['pathName'].kind == 'string' and str_eq(ex, props['pathName'].v, Str.sym(z3.Const('E', STR))), ('EV',), assume=False)
                    pa = props['associatedPathName']
                    if assoc: ex.ob(s3, 'event: the same associated path', pa.kind == 'string' and str_eq(ex, pa.v, Str.sym(z3.Const('EA', STR))), ('EV',), assume=False)
                    else: ex.ob(s3, 'event: null when there is no associated path', pa.kind == 'null', ('EV',), assume=False)
                    ex.cover('event delivered with associated' if assoc else 'event delivered')

    def closing(self, ex, s, func, w, base):
        wid, cx = w[1], w[4]
        fn, data = func.v
        s = s.clone(); s.ghost['sym:cx'] = cx
        res0 = self.res(s)
        s.ghost['sym:rel0'] = sum(t[0] == 'release' for t in s.trace)
        n0 = len(s.trace)
        # nobody can call close anymore, and the watcher is open: what events need stays
        for name, d, hint in s.ghost.get('sym:fin', ()):
            for s1, _ in ex.run(name, [self.env, d, hint], s.clone()):
                ex.ob(s1, 'finalizer: an open watcher keeps what its events need', cx.obj in s1.mem and ('watcher', wid) in self.res(s1), ('CLOSE1', 'OWN'), assume=False)
        for s1, r in self.enter(ex, s.clone(), fn, [], data):
            seg = s1.trace[n0:]
            cl = [t for t in seg if t[0] == 'wclose']
            ex.ob(s1, 'close: the watcher is closed once', len(cl) == 1 and cl[0][1] == wid, ('CLOSE1',))
            self.result(ex, s1, r, z3.BoolVal(bool(cl[0][2])) if not self.faulty else None, cl[0][2])
            left = [x for x in self.res(s1) if x[0] != 'watcher']
            ex.ob(s1, 'close: the callback resources are released once', not left, ('CLOSE1', 'OWN'), assume=False)
            ex.cover('closed cleanly' if cl[0][2] else 'closed badly')
            n1 = len(s1.trace)
            for s2, r2 in self.enter(ex, s1.clone(), fn, [], data):
                ex.ob(s2, 'close: closing again does nothing and says false', not [t for t in s2.trace[n1:] if t[0] in ('wclose', 'release', 'delref')], ('CLOSE1',), assume=False)
                self.result(ex, s2, r2, z3.BoolVal(False), 0)
                ex.cover('closed again')
                if self.faulty: continue
                self.finals(ex, s2, base)
            if not self.faulty: self.finals(ex, s1, base)
    def finals(self, ex, s, base):
        todo = [s.clone()]
        for name, d, hint in s.ghost.get('sym:fin', ()):
            nxt = []
            for s1 in todo:
                for s2, _ in ex.run(name, [self.env, d, hint], s1): nxt.append(s2)
            todo = nxt
        for s1 in todo:
            ex.ob(s1, 'close: nothing is left in the end', not self.owned(s1, base), ('OWN', 'CLOSE1'), assume=False); ex.cover('finalized after close')
    def result(self, ex, s, r, want, got):
        v = self.val(s, r) if isinstance(r, Ptr) else None
        ok = v is not None and v.kind == 'bool'
        ex.ob(s, 'close: answers true or false', ok, ('CLOSE1',))
        b = v.v if z3.is_expr(v.v) else z3.BoolVal(bool(v.v))
        if want is not None: ex.ob(s, 'close: says whether the watcher stopped cleanly', b == want, ('CLOSE1',), assume=False)
        else: ex.ob(s, 'close: never says true when the watcher did not stop cleanly', z3.Implies(b, z3.BoolVal(bool(got))), ('CLOSE1',), assume=False)
