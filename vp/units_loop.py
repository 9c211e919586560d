"""adapter::watch with platform_watch, both make_sysres, make_ep, do_mark and send_msg
inlined; walkdir_do and the two do_ev_recv by contract."""
from .unit import *
from .units_life import entry_names
from .oscontracts import fds
from .loops import same, LoopPlan, isint

NS = 'detail::wtr::watcher::adapter::'
IN_REQ = 0x100 | 0x200 | 0x400 | 0x2 | 0x800 | 0x40 | 0x80
FA_REQ = 0x40000000 | 0x100 | 0x2 | 0x40 | 0x80 | 0x200 | 0x08000000
ERR = {'inotify': b'e/sys/api/inotify@', 'fanotify': b'e/sys/api/fanotify@', 'epoll': b'e/sys/api/epoll@'}

def is_warning(k, e): return z3.And(tobv(e.et, 32) == k['et.other'], tobv(e.pt, 32) == k['pt.watcher'])

def closure_type(c, n=-1):
    return re.sub(r'\s*(const)?\s*&{0,2}$', '', c.params[n])

def diff_states(a, b):
    """cells and ghosts that differ between two states, over a's objects"""
    out = []
    for oid, ao in a.mem.items():
        bo = b.mem.get(oid)
        if bo is ao: continue
        if bo is None: out.append(('dead', oid, 0)); continue
        for k in set(ao.cells) | set(bo.cells):
            x, y = ao.cells.get(k), bo.cells.get(k)
            if x is not None and y is not None and x[0] == y[0] and same(x[1], y[1]): continue
            out.append(('cell', oid, k))
        ar = {r.lo: r for r in ao.regions}; br = {r.lo: r for r in bo.regions}
        for lo in set(ar) ^ set(br): out.append(('region', oid, lo))
        for lo in set(ar) & set(br):
            if ar[lo].arr is not br[lo].arr and not (ar[lo].arr is not None and br[lo].arr is not None and ar[lo].arr.eq(br[lo].arr)): out.append(('region', oid, lo))
    return out

def visit_dir(unit, c, op, fptr, path, havoc, tag):
    """run the visitor once on `path`, in a state where everything it may have changed
    before is arbitrary; returns the states afterwards"""
    raise NotImplementedError

class MarkSpec:
    """what one visit of a directory must do (do_mark)"""
    def check_visit(self, ex, st, i0, path, kind, dmobj=None, tags=('WALK',), upto=None):
        """`path` was offered to the kernel at trace[i0:]"""
        k = self.k
        seg = st.trace[i0:upto]
        reals = [t for t in seg if t[0] == 'realpath']
        marks = [t for t in seg if t[0] in ('add_watch', 'fa_mark')]
        cbs = [t[1] for t in seg if t[0] == 'cb']
        good = [t for t in marks if t[4] is not None]
        ex.ob(st, 'walk: a directory is offered to the kernel at most once', len(marks) <= 1, tags, assume=False)
        rok = [t for t in reals if t[2] is not None]
        stats = [t for t in seg if t[0] in ('stat', 'lstat')]
        isdirs = []
        for t in stats:
            isdirs.append(z3.BoolVal(False) if t[2] is None else (tobv(t[2], 32) & 0xF000) == 0x4000)
        if reals:
            ex.ob(st, 'walk: the resolved directory is the one given', z3.And(*[str_eq(ex, t[1], path) for t in reals]), tags, assume=False)
        if marks:
            m = marks[0]
            ex.ob(st, 'walk: what is marked is the resolved directory', bool(rok) and ex.valid(st, str_eq(ex, m[2], rok[-1][2])), tags, assume=False)
            ex.ob(st, 'walk: only a directory is marked', z3.And(z3.BoolVal(bool(isdirs)), *isdirs), tags, assume=False)
        else:
            ex.ob(st, 'walk: a directory that resolves is offered to the kernel', z3.Not(z3.And(z3.BoolVal(bool(rok)), *isdirs)), tags, assume=False)
        if good:
            ex.cover('directory marked')
            ex.ob(st, 'walk: no message for a directory that is watched', not cbs, tags + ('WARN',), assume=False)
        else:
            ex.cover('directory not marked')
            okc = len(cbs) == 1
            ex.ob(st, 'walk: exactly one warning for a directory that cannot be watched', okc, tags + ('WARN',), assume=False)
            if okc:
                ex.ob(st, 'walk: the warning is w/sys/not_watched@ plus the directory', z3.And(is_warning(k, cbs[0]), str_eq(ex, cbs[0].path, Str.lit(b'w/sys/not_watched@') + path)), ('WARN',), assume=False)
        return good[0] if good else None

    def check_dm(self, ex, st, before, after, mark):
        """the path map records the new descriptor, and nothing else changed"""
        if mark is not None and mark[0] == 'add_watch':
            wd, real = mark[4], rstr(mark[2])
            h, p = map_at(ex, after, wd)
            h0, p0 = map_at(ex, before, wd)
            ex.ob(st, 'walk: a watched directory is recorded under its descriptor', z3.And(h, z3.Or(h0, p == real.term(ex))), ('WALK', 'DM'), assume=False)
            other = ex.fresh('other', 32)
            h2, p2 = map_at(ex, after, other); h1, p1 = map_at(ex, before, other)
            ex.ob(st, 'walk: no other recorded directory is touched', z3.Implies(other != tobv(wd, 32), z3.And(h1 == h2, z3.Implies(h1, p1 == p2))), ('WALK', 'DM'), assume=False)
        else:
            other = ex.fresh('other', 32)
            h2, p2 = map_at(ex, after, other); h1, p1 = map_at(ex, before, other)
            ex.ob(st, 'walk: no recorded directory is touched without a new watch', z3.And(h1 == h2, z3.Implies(h1, p1 == p2)), ('WALK', 'DM'), assume=False)

def rstr(s): return s

def map_at(ex, m, key):
    """(has, path) of a map value as terms"""
    from .stdmodel import map_has, map_path
    k = tobv(key, 32)
    if m.base == 'empty': h, p = z3.BoolVal(False), ex.lit(b'')
    else: h, p = map_has(m.base)(k), map_path(m.base)(k)
    for u in m.ups:
        if u[0] == 'put':
            e = k == tobv(u[1], 32)
            h = z3.Or(e, h); p = z3.If(e, u[2].term(ex), p)
        elif u[0] == 'del':
            e = k == tobv(u[1], 32)
            h = z3.And(z3.Not(e), h)
        elif u[0] == 'delset':
            h = z3.And(z3.Not(u[1](k)), h)
    return h, p

class EvLoopPlan(LoopPlan):
    """the result is tied to what happened: nothing, a stop, or which failure"""
    def head(self, ex, st):
        if st.ghost.get('fatal') == 'recv':
            k = self.unit.k
            e = ex.fresh('err', k['r.size'] * 8)
            st.ghost['sym:err'] = e
            st.pc.append(z3.And(z3.UGT(e, k['r.complete']), z3.ULT(e, 64), e != k['r.fanotify']))
    def candidates(self, ex, cut):
        k = self.unit.k
        w = k['r.size'] * 8
        out = []
        for c in cut.cells.values():
            if c.kind == 'map':
                def ne(st, c=c):
                    if st.ghost.get('waited'): return None
                    m = cut.cellval(st, c)
                    return nonempty(m) if isinstance(m, MapVal) else None
                out.append((('nonempty', c.oid, c.off), ne))
            if c.kind != 'int' or c.size != k['r.size']: continue
            def when(sit, f, c=c):
                def fn(st):
                    if (st.ghost.get('fatal'), st.ghost.get('stopped')) != sit: return None
                    v = cut.cellval(st, c)
                    return None if v is None or not isint(v) else f(tobv(v, w), st)
                return fn
            for fatal in (None, 'epoll', 'recv'):
                for stopped in (None, 1):
                    sit = (fatal, stopped)
                    for n in range(24): out.append((('res', c.oid, c.off, sit, n), when(sit, lambda v, st, n=n: v == n)))
                    out.append((('res', c.oid, c.off, sit, '<'), when(sit, lambda v, st: z3.ULT(v, k['r.complete']))))
                    out.append((('res', c.oid, c.off, sit, '>'), when(sit, lambda v, st: z3.UGT(v, k['r.complete']))))
                    if fatal == 'recv': out.append((('res', c.oid, c.off, sit, 'err'), when(sit, lambda v, st: v == tobv(st.ghost['sym:err'], w) if 'sym:err' in st.ghost else None)))
        return out

class Loop(Unit, MarkSpec):
    name = 'loop'
    tu = 'core'
    tags = {'WAIT': ('C03',), 'FATAL': ('C09',), 'CLOSE': ('C10',), 'MEM': ('C03', 'C10'), 'STOP': ('C03',), 'RECORDS': ('C05',),
            'BACKEND': ('C08',), 'ERR': ('C09',), 'WARN': ('C09',), 'WALK': ('C07',), 'DM': ('C07',), 'RET': ('C01', 'C02', 'C09'),
            'ENDS': ('C03', 'C09')}
    covers = ('fanotify run', 'inotify run', 'inotify first', 'inotify after fanotify', 'stopped', 'fatal: epoll', 'fatal: recv', 'setup failed', 'epoll_wait',
              'walk inotify', 'walk fanotify', 'directory marked', 'directory not marked', 'stop and events together')
    needs = ('adapter::watch', 'platform_watch', 'inotify::make_sysres', 'fanotify::make_sysres', 'make_ep', 'do_mark', 'send_msg', 'to_str', 'is_dir')

    def overrides(self):
        o = {}
        ns = entry_names(self.mod, NS + 'walkdir_do')
        if not ns: raise tree.Broken('walkdir_do not found')
        for n in ns: o[n] = self.walk
        for kind in ('inotify', 'fanotify'):
            ns = entry_names(self.mod, NS + kind + '::do_ev_recv')
            if not ns: raise tree.Broken('%s::do_ev_recv not found' % kind)
            for n in ns: o[n] = (lambda c, kind=kind: self.recv(c, kind))
        return o

    joins = ('inotify_init', 'inotify_init1')
    join_skip = ('sysfail', 'sym:err', 'sym:euid', 'fatal', 'walked', 'waited')
    def stop_fd(self, st): return st.ghost['sym:il']
    def pc0(self, st): return list(st.ghost['sym:pc0'])
    def on_join(self, ex, st, key):
        """inotify is about to be started"""
        tr = st.trace
        ex.ob(st, 'backend: none is started twice', not any(t[0] in ('joined', 'inotify_init') for t in tr), ('BACKEND',), assume=False)
        f_init = [t for t in tr if t[0] == 'fanotify_init']
        eu = st.ghost.get('sym:euid')
        ex.ob(st, 'backend: the privilege is looked at', eu is not None, ('BACKEND',), assume=False)
        root = (eu == 0) if eu is not None else z3.BoolVal(False)
        ex.ob(st, 'backend: fanotify is tried exactly by the superuser', root == bool(f_init), ('BACKEND',), assume=False)
        ex.ob(st, 'backend: none is started twice', len(f_init) <= 1, ('BACKEND',), assume=False)
        f_un = bool(f_init) and f_init[0][1] is None
        ex.ob(st, 'backend: inotify runs exactly when fanotify does not', z3.Or(z3.Not(root), z3.BoolVal(f_un)), ('BACKEND',), assume=False)
        ex.ob(st, 'descriptors: everything opened is closed, the stop request is not', not fds(st), ('CLOSE',))
        ex.ob(st, 'errors: no message about a backend that is given up', not any(t[0] == 'cb' for t in tr), ('ERR',), assume=False)
        ex.cover('inotify after fanotify' if f_init else 'inotify first')

    def on_mark(self, c, kind, fd, path, mask, flags=None):
        ex, st = c.ex, c.st
        req = IN_REQ if kind == 'inotify' else FA_REQ
        w = 32 if kind == 'inotify' else 64
        ex.ob(st, 'walk: every kind of change is asked for (%s)' % kind, (tobv(mask, w) & req) == req, ('WALK',), assume=False)
        if kind == 'fanotify':
            ex.ob(st, 'walk: marks are added', (tobv(flags, 32) & 3) == 1, ('WALK',), assume=False)
            ex.ob(st, 'walk: only this directory is marked', (tobv(flags, 32) & 0x110) == 0, ('WALK',), assume=False)
        own = [f for f, l in fds(st) if l == kind]
        ex.ob(st, 'walk: the mark goes to the backend in use', bool(own) and ex.valid(st, z3.Or(*[tobv(fd, 32) == tobv(f, 32) for f in own])), ('WALK',), assume=False)

    # ---- walkdir_do(path, f): calls f any number of times on directories; the first on path
    def walk(self, c):
        ex, st = c.ex, c.st
        path = read_c(c, c.args[0])
        fptr = c.args[1]
        kind = 'fanotify' if any(l == 'fanotify' for f, l in fds(st)) else 'inotify'
        ex.ob(st, 'walk: starts at the watched directory', str_eq(ex, path, Str.sym(self.P)), ('WALK',), assume=False)
        lam = closure_type(c)
        from .stdmodel import find_callop
        op = find_callop(ex, lam)
        if op is None: raise Undecided('visitor of walkdir_do %r' % (c.params,))
        what = c.choose(3)
        if what == 0:
            st.trace.append(('walk', kind, 0)); return None
        # everything the visitor may have changed is arbitrary from here on
        changed = self.visitor_frame(ex, st, op, fptr, kind)
        self.havoc(ex, st, changed)
        if what == 2:
            ex.cover('walk ' + kind)
            st.trace.append(('walk', kind, 'some')); return None
        # verify one visit from the arbitrary state
        d = Str.sym(ex.fresh('dir', 'str'))
        s0 = st.clone()
        for s in self.visit(ex, st.clone(), op, fptr, d):
            good = self.check_visit(ex, s, len(s0.trace), d, kind)
            for oid, off in self.maps_in(s0):
                a, b = s0.mem[oid].cells[off][1], s.mem[oid].cells.get(off, (0, None))[1]
                if isinstance(b, MapVal): self.check_dm(ex, s, a, b, good)
            if kind == 'inotify' and good is not None:
                ex.ob(s, 'walk: a watched directory is recorded', bool(self.maps_in(s)), ('WALK', 'DM'), assume=False)
            ex.ob(s, 'descriptors: a visit keeps none', fds(s) == fds(s0), ('CLOSE',), assume=False)
            left = {d for d in diff_states(s0, s) if d[0] != 'cell' or not self.volatile(ex, s0, d)} - set(changed)
            if left: raise Undecided('the visitor changes more than its frame')
        raise PathEnd()

    def maps_in(self, st):
        return [(oid, off) for oid, o in st.mem.items() for off, (n, v) in o.cells.items() if isinstance(v, MapVal)]

    def volatile(self, ex, st, d):
        o = st.mem[d[1]]
        if o.name == 'errno': return True
        return False

    def visit(self, ex, st, op, fptr, d):
        buf = ex.new_obj(st, 4096, 'directory name', 'heap')
        st.mem[buf].cells[0] = (4096, CBuf(d, 4096))
        depth = len(st.stack)
        ex.call_function(st, op, [fptr, Ptr(buf, 0)])
        self.visiting += 1
        try: return [s for kind, s, v in ex.explore(st, depth) if kind == 'ret']
        finally: self.visiting -= 1

    def visitor_frame(self, ex, st, op, fptr, kind):
        """what one visit changes (found by running it silently, to a fixed point)"""
        key = (op, len(st.stack))
        ch = set()
        ex.quiet += 1
        try:
            for _ in range(4):
                s = st.clone()
                self.havoc(ex, s, ch)
                new = set(ch)
                s0 = s.clone()
                for s2 in self.visit(ex, s, op, fptr, Str.sym(ex.fresh('dir', 'str'))):
                    for d in diff_states(s0, s2):
                        if d[0] == 'cell' and self.volatile(ex, s0, d): continue
                        new.add(d)
                if new == ch: break
                ch = new
            else: raise Undecided('visitor frame does not settle')
        finally: ex.quiet -= 1
        return sorted(ch, key=str)

    def havoc(self, ex, st, changed):
        for what, oid, off in changed:
            if what != 'cell': raise Undecided('the visitor changes %s' % what)
            o = st.wobj(oid)
            c = o.cells.get(off)
            if c is None: raise Undecided('the visitor creates state')
            n, v = c
            if isinstance(v, MapVal):
                ex.fresh_n += 1
                o.cells[off] = (n, MapVal('w%d' % ex.fresh_n))
            elif isinstance(v, int) or z3.is_bv(v): o.cells[off] = (n, ex.fresh('hv', n * 8))
            elif isinstance(v, Text): o.cells[off] = (n, Text(Str.sym(ex.fresh('hvt', 'str')), v.kind))
            else: raise Undecided('the visitor changes %r' % (v,))

    # ---- do_ev_recv(cb, sr): any result but 'complete'; the records buffer and path map change
    def recv(self, c, kind):
        ex, st, k = c.ex, c.st, self.k
        a = [x for x in c.args if isinstance(x, Ptr)]
        if len(a) < 2: raise Undecided('arguments of do_ev_recv')
        cb, sr = a[-2], a[-1]
        pre = 'in' if kind == 'inotify' else 'fa'
        fv = ex.getcell(st, cb)
        ex.ob(st, "event loop: events go to the user's callback", isinstance(fv, FuncVal) and fv.kind == 'user', ('WAIT', 'ERR'), assume=False)
        fd = ex.load(st, ex.padd(sr, k[pre + '.ke'] + k[pre + 'ke.fd']), 4)
        own = [f for f, l in fds(st) if l == kind]
        ex.ob(st, 'event loop: events are read from the open backend', bool(own) and ex.valid(st, tobv(fd, 32) == tobv(own[-1], 32)), ('WAIT', 'CLOSE'), assume=False)
        ex.ob(st, 'event loop: no events are read after a fatal failure', not st.ghost.get('fatal'), ('FATAL',), assume=False)
        # frame: result, descriptors and stop request keep their values (proved with do_ev_recv)
        o = st.wobj(sr.obj)
        lo, hi = sr.off + k[pre + '.ke'], sr.off + k[pre + '.il']
        fdoff = lo + k[pre + 'ke.fd']
        for off in list(o.cells):
            n, v = o.cells[off]
            if lo <= off < hi and not (off == fdoff):
                if isinstance(v, MapVal):
                    ex.fresh_n += 1
                    o.cells[off] = (n, MapVal('r%d' % ex.fresh_n))
                else: o.cells[off] = (n, Junk('changed by do_ev_recv'))
        o.zero = [z for a_, b_ in o.zero for z in ((a_, min(b_, lo)), (max(a_, hi), b_)) if z[0] < z[1]]
        w = k['r.size'] * 8
        from .oscontracts import errno_obj
        st.wobj(errno_obj(ex, st)).cells[0] = (4, ex.fresh('errno', 32))
        j = c.choose(3)
        st.trace.append(('recv', kind, j))
        if j == 0: return k['r.pending']
        if j == 1:
            r = ex.fresh('warn', w)
            c.assume(z3.And(z3.ULT(r, k['r.complete']), r != k['r.pending']))
            return r
        r = ex.fresh('err', w)
        c.assume(z3.And(z3.UGT(r, k['r.complete']), z3.ULT(r, 64), r != k['r.fanotify']))
        st.ghost['fatal'] = 'recv'
        st.ghost['sym:err'] = r
        return r

    def main(self, ex):
        k = self.k
        st = ex.base.clone()
        self.P = z3.Const('P', STR)
        fd = ex.fresh('il', 32)
        p = ex.new_obj(st, 40, 'watched path', 'heap'); st.mem[p].cells[0] = (40, Text(Str.sym(self.P), 'path'))
        cb = ex.new_obj(st, 32, 'callback', 'heap'); st.mem[cb].cells[0] = (32, FuncVal('user'))
        lv = ex.new_obj(st, k['sb.size'], 'stop request', 'heap')
        st.mem[lv].cells[k['sb.is']] = (4, k['sb.pending'])
        st.mem[lv].cells[k['sb.fd']] = (4, fd)
        st.ghost['sym:il'] = fd
        base_pc = list(st.pc)
        clo = ex.new_obj(st, 8, 'closure', 'heap')
        # the stop request's descriptor is either open, or its creation failed
        st1 = st.clone(); st1.pc.append(fd == M1(32))
        st.pc.append(fd >= 0)
        st.ghost['ext_fds'] = (fd,)
        ns = entry_names(self.mod, NS + 'watch')
        if not ns: raise tree.Broken('adapter entry point not found')
        fn = self.mod.funcs[ns[0]]
        for s0 in (st, st1):
            s0.ghost['sym:pc0'] = tuple(s0.pc)
            args = [Ptr(clo, 0), Ptr(p, 0), Ptr(cb, 0), Ptr(lv, 0)]
            from . import ir
            nparams = len(ir.body(self.mod, fn).params)
            args = args[-nparams:]
            for s, r in ex.run(ns[0], args, s0): self.check(ex, s, r)

    def check(self, ex, st, r):
        k = self.k
        tr = st.trace
        i_init = any(t[0] == 'inotify_init' for t in tr)
        if i_init:
            ex.cover('inotify run')
        else:
            f_init = [t for t in tr if t[0] == 'fanotify_init']
            eu = st.ghost.get('sym:euid')
            ex.ob(st, 'backend: the privilege is looked at', eu is not None, ('BACKEND',), assume=False)
            root = (eu == 0) if eu is not None else z3.BoolVal(False)
            ex.ob(st, 'backend: fanotify is tried exactly by the superuser', root == bool(f_init), ('BACKEND',), assume=False)
            ex.ob(st, 'backend: none is started twice', len(f_init) <= 1, ('BACKEND',), assume=False)
            f_un = bool(f_init) and f_init[0][1] is None
            ex.ob(st, 'backend: inotify runs exactly when fanotify does not', z3.Not(z3.Or(z3.Not(root), z3.BoolVal(f_un))), ('BACKEND',), assume=False)
            ex.cover('fanotify run')
        ex.ob(st, 'descriptors: everything opened is closed, the stop request is not', not fds(st), ('CLOSE',), assume=False)
        # outcome
        fatal = st.ghost.get('fatal'); setup = st.ghost.get('sysfail'); stopped = st.ghost.get('stopped')
        last = 'inotify' if i_init else 'fanotify'
        if last == 'inotify' and setup == 'fanotify': setup = None
        walks = [t for t in tr if t[0] == 'walk' and t[1] == last]
        nothing = last == 'inotify' and bool(walks)
        told = st.ghost.get('told', 0)
        rb = tobool(r)
        ended = bool(fatal or setup or stopped)
        noent = False
        if not ended:
            # the only other way to end: no directory could be watched
            ex.ob(st, 'event loop: ends only when stopped or for a failure', last == 'inotify' and not st.ghost.get('waited') and self.map_empty(ex, st, walks), ('ENDS',), assume=False)
            noent = True
        if stopped and not fatal and not setup:
            ex.cover('stopped')
            ex.ob(st, 'event loop: a stop without failure is a clean end', rb, ('RET', 'ENDS'), assume=False)
            ex.ob(st, 'errors: no message when nothing failed', told == 0, ('ERR',), assume=False)
        if fatal or setup or noent:
            if fatal: ex.cover('fatal: ' + fatal)
            if setup: ex.cover('setup failed')
            if stopped and fatal:
                ex.cover('stop and failure together')
                ex.ob(st, 'errors: a fatal failure is told at most once', told <= 1, ('ERR',), assume=False)
            else:
                ex.ob(st, 'errors: a fatal failure ends the run as failed', z3.Not(rb), ('RET', 'ERR'), assume=False)
                ex.ob(st, 'errors: a fatal failure is told exactly once', told == 1, ('ERR',), assume=False)

    def on_cb(self, c, e):
        """a message from the run itself (those of walks are checked with the visit)"""
        if self.visiting: return
        ex, st, k = c.ex, c.st, self.k
        st.ghost['told'] = min(2, st.ghost.get('told', 0) + 1)
        fatal = st.ghost.get('fatal'); setup = st.ghost.get('sysfail')
        P = Str.sym(self.P)
        ex.ob(st, 'errors: the message is an (other, watcher) event', is_warning(k, e), ('ERR',), assume=False)
        last = 'inotify' if any(t[0] == 'inotify_init' for t in st.trace) else 'fanotify'
        walks = [t for t in st.trace if t[0] == 'walk' and t[1] == last]
        if fatal == 'recv': cond = self.err_text(ex, st, e, P)
        else:
            if fatal == 'epoll' or setup == 'epoll': want = b'e/sys/api/epoll@'
            elif setup == 'inotify': want = b'e/sys/api/inotify@'
            elif setup == 'fanotify': want = b'e/sys/api/fanotify@'
            elif last == 'inotify' and not st.ghost.get('waited') and self.map_empty(ex, st, walks): want = b'e/self/noent@'
            else: want = None
            cond = False if want is None else str_eq(ex, e.path, Str.lit(want) + P)
        ex.ob(st, 'errors: the message names the failure and the watched path', cond, ('ERR',), assume=False)
    visiting = 0

    def on_wait(self, c):
        ex, st = c.ex, c.st
        if st.ghost.get('waited') or not any(l == 'inotify' for f, l in fds(st)): return
        maps = [st.mem[o].cells[f][1] for o, f in self.maps_in(st)]
        ok = [nonempty(m) for m in maps]
        ex.ob(st, 'errors: no waiting for events when no directory could be watched', z3.Or(*ok) if ok else False, ('ERR', 'WALK'), assume=False)


    def loop_plan(self, ex, st, key):
        p = EvLoopPlan()
        p.name = Unit.loop_plan(self, ex, st, key).name
        p.unit = self
        return p

    TEXT = ['e@', 'e/sys/api/inotify@', 'e/sys/api/fanotify@', 'e/sys/api/epoll@', 'e/sys/api/read@', 'e/sys/api/eventfd@', 'e/sys/ret@',
            'e/sys/lim/kernel_version@', 'e/self/noent@', 'e/self/ev_recv@']
    def err_text(self, ex, st, e, P):
        r = st.ghost.get('sym:err')
        if r is None: return z3.BoolVal(False)
        w = self.k['r.size'] * 8
        conds = []
        for j, t in enumerate(self.TEXT):
            conds.append(z3.And(r == self.k['r.e'] + j, str_eq(ex, e.path, Str.lit(t) + P)))
        conds.append(z3.And(z3.UGE(r, self.k['r.e'] + len(self.TEXT)), str_eq(ex, e.path, Str.lit('e/unknown@') + P)))
        return z3.Or(*conds)

    def map_empty(self, ex, st, walks):
        if not walks: return False
        if walks[-1][2] == 0: return True
        # the code asked the map itself: on this path it was empty
        names = [d for d in pc_bools(st) if d.startswith('empty_')]
        return bool(names)

def nonempty(m):
    if not m.ups: return z3.BoolVal(False) if m.base == 'empty' else z3.Not(z3.Bool('empty_' + m.base))
    return z3.BoolVal(m.ups[-1][0] == 'put')

def pc_bools(st):
    out = []
    for c in st.pc:
        if z3.is_const(c) and z3.is_bool(c): out.append(str(c))
    return out

def M1(w): return z3.BitVecVal((1 << w) - 1, w)
def read_c(c, p):
    from .stdmodel import read_cstr
    return read_cstr(c, p)
