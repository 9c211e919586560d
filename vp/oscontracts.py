"""Contracts for the operating system (libc wrappers of Linux system calls).

Every call may fail whenever the manual says it may; what it returns on success
is otherwise arbitrary. Ghost state: 'fds' (descriptors and directory streams
owned), 'eps' (what each epoll instance is subscribed to), 'stopped' (the stop
request has been reported by a wait), 'fatal' (a service failed for good)."""
import z3
from .sym import *
from .stdmodel import LIB as STD, CBuf, Str, Text, read_cstr, put_cstr, bufspace

OS = {}
def os_(*names):
    def d(f):
        for n in names: OS[n] = f
        return f
    return d

EAGAIN, EINTR, EBADF = 11, 4, 9
EPOLLIN = 1

# ---------------------------------------------------------------- errno
def errno_obj(ex, st):
    if 'errno' not in ex.gobj:
        ex.oid += 1; ex.gobj['errno'] = ex.oid
    oid = ex.gobj['errno']
    if oid not in st.mem:
        o = Obj(4, 'errno', 'global', st.id)
        o.cells[0] = (4, ex.fresh('errno0', 32))
        st.mem[oid] = o
    return oid
def set_errno(c, e):
    oid = errno_obj(c.ex, c.st)
    c.st.wobj(oid).cells[0] = (4, e)
def isint(v): return isinstance(v, int) or z3.is_bv(v)
def fail_errno(c, *known):
    e = c.ex.fresh('errno', 32)
    c.st.pc.append(z3.And(e > 0, e < 200))
    set_errno(c, e)
    return e
@os_('__errno_location')
def _errno(c): return Ptr(errno_obj(c.ex, c.st), 0)

M1 = (1 << 32) - 1
M1L = (1 << 64) - 1

# ---------------------------------------------------------------- ownership
def fds(st): return st.ghost.get('fds', ())
def open_fd(c, label):
    fd = c.ex.fresh('fd_' + label, 32)
    c.st.pc.append(fd >= 0)
    for f, l in fds(c.st):
        if l != 'dir': c.st.pc.append(fd != tobv(f, 32))
    for f in c.st.ghost.get('ext_fds', ()): c.st.pc.append(fd != tobv(f, 32))
    c.st.ghost['fds'] = fds(c.st) + ((fd, label),)
    return fd
def neg(v): return isinstance(v, int) and v >> 31

def release_fd(c, fd, what):
    """the descriptor must be one we own and have not released"""
    ex, st = c.ex, c.st
    F = tobv(fd, 32)
    if c.branch(F < 0): return False
    for k, (f, l) in enumerate(fds(st)):
        if l == 'dir': continue
        if c.branch(F == tobv(f, 32)):
            st.ghost['fds'] = fds(st)[:k] + fds(st)[k + 1:]
            st.trace.append(('close', l))
            if l == 'epoll': st.ghost['eps'] = tuple(e for e in eps(st) if e[0] is not f)
            st.ghost['eps'] = tuple((e, tuple(r for r in regs if not ex.valid(st, tobv(r[0], 32) == tobv(f, 32)))) for e, regs in eps(st))
            return True
    ex.ob(st, 'descriptors: only an open descriptor of ours is released', False, ('CLOSE',))
    raise PathEnd()
def uses_fd(c, fd, what):
    """a descriptor handed to the kernel is open (or negative: a harmless failure)"""
    ex, st = c.ex, c.st
    F = tobv(fd, 32)
    conds = [F < 0] + [F == tobv(f, 32) for f, l in fds(st) if l != 'dir'] + [F == tobv(f, 32) for f in st.ghost.get('ext_fds', ())]
    ex.ob(st, 'descriptors: %s works on an open descriptor' % what, z3.Or(*conds), ('CLOSE',))

@os_('close')
def _close(c):
    uses = c.args[0]
    if not release_fd(c, uses, 'close'):
        fail_errno(c); return M1
    # released either way; what it answers is unknown, without a case of its own
    ok = c.ex.fresh('closed', 'bool')
    cell = c.st.mem[errno_obj(c.ex, c.st)].cells.get(0)
    e = fail_errno(c)
    if cell is not None and isint(cell[1]): set_errno(c, z3.If(ok, tobv(cell[1], 32), e))
    return z3.If(ok, bvv(0, 32), bvv(M1, 32))

# ---------------------------------------------------------------- epoll, eventfd
def eps(st): return st.ghost.get('eps', ())
@os_('epoll_create1', 'epoll_create')
def _epcreate(c):
    if c.choose(2) == 1:
        fail_errno(c); c.st.trace.append(('epoll_create', None)); c.st.ghost['sysfail'] = 'epoll'
        return M1
    fd = open_fd(c, 'epoll')
    c.st.ghost['eps'] = eps(c.st) + ((fd, ()),)
    c.st.trace.append(('epoll_create', fd))
    return fd
def find_ep(c, fd):
    for k, (f, regs) in enumerate(eps(c.st)):
        if c.branch(tobv(fd, 32) == tobv(f, 32)): return k
    return None
@os_('epoll_ctl')
def _epctl(c):
    ep, op, fd, evp = c.args[:4]
    ex, st = c.ex, c.st
    uses_fd(c, ep, 'epoll_ctl'); uses_fd(c, fd, 'epoll_ctl')
    if not isinstance(op, int) or op != 1: raise Undecided('epoll_ctl operation')
    events = ex.load(st, evp, 4)
    try: data = ex.load(st, ex.padd(evp, 4), 4)
    except Undecided: data = None
    k = find_ep(c, ep)
    if k is None or c.branch(tobv(fd, 32) < 0) or c.choose(2) == 1:
        fail_errno(c); st.trace.append(('epoll_ctl', fd, None)); st.ghost['sysfail'] = 'epoll'
        return M1
    e = list(eps(st))
    e[k] = (e[k][0], e[k][1] + ((fd, events, data),))
    st.ghost['eps'] = tuple(e)
    st.trace.append(('epoll_ctl', fd, events))
    return 0
@os_('epoll_wait')
def _epwait(c):
    ex, st = c.ex, c.st
    ep, buf, n, tmo = c.args[:4]
    u = ex.unit
    ex.ob(st, 'event loop: the wait has no time-out', tobv(tmo, 32) == bvv(M1, 32), ('WAIT',))
    ex.ob(st, 'event loop: no wait after the stop request was reported', not st.ghost.get('stopped'), ('WAIT',))
    ex.ob(st, 'event loop: no wait after a fatal failure', not st.ghost.get('fatal'), ('FATAL',))
    ex.ob(st, 'event loop: room for at least one event', tobv(n, 32) > 0, ('WAIT',))
    uses_fd(c, ep, 'epoll_wait')
    k = find_ep(c, ep)
    if k is None:
        fail_errno(c); return M1
    regs = eps(st)[k][1]
    def subscribed(fd):
        for f, ev, data in regs:
            if isinstance(ev, (Undef, Junk)) or data is None or isinstance(data, (Undef, Junk)): continue
            if ex.valid(st, z3.And(tobv(f, 32) == tobv(fd, 32), (tobv(ev, 32) & EPOLLIN) != 0, tobv(data, 32) == tobv(f, 32))):
                # edge triggering, one-shot or exclusive wake-ups would lose notifications of what
                # one read leaves behind, unless the code drains the source: left to the scenarios
                if not ex.valid(st, (tobv(ev, 32) & 0xD0000000) == 0):
                    if fd is il and ex.valid(st, (tobv(ev, 32) & 0x50000000) == 0): return True
                    raise Undecided('the event source is not subscribed level-triggered')
                return True
        return False
    il = u.stop_fd(st)
    ex.ob(st, 'event loop: subscribed to the stop request', subscribed(il), ('WAIT',), assume=False)
    src = [f for f, l in fds(st) if l in ('inotify', 'fanotify')]
    ex.ob(st, 'event loop: subscribed to the event source', bool(src) and all(subscribed(f) for f in src), ('WAIT',), assume=False)
    if not regs: raise Infeasible()        # nothing to wait for: blocks for ever
    ex.cover('epoll_wait')
    # outcomes: failure, or 1..n distinct subscriptions in any order
    outs = ['fail'] + orders(list(range(len(regs))))
    if hasattr(u, 'on_wait'): u.on_wait(c)
    o = outs[c.choose(len(outs))]
    st.ghost['waited'] = 1
    if o != 'fail' and len(o) > 1: ex.cover('stop and events together')
    if o == 'fail':
        e = fail_errno(c)
        if c.branch(e == EINTR):
            st.trace.append(('wait', 'interrupted')); return M1
        st.trace.append(('wait', 'fail'))
        st.ghost['fatal'] = 'epoll'
        return M1
    c.assume(tobv(n, 32) >= len(o))
    room = bufspace(ex, st, buf)
    ex.ob(st, 'memory: epoll_wait writes inside its buffer', z3.ULE(tobv(n, 64) * 12 if isinstance(n, int) else z3.ZeroExt(32, n) * 12, tobv(room, 64)) if room is not None else True, ('MEM',))
    for j, r in enumerate(o):
        f, ev, data = regs[r]
        ex.store(st, ex.padd(buf, 12 * j), 4, ex.fresh('revents', 32))
        ex.store(st, ex.padd(buf, 12 * j + 4), 4, UNDEF if data is None else data)
        ex.store(st, ex.padd(buf, 12 * j + 8), 4, 0)
        if ex.valid(st, tobv(f, 32) == tobv(il, 32)): st.ghost['stopped'] = 1
    st.trace.append(('wait', tuple(o)))
    return len(o)
def orders(xs):
    import itertools
    out = []
    for k in range(1, len(xs) + 1):
        for p in itertools.permutations(xs, k): out.append(p)
    return out

@os_('eventfd')
def _eventfd(c):
    if c.choose(2) == 1:
        fail_errno(c); c.st.trace.append(('eventfd', None)); return M1
    fd = open_fd(c, 'eventfd')
    fl = c.args[1]
    c.st.trace.append(('eventfd', fd, c.args[0], fl))
    c.ex.ob(c.st, 'stop request: never blocks its reader', (tobv(fl, 32) & 0o4000) != 0, ('STOP',), assume=False)
    c.ex.ob(c.st, 'stop request: not already signalled', tobv(c.args[0], 32) == 0, ('STOP',), assume=False)
    if isinstance(fl, int) and fl & 1: c.st.ghost['evsem'] = 1
    return fd
@os_('eventfd_write')
def _evwrite(c):
    uses_fd(c, c.args[0], 'eventfd_write')
    if c.branch(tobv(c.args[0], 32) < 0) or c.choose(2) == 1:
        fail_errno(c); c.st.trace.append(('evwrite', c.args[0], c.args[1], False)); return M1
    c.st.trace.append(('evwrite', c.args[0], c.args[1], True))
    v = c.args[1]
    if not isinstance(v, int): raise Undecided('eventfd value')
    c.st.ghost['evcount'] = min(4, c.st.ghost.get('evcount', 0) + v)
    if v: c.st.ghost['posted'] = 1
    return 0
@os_('eventfd_read')
def _evread(c):
    """semaphore mode: takes one; empty: EAGAIN (the descriptor is non-blocking by contract of its creation)"""
    uses_fd(c, c.args[0], 'eventfd_read')
    st = c.st
    n = st.ghost.get('evcount', 0)
    if c.branch(tobv(c.args[0], 32) < 0) or c.choose(2) == 1:
        e = fail_errno(c)
        st.pc.append(e != EAGAIN)
        st.trace.append(('evread', c.args[0], e)); return M1
    if n == 0:
        set_errno(c, EAGAIN); st.trace.append(('evread', c.args[0], EAGAIN)); return M1
    st.ghost['evcount'] = n - 1 if st.ghost.get('evsem') else 0
    c.ex.store(st, c.args[1], 8, 1 if st.ghost.get('evsem') else n)
    st.trace.append(('evread', c.args[0], 0))
    return 0
@os_('getuid', 'getgid', 'getegid')
def _getuid(c):
    # another identity than the effective user's: any value
    k = 'sym:' + c.name
    v = c.st.ghost.get(k)
    if v is None:
        v = c.ex.fresh(c.name, 32); c.st.ghost[k] = v
    return v
@os_('geteuid')
def _geteuid(c):
    v = c.st.ghost.get('sym:euid')
    if v is None:
        v = c.ex.fresh('euid', 32); c.st.ghost['sym:euid'] = v
    c.st.trace.append(('geteuid', v))
    return v

# ---------------------------------------------------------------- inotify, fanotify set-up
@os_('inotify_init', 'inotify_init1')
def _ininit(c):
    if c.choose(2) == 1:
        fail_errno(c); c.st.trace.append(('inotify_init', None)); c.st.ghost['sysfail'] = 'inotify'; return M1
    fd = open_fd(c, 'inotify')
    c.st.trace.append(('inotify_init', fd))
    return fd
@os_('inotify_add_watch')
def _inadd(c):
    ex, st = c.ex, c.st
    uses_fd(c, c.args[0], 'inotify_add_watch')
    p = read_cstr(c, c.args[1]); m = c.args[2]
    ex.unit.on_mark(c, 'inotify', c.args[0], p, m)
    if c.choose(2) == 1:
        fail_errno(c); st.trace.append(('add_watch', c.args[0], p, m, None)); return M1
    wd = ex.fresh('wd', 32)
    st.pc.append(wd > 0)
    st.trace.append(('add_watch', c.args[0], p, m, wd))
    return wd
@os_('inotify_rm_watch')
def _inrm(c):
    uses_fd(c, c.args[0], 'inotify_rm_watch')
    c.st.trace.append(('rm_watch', c.args[0], c.args[1]))
    if c.choose(2) == 1: fail_errno(c); return M1
    return 0
@os_('fanotify_init')
def _fainit(c):
    ex, st = c.ex, c.st
    fl = tobv(c.args[0], 32)
    ex.ob(st, 'fanotify: records carry directory and entry names', (fl & 0xE00) == 0xE00, ('RECORDS',), assume=False)
    if c.choose(2) == 1:
        fail_errno(c); st.trace.append(('fanotify_init', None)); st.ghost['sysfail'] = 'fanotify'; return M1
    fd = open_fd(c, 'fanotify')
    st.trace.append(('fanotify_init', fd))
    return fd
@os_('fanotify_mark')
def _famark(c):
    ex, st = c.ex, c.st
    uses_fd(c, c.args[0], 'fanotify_mark')
    p = read_cstr(c, c.args[4])
    ex.unit.on_mark(c, 'fanotify', c.args[0], p, c.args[2], c.args[1])
    if c.choose(2) == 1:
        fail_errno(c); st.trace.append(('fa_mark', c.args[0], p, c.args[2], None)); return M1
    st.trace.append(('fa_mark', c.args[0], p, c.args[2], 0))
    return 0

# ---------------------------------------------------------------- files and directories
@os_('realpath')
def _realpath(c):
    ex, st = c.ex, c.st
    p = read_cstr(c, c.args[0])
    if c.args[1].null: raise Undecided('allocating realpath')
    room = bufspace(ex, st, c.args[1])
    ex.ob(st, 'memory: realpath has a buffer of PATH_MAX bytes', room is None or (isinstance(room, int) and room >= 4096), ('MEM',))
    if c.choose(2) == 1:
        fail_errno(c); st.trace.append(('realpath', p, None))
        ex.wipe(st, c.args[1], 4096)
        return NULL
    r = ex.fresh('real', 'str')
    st.pc.append(z3.ULT(slen(r), 4096)); st.pc.append(slen(r) != 0)
    put_cstr(c, c.args[1], Str.sym(r), 4096)
    st.trace.append(('realpath', p, Str.sym(r)))
    return c.args[1]
def _stat(c, kind):
    ex, st = c.ex, c.st
    p = read_cstr(c, c.args[0]); buf = c.args[1]
    if c.choose(2) == 1:
        fail_errno(c); st.trace.append((kind, p, None)); return M1
    ex.wipe(st, buf, 144)
    mode = ex.fresh('mode', 32)
    ex.store(st, ex.padd(buf, 24), 4, mode)
    st.trace.append((kind, p, mode))
    return 0
@os_('stat', 'stat64')
def _stat_(c): return _stat(c, 'stat')
@os_('lstat', 'lstat64')
def _lstat_(c): return _stat(c, 'lstat')
@os_('opendir')
def _opendir(c):
    ex, st = c.ex, c.st
    p = read_cstr(c, c.args[0])
    if c.choose(2) == 1:
        fail_errno(c); st.trace.append(('opendir', p, None)); return NULL
    oid = ex.new_obj(st, 64, 'DIR', 'dir')
    de = ex.new_obj(st, 280, 'dirent', 'dirent')
    st.mem[oid].cells[0] = (8, Ptr(de, 0))
    st.ghost['fds'] = fds(st) + ((oid, 'dir'),)
    st.trace.append(('opendir', p, oid))
    return Ptr(oid, 0)
def dirptr(c, p, what):
    if isinstance(p, Ptr) and p.obj is not None and (p.obj, 'dir') in fds(c.st): return p.obj
    c.ex.ob(c.st, 'descriptors: %s works on an open directory' % what, False, ('CLOSE', 'MEM')); raise PathEnd()
@os_('readdir', 'readdir64')
def _readdir(c):
    ex, st = c.ex, c.st
    oid = dirptr(c, c.args[0], 'readdir')
    de = st.mem[oid].cells[0][1]
    if c.choose(2) == 1:
        st.trace.append(('readdir', oid, None)); return NULL
    ex.wipe(st, de, 280)
    t = ex.fresh('dtype', 8); n = ex.fresh('dname', 'str')
    st.pc.append(z3.And(z3.ULT(slen(n), 256), slen(n) != 0))
    o = st.wobj(de.obj)
    o.cells[18] = (1, t)
    o.cells[19] = (256, CBuf(Str.sym(n), 256))
    st.trace.append(('readdir', oid, (t, Str.sym(n))))
    return de
@os_('closedir')
def _closedir(c):
    oid = dirptr(c, c.args[0], 'closedir')
    c.st.ghost['fds'] = tuple(x for x in fds(c.st) if x != (oid, 'dir'))
    c.st.trace.append(('closedir', oid))
    st = c.st
    de = st.mem[oid].cells[0][1]
    c.ex.kill(st, de.obj); c.ex.kill(st, oid)
    return 0
@os_('open_by_handle_at')
def _obha(c):
    ex, st = c.ex, c.st
    h = c.args[1]
    pos = ex.unit.handle_of(c, h)
    if c.choose(2) == 1:
        fail_errno(c); st.trace.append(('open_handle', pos, None)); return M1
    fd = open_fd(c, 'handle')
    st.trace.append(('open_handle', pos, fd))
    return fd
@os_('readlink')
def _readlink(c):
    ex, st = c.ex, c.st
    p = read_cstr(c, c.args[0]); buf = c.args[1]; n = c.args[2]
    if not isinstance(n, int): raise Undecided('readlink size')
    room = bufspace(ex, st, buf)
    ex.ob(st, 'memory: readlink writes inside its buffer', room is None or n <= room, ('MEM',))
    if c.choose(2) == 1:
        fail_errno(c); st.trace.append(('readlink', p, None)); return M1L
    t = ex.fresh('linkto', 'str')
    k = slen(t)
    st.pc.append(z3.And(k != 0, z3.ULE(k, n)))
    cap = room if isinstance(room, int) else n
    ex.wipe(st, buf, cap)
    st.wobj(buf.obj).cells[buf.off] = (cap, CBuf(Str.sym(t), cap, k))
    st.trace.append(('readlink', p, Str.sym(t)))
    return k
@os_('read')
def _read(c):
    return c.ex.unit.do_read(c)
@os_('isatty', 'getpid', 'usleep', 'sched_yield')
def _misc(c): return 0
