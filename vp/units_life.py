"""Constructor, watching task, close and destructor of wtr::watch; semabin inlined."""
from .unit import *

ABS = z3.Function('absolute', STR, STR)

def entry_names(mod, base, depth=1):
    """mangled names of the function or lambda `base` (whatever its parameter types)"""
    out = []
    for n in mod.funcs:
        k = split_name(mod.dem.get(n, n))[0]
        if k == base: out.append(n); continue
        if k.startswith(base + '::{lambda') and k.endswith('}::operator()'):
            mid = k[len(base) + 2:-len('::operator()')]
            # exactly one lambda level
            d = 0; ok = True
            for i, ch in enumerate(mid):
                if ch in '{(<': d += 1
                elif ch in '})>': d -= 1
                if d == 0 and i < len(mid) - 1: ok = False; break
            if ok: out.append(n)
    return out

class Life(Unit):
    name = 'life'
    tu = 'life'
    tags = {'LIFE': ('C01',), 'CLOSE2': ('C02',), 'STOP': ('C03',), 'MEM': ('C01', 'C02'), 'CLOSE': ('C10',), 'START': ('C01', 'C03')}
    covers = ('clean run closed', 'failed start', 'close before start', 'failed run', 'second close')
    needs = ('watch::watch', 'watch::close', 'watch::~watch', 'semabin::release', 'semabin::state', 'semabin::semabin', 'semabin::~semabin')

    def overrides(self):
        ns = entry_names(self.mod, 'detail::wtr::watcher::adapter::watch')
        if not ns: raise tree.Broken('adapter entry point not found')
        return {n: self.adapter for n in ns}

    def adapter(self, c):
        """contract of the adapter (proved in unit loop): watches until the stop
        request is posted or something fails for good; true iff nothing failed"""
        ex, st = c.ex, c.st
        a = [x for x in c.args if isinstance(x, Ptr)]
        a = a[-3:]
        if len(a) < 3: raise Undecided('arguments of the adapter')
        path = gettext(c, a[0]).s
        fv = ex.getcell(st, a[1])
        ex.ob(st, 'start: the backend gets the absolute path', str_eq(ex, path, Str.sym(ABS(self.P))), ('LIFE',), assume=False)
        ex.ob(st, "start: the backend gets the user's callback", isinstance(fv, FuncVal) and fv.kind == 'user', ('LIFE',), assume=False)
        w = st.ghost['sym:w']
        ex.ob(st, 'start: the backend gets this watch\'s stop request', a[2].obj == w.obj and a[2].off == w.off + self.k['w.living'], ('START',), assume=False)
        ex.ob(st, 'start: a posted stop request is still pending when the backend starts', not st.ghost.get('posted') or st.ghost.get('evcount', 0) > 0, ('STOP', 'START'), assume=False)
        r = 1 - c.choose(2)
        st.trace.append(('adapter', r))
        return r

    def task_result(self, c, fut):
        st = c.st
        if 'task' in st.ghost: return st.ghost['task']
        op, oid = fut.task
        def hook(ex, st, v): self.task_done(ex, st, v)
        st.trace.append(('task-start', st.ghost.get('posted', 0)))
        return Enter(op, [Ptr(oid, 0)], hook)

    def task_done(self, ex, st, v):
        st.trace.append(('task-end', v))
        st.ghost['task'] = simp(tobool(v))
        self.check_task(ex, st, v)

    def check_task(self, ex, st, v):
        k = self.k
        tr = st.trace
        i0 = max(i for i, t in enumerate(tr) if t[0] == 'task-start')
        seg = tr[i0:]
        posted = tr[i0][1]
        cbs = [(i, t[1]) for i, t in enumerate(seg) if t[0] == 'cb']
        ads = [(i, t[1]) for i, t in enumerate(seg) if t[0] == 'adapter']
        absok = [t for t in seg if t[0] == 'absolute' and t[2]]
        isd = [t for t in seg if t[0] == 'is_directory']
        evs_fail = [t for t in seg if t[0] == 'evread' and not (isinstance(t[2], int))]
        pre = z3.BoolVal(False)
        if absok and isd:
            oks = []
            for t in isd:
                if not t[2]: continue
                if ex.valid(st, str_eq(ex, t[1], Str.sym(ABS(self.P)))): oks.append(tobool(t[3]))
            if oks: pre = z3.And(*oks)
        if posted: pre = z3.BoolVal(False)
        unknown_req = bool(evs_fail)      # the stop request itself could not be read
        ok = ex.ob(st, 'life: exactly a first and a last watcher message around the run', len(cbs) == 2, ('LIFE',))
        (i1, e1), (i2, e2) = cbs
        ex.ob(st, 'life: the backend runs at most once, between the two', len(ads) <= 1 and all(i1 < i < i2 for i, r in ads), ('LIFE',), assume=False)
        abs_ = Str.sym(ABS(self.P))
        def is_(e, what, p): return str_eq(ex, e.path, Str.lit(what) + p)
        for e, et, word in ((e1, 'create', 'live'), (e2, 'destroy', 'die')):
            ex.ob(st, 'life: the %s message is a (%s, watcher) event' % (word, et), z3.And(tobv(e.et, 32) == k['et.' + et], tobv(e.pt, 32) == k['pt.watcher']), ('LIFE',), assume=False)
            ex.ob(st, 'life: the %s message has no associated event' % word, e.assoc is None, ('LIFE',), assume=False)
        s1 = ex.valid(st, is_(e1, 's/self/live@', abs_))
        if s1:
            ex.ob(st, 'life: s/self/live@ only for an existing directory, before any close request', pre if not unknown_req else pre, ('LIFE', 'START'), assume=False)
        elif absok:
            ex.ob(st, 'life: the first message is s/ or e/self/live@ plus the absolute path', is_(e1, 'e/self/live@', abs_), ('LIFE',), assume=False)
        else:
            ex.ob(st, 'life: the first message is e/self/live@ plus the path', z3.Or(is_(e1, 'e/self/live@', Str()), is_(e1, 'e/self/live@', Str.sym(self.P))), ('LIFE',), assume=False)
        if not s1 and not unknown_req:
            ex.ob(st, 'life: e/self/live@ only when the start is impossible', z3.Not(pre), ('LIFE',), assume=False)
        ex.ob(st, 'life: the backend runs exactly after s/self/live@', len(ads) == (1 if s1 else 0), ('LIFE',), assume=False)
        clean = bool(s1 and ads and ads[0][1])
        p = abs_ if absok else None
        if p is not None:
            ex.ob(st, 'life: the last message is %s/self/die@ plus the absolute path' % ('s' if clean else 'e'), is_(e2, ('s' if clean else 'e') + '/self/die@', p), ('LIFE',), assume=False)
        else:
            ex.ob(st, 'life: the last message is e/self/die@ plus the path', z3.Or(is_(e2, 'e/self/die@', Str()), is_(e2, 'e/self/die@', Str.sym(self.P))), ('LIFE',), assume=False)
        ex.ob(st, 'close: the task result is true exactly for a clean run', tobool(v) == clean, ('CLOSE2',), assume=False)
        st.ghost['clean'] = clean
        st.ghost['task'] = v
        if clean: ex.cover('clean run')
        if not s1: ex.cover('failed start')
        if s1 and not clean: ex.cover('failed run')
        if posted: ex.cover('close before start')

    def call(self, ex, fn, args, states):
        out = []
        names = tree.find(self.mod, fn)
        if not names: raise tree.Broken('%s not found' % fn)
        for s in states:
            for s2, r in ex.run(names[0], args(s), s): out.append((s2, r))
        return out

    def main(self, ex):
        st = ex.base.clone()
        self.P = z3.Const('P', STR)
        p = ex.new_obj(st, 40, 'path argument', 'heap'); cb = ex.new_obj(st, 32, 'callback argument', 'heap')
        st.mem[p].cells[0] = (40, Text(Str.sym(self.P), 'path'))
        st.mem[cb].cells[0] = (32, FuncVal('user'))
        made = []
        for s, w in self.call(ex, 'vp_mk', lambda s: [Ptr(p, 0), Ptr(cb, 0)], [st]):
            asy = [t for t in s.trace if t[0] == 'async']
            ex.ob(s, 'life: construction starts exactly one watching task', len(asy) == 1 and not any(t[0] in ('cb', 'task-start', 'join', 'dtor-join') for t in s.trace), ('LIFE',))
            ex.ob(s, 'life: the task starts without being asked for its result', isinstance(asy[0][1], int) and (asy[0][1] & 1) == 1, ('LIFE',), assume=False)
            s.ghost['sym:w'] = w
            # the arguments may go away once construction is done
            ex.kill(s, p); ex.kill(s, cb)
            made.append(s)
        # the task runs at once, or not before it is waited for
        early = []
        for s in made:
            s2 = s.clone()
            asy = [t for t in s2.trace if t[0] == 'async'][0]
            s2.trace.append(('task-start', 0))
            for s3, r in ex.run(asy[2], [Ptr(asy[3], 0)], s2):
                self.task_done(ex, s3, r)
                early.append(s3)
        states = early + made
        deleted = []
        self.delete(ex, [s.clone() for s in states])
        ones = self.close(ex, [s for s in states], 1)
        self.delete(ex, [s.clone() for s in ones])
        twos = self.close(ex, ones, 2)
        self.delete(ex, [s.clone() for s in twos])
        threes = self.close(ex, twos, 3)
        self.delete(ex, threes)

    def close(self, ex, states, nth):
        out = []
        for s in states: s.ghost['sym:mark'] = len(s.trace)
        for s, r in self.call(ex, 'vp_close', lambda s: [s.ghost['sym:w']], states):
            seg = s.trace[s.ghost['sym:mark']:]
            joins = [i for i, t in enumerate(seg) if t[0] == 'join']
            before = [t for t in s.trace[:s.ghost['sym:mark']] if t[0] == 'join']
            posted = bool(s.ghost.get('posted'))
            first = not before
            ex.ob(s, 'close: the task is waited for at most once', len(joins) + len(before) <= 1, ('CLOSE2',), assume=False)
            if posted and first:
                ex.ob(s, 'close: returns only after the watching task has finished', len(joins) == 1, ('CLOSE2',), assume=False)
            if joins:
                ex.ob(s, 'close: the stop request is posted before waiting', any(t[0] == 'evwrite' and t[3] and t[2] for t in s.trace[:s.ghost['sym:mark'] + joins[0]]), ('CLOSE2', 'STOP'), assume=False)
                ex.ob(s, 'close: true exactly for a clean run', tobool(r) == bool(s.ghost.get('clean')), ('CLOSE2',), assume=False)
                if s.ghost.get('clean'): ex.cover('clean run closed')
            else:
                ex.ob(s, 'close: false when it is not the first, or no stop could be requested', z3.Not(tobool(r)), ('CLOSE2',), assume=False)
                if before: ex.cover('second close')
            wr = [t for t in seg if t[0] == 'evwrite']
            if not wr and first:
                ex.ob(s, 'close: a stop is requested', posted, ('STOP', 'CLOSE2'), assume=False)
            out.append(s)
        return out

    def delete(self, ex, states):
        for s in states: s.ghost['sym:mark'] = len(s.trace)
        for s, r in self.call(ex, 'vp_del', lambda s: [s.ghost['sym:w']], states):
            seg = s.trace[s.ghost['sym:mark']:]
            w = s.ghost['sym:w']
            ends = [i for i, t in enumerate(s.trace) if t[0] in ('join', 'dtor-join')]
            ex.ob(s, 'close: destruction leaves no running task', len(ends) == 1, ('CLOSE2',), assume=False)
            tried = [t for t in s.trace if t[0] == 'evwrite']
            ex.ob(s, 'close: destruction requests the stop', bool(s.ghost.get('posted')) or bool(tried), ('CLOSE2', 'STOP'), assume=False)
            dj = [i for i, t in enumerate(s.trace) if t[0] == 'dtor-join']
            if dj and s.ghost.get('posted'):
                okp = any(t[0] == 'evwrite' and t[3] for t in s.trace[:dj[0]])
                ex.ob(s, 'close: the stop is requested before the task is waited for', okp, ('STOP', 'CLOSE2'), assume=False)
            from .oscontracts import fds
            ex.ob(s, 'descriptors: the stop request is released with the watch', not fds(s), ('CLOSE',), assume=False)
            # closed after the task ended
            cl = [i for i, t in enumerate(s.trace) if t[0] == 'close']
            if cl and ends:
                ex.ob(s, 'descriptors: the stop request outlives the task', min(cl) > max(ends), ('CLOSE', 'STOP'), assume=False)
            ex.ob(s, 'memory: the watch object is released', w.obj not in s.mem, ('MEM',), assume=False)
            cbn = [t for t in s.trace if t[0] == 'cb']
            ex.ob(s, 'life: nothing is told after the last message', len(cbn) == 2, ('LIFE',), assume=False)
