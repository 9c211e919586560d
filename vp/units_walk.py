"""walkdir_do: one directory. Its recursive calls and the visitor are taken by contract, so
what holds for one directory holds, by induction over the tree, for all of it."""
from .unit import *
from .units_life import entry_names
from .units_loop import NS, closure_type
from .oscontracts import fds
from . import oscontracts as osc
from .stdmodel import read_cstr, find_callop
from .loops import LoopPlan, same

DT_UNKNOWN, DT_DIR, DT_LNK = 0, 4, 10
S_IFMT, S_IFDIR = 0o170000, 0o040000

class WalkPlan(LoopPlan):
    def head(self, ex, st):
        """an entry already read when the loop is (re-)entered is any entry"""
        e = st.ghost.get('sym:entry')
        self.pending = e is not None
        if st.ghost.get('listed') == 'end': self.pending = False; st.ghost['sym:entry'] = None
        if self.pending: st.ghost['sym:entry'] = self.unit.new_entry(ex, st, e[3])
    def ptr_cond(self, ex, c, v):
        """a variable with what readdir returned tells whether the end was reached"""
        if not v.null and v.obj not in self.unit.dirents: return None
        if v.null and not any(o[0] == 'conc' and o[1].obj in self.unit.dirents for o in c.opts): return None
        return lambda s: z3.BoolVal((s.ghost.get('listed') == 'end') == bool(v.null))
    def back(self, ex, st):
        if not self.pending: self.unit.settle(ex, st)

class Walk(Unit):
    name = 'walk'
    tu = 'core'
    tags = {'WALK': ('C07',), 'CLOSE': ('C10',), 'MEM': ('C07', 'C10'), 'BOTH': ('C07', 'C10')}
    covers = ('listed', 'cannot be listed', 'visited', 'descends', 'descends into an entry of unknown type', 'entry is no directory', 'entry of unknown type is no directory', 'entry is the directory itself', 'entry is the parent directory', 'name too long')
    needs = ('walkdir_do', 'is_real_dir')

    def overrides(self):
        self.insts = entry_names(self.mod, NS + 'walkdir_do')
        if not self.insts: raise tree.Broken('walkdir_do not found')
        o = {}
        self.ops = {}; self.dirents = set()
        for n in self.insts:
            o[n] = self.descend
            o.setdefault('opendir', self.opendir); o.setdefault('readdir', self.readdir); o.setdefault('readdir64', self.readdir); o.setdefault('closedir', self.closedir)
            for k in ('stat', 'stat64'): o[k] = lambda c: self.stat(c, 'stat')
            for k in ('lstat', 'lstat64'): o[k] = lambda c: self.stat(c, 'lstat')
            ps = split_name(self.mod.dem[n])[1]
            if len(ps) != 2: raise Undecided('parameters of walkdir_do')
            class P: params = ps
            class E: mod = self.mod
            op = find_callop(E, closure_type(P))
            if op is None: raise Undecided('visitor of walkdir_do')
            o[op] = self.visit; self.ops[n] = op
        return o

    # ---- the visitor and the recursive call, by contract
    def visit(self, c):
        ex, st = c.ex, c.st
        p = read_cstr(c, c.args[1])
        ex.ob(st, 'walk: only the directory itself is offered', str_eq(ex, p, Str.sym(self.P)), ('WALK',), assume=False)
        ex.ob(st, 'walk: the directory is offered through the given visitor', same(c.args[0], self.f), ('WALK',), assume=False)
        st.ghost['visits'] = min(2, st.ghost.get('visits', 0) + 1)
        st.trace.append(('visit', p)); ex.cover('visited')
        self.churn(c)
        return None
    def churn(self, c):
        st = c.st
        st.wobj(osc.errno_obj(c.ex, st)).cells[0] = (4, c.ex.fresh('errno', 32))
    def descend(self, c):
        ex, st = c.ex, c.st
        p = read_cstr(c, c.args[0])
        if st.mem[c.args[0].obj].kind == 'global': raise Undecided('a name in static storage given to a recursive call')
        ex.ob(st, 'walk: sub-directories are offered through the given visitor', same(c.args[1], self.f), ('WALK',), assume=False)
        ex.ob(st, 'walk: only listed entries are gone into', st.ghost.get('sym:entry') is not None, ('WALK',), assume=False)
        st.trace.append(('descend', p))
        self.churn(c)
        return None

    # ---- listing
    def opendir(self, c):
        ex, st = c.ex, c.st
        p = read_cstr(c, c.args[0])
        ex.ob(st, 'walk: the given directory is listed', str_eq(ex, p, Str.sym(self.P)), ('WALK',), assume=False)
        ex.ob(st, 'walk: the directory is listed once', not st.ghost.get('listed'), ('WALK',), assume=False)
        r = osc._opendir(c)
        st.ghost['listed'] = 'failed' if r.null else 'open'
        if not r.null: self.dirents.add(st.mem[r.obj].cells[0][1].obj)
        ex.cover('cannot be listed' if r.null else 'listed')
        return r
    def new_entry(self, ex, st, oid):
        de = st.mem[oid].cells[0][1]
        t = ex.fresh('dtype', 8); n = ex.fresh('dname', 'str')
        st.pc.append(z3.And(z3.ULT(slen(n), 256), slen(n) != 0))
        # "." and ".." byte by byte
        b = [charat(n, bvv(i, 64)) for i in range(3)]
        for i in range(3): st.pc.append(z3.Implies(z3.UGE(slen(n), i), (b[i] == 0) == (slen(n) == i)))
        N = Str.sym(n)
        st.pc.append(str_eq(ex, N, Str.lit('.')) == z3.And(slen(n) == 1, b[0] == 46))
        st.pc.append(str_eq(ex, N, Str.lit('..')) == z3.And(slen(n) == 2, b[0] == 46, b[1] == 46))
        o = st.wobj(de.obj)
        o.cells[18] = (1, t); o.cells[19] = (256, CBuf(Str.sym(n), 256))
        return (t, n, len(st.trace), oid)
    def readdir(self, c):
        ex, st = c.ex, c.st
        self.settle(ex, st)
        ex.ob(st, 'walk: a listing is not read past its end', st.ghost.get('listed') != 'end', ('WALK',), assume=False)
        oid = osc.dirptr(c, c.args[0], 'readdir')
        de = st.mem[oid].cells[0][1]
        if c.choose(2) == 1:
            st.trace.append(('readdir', oid, None)); st.ghost['listed'] = 'end'; return NULL
        ex.wipe(st, de, 280)
        st.trace.append(('readdir', oid, None))
        e = self.new_entry(ex, st, oid)
        st.trace[-1] = ('readdir', oid, (e[0], Str.sym(e[1])))
        st.ghost['sym:entry'] = e[:2] + (len(st.trace), oid)
        return de
    def closedir(self, c):
        self.settle(c.ex, c.st)
        return osc._closedir(c)
    def stat(self, c, kind):
        ex, st = c.ex, c.st
        r = osc._stat(c, kind)
        e = st.ghost.get('sym:entry')
        if r != 0 or e is None: return r
        _, p, mode = st.trace[-1]
        t, n = e[:2]
        if isinstance(mode, int): return r
        isdir = (mode & S_IFMT) == S_IFDIR
        if ex.valid(st, str_eq(ex, p, self.entry_path(n))):
            # the kind the listing tells is the entry's kind (except that stat looks through a link)
            known = z3.And(t != DT_UNKNOWN, t != DT_LNK) if kind == 'stat' else t != DT_UNKNOWN
            st.pc.append(z3.Implies(known, isdir == (t == DT_DIR)))
            # "." and ".." are directories
            st.pc.append(z3.Implies(z3.Or(str_eq(ex, Str.sym(n), Str.lit('.')), str_eq(ex, Str.sym(n), Str.lit('..'))), isdir))
        return r

    def entry_path(self, n): return Str.sym(self.P) + Str.lit('/') + Str.sym(n)
    def settle(self, ex, st):
        """what was done about the entry read before this point"""
        e = st.ghost.pop('sym:entry', None)
        if e is None: return
        t, n, pos, _ = e
        seg = st.trace[pos:]
        J = self.entry_path(n)
        N = Str.sym(n)
        dot, dots = str_eq(ex, N, Str.lit('.')), str_eq(ex, N, Str.lit('..'))
        down = [x[1] for x in seg if x[0] == 'descend']
        def about(x): return ex.valid(st, str_eq(ex, x, J))
        reals = [x for x in seg if x[0] == 'realpath' and about(x[1])]
        lst = [x[2] for x in seg if x[0] == 'lstat' and about(x[1])]
        sst = [x[2] for x in seg if x[0] == 'stat' and about(x[1])]
        isd = lambda m: (tobv(m, 32) & S_IFMT) == S_IFDIR
        ex.ob(st, 'walk: an entry is gone into once', len(down) <= 1, ('WALK',), assume=False)
        if down:
            s = down[0]
            ex.ob(st, 'walk: the directory itself and its parent are not gone into', z3.And(z3.Not(dot), z3.Not(dots)), ('WALK',), assume=False)
            real = z3.Or(t == DT_DIR, *[isd(m) for m in lst if m is not None])
            ex.ob(st, 'walk: only real directories are gone into', real, ('WALK',), assume=False)
            where = z3.Or(str_eq(ex, s, J), *[str_eq(ex, s, r[2]) for r in reals if r[2] is not None])
            ex.ob(st, 'walk: what is gone into is the entry of the listing', where, ('WALK',), assume=False)
            if ex.feasible(st, t == DT_UNKNOWN): ex.cover('descends into an entry of unknown type')
            ex.cover('descends')
            return
        why = [dot, dots, z3.And(t != DT_DIR, t != DT_UNKNOWN), z3.UGE(tobv(J.length(), 64), 4096)]
        for m in lst + sst: why.append(z3.BoolVal(True) if m is None else z3.Not(isd(m)))
        for r in reals:
            if r[2] is None: why.append(z3.BoolVal(True))
        for name, cond in (('entry is no directory', why[2]), ('entry of unknown type is no directory', z3.And(t == DT_UNKNOWN, z3.BoolVal(bool(lst or sst)))),
                           ('entry is the directory itself', dot), ('entry is the parent directory', dots), ('name too long', why[3])):
            if ex.feasible(st, cond): ex.cover(name)
        ex.ob(st, 'walk: every real sub-directory the listing shows is gone into', z3.Or(*why), ('WALK',), assume=False)

    def loop_plan(self, ex, st, key):
        p = WalkPlan(); p.name = Unit.loop_plan(self, ex, st, key).name; p.unit = self
        return p

    def main(self, ex):
        for n in self.insts:
            st = ex.base.clone()
            self.dirents = set()
            self.P = z3.Const('P', STR)
            st.pc.append(z3.ULT(slen(self.P), 4096))
            p = ex.new_obj(st, 4096, 'directory name', 'heap'); st.mem[p].cells[0] = (4096, CBuf(Str.sym(self.P), 4096))
            f = ex.new_obj(st, 64, 'visitor', 'heap')
            self.f = Ptr(f, 0)
            for s, r in ex.run(n, [Ptr(p, 0), self.f], st):
                self.settle(ex, s)
                how = s.ghost.get('listed'); v = s.ghost.get('visits', 0)
                ex.ob(s, 'descriptors: the listing is closed', not fds(s), ('CLOSE',), assume=False)
                if how == 'end' or how == 'open':
                    ex.ob(s, 'walk: the listing is read to its end', how == 'end', ('WALK',), assume=False)
                    ex.ob(s, 'walk: a directory which can be listed is offered exactly once', v == 1, ('WALK',), assume=False)
                elif how == 'failed':
                    ex.ob(s, 'walk: a directory is offered at most once', v <= 1, ('WALK',), assume=False)
                else:
                    bad = [z3.BoolVal(True) if x[2] is None else (tobv(x[2], 32) & S_IFMT) != S_IFDIR for x in s.trace if x[0] == 'stat' and ex.valid(s, str_eq(ex, x[1], Str.sym(self.P)))]
                    ex.ob(s, 'walk: every directory is listed', z3.Or(*bad) if bad else False, ('WALK',), assume=False)
