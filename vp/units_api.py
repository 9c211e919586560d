"""Event values (C12), their renderings (C11), the C interface (C13) and the command line tool (C14)."""
from .unit import *
from .stdmodel import widen, jesc, wjesc, decs, one, one32, wcharat, escbytes, read_cstr

class Link(Ghost):
    """the owning pointer of an event that is spoken of by contract only: an
    opaque (possibly empty) chain of associated events"""
    __slots__ = ('t', 'oid')
    def __init__(self, t, oid): self.t, self.oid = t, oid
    def __repr__(self): return 'link(%s)' % self.t

STRLINK = z3.DeclareSort('Chain')
chain_eq = z3.Function('equal_chains', STRLINK, STRLINK, z3.BoolSort())

class EventUnit(Unit):
    """events as values: fields, and an associated event whose own associated event is opaque"""
    def new_event(self, ex, st, name, assoc=None, rename=None):
        k = self.k
        oid = ex.new_obj(st, k['ev.size'], name, 'heap')
        n = rename or name
        self.fill(ex, st, Ptr(oid, 0), Str.sym(z3.Const('path_' + n, STR)), z3.BitVec('et_' + n, 32), z3.BitVec('pt_' + n, 32), z3.BitVec('time_' + n, 64), assoc)
        return Ptr(oid, 0)
    def fill(self, ex, st, p, path, et, pt, tm, assoc):
        k = self.k
        c = st.wobj(p.obj).cells
        c[p.off + k['ev.path']] = (40, Text(path, 'path'))
        c[p.off + k['ev.et']] = (4, et); c[p.off + k['ev.pt']] = (4, pt); c[p.off + k['ev.time']] = (8, tm)
        c[p.off + k['ev.assoc']] = (8, NULL if assoc is None else assoc)
    def new_link(self, ex, st, t):
        ex.fresh_n += 1
        st.ghost['sym:links'] = st.ghost.get('sym:links', ()) + (ex.fresh_n,)
        return Link(t, ex.fresh_n)
    def opaque_event(self, ex, st, name):
        """an event with an arbitrary chain behind it"""
        return self.new_event(ex, st, name, self.new_link(ex, st, z3.Const('chain_' + name, STRLINK)))
    def get(self, ex, st, p, what='event'):
        """fields of an alive event"""
        k = self.k
        ex.check_ptr(st, p, k['ev.size'], 'use of an ' + what)
        class C: pass
        c = C(); c.ex, c.st = ex, st
        path = gettext(c, ex.padd(p, k['ev.path']), 'event name').s
        vs = []
        for f, n in (('et', 4), ('pt', 4), ('time', 8), ('assoc', 8)):
            o = st.mem[p.obj]
            cell = o.cells.get(p.off + k['ev.' + f])
            v = cell[1] if cell is not None and cell[0] == n else ex.load(st, ex.padd(p, k['ev.' + f]), n)
            if isinstance(v, Undef): ex.mem_fault(st, 'event field never initialised (%s)' % f)
            if isinstance(v, Junk): raise Undecided('event field lost')
            if f == 'assoc' and isinstance(v, int): v = Ptr(None, v)
            vs.append(v)
        return [path] + vs
    # ---- contracts used for the event behind an event
    def nested(self, what, contract):
        def h(c):
            at = {'copy': c.args[1:2], 'eq': c.args[:2], 'del': c.args[:1]}[what]
            if any(isinstance(self.get(c.ex, c.st, p)[4], Link) for p in at): return contract(c)
            return Enter(c.name, c.args)
        return h
    def copy_contract(self, c):
        ex, st = c.ex, c.st
        dst, src = c.args[0], c.args[1]
        path, et, pt, tm, a = self.get(ex, st, src)
        ex.check_ptr(st, dst, self.k['ev.size'], 'construction')
        if isinstance(a, Link): na = self.new_link(ex, st, a.t)
        elif isinstance(a, Ptr) and a.null: na = NULL
        else: raise Undecided('copy of an event with a known associated event, by contract')
        ex.wipe(st, dst, self.k['ev.size'])
        self.fill(ex, st, dst, path, et, pt, tm, na)
        return None
    def eq_of(self, ex, st, l, r):
        L, R = self.get(ex, st, l), self.get(ex, st, r)
        f = [str_eq(ex, L[0], R[0])] + [tobv(L[i], w) == tobv(R[i], w) for i, w in ((1, 32), (2, 32), (3, 64))]
        a, b = L[4], R[4]
        if isinstance(a, Link) and isinstance(b, Link): f.append(chain_eq(a.t, b.t))
        elif isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.null or b.null: f.append(z3.BoolVal(a.null and b.null))
            else: f.append(self.eq_of(ex, st, a, b))
        else: raise Undecided('comparison of a known and an unknown chain')
        return z3.And(*f)
    def eq_contract(self, c):
        return simp(self.eq_of(c.ex, c.st, c.args[0], c.args[1]))
    def del_contract(self, c):
        ex, st = c.ex, c.st
        p = c.args[0]
        a = self.get(ex, st, p)[4]
        if isinstance(a, Link):
            ls = st.ghost.get('sym:links', ())
            if a.oid not in ls: ex.mem_fault(st, 'associated event released twice')
            st.ghost['sym:links'] = tuple(x for x in ls if x != a.oid)
        elif not (isinstance(a, Ptr) and a.null): raise Undecided('destruction by contract of a known chain')
        ex.wipe(st, p, self.k['ev.size'])
        return None
    def ctor(self, *params):
        """mangled names of the event constructors taking these parameters"""
        out = []
        for n in self.mod.funcs:
            k, ps = split_name(self.mod.dem.get(n, n))
            if k == 'wtr::watcher::event::event' and len(ps) == len(params) and all(re.search(a, b) for a, b in zip(params, ps)): out.append(n)
        return out
    def value_overrides(self):
        o = {}
        for n in self.ctor(r'event const&$'): o[n] = self.nested('copy', self.copy_contract)
        for n in tree.find(self.mod, 'wtr::watcher::event::~event'): o[n] = self.nested('del', self.del_contract)
        for n in tree.find(self.mod, 'wtr::watcher::operator=='):
            if all('event const&' in p for p in split_name(self.mod.dem[n])[1]): o[n] = self.nested('eq', self.eq_contract)
        return o
    def call(self, ex, fn, args, st):
        names = tree.find(self.mod, fn)
        if not names: raise tree.Broken('%s not found' % fn)
        return ex.run(names[0], args, st)
    def owned(self, st, before):
        """heap objects made since"""
        return [o for o, v in st.mem.items() if o not in before and v.kind in ('heap', 'malloc')]

class EventVal(EventUnit):
    name = 'eventval'
    tu = 'event'
    tags = {'COPY': ('C12',), 'MAKE': ('C12',), 'EQ': ('C12',), 'OWN': ('C12',), 'MEM': ('C12',)}
    covers = ('copy with associated', 'copy without', 'equal', 'different')
    needs = ('event::event', 'operator==', 'operator!=', 'event::~event')
    def overrides(self): return self.value_overrides()

    def source(self, ex, kind, name):
        st = ex.base.clone()
        a = None
        if kind: a = self.opaque_event(ex, st, name + '_assoc')
        return st, self.new_event(ex, st, name, a)

    def same_event(self, ex, st, got, want, what, tag, skip_time=False):
        """got has want's fields; an associated event of its own"""
        names = ('name', 'effect', 'path kind', 'time')
        for i, w in ((0, 0), (1, 32), (2, 32), (3, 64)):
            if i == 3 and skip_time: continue
            e = str_eq(ex, got[0], want[0]) if i == 0 else tobv(got[i], w) == tobv(want[i], w)
            ex.ob(st, '%s: same %s' % (what, names[i]), e, (tag,), assume=False)

    def same_chain(self, ex, st, a, b, what, tag):
        """a is a deep copy of b (b alive)"""
        if isinstance(b, Ptr) and b.null:
            ex.ob(st, '%s: no associated event where there was none' % what, isinstance(a, Ptr) and a.null, (tag,), assume=False); return
        if isinstance(b, Link):
            ex.ob(st, '%s: deep copy of the associated event' % what, isinstance(a, Link) and a.t.eq(b.t) and a.oid != b.oid, (tag,), assume=False); return
        ok = isinstance(a, Ptr) and not a.null
        ex.ob(st, '%s: an associated event where there was one' % what, ok, (tag,))
        ex.ob(st, '%s: the associated event is a copy of its own' % what, a.obj != b.obj and st.mem.get(a.obj) is not None and st.mem[a.obj].kind == 'heap' and a.off == 0, (tag,))
        ga, gb = self.get(ex, st, a), self.get(ex, st, b)
        self.same_event(ex, st, ga, gb, what + ', associated event', tag)
        self.same_chain(ex, st, ga[4], gb[4], what + ', associated event', tag)

    def unchanged(self, ex, st, p, before, what):
        now = self.get(ex, st, p)
        self.same_event(ex, st, now, before, what + ' leaves its source alone', 'COPY')
        ex.ob(st, what + ' leaves its source alone: associated event', type(now[4]) is type(before[4]) and (now[4].t.eq(before[4].t) and now[4].oid == before[4].oid if isinstance(now[4], Link) else now[4].obj == before[4].obj), ('COPY',), assume=False)

    def main(self, ex):
        k = self.k
        for kind in (0, 1):
            # copy
            st, src = self.source(ex, kind, 'from')
            before = self.get(ex, st, src)
            out = ex.new_obj(st, k['ev.size'], 'new event', 'heap')
            base = set(st.mem)
            for s, r in self.call(ex, 'vp_e_copy', [Ptr(out, 0), src], st):
                got = self.get(ex, s, Ptr(out, 0))
                self.same_event(ex, s, got, before, 'copy', 'COPY')
                self.same_chain(ex, s, got[4], before[4], 'copy', 'COPY')
                self.unchanged(ex, s, src, before, 'copy')
                ex.ob(s, 'copy: owns nothing but its associated event', len(self.owned(s, base)) == kind, ('OWN',), assume=False)
                ex.cover('copy with associated' if kind else 'copy without')
                self.destroy(ex, s, Ptr(out, 0), base, 'copy')
            # with an associated event: the base's own associated event does not matter
            for akind in (0, 1):
                st, bs = self.source(ex, kind, 'base')
                aa = self.opaque_event(ex, st, 'given_assoc') if akind else None
                asc = self.new_event(ex, st, 'given', None if not akind else self.new_link(ex, st, z3.Const('chain_given', STRLINK)))
                bb, ab = self.get(ex, st, bs), self.get(ex, st, asc)
                out = ex.new_obj(st, k['ev.size'], 'new event', 'heap')
                base = set(st.mem)
                for s, r in self.call(ex, 'vp_e_with', [Ptr(out, 0), bs, asc], st):
                    got = self.get(ex, s, Ptr(out, 0))
                    self.same_event(ex, s, got, bb, 'event with an associated one', 'MAKE', skip_time=True)
                    self.clock(ex, s, got, 'event with an associated one')
                    a = got[4]
                    ok = isinstance(a, Ptr) and not a.null and a.obj != asc.obj and a.off == 0
                    ex.ob(s, 'event with an associated one: has one of its own', ok, ('MAKE',))
                    ga = self.get(ex, s, a)
                    self.same_event(ex, s, ga, ab, 'event with an associated one: the associated event', 'MAKE')
                    if akind: ex.ob(s, 'event with an associated one: keeps the associated event\'s own', isinstance(ga[4], Link) and ga[4].t.eq(z3.Const('chain_given', STRLINK)), ('MAKE',), assume=False)
                    else: ex.ob(s, 'event with an associated one: adds nothing to the associated event', isinstance(ga[4], Ptr) and ga[4].null, ('MAKE',), assume=False)
                    ex.ob(s, 'event with an associated one: owns nothing but that', len(self.owned(s, base)) == 1, ('OWN',), assume=False)
                    self.destroy(ex, s, Ptr(out, 0), base, 'event with an associated one')
        # from its fields
        st = ex.base.clone()
        pp = ex.new_obj(st, 40, 'path argument', 'heap'); st.mem[pp].cells[0] = (40, Text(Str.sym(z3.Const('path_arg', STR)), 'path'))
        et, pt = z3.BitVec('et_arg', 32), z3.BitVec('pt_arg', 32)
        out = ex.new_obj(st, k['ev.size'], 'new event', 'heap')
        base = set(st.mem)
        for s, r in self.call(ex, 'vp_e_mk', [Ptr(out, 0), Ptr(pp, 0), et, pt], st):
            got = self.get(ex, s, Ptr(out, 0))
            self.same_event(ex, s, got, [Str.sym(z3.Const('path_arg', STR)), et, pt], 'event from fields', 'MAKE', skip_time=True)
            self.clock(ex, s, got, 'event from fields')
            ex.ob(s, 'event from fields: no associated event', isinstance(got[4], Ptr) and got[4].null, ('MAKE',), assume=False)
            ex.ob(s, 'event from fields: owns nothing', not self.owned(s, base), ('OWN',), assume=False)
            self.destroy(ex, s, Ptr(out, 0), base, 'event from fields')
        # equality
        for lk in (0, 1):
            for rk in (0, 1):
                st = ex.base.clone()
                l = self.new_event(ex, st, 'l', self.opaque_event(ex, st, 'l_assoc') if lk else None)
                r = self.new_event(ex, st, 'r', self.opaque_event(ex, st, 'r_assoc') if rk else None)
                self.compare(ex, st, l, r)
        # an event and itself, or its copy
        st, e = self.source(ex, 1, 'e')
        self.compare(ex, st, e, e)

    def compare(self, ex, st, l, r):
        want = self.eq_of(ex, st, l, r)
        for fn, w, txt in (('vp_e_eq', want, '== tells whether all fields agree'), ('vp_e_ne', z3.Not(want), '!= is the negation of ==')):
            s0 = st.clone()
            base = set(s0.mem)
            for s, v in self.call(ex, fn, [l, r], s0):
                ex.ob(s, 'equality: ' + txt, tobool(v) == w, ('EQ',), assume=False)
                ex.ob(s, 'equality: leaves nothing behind', not self.owned(s, base), ('OWN',), assume=False)
                if fn == 'vp_e_eq':
                    b = tobool(v)
                    s1 = s.clone()
                    if not ex.valid(s1, z3.Not(b)): ex.cover('equal')
                    if not ex.valid(s1, b): ex.cover('different')

    def clock(self, ex, st, got, what):
        nows = [t[1] for t in st.trace if t[0] == 'now']
        ex.ob(st, what + ': its time is read from the clock', z3.Or(*[tobv(got[3], 64) == t for t in nows]) if nows else False, ('MAKE',), assume=False)

    def destroy(self, ex, st, p, base, what):
        links = st.ghost.get('sym:links', ())
        got = self.get(ex, st, p)
        for s, r in self.call(ex, 'vp_e_del', [p], st.clone()):
            o = s.mem.get(p.obj)
            left = o is not None and any(isinstance(v, Text) for n, v in o.cells.values())
            ex.ob(s, what + ': destruction releases its name', not left, ('OWN',), assume=False)
            ex.ob(s, what + ': destruction releases its associated event', not self.owned(s, base), ('OWN',), assume=False)
            now = s.ghost.get('sym:links', ())
            mine = 0
            a = got[4]
            if isinstance(a, Ptr) and not a.null:
                b = self.get(ex, st, a)[4]
                mine = 1 if isinstance(b, Link) else 0
                if mine: ex.ob(s, what + ': destruction releases the chain behind its associated event', b.oid not in now, ('OWN',), assume=False)
            ex.ob(s, what + ': destruction releases nothing else', len(now) == len(links) - mine, ('OWN',), assume=False)

# ================================================================ renderings
ET = (('rename', 'rename'), ('modify', 'modify'), ('create', 'create'), ('destroy', 'destroy'), ('owner', 'owner'), ('other', 'other'))
PT = (('dir', 'dir'), ('file', 'file'), ('hard_link', 'hard_link'), ('sym_link', 'sym_link'), ('watcher', 'watcher'), ('other', 'other'))

etword = z3.Function('effect_word', z3.BitVecSort(32), STR)
ptword = z3.Function('kind_word', z3.BitVecSort(32), STR)
def settext_new(c, p, s): c.ex.setghost(c.st, p, 32, Text(s, 'string'))

class EscPlan(loops.LoopPlan):
    """a loop that builds the escaped form of a text: after i characters the text
    built is the escaped form of the first i"""
    name = 'escape'
    def __init__(self, unit, wide): self.unit, self.wide, self.heads, self.cut = unit, wide, {}, None
    def texts(self, st):
        out = []
        for oid, o in st.mem.items():
            for off, (n, v) in o.cells.items():
                if isinstance(v, Text) and len(v.s.p) == 1 and v.s.p[0][0] == 's' and v.kind == 'string': out.append(v.s.p[0][1])
        return list({t.get_id(): t for t in out}.values())
    def entry(self, ex, st):
        from .stdmodel import data_of
        class C: pass
        c = C(); c.ex, c.st = ex, st
        c.dem = 'wchar_t' if self.wide else 'char'
        for oid in list(st.mem):
            for off, (n, v) in list(st.mem[oid].cells.items()):
                if isinstance(v, Text) and v.kind == 'string' and v.buf is None and len(v.s.p) == 1 and v.s.p[0][0] == 's': data_of(c, Ptr(oid, off), 'string')
    def candidates(self, ex, cut):
        self.cut = cut
        out = []
        for k, c in cut.cells.items():
            if c.kind == 'int' and c.size == 8:
                for S in self.texts(cut.entry):
                    out.append((('len', k, S.sexpr()), lambda st, c=c, S=S: None if not loops.isint(cut.cellval(st, c)) else z3.ULE(tobv(cut.cellval(st, c), 64), slen(S))))
                for kk, d in cut.cells.items():
                    if d.kind == 'text':
                        for S in self.texts(cut.entry): out.append((('esc', kk, k, S.sexpr()), lambda st, c=c, d=d, S=S: self.rel(ex, st, c, d, S)))
        return out
    def rel(self, ex, st, c, d, S):
        i, v = self.cut.cellval(st, c), self.cut.cellval(st, d)
        if not isinstance(v, Text) or not loops.isint(i): return None
        i = tobv(i, 64)
        p = v.s.p
        if not p: return i == 0
        if p[0][0] != 's': return z3.BoolVal(False)
        key = (p[0][1].get_id(), S.get_id())
        if len(p) == 1 and key not in self.heads:
            self.heads[key] = (i, p[0][1])
            return z3.BoolVal(True)
        if key not in self.heads: return z3.BoolVal(False)
        ih = self.heads[key][0]
        if len(p) == 1: return i == ih
        ch = simp((wcharat if self.wide else charat)(S, ih))
        return z3.And(i == ih + 1, esc_of(ex, p[1:], ch, self.wide))
    def exit(self, ex, st):
        for k, c in self.cut.cells.items():
            if c.kind != 'text': continue
            v = self.cut.cellval(st, c)
            if not isinstance(v, Text): continue
            done = False
            for name, fn in self.cut.live_cands():
                if name[0] != 'esc' or name[1] != k: continue
                S = [t for t in self.texts(self.cut.entry) if t.sexpr() == name[3]][0]
                key = (v.s.p[0][1].get_id() if v.s.p else None, S.get_id())
                if key not in self.heads: continue
                if ex.valid(st, self.heads[key][0] == slen(S)):
                    r = (wjesc if self.wide else jesc)(S)
                    class C: pass
                    cc = C(); cc.ex, cc.st = ex, st
                    settext(cc, Ptr(c.oid, c.off), Str([('s', r)] + list(v.s.p[1:])), v.kind)
                    done = True; break
                ex.ob(st, 'rendering: the whole name is written', False, ('TEXT',), assume=False)
            if not done: raise Undecided('what the loop over a text builds is not known')

def esc_of(ex, pieces, ch, wide):
    """condition: these pieces are the escaped form of the one character ch"""
    w = 32 if wide else 8
    conds = []
    special = list(range(0x20)) + [0x22, 0x5c]
    for v in special:
        got = bytearray(); ok = True
        for kind, x in pieces:
            if kind == 'l': got += x; continue
            if z3.is_app(x) and x.decl().name() in ('one', 'one32'):
                e = z3.simplify(z3.substitute(x.arg(0), (ch, z3.BitVecVal(v, w))))
                if z3.is_bv_value(e) and e.as_long() < 128: got.append(e.as_long()); continue
            ok = False; break
        if not ok or bytes(got) != escbytes(v): conds.append(ch != v)
    plain = z3.And(*[ch != v for v in special])
    if len(pieces) == 1 and pieces[0][0] == 's' and z3.is_app(pieces[0][1]) and pieces[0][1].decl().name() == ('one32' if wide else 'one'):
        conds.append(z3.Or(z3.Not(plain), pieces[0][1].arg(0) == ch))
    else: conds.append(z3.Not(plain))
    return z3.And(*conds)

class RenderBase(EventUnit):
    def unroll(self, ex, st, key):
        """a loop over the characters of a number is short; one over a given text is not"""
        d = self.mod.dem.get(key[0], key[0])
        return 0 if any('basic_string' in p for p in split_name(d)[1]) else 40
    def loop_plan(self, ex, st, key):
        d = self.mod.dem.get(key[0], key[0])
        p = EscPlan(self, 'wchar_t' in d)
        return p
    def word(self, ex, st, v, table, pre):
        """the documented word of an enumerator, on this path"""
        v = tobv(v, 32)
        for nm, w in table:
            if ex.valid(st, v == self.k[pre + nm]): return w
        if ex.valid(st, z3.And(*[v != self.k[pre + nm] for nm, w in table])): return 'other'
        # not settled on this path
        if ex.valid(st, z3.Or(v == self.k[pre + 'other'], z3.And(*[v != self.k[pre + nm] for nm, w in table]))): return 'other'
        return None
    def texts_overrides(self):
        """the renderings of parts, by their contract (proved on their own) inside the event's"""
        o = {}
        for n in self.mod.funcs:
            k, ps = split_name(self.mod.dem.get(n, n))
            if k == 'wtr::to' and len(ps) == 1 and ps[0].endswith(('event::effect_type', 'event::path_type')) and 'basic_string_view' not in self.mod.dem[n].split('wtr::to')[0]:
                o[n] = self.part(etword if ps[0].endswith('effect_type') else ptword)
            elif k.endswith('::json_escape') and len(ps) == 1: o[n] = self.escaped
        return o
    def part(self, fn):
        def h(c):
            if not self.modular: return Enter(c.name, c.args)
            v = c.args[1]
            settext_new(c, c.args[0], Str.sym(fn(tobv(v, 32))))
        return h
    def escaped(self, c):
        if not self.modular: return Enter(c.name, c.args)
        s = gettext(c, c.args[1]).s
        if s.literal is not None: settext_new(c, c.args[0], Str.lit(b''.join(escbytes(b) for b in s.literal))); return
        t = s.term(c.ex)
        # the words need no escaping: none of them has a byte to escape
        if z3.is_app(t) and t.decl().eq(etword) or z3.is_app(t) and t.decl().eq(ptword): settext_new(c, c.args[0], s); return
        f = wjesc if 'wchar_t' in c.dem.split('(anonymous')[0] else jesc
        settext_new(c, c.args[0], Str.sym(f(s.term(c.ex))))
    modular = False
    def words(self, ex, st, v, table, pre):
        if self.modular: return Str.sym((etword if pre == 'et.' else ptword)(tobv(v, 32)))
        w = self.word(ex, st, v, table, pre)
        if w is None:
            ex.ob(st, 'rendering: the word depends on the value', False, ('TEXT',)); raise PathEnd()
        return Str.lit(w)
    def esc(self, path, wide):
        ex = self.ex
        t = path.term(ex)
        return Str.sym(wjesc(widen(t))) if wide else Str.sym(jesc(t))
    def want_event(self, ex, st, p, wide):
        path, et, pt, tm, a = self.get(ex, st, p)
        def three(path, et, pt):
            return Str.lit('{"effect_type":"') + self.words(ex, st, et, ET, 'et.') + Str.lit('","path_name":"') + self.esc(path, wide) + Str.lit('","path_type":"') + self.words(ex, st, pt, PT, 'pt.') + Str.lit('"')
        s = Str.lit('"') + Str.sym(decs(tobv(tm, 64))) + Str.lit('":') + three(path, et, pt)
        if not a.null:
            g = self.get(ex, st, a)
            s = s + Str.lit(',"associated":') + three(*g[:3]) + Str.lit('}')
        return s + Str.lit('}')

class Render(RenderBase):
    name = 'render'
    tu = 'event'
    tags = {'TEXT': ('C11',), 'OWN': ('C11',), 'MEM': ('C11',)}
    wide = (False,)
    covers = ('event', 'event with associated', 'effect', 'kind', 'time', 'name', 'streamed')
    needs = ('to', 'num_to_str', 'json_escape', 'operator<<')
    pre = {False: ('vp_s_', 'vp_sv_', 'vp_o_'), True: ('vp_w_', 'vp_wv_', 'vp_ow_')}
    def overrides(self): return dict(self.value_overrides(), **self.texts_overrides())

    def result(self, ex, st, out):
        v = ex.getcell(st, Ptr(out, 0))
        if isinstance(v, Text): return v.s
        if v is None: ex.mem_fault(st, 'no text was made')
        raise Undecided('rendered text')
    def view(self, ex, st, out, wide):
        n = ex.load(st, Ptr(out, 0), 8); q = ex.load(st, Ptr(out, 8), 8)
        class C: pass
        c = C(); c.ex, c.st = ex, st
        from .stdmodel import bytes_text
        return bytes_text(c, q, n, wide=wide)

    def main(self, ex):
        self.ex = ex
        for wide in self.wide:
            s_, sv_, o_ = self.pre[wide]
            nm = 'wide rendering' if wide else 'rendering'
            self.modular = False
            et, pt, tm = z3.BitVec('et', 32), z3.BitVec('pt', 32), z3.BitVec('time', 64)
            def check(s, got, want, what):
                ex.ob(s, '%s: %s' % (nm, what), str_eq(ex, got, want), ('TEXT',), assume=False)
            for fn, v, tab, pre, what in (('et', et, ET, 'et.', 'effect'), ('pt', pt, PT, 'pt.', 'kind')):
                st = ex.base.clone(); out = ex.new_obj(st, 32, 'text', 'heap')
                for s, r in self.call(ex, s_ + fn, [Ptr(out, 0), v], st):
                    check(s, self.result(ex, s, out), self.words(ex, s, v, tab, pre), 'the documented word of the %s' % what); ex.cover(what)
                st = ex.base.clone(); out = ex.new_obj(st, 16, 'view', 'heap')
                for s, r in self.call(ex, sv_ + fn, [Ptr(out, 0), v], st):
                    check(s, self.view(ex, s, out, wide), self.words(ex, s, v, tab, pre), 'the documented word of the %s (view)' % what)
                st = ex.base.clone(); out = ex.new_obj(st, 8, 'stream', 'heap')
                for s, r in self.call(ex, o_ + fn, [Ptr(out, 0), v], st):
                    self.streamed(ex, s, Ptr(out, 0), r, self.words(ex, s, v, tab, pre), nm, what)
            st = ex.base.clone(); out = ex.new_obj(st, 32, 'text', 'heap')
            for s, r in self.call(ex, s_ + 'tm', [Ptr(out, 0), tm], st):
                check(s, self.result(ex, s, out), Str.sym(decs(tm)), 'exactly the decimal digits of the time'); ex.cover('time')
            st = ex.base.clone(); out = ex.new_obj(st, 32, 'text', 'heap')
            pp = ex.new_obj(st, 40, 'path argument', 'heap'); P = z3.Const('P', STR); st.mem[pp].cells[0] = (40, Text(Str.sym(P), 'path'))
            for s, r in self.call(ex, s_ + 'pn', [Ptr(out, 0), Ptr(pp, 0)], st):
                check(s, self.result(ex, s, out), Str.sym(widen(P) if wide else P), 'the name itself'); ex.cover('name')
            self.modular = False
            esc = [n for n in self.mod.funcs if split_name(self.mod.dem.get(n, n))[0].endswith('::json_escape') and ('wchar_t' in self.mod.dem[n].split('(anonymous')[0]) == wide]
            for n in esc:
                st = ex.base.clone(); out = ex.new_obj(st, 32, 'text', 'heap')
                src = ex.new_obj(st, 32, 'name', 'heap'); N = z3.Const('name', STR); st.mem[src].cells[0] = (32, Text(Str.sym(N), 'string'))
                for s, r in ex.run(n, [Ptr(out, 0), Ptr(src, 0)], st):
                    check(s, self.result(ex, s, out), Str.sym((wjesc if wide else jesc)(N)), 'the JSON string form of every name')
                ex.cover('escape')
            self.modular = True
            for kind in (0, 1):
                for str_ in (0, 1):
                    st = ex.base.clone()
                    e = self.new_event(ex, st, 'e', self.opaque_event(ex, st, 'a') if kind else None)
                    out = ex.new_obj(st, 8 if str_ else 32, 'stream' if str_ else 'text', 'heap')
                    base = set(st.mem)
                    for s, r in self.call(ex, (o_ if str_ else s_) + 'ev', [Ptr(out, 0), e], st):
                        want = self.want_event(ex, s, e, wide)
                        if str_: self.streamed(ex, s, Ptr(out, 0), r, want, nm, 'event')
                        else: check(s, self.result(ex, s, out), want, 'the event as documented')
                        ex.ob(s, nm + ': leaves nothing behind', not self.owned(s, base), ('OWN',), assume=False)
                        ex.cover('event with associated' if kind else 'event')
    def streamed(self, ex, s, stream, r, want, nm, what):
        outs = [t for t in s.trace if t[0] == 'out']
        got = Str()
        for t in outs: got = got + t[2]
        ex.ob(s, '%s: streaming the %s writes its text' % (nm, what), str_eq(ex, got, want), ('TEXT',), assume=False)
        ex.ob(s, '%s: streaming returns the stream' % nm, isinstance(r, Ptr) and r.obj == stream.obj and r.off == 0, ('TEXT',), assume=False)
        ex.cover('streamed')

class RenderWide(Render):
    name = 'renderwide'
    wide = (True,)

# ================================================================ C interface
class CApi(EventUnit):
    name = 'capi'
    tu = 'capi'
    tags = {'CB': ('C13',), 'OPEN': ('C13',), 'CLOSE1': ('C13',), 'MEM': ('C13',), 'OWN': ('C13',)}
    covers = ('opened', 'event', 'event with associated', 'closed null', 'closed cleanly', 'closed badly')
    needs = ('wtr_watcher_open', 'wtr_watcher_close')

    def overrides(self):
        o = dict(self.value_overrides())
        o['wtr::watcher::watch::watch'] = self.w_ctor
        o['wtr::watcher::watch::close'] = self.w_close
        o['wtr::watcher::watch::~watch'] = self.w_dtor
        return o
    # contracts of wtr::watch (C01, C02)
    def w_ctor(self, c):
        ex, st = c.ex, c.st
        path = text_of(c, c.args[1], c.params[0])
        fv = ex.getcell(st, c.args[2])
        if not isinstance(fv, FuncVal): raise Undecided('callback given to watch')
        ex.setghost(st, c.args[0], 1, Watching())
        st.trace.append(('watch', c.args[0], path, fv))
        return None
    def alive(self, c, what):
        v = c.ex.getcell(c.st, c.args[0])
        if not isinstance(v, Watching): c.ex.mem_fault(c.st, '%s of a watch that is not alive' % what)
    def w_close(self, c):
        self.alive(c, 'close')
        r = c.choose(2)
        c.st.trace.append(('wclose', r))
        return r
    def w_dtor(self, c):
        self.alive(c, 'destruction')
        c.ex.delcell(c.st, c.args[0])
        c.st.trace.append(('wdtor',))
    def indirect(self, c, v):
        ex, st = c.ex, c.st
        ex.ob(st, 'callback: the function given at opening is called', isinstance(v, Ptr) and v.obj == self.cb, ('CB',))
        self.called(c)
        return None

    def called(self, c):
        ex, st, k = c.ex, c.st, self.k
        ev, cx = c.args[0], c.args[1]
        ex.ob(st, 'callback: with the context given at opening', isinstance(cx, Ptr) and cx.obj == self.cx and cx.off == 0, ('CB',), assume=False)
        path, et, pt, tm, a = st.ghost['sym:event']
        def cptr(f):
            q = ex.load(st, ex.padd(ev, k['c.' + f]), 8)
            if isinstance(q, Undef): ex.mem_fault(st, 'event field never initialised (%s)' % f)
            if isinstance(q, int): q = Ptr(None, q)
            return q
        def num(f, n):
            v = ex.load(st, ex.padd(ev, k['c.' + f]), n)
            if isinstance(v, Undef): ex.mem_fault(st, 'event field never initialised (%s)' % f)
            return tobv(v, 8 * n)
        p = cptr('path')
        ex.ob(st, 'callback: the event has its path', not p.null and str_eq(ex, read_cstr(c, p), path), ('CB',), assume=False)
        q = cptr('assoc')
        if isinstance(a, Ptr) and a.null: ex.ob(st, 'callback: no associated path where there is none', q.null, ('CB',), assume=False)
        else:
            ap = self.get(ex, st, a)[0]
            ex.ob(st, 'callback: the associated path where there is one', not q.null and str_eq(ex, read_cstr(c, q), ap), ('CB',), assume=False)
        ex.ob(st, 'callback: the time of the event', num('time', 8) == tobv(tm, 64), ('CB',), assume=False)
        for f, v, tab in (('et', et, ET), ('pt', pt, PT)):
            got = num(f, 1)
            ex.ob(st, 'callback: the %s code the header names' % ('effect' if f == 'et' else 'path kind'),
                  z3.And(*[z3.Implies(tobv(v, 32) == k['%s.%s' % (f, w)], got == bvv(k['c.%s.%s' % (f, w)], 8)) for w, _ in tab]), ('CB',), assume=False)
        st.trace.append(('ccb',))

    def main(self, ex):
        k = self.k
        st = ex.base.clone()
        P = z3.Const('P', STR)
        pbuf = ex.new_obj(st, None, 'path argument', 'heap'); st.mem[pbuf].cells[0] = (1 << 20, CBuf(Str.sym(P), None))
        self.cb = ex.new_obj(st, None, 'C callback', 'func'); self.cx = ex.new_obj(st, None, 'context', 'heap')
        base = set(st.mem)
        for s, w in self.call(ex, 'wtr_watcher_open', [Ptr(pbuf, 0), Ptr(self.cb, 0), Ptr(self.cx, 0)], st):
            ws = [t for t in s.trace if t[0] == 'watch']
            ex.ob(s, 'open: exactly one watch is started', len(ws) == 1, ('OPEN',))
            _, wp, path, fv = ws[0]
            ex.ob(s, 'open: on exactly the given path', str_eq(ex, path, Str.sym(P)), ('OPEN',), assume=False)
            ex.ob(s, 'open: returns that watch', isinstance(w, Ptr) and w.obj == wp.obj and w.off == wp.off and s.mem.get(w.obj) is not None and s.mem[w.obj].kind == 'heap', ('OPEN',))
            ex.ob(s, 'open: keeps nothing else', set(self.owned(s, base)) <= {w.obj}, ('OWN',), assume=False)
            ex.cover('opened')
            ex.kill(s, pbuf)
            for kind in (0, 1):
                s1 = s.clone()
                e = self.new_event(ex, s1, 'e', self.opaque_event(ex, s1, 'a') if kind else None)
                s1.ghost['sym:event'] = self.get(ex, s1, e)
                b1 = set(s1.mem)
                if fv.kind != 'closure': raise Undecided('callback given to watch')
                for pres in (0, 1):         # a second event is handled like the first
                    outs = []
                    for s2 in ([s1] if pres == 0 else outs1):
                        s2.trace.append(('event',))
                        for s3, r in ex.run(fv.target, [Ptr(fv.oid, 0), e], s2):
                            i = max(i for i, t in enumerate(s3.trace) if t[0] == 'event')
                            ex.ob(s3, 'callback: called exactly once per event', sum(t[0] == 'ccb' for t in s3.trace[i:]) == 1, ('CB',), assume=False)
                            ex.ob(s3, 'callback: leaves nothing behind', not self.owned(s3, b1), ('OWN',), assume=False)
                            outs.append(s3)
                            ex.cover('event with associated' if kind else 'event')
                    outs1 = outs
            # closing
            n0 = len(s.trace)
            for s2, r in self.call(ex, 'wtr_watcher_close', [w], s.clone()):
                seg = s2.trace[n0:]
                cl = [t[1] for t in seg if t[0] == 'wclose']
                ex.ob(s2, 'close: the watch is closed once', len(cl) == 1, ('CLOSE1',))
                ex.ob(s2, 'close: true exactly when it stopped cleanly', tobool(r) == bool(cl[0]), ('CLOSE1',), assume=False)
                if cl[0]:
                    ex.ob(s2, 'close: then its memory is released once', w.obj not in s2.mem and sum(t[0] == 'wdtor' for t in seg) == 1, ('CLOSE1', 'OWN'), assume=False)
                    ex.cover('closed cleanly')
                else:
                    ex.ob(s2, 'close: a watch that did not stop cleanly stays valid', w.obj in s2.mem and not any(t[0] == 'wdtor' for t in seg), ('CLOSE1',), assume=False)
                    ex.cover('closed badly')
        for s2, r in self.call(ex, 'wtr_watcher_close', [NULL], ex.base.clone()):
            ex.ob(s2, 'close: false for null, and nothing is done', z3.And(z3.Not(tobool(r)), z3.BoolVal(not s2.trace)), ('CLOSE1',), assume=False)
            ex.cover('closed null')

class Watching(Ghost):
    __slots__ = ()
    def __repr__(self): return 'watch'

def text_of(c, p, ty):
    from .stdmodel import text_arg
    return text_arg(c, p, ty)

# ================================================================ command line tool
cjson = z3.Function('json_of', STR, z3.BitVecSort(32), z3.BitVecSort(32), z3.BitVecSort(64), STRLINK, STR)
UNITS_NS = {'-nanoseconds': 1, '-ns': 1, '-microseconds': 10**3, '-us': 10**3, '-milliseconds': 10**6, '-ms': 10**6, '-seconds': 10**9, '-s': 10**9,
            '-minutes': 60 * 10**9, '-m': 60 * 10**9, '-hours': 3600 * 10**9, '-h': 3600 * 10**9, '-days': 86400 * 10**9, '-d': 86400 * 10**9,
            '-weeks': 7 * 86400 * 10**9, '-w': 7 * 86400 * 10**9, '-months': 30 * 86400 * 10**9, '-mts': 30 * 86400 * 10**9,
            '-years': 365 * 86400 * 10**9, '-y': 365 * 86400 * 10**9}
MAXNS = (1 << 63) - 1
strtodF = z3.Function('strtod', STR, z3.Float64())
lroundF = z3.Function('llround', z3.Float64(), z3.BitVecSort(64))

class Cli(RenderBase):
    name = 'cli'
    tu = 'cli'
    logic = None
    tags = {'JSON': ('C14',), 'TEXT': ('C14',), 'ARGS': ('C14',), 'RUN': ('C14',), 'MEM': ('C14',), 'OWN': ('C14',)}
    covers = ('line', 'line with associated', 'help', 'no path', 'timed', 'untimed', 'clean', 'unclean')
    needs = ('main', 'Args::try_parse', 'json')
    modular = True

    def overrides(self):
        o = dict(self.value_overrides(), **self.texts_overrides())
        o['wtr::watcher::watch::watch'] = self.w_ctor
        o['wtr::watcher::watch::close'] = self.w_close
        o['wtr::watcher::watch::~watch'] = self.w_dtor
        o['std::this_thread::sleep_for'] = self.sleep
        o['std::istream::get'] = o['std::basic_istream::get'] = self.getc
        o['strtod'] = self.strtod
        o['llroundl'] = o['llround'] = o['lroundl'] = o['lround'] = o['std::llround'] = o['std::lround'] = self.llround
        for n in tree.find(self.mod, 'json'): o[n] = self.json
        return o
    w_ctor, w_close, w_dtor, alive = CApi.w_ctor, CApi.w_close, CApi.w_dtor, CApi.alive
    def json(self, c):
        ex, st = c.ex, c.st
        path, et, pt, tm, a = self.get(ex, st, c.args[1])
        if isinstance(a, Link):
            settext_new(c, c.args[0], Str.sym(cjson(path.term(ex), tobv(et, 32), tobv(pt, 32), tobv(tm, 64), a.t))); return
        return Enter(c.name, c.args)
    def sleep(self, c):
        m = re.search(r'ratio<(\d+)l?, *(\d+)l?>', c.dem)
        v = c.ex.load(c.st, c.args[0], 8)
        if not m: raise Undecided('sleep_for of %s' % c.dem[:80])
        n, d = int(m.group(1)), int(m.group(2))
        if (n, d) != (1, 10**9): raise Undecided('sleep in other units')
        c.st.trace.append(('sleep', tobv(v, 64)))
    def getc(self, c):
        c.st.trace.append(('getc',)); return c.ex.fresh('char', 32)
    def strtod(self, c):
        ex, st = c.ex, c.st
        s = read_cstr(c, c.args[0])
        if isinstance(c.args[1], Ptr) and not c.args[1].null: ex.store(st, c.args[1], 8, c.args[0])
        if s.literal is not None:
            try: return z3.FPVal(float(s.literal.decode().strip() or '0'), z3.Float64())
            except ValueError: raise Undecided('number %r' % s)
        return strtodF(s.term(ex))
    def llround(self, c):
        ex, st = c.ex, c.st
        v = c.args[0]
        # back to the double it came from
        if v.sort() != z3.Float64():
            w = z3.simplify(z3.fpFPToFP(z3.RNE(), v, z3.Float64())) if z3.is_fp_value(v) else None
            if w is not None and z3.is_true(z3.simplify(z3.fpEQ(z3.fpFPToFP(z3.RNE(), w, v.sort()), v))): v = w
            elif z3.is_app(v) and v.decl().kind() == z3.Z3_OP_FPA_TO_FP and v.arg(v.num_args() - 1).sort() == z3.Float64(): v = v.arg(v.num_args() - 1)
            else: raise Undecided('rounding of a long double')
        r = lroundF(v)
        st.pc.append(z3.Implies(v > 0, r >= 0)) if False else None
        two63 = z3.FPVal(2.0 ** 63, z3.Float64())
        ex.ob(st, 'arguments: a number is rounded only within range', z3.And(z3.fpLT(v, two63), z3.fpGEQ(v, z3.fpNeg(two63))), ('ARGS',))
        st.pc.append(z3.Implies(z3.fpGT(v, z3.FPVal(0.0, z3.Float64())), r >= 0))
        import math
        for u in sorted(set(UNITS_NS.values())):
            k = MAXNS // u
            f = float(k)
            below = math.nextafter(f, 0)
            assert round_away(below) <= k
            st.pc.append(z3.Implies(z3.fpLT(v, z3.FPVal(f, z3.Float64())), r <= bvv(k, 64)))
        return r

    def want_json(self, ex, st, e):
        path, et, pt, tm, a = self.get(ex, st, e)
        self.ex = ex
        s = Str.lit('{"path_type":"') + self.words(ex, st, pt, PT, 'pt.') + Str.lit('","path_name":"') + self.esc(path, False) + Str.lit('","effect_type":"') + self.words(ex, st, et, ET, 'et.') + Str.lit('","effect_time":') + Str.sym(decs(tobv(tm, 64))) + Str.lit(',"associated":')
        if isinstance(a, Ptr) and a.null: s = s + Str.lit('null')
        elif isinstance(a, Link): s = Str.sym(cjson(path.term(ex), tobv(et, 32), tobv(pt, 32), tobv(tm, 64), a.t)); return s
        else: s = s + self.want_json(ex, st, a)
        return s + Str.lit('}')

    def main(self, ex):
        self.ex = ex
        for argc in (1, 2, 3, 4, 5): self.one_run(ex, argc)

    def one_run(self, ex, argc):
        k = self.k
        st = ex.base.clone()
        A = [z3.Const('A%d' % i, STR) for i in range(5)]
        av = ex.new_obj(st, 8 * (argc + 1), 'argv', 'heap')
        for i in range(argc):
            b = ex.new_obj(st, None, 'argument %d' % i, 'heap'); st.mem[b].cells[0] = (1 << 20, CBuf(Str.sym(A[i]), None))
            st.mem[av].cells[8 * i] = (8, Ptr(b, 0))
        st.mem[av].cells[8 * argc] = (8, NULL)
        base = set(st.mem)
        for s, r in self.call(ex, 'main', [argc, Ptr(av, 0)], st):
            rc = tobv(r, 32)
            ws = [(i, t) for i, t in enumerate(s.trace) if t[0] == 'watch']
            sl = [(i, t) for i, t in enumerate(s.trace) if t[0] == 'sleep']
            gc = [i for i, t in enumerate(s.trace) if t[0] == 'getc']
            cl = [(i, t) for i, t in enumerate(s.trace) if t[0] == 'wclose']
            outs = [t for t in s.trace if t[0] == 'out']
            exi = [t for t in s.trace if t[0] == 'exists']
            cwd = [t for t in s.trace if t[0] == 'cwd']
            is_help = z3.Or(A[1] == ex.lit(b'-h'), A[1] == ex.lit(b'--help')) if argc >= 2 else z3.BoolVal(False)
            if argc >= 2 and ex.valid(s, is_help):
                if argc > 2: continue
                ex.ob(s, 'arguments: asking for help prints it and succeeds', z3.And(rc == 0, z3.BoolVal(bool(outs) and not ws and all(isinstance(t[1], str) and 'cout' in t[1] for t in outs) and helps(outs))), ('ARGS',), assume=False)
                ex.cover('help'); continue
            ex.ob(s, 'arguments: -h or --help is told from a path', z3.Not(is_help), ('ARGS',))
            if argc < 2: path, found = (cwd[0][1] if cwd else None), True
            else:
                mine = [t for t in exi if ex.valid(s, str_eq(ex, t[1], Str.sym(A[1])))]
                ex.ob(s, 'arguments: the path is looked for', bool(mine), ('ARGS',))
                path, found = Str.sym(A[1]), tobool(mine[0][3])
            f = z3.BoolVal(found) if isinstance(found, bool) else found
            if not ws:
                ex.ob(s, 'arguments: only a missing path is not watched', z3.Not(f), ('ARGS',), assume=False)
                ex.ob(s, 'arguments: a missing path prints the help and fails', z3.And(rc != 0, z3.BoolVal(bool(outs) and helps(outs))), ('ARGS',), assume=False)
                ex.ob(s, 'arguments: nothing is waited for without a watch', not sl and not gc, ('ARGS',), assume=False)
                ex.cover('no path'); continue
            ex.ob(s, 'arguments: an existing path is watched', f, ('ARGS',), assume=False)
            ex.ob(s, 'run: exactly one watch', len(ws) == 1, ('RUN',))
            wi, (_, wp, wpath, fv) = ws[0]
            ex.ob(s, 'arguments: the given path, or the current directory, is watched', path is not None and str_eq(ex, wpath, path), ('ARGS',), assume=False)
            ex.ob(s, 'run: the watch is closed once, and released', len(cl) == 1 and sum(t[0] == 'wdtor' for t in s.trace) == 1, ('RUN',))
            ci, (_, cr) = cl[0]
            ex.ob(s, 'run: the exit status tells whether the watch stopped cleanly', (rc == 0) == bool(cr), ('RUN',), assume=False)
            ex.cover('clean' if cr else 'unclean')
            # time
            ex.ob(s, 'run: waits once, between opening and closing', len(sl) + len(gc) == 1 and all(wi < i < ci for i in gc + [i for i, _ in sl]), ('RUN',))
            num = strtodF(A[3]) if argc > 3 else z3.FPVal(0.0, z3.Float64())
            inf = z3.FPVal(float('inf'), z3.Float64())
            positive = z3.And(z3.fpGT(num, z3.FPVal(0.0, z3.Float64())), z3.fpLT(num, inf))
            if gc:
                ex.ob(s, 'arguments: waits for input only when no positive time was given', z3.Not(positive), ('ARGS',), assume=False); ex.cover('untimed')
            else:
                ex.ob(s, 'arguments: waits for a time only when a positive one was given', positive, ('ARGS',), assume=False); ex.cover('timed')
                d = sl[0][1][1]
                if not z3.is_expr(d) and not isinstance(d, int): ex.ob(s, 'arguments: the time waited for is known', False, ('ARGS',), assume=False); continue
                if argc <= 3: continue
                # the unit named, on every way the name may still be on this path
                L = lroundF(num)
                for un, cond in unit_cases(ex, A[2]):
                    if not ex.feasible(s, cond): continue
                    s2 = s.clone(); s2.pc.append(cond)
                    kmax = MAXNS // un
                    ex.ob(s2, 'arguments: the time is that many of the unit, or the longest there is', z3.Or(z3.And(L >= 0, L <= bvv(kmax, 64), d == L * bvv(un, 64)),
                                                                                                          z3.And(z3.fpGEQ(num, z3.FPVal(float(kmax), z3.Float64())), d == bvv(MAXNS, 64))), ('ARGS',), assume=False)
            ex.ob(s, 'run: nothing is left behind', not self.owned(s, base), ('OWN',), assume=False)
            ex.ob(s, 'run: nothing else is printed', not outs, ('RUN',), assume=False)
            if argc == 1 and cr: self.lines(ex, s, fv)

    def lines(self, ex, s0, fv):
        """what the callback prints"""
        if fv.kind != 'closure': raise Undecided('callback given to watch')
        for kind in (0, 1):
            s = s0.clone()
            if fv.oid not in s.mem: raise Undecided('closure gone')
            e = self.new_event(ex, s, 'e', self.opaque_event(ex, s, 'a') if kind else None)
            base = set(s.mem); n0 = len(s.trace)
            for s2, r in ex.run(fv.target, [Ptr(fv.oid, 0), e], s):
                outs = [t for t in s2.trace[n0:] if t[0] == 'out']
                got = Str()
                for t in outs: got = got + t[2]
                ex.ob(s2, 'lines: one line of JSON for the event', str_eq(ex, got, self.want_json(ex, s2, e) + Str.lit('\n')), ('JSON',), assume=False)
                ex.ob(s2, 'lines: on standard output, written through', all('cout' in str(t[1]) for t in outs) and any(t[0] == 'flush' and 'cout' in str(t[1]) for t in s2.trace[n0:]), ('JSON',), assume=False)
                ex.ob(s2, 'lines: leaves nothing behind', not self.owned(s2, base), ('OWN',), assume=False)
                ex.cover('line with associated' if kind else 'line')

def unit_cases(ex, a):
    out = []
    for u in sorted(set(UNITS_NS.values())): out.append((u, z3.Or(*[a == ex.lit(nm.encode()) for nm, v in UNITS_NS.items() if v == u])))
    return out + [(10**6, z3.And(*[a != ex.lit(nm.encode()) for nm in UNITS_NS]))]

def round_away(x):
    import math
    f = math.floor(abs(x) + 0) if abs(x) >= 2 ** 52 else math.floor(abs(x) + 0.5)
    return int(f)

def helps(outs):
    txt = b''.join(t[2].literal or b'' for t in outs)
    return b'wtr.watcher' in txt and b'--help' in txt
