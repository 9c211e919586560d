"""Verification conditions of script code (Python, TypeScript): shared part.
The interpreters of vp/pyexec.py and vp/tsexec.py execute the real source, statement by
statement, on values that are unknown; a branch on an unknown value is taken both ways
(the run is repeated per decision), and z3 decides every obligation for all values at once."""
import time, z3
from .sym import Undecided

TXT = z3.DeclareSort('Txt')
EMPTY = z3.Const('empty_text', TXT)
MAXPATHS = 4000

class Dead(Exception): pass                # this path cannot happen
class SInt:
    """an unknown integer"""
    def __init__(self, t): self.t = t
    def __repr__(self): return 'int<%s>' % self.t
class SBool:
    def __init__(self, t): self.t = t
    def __repr__(self): return 'bool<%s>' % self.t
class SText:
    """text made of known pieces and unknown ones; kind str or bytes"""
    def __init__(self, parts, kind='str'):
        out = []
        for k, v in parts:
            if k == 'l':
                if not v: continue
                if out and out[-1][0] == 'l': out[-1] = ('l', out[-1][1] + v); continue
            out.append((k, v))
        self.p, self.kind = out, kind
    def __repr__(self): return self.kind + '<' + ''.join(str(v) for k, v in self.p) + '>'
    @property
    def literal(self):
        if not self.p: return '' if self.kind == 'str' else b''
        return self.p[0][1] if len(self.p) == 1 and self.p[0][0] == 'l' else None
    @property
    def atom(self): return self.p[0][1] if len(self.p) == 1 and self.p[0][0] == 's' else None
def sym(t, kind='str'): return SText([('s', t)], kind)

fconcat = z3.Function('text_cat', TXT, TXT, TXT)

class World:
    """one verification run: obligations, covers, solver"""
    def __init__(self, props, deadline):
        self.props, self.deadline = props, deadline
        self.obls, self.covers, self.contracts, self.functions, self.assumptions = {}, {}, {}, set(), set()
        self.s = z3.Solver(); self.s.set('timeout', 10000)
        self.nq, self.t, self.lits, self.base = 0, 0.0, {}, []
        self.paths = 0
        self.path = None
        self.memo = {}
    def lit(self, v):
        """the constant of a known text (different texts, different constants)"""
        if not v: return EMPTY
        k = v if isinstance(v, bytes) else ('s', v)
        if k not in self.lits:
            c = z3.Const('lit!%d' % len(self.lits), TXT)
            for o in list(self.lits.values()) + [EMPTY]: self.base.append(c != o)
            self.lits[k] = c
        return self.lits[k]
    def term(self, x):
        """term of a text value"""
        if isinstance(x, (str, bytes)): return self.lit(x)
        if x.literal is not None: return self.lit(x.literal)
        t = None
        for k, v in x.p:
            u = v if k == 's' else self.lit(v)
            t = u if t is None else fconcat(t, u)
        return t
    def check(self, extra):
        key = tuple(c.get_id() for c in self.path.pc) + (-1,) + tuple(c.get_id() for c in extra) + (len(self.base),)
        if key in self.memo: return self.memo[key][0]
        t0 = time.time()
        self.s.push()
        for c in self.base: self.s.add(c)
        for c in self.path.pc: self.s.add(c)
        for c in extra: self.s.add(c)
        r = str(self.s.check())
        self.s.pop()
        self.nq += 1; self.t += time.time() - t0
        self.memo[key] = (r, list(self.path.pc), list(extra))
        return r
    def ob(self, name, cond, detail='', where=''):
        if isinstance(cond, SBool): cond = cond.t
        if isinstance(cond, bool): r = 'ok' if cond else 'fail'
        else: r = {'unsat': 'ok', 'sat': 'fail'}.get(self.check([z3.Not(cond)]), 'unknown')
        if r == 'fail' and cond is False and self.check([]) == 'unsat': r = 'ok'
        d = detail + ('' if r == 'ok' else '\nhistory: ' + '; '.join(str(x)[:160] for x in self.path.trace[-14:]))
        model = None
        if r == 'fail':
            self.s.push()
            for c in self.base + self.path.pc + ([z3.Not(cond)] if not isinstance(cond, bool) else []): self.s.add(c)
            if self.s.check() == z3.sat:
                m = self.s.model(); model = sorted('%s = %s' % (x.name(), m[x]) for x in m.decls() if x.arity() == 0)[:40]
            self.s.pop()
        self.obls.setdefault((name, where), []).append(dict(name=name, props=self.props, tags=(), status=r, where=where, detail=d, model=model, time=0))
        return r == 'ok'
    def cover(self, n): self.covers[n] = self.covers.get(n, 0) + 1
    def contract(self, n): self.contracts[n] = self.contracts.get(n, 0) + 1
    def explore(self, fn):
        """every path of fn(path)"""
        work = [[]]
        out = []
        while work:
            if time.time() > self.deadline: raise Undecided('out of time')
            self.paths += 1
            if self.paths > MAXPATHS: raise Undecided('too many paths')
            p = Path(self, work.pop(), work)
            self.path = p
            try: out.append(fn(p))
            except Dead: pass
        return out
    def result(self, unit, t0, covers, undecided=None, trace=None):
        obls = []
        for (n, w), l in self.obls.items():
            bad = [o for o in l if o['status'] != 'ok']
            obls += bad[:3] or []
            obls += [o for o in l if o['status'] == 'ok']
        missing = [c for c in covers if c not in self.covers]
        if undecided is None and not obls: undecided = 'no obligation was generated'
        if undecided is None and missing: undecided = 'vacuous: never reached: ' + ', '.join(missing)
        if undecided is None and any(o['status'] == 'unknown' for o in obls): undecided = 'solver gave no answer on: ' + next(o['name'] for o in obls if o['status'] == 'unknown')
        return dict(unit=unit, tree='both', undecided=undecided, obls=obls, functions=sorted(self.functions), contracts=dict(self.contracts), assumptions=sorted(self.assumptions),
                    covers=dict(self.covers), missing=missing, loops=[], solver_time=self.t, queries=self.nq, wall=time.time() - t0, trace=trace)

class Path:
    def __init__(self, w, dec, work):
        self.w, self.dec, self.work, self.k = w, dec, work, 0
        self.pc, self.trace, self.n, self.ghost = [], [], 0, {}
    def fresh(self, name, sort=None):
        self.n += 1
        return z3.Const('%s!%d' % (name, self.n), TXT if sort is None else sort)
    def branch(self, c):
        if isinstance(c, SBool): c = c.t
        if isinstance(c, bool): return c
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        if self.k < len(self.dec):
            d = self.dec[self.k]; self.k += 1
            if isinstance(d, str): return d == 'yes'          # the other side cannot happen: nothing is learnt
            self.pc.append(c if d else z3.Not(c)); return d
        t, f = self.w.check([c]) != 'unsat', self.w.check([z3.Not(c)]) != 'unsat'
        if not t and not f: raise Dead()
        if t and f:
            self.work.append(self.dec[:self.k] + [False])
            self.dec = self.dec[:self.k] + [True]; self.k += 1
            self.pc.append(c); return True
        self.dec = self.dec[:self.k] + ['yes' if t else 'no']; self.k += 1
        return t
    def choose(self, n):
        if n == 1: return 0
        if self.k < len(self.dec):
            d = self.dec[self.k]; self.k += 1; return d
        for j in range(n - 1, 0, -1): self.work.append(self.dec[:self.k] + [j])
        self.dec = self.dec[:self.k] + [0]; self.k += 1
        return 0
    def assume(self, c):
        self.pc.append(c)
        if self.w.check([]) == 'unsat': raise Dead()
    def text_eq(self, a, b):
        if isinstance(a, (str, bytes)) and isinstance(b, (str, bytes)): return a == b
        x, y = self.w.term(a), self.w.term(b)
        return True if x.eq(y) else x == y
