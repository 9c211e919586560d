"""C17: watcher-py/watcher/watcher.py, executed by vp/pyexec.py against contracts of ctypes,
os, enum, dataclasses and the C interface. What holds in every reachable state of a Watch
(the states are enumerated until no operation leads to a new one) holds after every history."""
import ast, os, re, time, json, subprocess, traceback
import z3
from . import tree
from .sym import Undecided
from .script import *
from . import pyexec as X
from .pyexec import *

COVERS = ('constructed', 'library missing', 'open failed', 'closed', 'closed again', 'event', 'event while opening', 'event while closing', 'event without associated path', 'event of a name that is not UTF-8', 'dropped', 'dropped after a failed start', 'entered', 'left', 'second watch', 'json', 'json without associated path')

class CType:
    def __init__(self, name, size, kind, signed=True): self.name, self.size, self.kind, self.signed = name, size, kind, signed
    def __repr__(self): return 'c_' + self.name
    def py_call(self, it, a, kw):
        if kw or len(a) > 1: raise Undecided('ctypes value')
        return CVal(self, a[0] if a else None)
    def py_attr(self, it, n): raise Undecided('ctypes.%s.%s' % (self, n))
class CVal:
    def __init__(self, t, v): self.t, self.v = t, v
    def py_attr(self, it, n):
        if n == 'value': return self.v
        raise Undecided('ctypes value attribute')
CT = {}
for n, s, k, g in (('int8', 1, 'i', 1), ('byte', 1, 'i', 1), ('uint8', 1, 'i', 0), ('ubyte', 1, 'i', 0), ('int16', 2, 'i', 1), ('short', 2, 'i', 1), ('uint16', 2, 'i', 0), ('ushort', 2, 'i', 0), ('int32', 4, 'i', 1), ('int', 4, 'i', 1),
                   ('uint32', 4, 'i', 0), ('uint', 4, 'i', 0), ('int64', 8, 'i', 1), ('long', 8, 'i', 1), ('longlong', 8, 'i', 1), ('ssize_t', 8, 'i', 1), ('uint64', 8, 'i', 0), ('ulong', 8, 'i', 0), ('ulonglong', 8, 'i', 0), ('size_t', 8, 'i', 0),
                   ('char_p', 8, 'charp', 0), ('wchar_p', 8, 'wcharp', 0), ('void_p', 8, 'ptr', 0), ('bool', 1, 'bool', 0), ('char', 1, 'char', 0), ('double', 8, 'float', 0), ('float', 4, 'float', 0)):
    CT[n] = CType(n, s, k, bool(g))
class CFuncType:
    def __init__(self, res, args): self.res, self.args = res, args
    def __repr__(self): return 'CFUNCTYPE(%r, %r)' % (self.res, self.args)
    def py_call(self, it, a, kw):
        if len(a) != 1 or kw or isinstance(a[0], int): raise Undecided('a function pointer is made')
        return CCallback(self, a[0])
    def py_attr(self, it, n): raise Undecided('CFUNCTYPE.' + n)
class CCallback:
    def __init__(self, t, f): self.t, self.f = t, f
    def __repr__(self): return '<C callback %r>' % self.f
    def py_call(self, it, a, kw): raise Undecided('a C callback is called from Python')
class Lib:
    def __init__(self): self.fns = {}
    def py_attr(self, it, n): return self.fns.setdefault(n, CFn(n))
    def py_index(self, it, n): return CFn(n)
    def py_setattr(self, it, n, v): raise Undecided('library attribute set')
class CFn:
    def __init__(self, n): self.n, self.argtypes, self.restype = n, None, CT['int']
    def py_attr(self, it, n):
        if n in ('argtypes', 'restype'): return getattr(self, n)
        if n == '__name__': return self.n
        raise Undecided('foreign function attribute ' + n)
    def py_setattr(self, it, n, v):
        if n not in ('argtypes', 'restype'): raise Undecided('foreign function attribute ' + n)
        setattr(self, n, list(v) if n == 'argtypes' and v is not None else v)
    def py_call(self, it, a, kw):
        if kw: raise Undecided('keyword arguments of a foreign function')
        return it.job.foreign(it, self, a)
class NS:
    """plain object with attributes"""
    def __init__(self, d): self.d = d
    def py_attr(self, it, n):
        if n in self.d: return self.d[n]
        raise Undecided('attribute ' + n)

def header():
    """layout and codes, from the real C header"""
    h = os.path.join(tree.REPO, 'watcher-c/include/wtr/watcher-c.h')
    d = tree.scratch()
    names = dict(EFFECT=('RENAME', 'MODIFY', 'CREATE', 'DESTROY', 'OWNER', 'OTHER'), PATH=('DIR', 'FILE', 'HARD_LINK', 'SYM_LINK', 'WATCHER', 'OTHER'))
    fields = ('effect_time', 'path_name', 'associated_path_name', 'effect_type', 'path_type')
    src = '#include <stdio.h>\n#include <stddef.h>\n#include "%s"\nint main(void){' % h
    for f in fields: src += 'printf("%s %%zu %%zu\\n", offsetof(struct wtr_watcher_event, %s), sizeof(((struct wtr_watcher_event*)0)->%s));' % (f, f, f)
    for k, l in names.items():
        for n in l: src += 'printf("%s.%s %%d 0\\n", WTR_WATCHER_%s_%s);' % (k, n, k, n)
    src += 'return 0;}'
    p = os.path.join(d, 'layout.c'); open(p, 'w').write(src)
    r = subprocess.run(['gcc', '-w', p, '-o', p + '.out'], capture_output=True, text=True)
    if r.returncode: raise tree.Broken('the C header does not compile: ' + r.stderr[:200])
    out = {}
    for l in subprocess.run([p + '.out'], capture_output=True, text=True).stdout.split('\n'):
        if l:
            n, a, b = l.split(); out[n] = (int(a), int(b))
    return {f: out[f] for f in fields}, {n[7:]: v[0] for n, v in out.items() if n.startswith('EFFECT.')}, {n[5:]: v[0] for n, v in out.items() if n.startswith('PATH.')}

class Watched:
    """what the specification knows of one watch"""
    def __init__(self, n):
        self.n, self.obj, self.handle, self.cb, self.status = n, None, None, None, 'new'

NAMES = {}
class Restart(Exception): pass
class Job:
    def __init__(self, deadline):
        self.w = World(('C17',), deadline)
        self.file = os.path.join(tree.REPO, 'watcher-py/watcher/watcher.py')
        try: self.tree = ast.parse(open(self.file, encoding='utf-8').read())
        except SyntaxError as e: raise tree.Broken('watcher.py: %s' % e)
        self.layout, self.effects, self.kinds = header()
        self.seen_fns = set()

    # ---------------------------------------------------------------- dependencies
    def modules(self, it):
        p = it.path; w = self.w
        def text(n): return lambda it, a, kw: (w.contract(n), sym(p.fresh(n.replace('.', '_'))))[1]
        def b(n, f): return Builtin(n, lambda it, a, kw: (w.contract(n), f(*a, **kw))[1])
        def exists(x):
            r = p.branch(p.fresh('exists', z3.BoolSort()))
            if not r: p.ghost['excuse'] = 'library missing'; 
            return r
        def cdll(*a, **kw):
            if p.choose(2) == 1:
                p.ghost['excuse'] = 'library missing'; it.raise_(OSError, 'cannot open shared object file')
            p.trace.append(('load',)); return Lib()
        def enc(s):
            if X.istext(s) and X.textkind(s) == 'bytes': return s
            return it.encode(s, 'utf-8', 'surrogateescape') if isinstance(s, SText) else it.raise_(TypeError, 'fsencode')
        def dec(s): return it.decode(s, 'utf-8', 'surrogateescape') if isinstance(s, SText) and s.kind == 'bytes' else s
        def dumps(v, **kw):
            bad = set(kw) - {'separators', 'ensure_ascii', 'indent', 'sort_keys'}
            if bad: raise Undecided('json.dumps(%s)' % ', '.join(bad))
            return mktext(self.dump(it, v), 'str')
        def structlike(): return None
        uname = lambda: NS(dict(sysname=sym(p.fresh('sysname')), machine=sym(p.fresh('machine')), release=sym(p.fresh('release')), nodename=sym(p.fresh('nodename')), version=sym(p.fresh('version'))))
        osp = Mod('os.path', {n: Builtin('os.path.' + n, text('os.path.' + n)) for n in ('dirname', 'abspath', 'realpath', 'join', 'basename', 'normpath')})
        osp.attrs.update(exists=b('os.path.exists', exists), isfile=b('os.path.isfile', exists), lexists=b('os.path.lexists', exists))
        lock = lambda: NS({'__enter__': b('enter', lambda: True), '__exit__': b('exit', lambda *a: None), 'acquire': b('acquire', lambda *a: True), 'release': b('release', lambda: None)})
        cty = {'c_' + n: t for n, t in CT.items()}
        cty.update(Structure=X.STRUCT, CFUNCTYPE=Builtin('CFUNCTYPE', lambda it, a, kw: CFuncType(a[0], a[1:])), CDLL=b('ctypes.CDLL', cdll), PyDLL=Builtin('PyDLL', None), ArgumentError=TypeError,
                   cdll=NS(dict(LoadLibrary=b('ctypes.CDLL', cdll))), c_voidp=CT['void_p'], POINTER=Builtin('POINTER', None))
        json_ = Mod('json', dict(dumps=b('json.dumps', dumps), JSONDecodeError=ValueError))
        sysm = Mod('sys', dict(platform=sym(p.fresh('platform')), argv=['watcher.py'], stdout=OPAQUE, stderr=OPAQUE, version_info=(3, 12), maxsize=2 ** 63 - 1, byteorder='little'))
        m = {'ctypes': Mod('ctypes', cty), 'os': Mod('os', dict(path=osp, uname=b('os.uname', uname), fsencode=b('os.fsencode', enc), fsdecode=b('os.fsdecode', dec), sep='/', name='posix')), 'os.path': osp, 'sys': sysm, 'json': json_,
             'typing': Opq(), 'collections.abc': Opq(), 'types': Opq(), 'abc': Opq(),
             'dataclasses': Mod('dataclasses', dict(dataclass=Builtin('dataclass', lambda it, a, kw: a[0] if a else X.DATACLASS))), 
             'enum': Mod('enum', dict(Enum=X.ENUM, auto=Builtin('auto', lambda it, a, kw: X.AUTO), unique=Builtin('unique', lambda it, a, kw: a[0]))),
             'threading': Mod('threading', dict(Lock=b('threading.Lock', lock), RLock=b('threading.RLock', lock))),
             'platform': Mod('platform', dict(system=Builtin('platform.system', text('platform.system')), machine=Builtin('platform.machine', text('platform.machine')))),
             'warnings': Mod('warnings', dict(warn=b('warnings.warn', lambda *a, **k: None)))}
        return m
    def dump(self, it, v):
        if v is None: return [('l', 'null')]
        if isinstance(v, (bool, int, float, str)): return [('l', json.dumps(v))]
        if isinstance(v, SBool): return [('l', 'true' if it.path.branch(v) else 'false')]
        if isinstance(v, SInt): return it.tostr(v).p
        if isinstance(v, SText) and v.kind == 'str':
            if v.atom is None: raise Undecided('json of composed text')
            t = jdump(v.atom); X.atoms[t.get_id()] = ('json', v, t)
            return [('s', t)]
        if isinstance(v, dict):
            out = [('l', '{')]
            for i, (k, x) in enumerate(v.items()):
                if not isinstance(k, str): raise Undecided('json key')
                out += [('l', (', ' if i else '') + json.dumps(k) + ': ')] + self.dump(it, x)
            return out + [('l', '}')]
        if isinstance(v, (list, tuple)):
            out = [('l', '[')]
            for i, x in enumerate(v): out += ([('l', ', ')] if i else []) + self.dump(it, x)
            return out + [('l', ']')]
        it.raise_(TypeError, 'not JSON serializable')

    # ---------------------------------------------------------------- the C interface
    def narrow(self, it, t, v):
        """what C sees of a number given with (or without) an argument type; None is null"""
        if isinstance(v, CVal): t, v = v.t, v.v
        if v is None: return z3.IntVal(0)
        x = it.inum(v)
        if x is None: it.raise_(TypeError, 'argument type')
        if t is not None and isinstance(t, CType) and t.size == 8 and t.kind in ('i', 'ptr'): return x % (1 << 64)
        lo = x % (1 << 32)
        return z3.If(lo < (1 << 31), lo, lo + ((1 << 64) - (1 << 32)))
    def result(self, it, fn, v):
        """a 64-bit result as Python sees it through the declared type"""
        t = fn.restype
        if t is None: return None
        if not isinstance(t, CType): raise Undecided('result type')
        if t.kind == 'ptr':
            return SInt(v) if it.path.branch(v != 0) else None
        if t.kind == 'bool': return SBool(v % 256 != 0)
        if t.kind != 'i': raise Undecided('result type %r' % t)
        m = 1 << (8 * t.size)
        lo = v % m
        return SInt(z3.If(lo < m // 2, lo, lo - m) if t.signed else lo)
    def foreign(self, it, fn, a):
        p = it.path; w = self.w; where = 'line %d' % it.line
        at = fn.argtypes
        if at is not None and len(a) < len(at): it.raise_(TypeError, 'this function takes at least %d arguments' % len(at))
        T = lambda i: at[i] if at is not None and i < len(at) else None
        w.contract(fn.n)
        if fn.n == 'wtr_watcher_open':
            w.ob('open: three arguments are given', len(a) == 3, where=where)
            if len(a) != 3: raise Dead()
            path, cb = a[0], a[1]
            if isinstance(path, CVal): t0, path = path.t, path.v
            else: t0 = T(0)
            w.ob('open: the path is given as bytes', X.istext(path) and X.textkind(path) == 'bytes' and (t0 is None or t0 in (CT['char_p'], CT['void_p'])), where=where)
            ok = isinstance(cb, CCallback) and (T(1) is None or T(1) is cb.t)
            if isinstance(cb, CCallback) and T(1) is not None and not ok and isinstance(T(1), CFuncType): it.raise_(TypeError, 'argument type')
            w.ob('open: the callback is a C callback of the declared type', ok, where=where)
            if not ok: raise Dead()
            self.signature(it, cb)
            cur = p.ghost['starting']
            w.ob('open: a watch is opened while it is constructed, once', cur is not None and cur.status == 'new', where=where)
            if cur is None or cur.status != 'new': raise Dead()
            if X.istext(path) and X.textkind(path) == 'bytes' and isinstance(path, SText):
                t = w.term(path)
                w.ob('open: the path is the one given', z3.Implies(uencok(cur.path), t == uenc(cur.path)), where=where)
                w.ob('open: a path is not cut at a NUL', z3.Not(hasnul(t)), where=where)
            else: w.ob('open: the path is the one given', False, where=where)
            p.trace.append(('open', path))
            if p.choose(2) == 1:
                cur.status = 'open failed'; p.ghost['excuse'] = 'open failed'
                return self.result(it, fn, z3.IntVal(0))
            h = p.fresh('handle', z3.IntSort())
            p.pc.append(z3.And(h > 0, h < (1 << 64)))
            for o in p.ghost['watches']:
                if o.status == 'open': p.pc.append(h != o.handle)
            cur.handle, cur.cb, cur.status = h, cb, 'open'
            if p.choose(2) == 1: self.event(it, cur, 'event while opening')
            return self.result(it, fn, h)
        if fn.n == 'wtr_watcher_close':
            w.ob('close: one argument is given', len(a) == 1, where=where)
            if len(a) != 1: raise Dead()
            v = self.narrow(it, T(0), a[0])
            if z3.is_true(z3.simplify(v == 0)):
                return self.result(it, fn, z3.IntVal(0))
            live = [o for o in p.ghost['watches'] if o.status == 'open']
            allowed = p.ghost.get('closing')
            w.ob('close: the watcher closed is the open one of this watch', allowed is not None and allowed.status == 'open' and (v == allowed.handle), where=where)
            if allowed is None or allowed.status != 'open': raise Dead()
            p.assume(v == allowed.handle)
            w.ob('close: the callback is kept until the watcher is closed', self.reachable(it, allowed.cb), where=where)
            p.trace.append(('close', allowed.n))
            if p.choose(2) == 1: self.event(it, allowed, 'event while closing')
            allowed.status = 'closed'; allowed.closes = getattr(allowed, 'closes', 0) + 1
            r = p.fresh('clean', z3.IntSort()); p.pc.append(z3.And(r >= 0, r <= 1))
            return self.result(it, fn, r)
        raise Undecided('foreign function %s' % fn.n)
    def signature(self, it, cb):
        t = cb.t
        ok = t.res is None and len(t.args) == 2 and isinstance(t.args[0], PyClass) and t.args[0].native(X.STRUCT) and isinstance(t.args[1], CType) and t.args[1].size == 8
        self.w.ob('open: the callback takes an event and a context and returns nothing', ok)
        if not ok: raise Dead()
        f = t.args[0].find('_fields_')
        if t.args[0].find('_pack_') is not None or not isinstance(f, (list, tuple)): raise Undecided('structure')
        off = 0; lay = {}; al = 1
        for x in f:
            if len(x) != 2 or not isinstance(x[1], CType): raise Undecided('structure field')
            n, ct = x
            off = (off + ct.size - 1) // ct.size * ct.size
            al = max(al, ct.size)
            lay[n] = (off, ct); off += ct.size
        self.w.ob('open: the event structure has the size of the C one', (off + al - 1) // al * al == 32, 'size %d' % off)
        return lay
    def reachable(self, it, target):
        todo = [o.obj for o in it.path.ghost['watches'] if o.obj is not None] + [it.glob] + list(it.frames)
        seen = set()
        while todo:
            x = todo.pop()
            if id(x) in seen: continue
            seen.add(id(x))
            if x is target: return True
            if isinstance(x, PyObj): todo += list(x.d.values()) + [x.cls]
            elif isinstance(x, PyClass): todo += list(x.ns.values())
            elif isinstance(x, dict): todo += list(x.values()) + list(x.keys())
            elif isinstance(x, (list, tuple, set)): todo += list(x)
            elif isinstance(x, Env): todo += list(x.v.values()) + ([x.up] if x.up is not None and x.up is not it.glob else [])
            elif isinstance(x, PyFunc): todo += [x.env] if x.env is not it.glob else []
            elif isinstance(x, Bound): todo += [x.f, x.me]
            elif isinstance(x, CCallback): todo.append(x.f)
        return False

    # ---------------------------------------------------------------- events
    def event(self, it, who, cover):
        """the C interface calls the callback with any event"""
        p = it.path; w = self.w
        lay = self.signature(it, who.cb)
        before = self.state(it)
        if not self.full:
            # the same state was met on another path: this event was, or will be, judged there
            key = ('event', who.n, cover, before); d = tuple(p.dec[:p.k])
            if self.known.setdefault(key, d) != d: raise Dead()
        time_ = p.fresh('time', z3.IntSort()); p.pc.append(z3.And(time_ >= -(1 << 63), time_ < (1 << 63)))
        name, assoc = p.fresh('name'), p.fresh('associated')
        isnull = p.fresh('associated_null', z3.BoolSort())
        et, pt = p.fresh('effect', z3.IntSort()), p.fresh('kind', z3.IntSort())
        for v, codes in ((et, self.effects), (pt, self.kinds)): p.pc.append(z3.Or(*[v == c for c in codes.values()]))
        p.pc.append(uvalid(EMPTY)); p.pc.append(udec(EMPTY) == EMPTY)
        ev = PyObj(who.cb.t.args[0])
        at = {o: n for n, (o, s) in self.layout.items()}
        null = p.branch(isnull)
        for n, (o, ct) in lay.items():
            f = at.get(o); v = None; junk = False
            if f == 'effect_time' and ct.kind == 'i' and ct.size == 8: v = SInt(time_) if ct.signed else SInt(z3.If(time_ < 0, time_ + (1 << 64), time_))
            elif f in ('effect_type', 'path_type') and ct.kind == 'i' and ct.size == 1: v = SInt(et if f == 'effect_type' else pt)
            elif f == 'path_name' and ct.kind == 'charp': v = sym(name, 'bytes')
            elif f == 'associated_path_name' and ct.kind == 'charp': v = None if null else sym(assoc, 'bytes')
            elif ct.kind == 'i': v = SInt(p.fresh('junk', z3.IntSort())); 
            elif ct.kind == 'bool': v = SBool(p.fresh('junk', z3.BoolSort()))
            elif ct.kind == 'charp': v = sym(p.fresh('junk'), 'bytes')
            else: raise Undecided('structure field of type %r' % ct)
            ev.d[n] = v
        n0 = len(p.trace)
        saved, p.ghost['closing'] = p.ghost.get('closing'), None
        frames = it.frames; it.frames = []
        try:
            it.call(who.cb.f, [ev, None], {})
            raised = None
        except PyRaise as r: raised = r.exc
        it.frames = frames
        p.ghost['closing'] = saved
        w.ob('event: telling it does not fail', raised is None, repr(raised))
        got = [t for t in p.trace[n0:] if t[0] == 'callback']
        w.ob('event: told exactly once', len(got) == 1 if raised is None else True)
        w.ob('event: no watcher is opened or closed by it', not any(t[0] in ('open', 'close') for t in p.trace[n0:]))
        try: self.told(it, who, cover, raised, got, time_, name, assoc, et, pt, null)
        finally:
            # an event which leaves everything as it was: the run goes on without it
            if self.state(it) == before: raise Dead()
            if not self.full: raise Restart()
    def told(self, it, who, cover, raised, got, time_, name, assoc, et, pt, null):
        w = self.w
        if raised is not None or len(got) != 1: return
        _, who2, e = got[0]
        w.ob('event: told to the callback given', who2 == who.n)
        if not isinstance(e, PyObj): w.ob('event: told as an event', False); return
        self.judge(it, e, time_, name, None if null else assoc, et, pt)
        w.cover('event'); w.cover(cover)
        if null: w.cover('event without associated path')
        if not null and w.check([z3.Not(uvalid(name))]) == 'sat' or null and w.check([z3.Not(uvalid(name))]) == 'sat': w.cover('event of a name that is not UTF-8')
        # its JSON
        m = it.attr_(e, 'to_json')
        if m is X.MISSING: raise Undecided('to_json')
        try: j = it.call(m, [], {})
        except PyRaise as r: w.ob('json: rendering does not fail', False, repr(r.exc)); return
        self.judge_json(it, j, e, time_, et, pt)
    def field(self, it, e, n):
        v = it.attr_(e, n)
        self.w.ob('event: has the field %s' % n, v is not X.MISSING)
        return v
    def judge(self, it, e, time_, name, assoc, et, pt):
        w = self.w; p = it.path
        v = self.field(it, e, 'effect_time'); x = it.inum(v) if not isinstance(v, Marker) else None
        w.ob('event: same time', x == time_ if x is not None else False)
        v = self.field(it, e, 'path_name')
        ok = X.istext(v) and X.textkind(v) == 'str'
        w.ob('event: same path name', z3.Implies(uvalid(name), w.term(v) == udec(name)) if ok else False)
        v = self.field(it, e, 'associated_path_name')
        if assoc is None: w.ob('event: no associated path when there is none', v is None)
        elif v is None: w.ob('event: the associated path is told', assoc == EMPTY)
        else:
            ok = X.istext(v) and X.textkind(v) == 'str'
            w.ob('event: same associated path', z3.Implies(uvalid(assoc), w.term(v) == udec(assoc)) if ok else False)
        for n, codes, cls, c in (('effect_type', self.effects, 'EffectType', et), ('path_type', self.kinds, 'PathType', pt)):
            v = self.field(it, e, n)
            C = it.glob.v.get(cls)
            if not isinstance(C, PyClass) or not C.native(X.ENUM): raise Undecided('%s is not an enumeration' % cls)
            want = [(k, code) for k, code in codes.items() if C.members.get(k) is v and v is not None]
            w.ob('event: same %s' % n.replace('_', ' '), z3.Or(*[c == code for _, code in want]) if want else False)
    def judge_json(self, it, j, e, time_, et, pt):
        w = self.w; p = it.path
        if not (X.istext(j) and X.textkind(j) == 'str'): w.ob('json: a text is given', False); return
        out, holes = '', []
        bad = None
        for k, v in X.parts(j):
            if k == 'l': out += v; continue
            a = X.atoms.get(v.get_id())
            if a is None: bad = 'a name stands in the text as it is, unescaped: a quote or backslash in it breaks the text'; break
            holes.append(a[1])
            out += '"\ue000%d"' % (len(holes) - 1) if a[0] == 'json' else '%d' % (10 ** 30 + len(holes) - 1)
        w.ob('json: names are escaped', bad is None, bad or '')
        if bad: return
        try: d = json.loads(out)
        except ValueError as x: w.ob('json: well formed', False, out); return
        w.ob('json: well formed', isinstance(d, dict))
        if not isinstance(d, dict): return
        def hole(x):
            if isinstance(x, str) and x[:1] == '\ue000': return holes[int(x[1:])]
            if isinstance(x, int) and not isinstance(x, bool) and x >= 10 ** 30: return holes[x - 10 ** 30]
            return x
        d = {k: hole(v) for k, v in d.items()}
        x = it.inum(d.get('effect_time')) if not isinstance(d.get('effect_time'), (bool, str, type(None), SText)) else None
        w.ob('json: same time', x == time_ if x is not None else False)
        for n in ('path_name', 'associated_path_name'):
            a, b = d.get(n, X.MISSING), it.attr_(e, n)
            if a is None or b is None:
                # an empty associated path counts as none
                if a is None and b is None: r = True
                elif a is None and X.istext(b): r = w.term(b) == EMPTY if n != 'path_name' else False
                else: r = False
            else: r = (X.istext(a) and X.istext(b)) and p.text_eq(a, b)
            w.ob('json: same %s' % n.replace('_', ' '), r)
            w.cover('json' if a is not None else 'json without associated path')
        for n, codes, c in (('effect_type', self.effects, et), ('path_type', self.kinds, pt)):
            v = d.get(n)
            want = [code for k, code in codes.items() if k.lower() == v]
            w.ob('json: same %s' % n.replace('_', ' '), c == want[0] if want else False)

    # ---------------------------------------------------------------- histories
    OPS = ('close', 'enter', 'exit', 'exit with exception', 'del', 'event', 'second', 'close2', 'event2', 'del2')
    def run(self, p):
        """module start, construction, then any operations: every state is left by every operation once"""
        it = Interp(self.w, p, {}, self.seen_fns)
        it.job = self
        it.modules = self.modules(it)
        p.ghost.update(watches=[], starting=None, closing=None)
        def made(o):
            cur = p.ghost['starting']
            if cur is not None and cur.obj is None and o.cls is it.glob.v.get('Watch'): cur.obj = o
        it.made = made
        try: it.module(self.tree, 'watcher')
        except PyRaise as r:
            self.w.ob('the module loads', False, repr(r.exc)); return
        if not self.start(it, 0): return
        for k in range(40):
            key = self.state(it)
            d = tuple(p.dec[:p.k])
            if self.known.setdefault(key, d) != d: return
            if len(self.known) > 400: raise Undecided('the states of a watch do not close')
            if not self.op(it, self.OPS[p.choose(len(self.OPS))]): return
        raise Undecided('the states of a watch do not close')
    def start(self, it, n):
        p = it.path; w = self.w
        x = Watched(n); x.path = p.fresh('path'); x.closes = 0
        p.ghost['watches'].append(x); p.ghost['starting'] = x; p.ghost['excuse'] = None
        cls = it.glob.v.get('Watch')
        if not isinstance(cls, PyClass): raise Undecided('Watch')
        def cb(it, a, kw):
            p.trace.append(('callback', n, a[0] if len(a) == 1 and not kw else None)); return None
        try:
            o = it.call(cls, [sym(x.path), Builtin('user callback', cb)], {})
            raised = None
        except PyRaise as r: raised = r.exc
        p.ghost['starting'] = None
        if raised is not None:
            if p.ghost['excuse']: w.cover(p.ghost['excuse'])
            why = z3.BoolVal(bool(p.ghost['excuse']))
            w.ob('construct: fails only when the library is missing, the path is unusable or opening failed', z3.Or(why, z3.Not(uencok(x.path)), hasnul(x.path)) if not p.ghost['excuse'] else True, repr(raised))
            w.ob('construct: a failure leaves nothing open', x.status != 'open', repr(raised))
            if x.obj is not None: self.drop(it, x, 'dropped after a failed start')
            return False
        x.obj = o
        w.ob('construct: a watcher was opened', x.status == 'open')
        if x.status != 'open': return False
        w.cover('constructed'); w.cover('second watch' if n else 'constructed')
        w.ob('construct: the callback is kept', self.reachable(it, x.cb))
        return True
    def drop(self, it, x, cover):
        p = it.path; w = self.w
        f = it.special(x.obj, '__del__')
        was = x.status
        p.ghost['closing'] = x
        if f is not None:
            try: it.call(f, [], {}); r = None
            except PyRaise as e: r = e.exc
            w.ob('drop: does not fail', r is None, repr(r))
        p.ghost['closing'] = None
        w.ob('drop: an open watcher is closed', x.status != 'open')
        w.cover(cover)
    def op(self, it, op):
        p = it.path; w = self.w
        who = p.ghost['watches'][1 if op[-1] == '2' else 0] if op[-1] != '2' or len(p.ghost['watches']) > 1 else None
        if op == 'second':
            if len(p.ghost['watches']) > 1: return False
            first = p.ghost['watches'][0]; was = first.status
            r = self.start(it, 1)
            w.ob('second: another watch leaves the first as it was', first.status == was)
            return r
        if who is None or who.obj is None: return False
        name = op.rstrip('2')
        was = who.status; n0 = len(p.trace)
        others = [(o, o.status) for o in p.ghost['watches'] if o is not who]
        if name == 'event':
            if was != 'open': return False                  # nothing is told after close returned (C interface)
            self.event(it, who, 'event')
        elif name == 'del':
            self.drop(it, who, 'dropped')
            who.status = 'gone'
            who.obj = None
        else:
            m = {'close': 'close', 'enter': '__enter__', 'exit': '__exit__', 'exit with exception': '__exit__'}[name]
            f = it.attr_(who.obj, m)
            w.ob('%s: there is such a method' % m, f is not X.MISSING)
            if f is X.MISSING: return False
            p.ghost['closing'] = who if name != 'enter' else None
            args = [] if m != '__exit__' else [None, None, None] if name == 'exit' else [OPAQUE, OPAQUE, OPAQUE]
            try: r = it.call(f, args, {}); raised = None
            except PyRaise as e: raised = e.exc
            p.ghost['closing'] = None
            w.ob('%s: does not fail' % name, raised is None, repr(raised))
            if raised is not None: return False
            if name == 'enter':
                w.ob('enter: gives the watch', r is who.obj)
                w.ob('enter: leaves the watch as it was', who.status == was); w.cover('entered')
            else:
                w.ob('%s: the watcher is closed afterwards' % name, who.status == 'closed')
                w.ob('%s: an open watcher is closed once, another one not again' % name, len([t for t in p.trace[n0:] if t[0] == 'close']) == (1 if was == 'open' else 0))
                w.cover('closed' if was == 'open' else 'closed again')
                if m == '__exit__': w.ob('exit: an exception is passed on', r is None or not it.truth(r)); w.cover('left')
        for o, s in others: w.ob('%s: other watches are left alone' % name, o.status == s)
        for o in p.ghost['watches']:
            if o.status == 'open': w.ob('the callback of an open watcher is kept', self.reachable(it, o.cb))
        return True
    def state(self, it):
        seen, consts = {}, set()
        def of(t):
            i = t.get_id()
            if i not in NAMES:
                r = {t.decl().name()} if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and '!' in t.decl().name() and not t.decl().name().startswith('lit!') else set()
                for a in t.children(): r |= of(a)[1]
                NAMES[i] = (t, r, t.sexpr())
            return NAMES[i]
        order = {}
        def names(t): consts.update(of(t)[1])
        def canon(x): return re.sub(r'!\d+', lambda m: '!%d' % order.setdefault(m.group(0), len(order)), x)   # by order of appearance
        def c(x):
            if X.concrete(x): return repr(x)
            if isinstance(x, (SInt, SBool)): names(x.t); return 'n:' + canon(of(x.t)[2])
            if isinstance(x, SText):
                for k, v in x.p:
                    if k == 's': names(v)
                return 't:' + canon(repr(x))
            if id(x) in seen: return 'ref%d' % seen[id(x)]
            seen[id(x)] = len(seen)
            if isinstance(x, PyObj): return (x.cls.name,) + tuple((k, c(v)) for k, v in sorted(x.d.items()))
            if isinstance(x, dict): return ('d',) + tuple((str(k), c(v)) for k, v in x.items())
            if isinstance(x, (list, tuple)): return ('l',) + tuple(c(v) for v in x)
            if isinstance(x, PyFunc): return ('f', x.name, c(x.env.v) if x.env is not it.glob else '')
            if isinstance(x, Bound): return ('b', c(x.f), c(x.me))
            if isinstance(x, CCallback): return ('cb', c(x.f))
            if isinstance(x, CFn): return ('fn', x.n, str(x.argtypes), str(x.restype))
            if isinstance(x, Lib): return ('lib',) + tuple((k, c(v)) for k, v in sorted(x.fns.items()))
            return type(x).__name__
        ws = it.path.ghost['watches']
        g = {k: v for k, v in it.glob.v.items() if not isinstance(v, (PyFunc, PyClass, Mod, Builtin))}
        cls = [(k, n, v) for k, x in it.glob.v.items() if isinstance(x, PyClass) and not x.native(X.ENUM) for n, v in x.ns.items() if not isinstance(v, PyFunc)]
        r = (tuple((o.status, c(o.obj) if o.obj is not None else None) for o in ws), tuple((k, c(v)) for k, v in sorted(g.items())), tuple((k, n, c(v)) for k, n, v in cls))
        facts, rest = {}, [of(t) for t in it.path.pc]
        while True:
            new = [f for f in rest if f[1] & consts]
            if not new: break
            rest = [f for f in rest if not f[1] & consts]
            for f in new: facts[f[2]] = f; consts.update(f[1])
        return r + (tuple(sorted({canon(x) for x in facts})),)
    def main(self):
        self.known, self.full = {}, False
        try: self.w.explore(self.run)
        except Restart:
            # events change the state of the watch: each is followed from everywhere
            self.known, self.full = {}, True
            self.w.explore(self.run)
        self.w.functions = {'watcher-py ' + n for n in self.seen_fns}

class Opq(Mod):
    def __init__(self): super().__init__('typing', Any_())
class Any_(dict):
    def __contains__(self, k): return True
    def __getitem__(self, k): return OPAQUE
    def get(self, k, d=None): return OPAQUE

def run(tr, deadline, opts):
    t0 = time.time(); und = trace = None; j = None
    try:
        j = Job(t0 + deadline); j.main()
    except (Undecided, tree.Broken) as e: und = str(e)
    except RecursionError: und = 'recursion limit'
    except Exception as e:
        und = 'internal: %s: %s' % (type(e).__name__, str(e)[:200]); trace = traceback.format_exc()
    w = j.w if j else World(('C17',), t0)
    w.assumptions |= {'Python executes the constructs of the source as vp/pyexec.py does (operators, calls, classes, exceptions, enumerations and data classes)', 'ctypes, os and json do what their contracts in vp/units_py.py say', 'the C interface keeps C13, and calls back only while a watcher is open', 'one thread at a time'}
    return w.result('python', t0, COVERS, und, trace)

if __name__ == '__main__':
    import sys
    r = run('both', 300, {})
    print('undecided:', r['undecided'], 'wall %.1f' % r['wall'], 'q', r['queries'])
    if r['trace']: print(r['trace'])
    from collections import Counter
    print(Counter(o['status'] for o in r['obls']), r['covers'])
    seen = set()
    for o in r['obls']:
        if o['status'] != 'ok' and o['name'] not in seen: seen.add(o['name']); print('FAIL', o['name'], o['where'], o['detail'])
    print(r['functions'])
