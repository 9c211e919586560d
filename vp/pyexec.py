"""Executes Python source (its syntax tree, statement by statement) on unknown values."""
import ast, builtins
import z3
from .sym import Undecided
from .script import *

class PyRaise(Exception):
    def __init__(self, exc): self.exc = exc
class Ret(Exception):
    def __init__(self, v): self.v = v
class Brk(Exception): pass
class Cont(Exception): pass

class PyClass:
    def __init__(self, name, bases, ns, anns=()): self.name, self.bases, self.ns, self.anns, self.fields = name, bases, ns, anns, None
    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, PyClass): out += [c for c in b.mro() if c not in out]
        return out
    def find(self, n):
        for c in self.mro():
            if n in c.ns: return c.ns[n]
        return None
    def has(self, n): return any(n in c.ns for c in self.mro())
    def native(self, t):
        """derives from the named contract or builtin class"""
        return any(b is t or isinstance(b, type) and isinstance(t, type) and issubclass(b, t) for c in self.mro() for b in c.bases if not isinstance(b, PyClass))
    def __repr__(self): return '<class %s>' % self.name
class PyObj:
    def __init__(self, cls): self.cls, self.d = cls, {}
    def __repr__(self): return '<%s>' % (self.d['name'] if self.cls.native(ENUM) and 'name' in self.d else self.cls.name)
class PyFunc:
    def __init__(self, node, env, name, defaults, kwdefaults, kind='func'): self.node, self.env, self.name, self.defaults, self.kwdefaults, self.kind = node, env, name, defaults, kwdefaults, kind
    def __repr__(self): return '<function %s>' % self.name
class Bound:
    def __init__(self, f, me): self.f, self.me = f, me
class Builtin:
    def __init__(self, name, fn, attrs=None): self.name, self.fn, self.attrs = name, fn, attrs or {}
    def __repr__(self): return '<%s>' % self.name
class Mod:
    def __init__(self, name, attrs): self.name, self.attrs = name, attrs
class Opaque:
    """a value nothing is known about (annotations, typing)"""
    def __repr__(self): return '<opaque>'
OPAQUE = Opaque()
class Marker:
    def __init__(self, n): self.n = n
    def __repr__(self): return self.n
ENUM, STRUCT = Marker('Enum'), Marker('ctypes.Structure')
DATACLASS = Builtin('dataclass', None)

class Env:
    def __init__(self, up, fn=None): self.v, self.up, self.globals_, self.nonlocals, self.fn = {}, up, set(), set(), fn
    def top(self):
        e = self
        while e.up is not None: e = e.up
        return e

def concrete(v):
    if isinstance(v, (list, tuple, set, frozenset)): return all(concrete(x) for x in v)
    if isinstance(v, dict): return all(concrete(k) and concrete(x) for k, x in v.items())
    return v is None or isinstance(v, (bool, int, float, str, bytes))
def istext(v): return isinstance(v, (str, bytes, SText))
def textkind(v): return v.kind if isinstance(v, SText) else 'str' if isinstance(v, str) else 'bytes'
def parts(v): return v.p if isinstance(v, SText) else [('l', v)]
def mktext(ps, kind):
    t = SText(ps, kind)
    l = t.literal
    return t if l is None else l

# uninterpreted functions of text
udec = z3.Function('utf8_decode', TXT, TXT)           # strict, when valid
uvalid = z3.Function('utf8_valid', TXT, z3.BoolSort())
uother = {k: z3.Function('utf8_decode_' + k, TXT, TXT) for k in ('surrogateescape', 'replace', 'ignore', 'backslashreplace')}
uenc = z3.Function('utf8_encode', TXT, TXT)
uencok = z3.Function('utf8_encodable', TXT, z3.BoolSort())
uencse = z3.Function('utf8_encode_surrogateescape', TXT, TXT)
uencseok = z3.Function('utf8_encodable_surrogateescape', TXT, z3.BoolSort())
hasnul = z3.Function('has_nul', TXT, z3.BoolSort())
jdump = z3.Function('json_string', TXT, TXT)
itos = z3.Function('int_text', z3.IntSort(), TXT)
atoms = {}                                            # term id -> ('json'|'int', value), kept alive

class Interp:
    def __init__(self, world, path, modules, funcs_seen):
        self.w, self.path, self.modules = world, path, modules
        self.depth, self.steps, self.frames = 0, 0, []
        self.handling = []
        self.b = self.builtins()
        self.seen = funcs_seen
        self.line = 0

    # ---------------------------------------------------------------- module
    def module(self, tree, name):
        env = Env(None)
        env.v['__name__'] = name
        env.v['__file__'] = mktext([('s', z3.Const('module_file', TXT))], 'str')
        env.v['__doc__'] = None
        self.glob = env
        self.block(tree.body, env)
        return env
    def block(self, body, env):
        for s in body: self.stmt(s, env)

    def raise_(self, cls, *args):
        raise PyRaise(cls(*args) if isinstance(cls, type) else cls)

    # ---------------------------------------------------------------- statements
    def stmt(self, s, env):
        self.steps += 1
        if self.steps > 200000: raise Undecided('too many steps')
        self.line = getattr(s, 'lineno', self.line)
        k = type(s).__name__
        m = getattr(self, 's_' + k, None)
        if m is None: raise Undecided('Python statement %s (line %s)' % (k, self.line))
        return m(s, env)
    def s_Expr(self, s, env): self.ev(s.value, env)
    def s_Pass(self, s, env): pass
    def s_Assert(self, s, env):
        if not self.truth(self.ev(s.test, env)): self.raise_(AssertionError)
    def s_Import(self, s, env):
        for a in s.names:
            top = a.name.split('.')[0]
            self.bind(env, a.asname or top, self.mod(a.name if a.asname else top))
            if not a.asname and '.' in a.name: self.mod(a.name)
    def s_ImportFrom(self, s, env):
        if s.module == '__future__': return
        if s.level: raise Undecided('relative import')
        m = self.mod(s.module)
        for a in s.names: self.bind(env, a.asname or a.name, self.attr(m, a.name))
    def mod(self, n):
        if n in self.modules: return self.modules[n]
        raise Undecided('module %s has no contract' % n)
    def s_Assign(self, s, env):
        v = self.ev(s.value, env)
        for t in s.targets: self.assign(t, v, env)
    def s_AnnAssign(self, s, env):
        if s.value is not None: self.assign(s.target, self.ev(s.value, env), env)
        if isinstance(s.target, ast.Name) and '__annotations__' in env.v: env.v['__annotations__'][s.target.id] = s.annotation
    def s_AugAssign(self, s, env):
        t = s.target
        load = ast.copy_location(ast.Name(t.id, ast.Load()), t) if isinstance(t, ast.Name) else ast.copy_location(ast.Attribute(t.value, t.attr, ast.Load()), t) if isinstance(t, ast.Attribute) else None
        if load is None: raise Undecided('augmented assignment')
        self.assign(t, self.binop(s.op, self.ev(load, env), self.ev(s.value, env)), env)
    def assign(self, t, v, env):
        if isinstance(t, ast.Name): return self.bind(env, t.id, v)
        if isinstance(t, ast.Attribute): return self.setattr(self.ev(t.value, env), t.attr, v)
        if isinstance(t, (ast.Tuple, ast.List)):
            vs = self.iterate(v)
            if any(isinstance(x, ast.Starred) for x in t.elts) or len(vs) != len(t.elts): raise Undecided('unpacking')
            for a, b in zip(t.elts, vs): self.assign(a, b, env)
            return
        if isinstance(t, ast.Subscript):
            o, i = self.ev(t.value, env), self.ev(t.slice, env)
            if isinstance(o, (dict, list)) and self.keyable(i): o[i] = v; return
        raise Undecided('assignment to %s' % type(t).__name__)
    def bind(self, env, n, v):
        if n in env.globals_: self.glob.v[n] = v; return
        if n in env.nonlocals:
            e = env.up
            while e is not None and n not in e.v: e = e.up
            if e is None: raise Undecided('nonlocal')
            e.v[n] = v; return
        env.v[n] = v
    def s_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name) and t.id in env.v: del env.v[t.id]
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, env)
                if isinstance(o, PyObj) and t.attr in o.d: del o.d[t.attr]
                else: self.raise_(AttributeError, t.attr)
            else: raise Undecided('del')
    def s_Global(self, s, env): env.globals_ |= set(s.names)
    def s_Nonlocal(self, s, env): env.nonlocals |= set(s.names)
    def s_FunctionDef(self, s, env):
        f = self.mkfunc(s, env, s.name)
        for d in reversed(s.decorator_list):
            dv = self.ev(d, env)
            if isinstance(dv, Builtin) and dv.name in ('staticmethod', 'classmethod', 'property') and isinstance(f, PyFunc): f.kind = dv.name
            else: f = self.call(dv, [f], {})
        self.bind(env, s.name, f)
    def s_AsyncFunctionDef(self, s, env): raise Undecided('async function')
    def mkfunc(self, s, env, name):
        a = s.args
        while isinstance(env, ClassEnv): env = env.real
        f = PyFunc(s, env, name, [self.ev(d, env) for d in a.defaults], [None if d is None else (self.ev(d, env),) for d in a.kw_defaults])
        return f
    def s_ClassDef(self, s, env):
        bases = [self.ev(b, env) for b in s.bases]
        if s.keywords: raise Undecided('class keywords')
        cenv = ClassEnv(env); cenv.v['__annotations__'] = {}
        self.block(s.body, cenv)
        anns = cenv.v.pop('__annotations__')
        inherited = [a for b in bases if isinstance(b, PyClass) and b.fields for a in b.fields]
        c = PyClass(s.name, bases, cenv.v, anns)
        if c.native(ENUM):
            c.members = {}
            for n, v in list(c.ns.items()):
                if n.startswith('_') or isinstance(v, (PyFunc, Builtin)): continue
                if v is AUTO: v = 1 + max([m.d['value'] for m in c.members.values()] or [0])
                if not concrete(v): raise Undecided('enum value')
                alias = next((m for m in c.members.values() if m.d['value'] == v), None)
                m = alias
                if m is None:
                    m = PyObj(c); m.d.update(name=n, value=v, _name_=n, _value_=v)
                c.members[n] = m; c.ns[n] = m
        for d in reversed(s.decorator_list):
            dv = self.ev(d, env)
            if dv is DATACLASS or isinstance(dv, Builtin) and dv.name == 'dataclass':
                c.fields = inherited + [a for a in anns if a not in inherited]
            elif isinstance(dv, Builtin) and dv.name == 'unique': pass
            else: c = self.call(dv, [c], {})
        self.bind(env, s.name, c)
    def s_Return(self, s, env): raise Ret(None if s.value is None else self.ev(s.value, env))
    def s_If(self, s, env):
        self.block(s.body if self.truth(self.ev(s.test, env)) else s.orelse, env)
    def s_For(self, s, env):
        it = self.iterate(self.ev(s.iter, env))
        for x in it:
            self.assign(s.target, x, env)
            try: self.block(s.body, env)
            except Brk: return
            except Cont: continue
        self.block(s.orelse, env)
    def s_While(self, s, env):
        n = 0
        while self.truth(self.ev(s.test, env)):
            n += 1
            if n > 64: raise Undecided('a while loop over unknown values')
            try: self.block(s.body, env)
            except Brk: return
            except Cont: continue
        self.block(s.orelse, env)
    def s_Break(self, s, env): raise Brk()
    def s_Continue(self, s, env): raise Cont()
    def s_Raise(self, s, env):
        if s.exc is None:
            if self.handling: raise PyRaise(self.handling[-1])
            self.raise_(RuntimeError, 'No active exception to reraise')
        e = self.ev(s.exc, env)
        if isinstance(e, (type, PyClass)): e = self.call(e, [], {})
        raise PyRaise(e)
    def exc_is(self, e, c):
        if isinstance(c, tuple): return any(self.exc_is(e, x) for x in c)
        if isinstance(e, PyObj): return c in e.cls.mro() if isinstance(c, PyClass) else e.cls.native(c)
        return isinstance(c, type) and isinstance(e, c)
    def s_Try(self, s, env):
        try:
            try: self.block(s.body, env)
            except PyRaise as r:
                for h in s.handlers:
                    if h.type is None or self.exc_is(r.exc, self.ev(h.type, env)):
                        if h.name: self.bind(env, h.name, r.exc)
                        self.handling.append(r.exc)
                        try: self.block(h.body, env)
                        finally: self.handling.pop()
                        break
                else: raise
            else: self.block(s.orelse, env)
        except (PyRaise, Ret, Brk, Cont) as flow:
            self.block(s.finalbody, env)
            raise flow
        else: self.block(s.finalbody, env)
    def s_With(self, s, env, k=0):
        if k == len(s.items): return self.block(s.body, env)
        it = s.items[k]
        cm = self.ev(it.context_expr, env)
        v = self.call(self.attr(cm, '__enter__'), [], {})
        if it.optional_vars is not None: self.assign(it.optional_vars, v, env)
        try: self.s_With(s, env, k + 1)
        except PyRaise as r:
            if self.truth(self.call(self.attr(cm, '__exit__'), [OPAQUE, r.exc, None], {})): return
            raise
        except (Ret, Brk, Cont) as flow:
            self.call(self.attr(cm, '__exit__'), [None, None, None], {}); raise flow
        else: self.call(self.attr(cm, '__exit__'), [None, None, None], {})

    # ---------------------------------------------------------------- expressions
    def ev(self, e, env):
        k = type(e).__name__
        m = getattr(self, 'e_' + k, None)
        if m is None: raise Undecided('Python expression %s (line %s)' % (k, self.line))
        return m(e, env)
    def e_Constant(self, e, env): return e.value if e.value is not ... else OPAQUE
    def e_Name(self, e, env):
        x = env
        while x is not None:
            if e.id in x.v and not (e.id in env.globals_ and x is not self.glob): return x.v[e.id]
            x = x.up
        if e.id in self.b: return self.b[e.id]
        if hasattr(builtins, e.id):
            t = getattr(builtins, e.id)
            if isinstance(t, type) and issubclass(t, BaseException): return t
            raise Undecided('builtin %s has no contract' % e.id)
        self.raise_(NameError, e.id)
    def e_Attribute(self, e, env): return self.attr(self.ev(e.value, env), e.attr)
    def e_Call(self, e, env):
        f = self.ev(e.func, env) if not (isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args) else None
        if f is None: return self.super_(env)
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred): args += self.iterate(self.ev(a.value, env))
            else: args.append(self.ev(a, env))
        for a in e.keywords:
            v = self.ev(a.value, env)
            if a.arg is None:
                if not isinstance(v, dict) or not all(isinstance(x, str) for x in v): raise Undecided('keyword arguments')
                kw.update(v)
            else: kw[a.arg] = v
        self.line = e.lineno
        return self.call(f, args, kw)
    def super_(self, env): raise Undecided('super()')
    def e_BoolOp(self, e, env):
        isand = isinstance(e.op, ast.And)
        for i, v in enumerate(e.values):
            x = self.ev(v, env)
            if i == len(e.values) - 1: return x
            if self.truth(x) != isand: return x
    def e_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        if isinstance(e.op, ast.Not): return not self.truth(v)
        if isinstance(v, (int, float)): return -v if isinstance(e.op, ast.USub) else +v if isinstance(e.op, ast.UAdd) else ~v
        if isinstance(v, SInt) and isinstance(e.op, ast.USub): return SInt(-v.t)
        raise Undecided('unary operator')
    def e_BinOp(self, e, env): return self.binop(e.op, self.ev(e.left, env), self.ev(e.right, env))
    def binop(self, op, a, b):
        if concrete(a) and concrete(b):
            o = {'Add': lambda: a + b, 'Sub': lambda: a - b, 'Mult': lambda: a * b, 'Div': lambda: a / b, 'FloorDiv': lambda: a // b, 'Mod': lambda: a % b,
                 'LShift': lambda: a << b, 'RShift': lambda: a >> b, 'BitAnd': lambda: a & b, 'BitOr': lambda: a | b, 'BitXor': lambda: a ^ b, 'Pow': lambda: a ** b}.get(type(op).__name__)
            if o is None: raise Undecided('operator')
            try: return o()
            except Exception as x: raise PyRaise(x)
        n = type(op).__name__
        if n == 'BitOr' and (a is OPAQUE or b is OPAQUE or isinstance(a, (type, PyClass)) or isinstance(b, (type, PyClass))): return OPAQUE
        if n == 'Add' and istext(a) and istext(b) and textkind(a) == textkind(b): return mktext(parts(a) + parts(b), textkind(a))
        if n == 'Add' and isinstance(a, (list, tuple)) and type(a) is type(b): return a + b
        ta, tb = self.inum(a), self.inum(b)
        if ta is not None and tb is not None:
            if n == 'Add': return SInt(ta + tb)
            if n == 'Sub': return SInt(ta - tb)
            if n == 'Mult' and (isinstance(a, int) or isinstance(b, int)): return SInt(ta * tb)
            if n == 'BitAnd' and isinstance(b, int) and b >= 0 and (b + 1) & b == 0: return SInt(ta % (b + 1))
            if n in ('FloorDiv', 'Mod') and isinstance(b, int) and b > 0: return SInt(ta / tb if n == 'FloorDiv' else ta % tb)
            raise Undecided('arithmetic %s on unknown numbers' % n)
        if n == 'Mod' and isinstance(a, str):
            vs = list(b) if isinstance(b, tuple) else [b]
            out = []
            chunks = a.split('%')
            if any(c[:1] not in ('s', 'd') for c in chunks[1:]) or len(vs) != len(chunks) - 1: raise Undecided('format')
            out += [('l', chunks[0])]
            for c, v in zip(chunks[1:], vs): out += parts(self.tostr(v)) + [('l', c[1:])]
            return mktext(out, 'str')
        raise Undecided('operator %s on %r, %r' % (n, a, b))
    def inum(self, v):
        if isinstance(v, SInt): return v.t
        if isinstance(v, int): return z3.IntVal(int(v))
        return None
    def e_Compare(self, e, env):
        l = self.ev(e.left, env)
        for i, (op, c) in enumerate(zip(e.ops, e.comparators)):
            r = self.ev(c, env)
            v = self.compare(op, l, r)
            if i == len(e.ops) - 1: return v
            if not self.truth(v): return False
            l = r
    def compare(self, op, a, b):
        n = type(op).__name__
        if n in ('Is', 'IsNot'):
            r = a is b or (concrete(a) and concrete(b) and type(a) is type(b) and a == b and (a is None or isinstance(a, (bool, int))))
            return r if n == 'Is' else not r
        if n in ('In', 'NotIn'):
            if isinstance(b, PyClass) and b.native(ENUM): b = list(dict.fromkeys(m for m in b.members.values())) + ([m.d['value'] for m in b.members.values()] if not isinstance(a, PyObj) else [])
            if istext(b) and istext(a): r = self.contains(a, b)
            else:
                items = list(b) if isinstance(b, (list, tuple, set, frozenset, dict)) else None
                if items is None: raise Undecided('in')
                r = False
                for x in items:
                    if self.path.branch(self.eq(a, x)): r = True; break
            return (r if n == 'In' else self.not_(r))
        if n in ('Eq', 'NotEq'):
            r = self.eq(a, b)
            return r if n == 'Eq' else self.not_(r)
        if concrete(a) and concrete(b):
            try: return {'Lt': lambda: a < b, 'LtE': lambda: a <= b, 'Gt': lambda: a > b, 'GtE': lambda: a >= b}[n]()
            except Exception as x: raise PyRaise(x)
        x, y = self.inum(a), self.inum(b)
        if x is None or y is None: raise Undecided('comparison')
        return SBool({'Lt': x < y, 'LtE': x <= y, 'Gt': x > y, 'GtE': x >= y}[n])
    def not_(self, r): return SBool(z3.Not(r.t)) if isinstance(r, SBool) else not r
    def contains(self, a, b):
        if concrete(a) and concrete(b): return a in b
        if a in ('\0', b'\0'):
            if isinstance(b, SText) and len(b.p) == 1: return SBool(hasnul(b.p[0][1]))
        raise Undecided('substring of unknown text')
    def eq(self, a, b):
        """bool or SBool"""
        if concrete(a) and concrete(b): return a == b
        if isinstance(a, (SInt, SBool)) or isinstance(b, (SInt, SBool)):
            if isinstance(a, SBool) and isinstance(b, (bool, SBool)): return SBool(a.t == (b.t if isinstance(b, SBool) else z3.BoolVal(b)))
            if isinstance(b, SBool): return self.eq(b, a) if isinstance(a, bool) else False
            x, y = self.inum(a), self.inum(b)
            if x is None or y is None: return False
            return SBool(x == y)
        if isinstance(a, SText) or isinstance(b, SText):
            if not istext(a) or not istext(b) or textkind(a) != textkind(b): return False
            r = self.path.text_eq(a, b)
            return r if isinstance(r, bool) else SBool(r)
        if isinstance(a, (list, tuple)) and type(a) is type(b):
            if len(a) != len(b): return False
            return all(self.path.branch(self.eq(x, y)) for x, y in zip(a, b))
        if isinstance(a, PyObj) and isinstance(b, PyObj):
            if a is b: return True
            if a.cls.find('__eq__') is not None: return self.call(Bound(a.cls.find('__eq__'), a), [b], {})
            if a.cls.fields is not None and a.cls is b.cls: return all(self.path.branch(self.eq(a.d.get(f), b.d.get(f))) for f in a.cls.fields)
            return False
        return a is b
    def e_IfExp(self, e, env): return self.ev(e.body if self.truth(self.ev(e.test, env)) else e.orelse, env)
    def e_Lambda(self, e, env): return self.mkfunc(e, env, '<lambda>')
    def e_Tuple(self, e, env): return tuple(self.elts(e, env))
    def e_List(self, e, env): return self.elts(e, env)
    def e_Set(self, e, env):
        l = self.elts(e, env)
        if not all(self.keyable(x) for x in l): raise Undecided('set')
        return set(l)
    def elts(self, e, env):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred): out += self.iterate(self.ev(x.value, env))
            else: out.append(self.ev(x, env))
        return out
    def e_Dict(self, e, env):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                x = self.ev(v, env)
                if not isinstance(x, dict): raise Undecided('dict')
                d.update(x); continue
            kk = self.ev(k, env)
            if not self.keyable(kk): raise Undecided('unknown dictionary key')
            d[kk] = self.ev(v, env)
        return d
    def keyable(self, k): return not isinstance(k, (SInt, SBool, SText)) and not isinstance(k, (list, dict, set)) and (not isinstance(k, tuple) or all(self.keyable(x) for x in k))
    def e_Subscript(self, e, env):
        o = self.ev(e.value, env)
        if o is OPAQUE or isinstance(o, type): return OPAQUE
        if isinstance(e.slice, ast.Slice):
            p = [None if x is None else self.ev(x, env) for x in (e.slice.lower, e.slice.upper, e.slice.step)]
            if all(x is None or isinstance(x, int) for x in p) and isinstance(o, (str, bytes, list, tuple)): return o[slice(*p)]
            raise Undecided('slice')
        return self.index(o, self.ev(e.slice, env))
    def index(self, o, i):
        if isinstance(o, PyClass) and o.native(ENUM):
            for n, m in o.members.items():
                if self.path.branch(self.eq(n, i)): return m
            self.raise_(KeyError, i)
        if isinstance(o, PyClass) or o is OPAQUE: return OPAQUE
        if isinstance(o, dict):
            if self.keyable(i):
                if i in o: return o[i]
                for k in o:
                    if isinstance(k, (SInt, SText)): raise Undecided('dict key')
                self.raise_(KeyError, i)
            for k in o:
                if self.path.branch(self.eq(k, i)): return o[k]
            self.raise_(KeyError, i)
        if isinstance(o, (list, tuple, str, bytes)):
            if isinstance(i, int):
                try: return o[i]
                except Exception as x: raise PyRaise(x)
            if isinstance(i, SInt):
                for k in range(len(o)):
                    if self.path.branch(SBool(z3.Or(i.t == k, i.t == k - len(o)))): return o[k]
                self.raise_(IndexError, 'index out of range')
        f = self.special(o, '__getitem__')
        if f is not None: return self.call(f, [i], {})
        if hasattr(o, 'py_index'): return o.py_index(self, i)
        raise Undecided('subscript of %r' % (o,))
    def e_JoinedStr(self, e, env):
        out = []
        for v in e.values:
            if isinstance(v, ast.Constant): out.append(('l', v.value))
            else: out += parts(self.e_FormattedValue(v, env))
        return mktext(out, 'str')
    def e_FormattedValue(self, v, env):
        x = self.ev(v.value, env)
        if v.format_spec is not None:
            sp = self.ev(v.format_spec, env)
            if sp not in ('', 'd', 's'):
                if concrete(x) and concrete(sp): return format(x, sp)
                raise Undecided('format specification')
        if v.conversion in (114, 97):
            if concrete(x): return repr(x)
            raise Undecided('repr of an unknown value')
        return self.tostr(x)
    def tostr(self, x):
        if isinstance(x, SText) and x.kind == 'str': return x
        if isinstance(x, str): return x
        if isinstance(x, (bool, int, float)) or x is None: return str(x)
        if isinstance(x, SInt):
            t = itos(x.t); atoms[t.get_id()] = ('int', x, t)
            return sym(t)
        if isinstance(x, SBool): return 'True' if self.path.branch(x) else 'False'
        if isinstance(x, PyObj):
            f = self.special(x, '__str__')
            if f is not None: return self.call(f, [], {})
            if x.cls.native(ENUM) and 'name' in x.d: return '%s.%s' % (x.cls.name, x.d['name'])
        raise Undecided('text of %r' % (x,))
    def comp(self, gens, env, emit, k=0):
        if k == 0: env = Env(env)
        if k == len(gens): emit(env); return
        g = gens[k]
        for x in self.iterate(self.ev(g.iter, env)):
            self.assign(g.target, x, env)
            if all(self.truth(self.ev(c, env)) for c in g.ifs): self.comp_(gens, env, emit, k + 1)
    def comp_(self, gens, env, emit, k):
        if k == len(gens): emit(env); return
        g = gens[k]
        for x in self.iterate(self.ev(g.iter, env)):
            self.assign(g.target, x, env)
            if all(self.truth(self.ev(c, env)) for c in g.ifs): self.comp_(gens, env, emit, k + 1)
    def e_ListComp(self, e, env):
        out = []; self.comp(e.generators, env, lambda v: out.append(self.ev(e.elt, v))); return out
    e_GeneratorExp = e_ListComp
    def e_DictComp(self, e, env):
        out = {}
        def emit(v):
            k = self.ev(e.key, v)
            if not self.keyable(k): raise Undecided('unknown dictionary key')
            out[k] = self.ev(e.value, v)
        self.comp(e.generators, env, emit); return out
    def e_SetComp(self, e, env):
        out = set(); self.comp(e.generators, env, lambda v: out.add(self.ev(e.elt, v))); return out
    def e_NamedExpr(self, e, env):
        v = self.ev(e.value, env); self.bind(env, e.target.id, v); return v
    def iterate(self, v):
        if isinstance(v, (list, tuple, str)): return list(v)
        if isinstance(v, (dict, set, frozenset)): return list(v)
        if isinstance(v, PyClass) and v.native(ENUM): return list(dict.fromkeys(v.members.values()))
        if isinstance(v, (range,)) or type(v).__name__ in ('dict_items', 'dict_keys', 'dict_values', 'enumerate', 'zip'): return list(v)
        raise Undecided('iteration over %r' % (v,))
    def truth(self, v):
        if concrete(v) or isinstance(v, (list, tuple, dict, set)): return bool(v)
        if isinstance(v, SBool): return self.path.branch(v)
        if isinstance(v, SInt): return self.path.branch(SBool(v.t != 0))
        if isinstance(v, SText):
            if any(k == 'l' for k, _ in v.p): return True
            return self.path.branch(SBool(z3.Or(*[t != EMPTY for _, t in v.p])))
        if isinstance(v, PyObj):
            f = self.special(v, '__bool__')
            if f is not None: return self.truth(self.call(f, [], {}))
            f = self.special(v, '__len__')
            if f is not None: return self.truth(self.call(f, [], {}))
            return True
        return True

    # ---------------------------------------------------------------- objects
    def special(self, o, n):
        if isinstance(o, PyObj):
            f = o.cls.find(n)
            if f is not None: return Bound(f, o)
        return None
    def attr(self, o, n):
        r = self.attr_(o, n)
        if r is MISSING: self.raise_(AttributeError, '%r has no attribute %r' % (o, n))
        return r
    def attr_(self, o, n):
        if isinstance(o, Mod):
            if n in o.attrs:
                v = o.attrs[n]
                return v
            raise Undecided('%s.%s has no contract' % (o.name, n))
        if o is OPAQUE: return OPAQUE
        if isinstance(o, PyObj):
            f = o.cls.find(n)
            if isinstance(f, PyFunc) and f.kind == 'property': return self.call(f, [o], {})
            if n in o.d: return o.d[n]
            if n == '__class__': return o.cls
            if n == '__dict__': return o.d
            if f is not None or o.cls.has(n):
                if isinstance(f, PyFunc): return f if f.kind == 'staticmethod' else Bound(f, o.cls) if f.kind == 'classmethod' else Bound(f, o)
                return f
            g = o.cls.find('__getattr__')
            if g is not None: return self.call(Bound(g, o), [n], {})
            return MISSING
        if isinstance(o, PyClass):
            if n == '__name__': return o.name
            if n == '__members__' and o.native(ENUM): return dict(o.members)
            f = o.find(n)
            if f is None and not o.has(n): return MISSING
            if isinstance(f, PyFunc) and f.kind == 'classmethod': return Bound(f, o)
            return f
        if isinstance(o, Builtin):
            if n in o.attrs: return o.attrs[n]
            raise Undecided('%s.%s' % (o.name, n))
        if hasattr(o, 'py_attr'): return o.py_attr(self, n)
        if istext(o): return Builtin('text.' + n, lambda it, a, kw: it.text_method(o, n, a, kw))
        if isinstance(o, (list, dict, set, tuple, int, float)): return Builtin('%s.%s' % (type(o).__name__, n), lambda it, a, kw: it.host_method(o, n, a, kw))
        if isinstance(o, SInt):
            return Builtin('int.' + n, lambda it, a, kw: Undef_('int method'))
        if isinstance(o, BaseException) and n == 'args': return o.args
        if isinstance(o, (PyFunc, Bound)) and n in ('__name__', '__doc__'): return getattr(o, 'name', 'f')
        raise Undecided('attribute %s of %r' % (n, o))
    def setattr(self, o, n, v):
        if isinstance(o, PyObj):
            f = o.cls.find(n)
            if isinstance(f, PyFunc) and f.kind == 'property': raise Undecided('property setter')
            if o.cls.find('__setattr__') is not None or o.cls.find('__slots__') is not None and False: raise Undecided('__setattr__')
            o.d[n] = v; return
        if isinstance(o, PyClass): o.ns[n] = v; return
        if hasattr(o, 'py_setattr'): return o.py_setattr(self, n, v)
        raise Undecided('attribute of %r set' % (o,))
    def host_method(self, o, n, a, kw):
        if n not in ('append', 'extend', 'insert', 'pop', 'get', 'items', 'keys', 'values', 'copy', 'update', 'setdefault', 'clear', 'add', 'discard', 'remove', 'index', 'count', 'bit_length'):
            raise Undecided('%s.%s' % (type(o).__name__, n))
        if isinstance(o, dict) and n in ('get', 'pop', 'setdefault') and a and not self.keyable(a[0]):
            if n == 'setdefault': raise Undecided('unknown dictionary key')
            for k in list(o):
                if self.path.branch(self.eq(k, a[0])): return o[k] if n == 'get' else o.pop(k)
            if n == 'get' or len(a) > 1: return a[1] if len(a) > 1 else None
            self.raise_(KeyError, a[0])
        if not concrete(a) and n in ('remove', 'index', 'count', 'discard') and any(isinstance(x, (SInt, SText)) for x in a): raise Undecided('search for an unknown value')
        try: r = getattr(o, n)(*a, **kw)
        except (Undecided, PyRaise): raise
        except Exception as x: raise PyRaise(x)
        return list(r) if type(r).__name__.startswith('dict_') else r
    def text_method(self, o, n, a, kw):
        if concrete(o) and concrete(a) and concrete(kw):
            if not hasattr(o, n): self.raise_(AttributeError, n)
            try: r = getattr(o, n)(*a, **kw)
            except Exception as x: raise PyRaise(x)
            return r
        if n == 'decode':
            if textkind(o) != 'bytes': self.raise_(AttributeError, n)
            return self.decode(o, *self.codec(a, kw))
        if n == 'encode':
            if textkind(o) != 'str': self.raise_(AttributeError, n)
            return self.encode(o, *self.codec(a, kw))
        if n == 'tobytes': self.raise_(AttributeError, n)
        if n == 'join':
            vs = self.iterate(a[0]); out = []
            for i, v in enumerate(vs):
                if i: out += parts(o)
                if not istext(v): self.raise_(TypeError, 'join')
                out += parts(v)
            return mktext(out, textkind(o))
        if n == 'format' and isinstance(o, str):
            import string
            out = []; auto = 0
            for lit, field, spec, conv in string.Formatter().parse(o):
                out.append(('l', lit))
                if field is None: continue
                if spec or conv: raise Undecided('format')
                if field == '': v = a[auto]; auto += 1
                elif field.isdigit(): v = a[int(field)]
                elif field in kw: v = kw[field]
                else: raise Undecided('format')
                out += parts(self.tostr(v))
            return mktext(out, 'str')
        if n not in dir(str if textkind(o) == 'str' else bytes): self.raise_(AttributeError, n)
        raise Undecided('text method %s on unknown text' % n)
    def codec(self, a, kw):
        enc = a[0] if a else kw.get('encoding', 'utf-8'); err = a[1] if len(a) > 1 else kw.get('errors', 'strict')
        if not isinstance(enc, str) or not isinstance(err, str): raise Undecided('codec')
        return enc.lower().replace('_', '-').replace('utf8', 'utf-8'), err
    def decode(self, o, enc, err):
        if enc != 'utf-8': raise Undecided('decoding %s' % enc)
        if o.literal is not None: return o.literal.decode(enc, err)
        if o.atom is None: raise Undecided('decoding of composed bytes')
        b = o.atom
        self.w.contract('bytes.decode')
        p = self.path
        if err == 'strict':
            if not p.branch(uvalid(b)): self.raise_(UnicodeDecodeError, 'utf-8', b'\xff', 0, 1, 'invalid start byte')
            t = udec(b)
        else:
            if err not in uother: raise Undecided('decoding errors %s' % err)
            t = uother[err](b)
            p.pc.append(z3.Implies(uvalid(b), t == udec(b)))
            if err != 'ignore': p.pc.append((t == EMPTY) == (b == EMPTY))
        p.pc.append(uvalid(EMPTY)); p.pc.append(z3.Implies(uvalid(b), (udec(b) == EMPTY) == (b == EMPTY)))
        return sym(t)
    def encode(self, o, enc, err):
        if enc != 'utf-8': raise Undecided('encoding %s' % enc)
        if o.atom is None: raise Undecided('encoding of composed text')
        t = o.atom; p = self.path
        self.w.contract('str.encode')
        p.pc.append(z3.Implies(uencok(t), z3.And(uencseok(t), uencse(t) == uenc(t))))
        if err == 'strict':
            if not p.branch(uencok(t)): self.raise_(UnicodeEncodeError, 'utf-8', '\ud800', 0, 1, 'surrogates not allowed')
            r = uenc(t)
        elif err == 'surrogateescape':
            if not p.branch(uencseok(t)): self.raise_(UnicodeEncodeError, 'utf-8', '\ud800', 0, 1, 'surrogates not allowed')
            r = uencse(t)
        else: raise Undecided('encoding errors %s' % err)
        p.pc.append((r == EMPTY) == (t == EMPTY)); p.pc.append(hasnul(r) == hasnul(t))
        return sym(r, 'bytes')

    # ---------------------------------------------------------------- calls
    def call(self, f, args, kw):
        if isinstance(f, Bound): return self.call(f.f, [f.me] + list(args), kw)
        if isinstance(f, PyFunc): return self.callf(f, args, kw)
        if isinstance(f, Builtin):
            if f.fn is None: raise Undecided('%s called' % f.name)
            return f.fn(self, list(args), kw)
        if isinstance(f, PyClass): return self.construct(f, args, kw)
        if isinstance(f, type) and issubclass(f, BaseException):
            try: return f(*[x if concrete(x) else str(x) for x in args])
            except Exception: return f.__new__(f)
        if isinstance(f, PyObj):
            g = self.special(f, '__call__')
            if g is not None: return self.call(g, args, kw)
        if hasattr(f, 'py_call'): return f.py_call(self, list(args), kw)
        if f is OPAQUE: return OPAQUE
        if f is None or concrete(f): self.raise_(TypeError, 'not callable')
        raise Undecided('call of %r' % (f,))
    def callf(self, f, args, kw):
        self.depth += 1
        if self.depth > 60: raise Undecided('recursion')
        self.seen.add(f.name)
        a = f.node.args
        env = Env(f.env, f)
        names = [x.arg for x in a.posonlyargs + a.args]
        vals = dict(zip(names, args))
        kw = dict(kw)
        for n in names:
            if n in kw:
                if n in vals: self.raise_(TypeError, 'multiple values for ' + n)
                vals[n] = kw.pop(n)
        nd = len(f.defaults)
        for i, n in enumerate(names):
            if n not in vals:
                k = i - (len(names) - nd)
                if k < 0: self.raise_(TypeError, '%s() missing argument %s' % (f.name, n))
                vals[n] = f.defaults[k]
        rest = list(args[len(names):])
        if a.vararg: vals[a.vararg.arg] = tuple(rest)
        elif rest: self.raise_(TypeError, '%s() takes %d arguments' % (f.name, len(names)))
        for x, d in zip(a.kwonlyargs, f.kwdefaults):
            if x.arg in kw: vals[x.arg] = kw.pop(x.arg)
            elif d is not None: vals[x.arg] = d[0]
            else: self.raise_(TypeError, 'missing keyword argument ' + x.arg)
        if a.kwarg: vals[a.kwarg.arg] = kw
        elif kw: self.raise_(TypeError, 'unexpected keyword argument %s' % list(kw)[0])
        env.v.update(vals)
        self.frames.append(env)
        line = self.line
        try:
            if isinstance(f.node, ast.Lambda): return self.ev(f.node.body, env)
            if any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await)) for x in ast.walk(f.node)): raise Undecided('generator')
            self.block(f.node.body, env)
            return None
        except Ret as r: return r.v
        finally:
            self.frames.pop(); self.depth -= 1; self.line = line
    def construct(self, c, args, kw):
        if c.native(ENUM):
            if not args: self.raise_(TypeError, 'enum')
            v = args[0]
            if isinstance(v, PyObj) and v.cls is c: return v
            for m in dict.fromkeys(c.members.values()):
                if self.path.branch(self.eq(v, m.d['value'])): return m
            f = c.find('_missing_')
            if f is not None:
                r = self.call(Bound(f, c), [v], {})
                if isinstance(r, PyObj) and r.cls is c: return r
            self.raise_(ValueError, '%r is not a valid %s' % (v, c.name))
        o = PyObj(c)
        if c.find('__new__') is not None: raise Undecided('__new__')
        i = c.find('__init__')
        self.made(o)
        if i is not None: self.call(i, [o] + list(args), kw)
        elif c.fields is not None:
            vals = dict(zip(c.fields, args))
            if len(args) > len(c.fields): self.raise_(TypeError, 'too many arguments')
            for k, v in kw.items():
                if k not in c.fields or k in vals: self.raise_(TypeError, k)
                vals[k] = v
            for f in c.fields:
                if f not in vals:
                    d = c.find(f)
                    if d is None and not c.has(f): self.raise_(TypeError, 'missing ' + f)
                    if isinstance(d, Opaque): raise Undecided('dataclass field')
                    vals[f] = d
            o.d.update({f: vals[f] for f in c.fields})
            p = c.find('__post_init__')
            if p is not None: self.call(Bound(p, o), [], {})
        elif c.native(STRUCT):
            raise Undecided('a structure is made')
        elif c.native(BaseException): o.d['args'] = tuple(args)
        elif args or kw: self.raise_(TypeError, '%s() takes no arguments' % c.name)
        return o
    def made(self, o): pass

    # ---------------------------------------------------------------- builtins
    def builtins(self):
        def b(fn): return Builtin(fn.__name__.strip('_'), lambda it, a, kw: fn(*a, **kw))
        it = self
        def isinstance_(x, c):
            if isinstance(c, tuple): return any(isinstance_(x, k) for k in c)
            if isinstance(c, PyClass): return isinstance(x, PyObj) and c in x.cls.mro()
            if isinstance(c, Builtin):
                t = c.name
                if t == 'str': return istext(x) and textkind(x) == 'str'
                if t == 'bytes': return istext(x) and textkind(x) == 'bytes'
                if t == 'int': return isinstance(x, (SInt, SBool, bool, int))
                if t == 'bool': return isinstance(x, (SBool, bool))
                if t in ('memoryview', 'bytearray'): return False
                if t in ('list', 'tuple', 'dict', 'set', 'float'): return isinstance(x, getattr(builtins, t))
            if isinstance(c, type): return it.exc_is(x, c)
            raise Undecided('isinstance %r' % (c,))
        def len_(x):
            if isinstance(x, (list, tuple, dict, set, str, bytes)): return len(x)
            if isinstance(x, PyClass) and x.native(ENUM): return len(set(x.members.values()))
            if isinstance(x, SText):
                n = it.path.fresh('len', z3.IntSort()); it.path.pc.append(n >= 0); it.path.pc.append((n == 0) == (it.w.term(x) == EMPTY)); return SInt(n)
            raise Undecided('len')
        def getattr_(o, n, *d):
            r = it.attr_(o, n) if isinstance(n, str) else Undef_('getattr')
            if r is MISSING:
                if d: return d[0]
                it.raise_(AttributeError, n)
            return r
        def hasattr_(o, n): return it.attr_(o, n) is not MISSING
        def setattr_(o, n, v): it.setattr(o, n, v)
        def bool_(x=False): return it.truth(x)
        def int_(x=0, *r):
            if isinstance(x, SInt): return x
            if isinstance(x, SBool): return SInt(z3.If(x.t, 1, 0))
            if concrete(x):
                try: return int(x, *r)
                except Exception as e: raise PyRaise(e)
            raise Undecided('int()')
        def str_(x='', *r, **kw):
            if r or kw: return it.text_method(x, 'decode', list(r), kw)
            return it.tostr(x)
        def bytes_(x=b'', *r):
            if istext(x) and textkind(x) == 'bytes': return x
            if istext(x): return it.text_method(x, 'encode', list(r), {})
            raise Undecided('bytes()')
        def list_(x=()): return list(it.iterate(x))
        def tuple_(x=()): return tuple(it.iterate(x))
        def dict_(x=(), **kw):
            d = dict(x) if isinstance(x, dict) else {k: v for k, v in (it.iterate(y) for y in it.iterate(x))}
            d.update(kw); return d
        def set_(x=()): return set(it.iterate(x))
        def enumerate_(x, start=0): return [(i + start, v) for i, v in enumerate(it.iterate(x))]
        def zip_(*xs): return list(zip(*[it.iterate(x) for x in xs]))
        def range_(*a):
            if not concrete(list(a)): raise Undecided('range')
            return list(range(*a))
        def map_(f, x): return [it.call(f, [v], {}) for v in it.iterate(x)]
        def callable_(x): return isinstance(x, (PyFunc, Bound, Builtin, PyClass)) or hasattr(x, 'py_call') or isinstance(x, PyObj) and it.special(x, '__call__') is not None
        def any_(x): return any(it.truth(v) for v in it.iterate(x))
        def all_(x): return all(it.truth(v) for v in it.iterate(x))
        def next_(x, *d):
            l = it.iterate(x)
            if l: return l[0]
            if d: return d[0]
            it.raise_(StopIteration)
        def type_(x):
            if isinstance(x, PyObj): return x.cls
            raise Undecided('type()')
        def print_(*a, **kw): it.path.trace.append(('print',) + tuple(a))
        def repr_(x):
            if concrete(x): return repr(x)
            raise Undecided('repr of an unknown value')
        def min_(*a): 
            if concrete(list(a)): return min(*a)
            raise Undecided('min')
        def max_(*a):
            if concrete(list(a)): return max(*a)
            raise Undecided('max')
        d = {f.__name__.strip('_'): b(f) for f in (isinstance_, len_, getattr_, hasattr_, setattr_, bool_, int_, str_, bytes_, list_, tuple_, dict_, set_, enumerate_, zip_, range_, map_, callable_, any_, all_, next_, type_, print_, repr_, min_, max_)}
        d['dict'].attrs = {'fromkeys': Builtin('fromkeys', None)}
        for n in ('memoryview', 'bytearray', 'float', 'staticmethod', 'classmethod', 'property', 'object', 'super', 'input', 'id'): d[n] = Builtin(n, None)
        d['NotImplemented'] = OPAQUE
        return d

MISSING = Marker('missing')
AUTO = Marker('auto()')
class ClassEnv(Env):
    """names of a class body are not seen by the functions in it"""
    def __init__(self, up): super().__init__(up); self.real = up
def Undef_(what): raise Undecided(what)
