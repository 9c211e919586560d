"""Contracts for the C++ standard library and libc (no kernel: see oscontracts).

Each contract is what the verifier knows at a call; the library code itself is
not looked at. Library objects live in one memory cell as abstract values."""
import z3, re
from .sym import *

# ================================================================ text values
decs = z3.Function('dec', z3.BitVecSort(64), STR)
widen = z3.Function('widen', STR, STR)
jesc = z3.Function('jesc', STR, STR)          # JSON string form of a text, character by character
wjesc = z3.Function('wjesc', STR, STR)
one = z3.Function('one', z3.BitVecSort(8), STR)       # the text of one character
one32 = z3.Function('one32', z3.BitVecSort(32), STR)
wcharat = z3.Function('wcharat', STR, z3.BitVecSort(64), z3.BitVecSort(32))

def escbytes(v):
    if v in (0x22, 0x5c): return b'\\' + bytes([v])
    if v < 0x20: return b'\\u%04x' % v
    return bytes([v])

class Str:
    """concatenation of literals and opaque terms"""
    __slots__ = ('p',)
    def __init__(self, pieces=()):
        out = []
        for k, v in pieces:
            if k == 'l':
                if not v: continue
                if out and out[-1][0] == 'l':
                    out[-1] = ('l', out[-1][1] + v); continue
            out.append((k, v))
        self.p = tuple(out)
    @staticmethod
    def lit(b):
        if isinstance(b, str): b = b.encode()
        return Str([('l', b)])
    @staticmethod
    def sym(t): return Str([('s', t)])
    def __add__(self, o): return Str(self.p + o.p)
    @property
    def literal(self):
        if not self.p: return b''
        if len(self.p) == 1 and self.p[0][0] == 'l': return self.p[0][1]
        return None
    def term(self, ex):
        if not self.p: return ex.lit(b'')
        ts = [ex.lit(v) if k == 'l' else v for k, v in self.p]
        r = ts[-1]
        for t in reversed(ts[:-1]): r = scat(t, r)
        return r
    def length(self):
        n = 0; s = None
        for k, v in self.p:
            if k == 'l': n += len(v)
            else:
                e = slen(v)
                s = e if s is None else s + e
        if s is None: return n
        return simp(s + n) if n else s
    def __repr__(self):
        return '"' + ''.join(v.decode('latin1') if k == 'l' else '<%s>' % v for k, v in self.p) + '"'

def str_eq(ex, a, b):
    """formula: texts equal. Peels what is syntactically shared."""
    x, y = list(a.p), list(b.p)
    def peel(x, y, end):
        while x and y:
            i = -1 if end else 0
            (k1, v1), (k2, v2) = x[i], y[i]
            if k1 == 's' and k2 == 's':
                if v1.eq(v2): del x[i]; del y[i]; continue
                return True
            if k1 == 'l' and k2 == 'l':
                n = min(len(v1), len(v2))
                if end:
                    if v1[-n:] != v2[-n:]: return False
                    r1, r2 = v1[:-n], v2[:-n]
                else:
                    if v1[:n] != v2[:n]: return False
                    r1, r2 = v1[n:], v2[n:]
                if r1: x[i] = ('l', r1)
                else: del x[i]
                if r2: y[i] = ('l', r2)
                else: del y[i]
                continue
            return True
        return True
    if not peel(x, y, False): return z3.BoolVal(False)
    if not peel(x, y, True): return z3.BoolVal(False)
    if not x and not y: return z3.BoolVal(True)
    if len(x) == len(y) and all(p[0] == 's' and q[0] == 's' for p, q in zip(x, y)):
        return z3.And(*[p[1] == q[1] for p, q in zip(x, y)])
    A, B = Str(x), Str(y)
    if A.literal is not None and B.literal is not None: return z3.BoolVal(A.literal == B.literal)
    for u, v in ((A, B), (B, A)):
        if u.literal is not None and len(v.p) == 1: return lit_eq(ex, v.p[0][1], u.literal)
    return A.term(ex) == B.term(ex)

def lit_eq(ex, term, lit):
    """atom: opaque text equals literal, with its link to length and first bytes"""
    c = ex.lit(lit)
    return term == c

class Text(Ghost):
    """std::string / std::filesystem::path / string_view payload"""
    __slots__ = ('s', 'kind', 'buf')
    def __init__(self, s, kind, buf=None): self.s, self.kind, self.buf = s, kind, buf
    def __repr__(self): return '%s%r' % (self.kind, self.s)

class CBuf(Ghost):
    """text in a char array: NUL-terminated, or n bytes without terminator"""
    __slots__ = ('s', 'cap', 'n', 'tail0', 'wide')
    def __init__(self, s, cap, n=None, tail0=False, wide=False):
        self.s, self.cap, self.n, self.tail0, self.wide = s, cap, n, tail0, wide
    def __repr__(self): return 'cbuf%r' % self.s
    def wideload(self, ex, st, off, size):
        if size != 4: raise Undecided('partial read of a wide character')
        l = self.s.literal
        if l is not None and isinstance(off, int) and off % 4 == 0 and all(b < 128 for b in l):
            b = (l + b'\0')[off // 4:off // 4 + 1]
            if b: return b[0]
        if isinstance(off, int): i = bvv(off // 4, 64)
        else: i = simp(z3.UDiv(tobv(off, 64), bvv(4, 64))); i2 = unscale(off); i = i if i2 is None else i2
        ln = tobv(self.s.length(), 64)
        ex.ob(st, 'memory: text read within its terminator', z3.ULE(i, ln), ('MEM',))
        v = wcharat(self.s.term(ex), i)
        st.pc.append((v == 0) == (i == ln))
        return v
    def byteload(self, ex, st, off, size):
        if self.wide: return self.wideload(ex, st, off, size)
        if size != 1:
            l = self.s.literal
            if l is not None and self.n is None and isinstance(off, int):
                b = (l + b'\0')[off:off + size]
                if len(b) == size: return int.from_bytes(b, 'little')
            raise Undecided('multi-byte read of text')
        l = self.s.literal
        if l is not None and isinstance(off, int) and self.n is None:
            b = l + b'\0'
            if off < len(b): return b[off]
            if self.cap is not None and off < self.cap: return UNDEF
        t = self.s.term(ex)
        o = tobv(off, 64)
        ln = tobv(self.s.length(), 64)
        if self.n is None:
            ex.ob(st, 'memory: text read within its terminator', z3.ULE(o, ln), ('MEM',))
            v = charat(t, o)
            st.pc.append((v == 0) == (o == ln))
        else:
            ex.ob(st, 'memory: text read within its length', z3.ULT(o, tobv(self.n, 64)) if not self.tail0 else z3.ULT(o, bvv(self.cap, 64)), ('MEM',))
            v = charat(t, o)
            st.pc.append(z3.If(z3.ULT(o, tobv(self.n, 64)), v != 0, v == 0) if self.tail0 else v != 0)
        self.link(ex, st, t)
        return v
    def link(self, ex, st, t): pass
    def put_byte(self, ex, st, rel, val):
        if not isinstance(val, int) or val != 0: return None
        if self.n is not None:
            if ex.valid(st, tobv(rel, 64) == tobv(self.n, 64)): return CBuf(self.s, self.cap)
            return None
        ln = tobv(self.s.length(), 64)
        if ex.valid(st, tobv(rel, 64) == ln): return self
        if isinstance(rel, int) and rel == 0: return CBuf(Str(), self.cap)
        if ex.valid(st, z3.UGT(tobv(rel, 64), ln)): return self
        return None
    def clobber(self, ex, st, off, size, val):
        return None

def unscale(off):
    """i when off is i * 4 by construction"""
    off = z3.simplify(off)
    if z3.is_app_of(off, z3.Z3_OP_BMUL) and z3.is_bv_value(off.arg(0)) and off.arg(0).as_long() == 4: return off.arg(1)
    if z3.is_app_of(off, z3.Z3_OP_BSHL) and z3.is_bv_value(off.arg(1)) and off.arg(1).as_long() == 2: return off.arg(0)
    if z3.is_app_of(off, z3.Z3_OP_CONCAT) and z3.is_bv_value(off.arg(off.num_args() - 1)) and off.arg(off.num_args() - 1).size() == 2 and off.arg(off.num_args() - 1).as_long() == 0:
        e = z3.Concat(z3.BitVecVal(0, 2), *[off.arg(k) for k in range(off.num_args() - 1)])
        return e
    return None

class MapVal(Ghost):
    """unordered_map<int, text>: base generation plus updates, newest last"""
    __slots__ = ('base', 'ups', 'nodes')
    def __init__(self, base, ups=(), nodes=None):
        self.base, self.ups, self.nodes = base, tuple(ups), dict(nodes or {})
    def __repr__(self): return 'map(%s,%r)' % (self.base, self.ups)

class FuncVal(Ghost):
    """std::function: the user's callback, a closure, or empty"""
    __slots__ = ('kind', 'target', 'oid', 'size')
    def __init__(self, kind, target=None, oid=None, size=0): self.kind, self.target, self.oid, self.size = kind, target, oid, size
    def __repr__(self): return 'function(%s)' % self.kind

class FutureVal(Ghost):
    __slots__ = ('valid', 'task')
    def __init__(self, valid, task): self.valid, self.task = valid, task

class Opaque(Ghost):
    __slots__ = ('what',)
    def __init__(self, what): self.what = what

def map_has(base): return z3.Function('has_%s' % base, z3.BitVecSort(32), z3.BoolSort())
def map_path(base): return z3.Function('path_%s' % base, z3.BitVecSort(32), STR)

# ================================================================ helpers
SZ = {'string': 32, 'path': 40, 'function': 32, 'map': 56, 'future': 16}

def gettext(c, p, what='string'):
    v = c.ex.getcell(c.st, p)
    if isinstance(v, Text): return v
    if isinstance(v, Junk): raise Undecided('text lost at a loop head (%s)' % v.why)
    if v is None:
        c.ex.mem_fault(c.st, 'use of a %s that is not alive' % what)
    raise Undecided('text expected, found %r' % (v,))

def settext(c, p, s, kind):
    v = c.ex.getcell(c.st, p) if c.st.mem.get(p.obj) is not None else None
    if isinstance(v, Text) and v.buf is not None: c.ex.kill(c.st, v.buf)
    c.ex.setghost(c.st, p, SZ[kind], Text(s, kind))

def killtext(c, p, what):
    v = c.ex.getcell(c.st, p)
    if v is None: c.ex.mem_fault(c.st, 'destruction of a %s that is not alive' % what)
    if isinstance(v, Text) and v.buf is not None: c.ex.kill(c.st, v.buf)
    c.ex.delcell(c.st, p)

def read_cstr(c, p):
    ex, st = c.ex, c.st
    if isinstance(p, Lazy): raise Undecided('unresolved pointer')
    o = ex.check_ptr(st, p, 1, 'read')
    r = ex.find_region(o, p.off, p.reg) if o.regions else None
    if r is not None and r.kind == 'kbuf':
        return r.info.cstr(ex, st, r, simp(tobv(p.off, 64) - r.lo))
    off = p.off
    if not isinstance(off, int): raise Undecided('text at a symbolic address')
    v = o.cells.get(off)
    if v is not None and isinstance(v[1], CBuf):
        b = v[1]
        if b.n is not None and not b.tail0:
            ex.ob(st, 'memory: text read is terminated', False, ('MEM',)); raise PathEnd()
        # zeroes after the text end it, when there is room for one
        if b.n is not None and b.cap is not None: ex.ob(st, 'memory: text read is terminated', z3.ULT(tobv(b.n, 64), bvv(b.cap, 64)), ('MEM',))
        return b.s
    for k, (n, w) in o.cells.items():
        if isinstance(w, CBuf) and k < off < k + (n or 1 << 30):
            l = w.s.literal
            if l is not None and off - k <= len(l): return Str.lit(l[off - k:])
            # suffix of opaque text
            raise Undecided('suffix of opaque text')
    # plain bytes
    out = bytearray(); k = off
    while True:
        if o.size is not None and k >= o.size: ex.mem_fault(st, 'text read past the end of %s' % o.name)
        b = ex.load(st, Ptr(p.obj, k, p.reg), 1)
        if isinstance(b, Undef): ex.mem_fault(st, 'text read of uninitialised memory')
        if not isinstance(b, int): raise Undecided('text made of symbolic bytes')
        if b == 0: break
        out.append(b); k += 1
    return Str.lit(bytes(out))

def read_wcstr(c, p):
    ex, st = c.ex, c.st
    out = ''; k = 0
    while True:
        v = ex.load(st, ex.padd(p, 4 * k), 4)
        if not isinstance(v, int): raise Undecided('wide text')
        if v == 0: break
        out += chr(v); k += 1
    return Str.lit(out.encode())

def put_cstr(c, p, s, cap):
    """write NUL-terminated text of at most cap bytes (checked by the caller)"""
    ex, st = c.ex, c.st
    o = ex.check_ptr(st, p, 1, 'write')
    if not isinstance(p.off, int): raise Undecided('text written at a symbolic address')
    lo, hi = p.off, p.off + cap
    if p.reg is not None: hi = min(hi, max(p.reg[1], lo + 1)) if False else hi
    ex.wipe(st, Ptr(p.obj, lo), cap)
    o = st.wobj(p.obj)
    o.cells[lo] = (cap, CBuf(s, cap))

def bufspace(ex, st, p):
    """bytes from p to the end of its array"""
    o = ex.check_ptr(st, p, 1, 'write')
    end = o.size
    if p.reg is not None: end = p.reg[1]
    if end is None: return None
    return simp(bvv(end, 64) - tobv(p.off, 64)) if not isinstance(p.off, int) else end - p.off

def is_wide(c): 
    return 'wchar_t' in c.dem.split('(')[0] or any('wchar_t' in p for p in c.params)

def sret(c):
    a = c.ins.args
    return bool(a) and 'sret' in a[0][2]

LIB = {}
def lib(*names):
    def d(f):
        for n in names: LIB[n] = f
        return f
    return d

def dec_len(v):
    """number of characters of the signed decimal rendering of a 64-bit value"""
    neg = v < 0
    mag = z3.If(neg, -v, v)      # 2^63 stays 2^63 as unsigned
    n = bvv(1, 64)
    for k in range(1, 20):
        n = z3.If(z3.UGE(mag, bvv(10 ** k, 64)), bvv(k + 1, 64), n)
    return z3.If(neg, n + 1, n)

def dec_text(st, v):
    if isinstance(v, int): return Str.lit(str(sx(v, 64)))
    t = decs(v)
    st.pc.append(slen(t) == dec_len(v))
    return Str.sym(t)

# ================================================================ llvm
@lib('llvm.memcpy', 'llvm.memmove', 'memcpy', 'memmove')
def _memcpy(c):
    c.ex.memcpy(c.st, c.args[0], c.args[1], c.args[2]); return c.args[0]
@lib('llvm.memset', 'memset')
def _memset(c):
    v = c.args[1]
    if isinstance(v, int): v &= 255
    c.ex.memset(c.st, c.args[0], v, c.args[2]); return c.args[0]
@lib('llvm.experimental.noalias.scope.decl', 'llvm.lifetime', 'llvm.assume', 'llvm.donothing', 'llvm.stackrestore', 'llvm.prefetch', 'llvm.dbg')
def _nop(c): return None
@lib('llvm.expect')
def _expect(c): return c.args[0]
@lib('llvm.trap', 'abort', 'std::terminate', '__cxa_pure_virtual', '__assert_fail', '_exit', 'exit')
def _trap(c):
    c.ex.ob(c.st, 'control: no abnormal termination (%s)' % c.key, False, ('MEM',)); raise PathEnd()
def throws(c):
    c.ex.ob(c.st, 'control: no exception (%s)' % c.key, False, ('MEM',)); raise PathEnd()
for n in ('bad_alloc', 'bad_array_new_length', 'logic_error', 'length_error', 'out_of_range', 'out_of_range_fmt', 'bad_function_call', 'future_error', 'system_error', 'bad_optional_access', 'runtime_error', 'invalid_argument', 'bad_variant_access'):
    LIB['std::__throw_' + n] = throws
@lib('llvm.umul.with.overflow', 'llvm.smul.with.overflow', 'llvm.uadd.with.overflow', 'llvm.sadd.with.overflow', 'llvm.usub.with.overflow', 'llvm.ssub.with.overflow')
def _ovf(c):
    m = re.match(r'llvm\.([us])(mul|add|sub)\.with\.overflow\.i(\d+)', c.name)
    s, op, w = m.group(1) == 's', m.group(2), int(m.group(3))
    a, b = c.args
    A, B = tobv(a, w), tobv(b, w)
    r = {'mul': A * B, 'add': A + B, 'sub': A - B}[op]
    ok = {'mul': lambda: z3.And(z3.BVMulNoOverflow(A, B, s), z3.BVMulNoUnderflow(A, B) if s else True),
          'add': lambda: z3.And(z3.BVAddNoOverflow(A, B, s), z3.BVAddNoUnderflow(A, B) if s else True),
          'sub': lambda: z3.And(z3.BVSubNoOverflow(A, B) if s else True, z3.BVSubNoUnderflow(A, B, s))}[op]()
    return [simp(r), simp(z3.Not(ok))]
@lib('llvm.umin', 'llvm.umax', 'llvm.smin', 'llvm.smax')
def _minmax(c):
    m = re.match(r'llvm\.([us])(min|max)\.i(\d+)', c.name); w = int(m.group(3))
    A, B = tobv(c.args[0], w), tobv(c.args[1], w)
    lt = z3.ULT(A, B) if m.group(1) == 'u' else A < B
    return simp(z3.If(lt, A, B) if m.group(2) == 'min' else z3.If(lt, B, A))
@lib('llvm.abs')
def _abs(c):
    m = re.match(r'llvm\.abs\.i(\d+)', c.name); w = int(m.group(1))
    A = tobv(c.args[0], w); return simp(z3.If(A < 0, -A, A))
@lib('llvm.fabs')
def _fabs(c): return z3.simplify(z3.fpAbs(c.args[0]))
@lib('llvm.is.constant')
def _isconst(c): return 0

# ================================================================ memory
@lib('operator new', 'operator new[]', 'malloc', '_Znwm', '_Znam')
def _new(c):
    n = c.args[0]
    if not isinstance(n, int): raise Undecided('allocation of symbolic size')
    if c.key == 'malloc': c.st.trace.append(('malloc', None))
    oid = c.ex.new_obj(c.st, n, 'heap', 'heap' if c.key != 'malloc' else 'malloc')
    c.ex.assumptions.add('memory allocation does not fail')
    return Ptr(oid, 0)
@lib('calloc')
def _calloc(c):
    a, b = c.args
    if not isinstance(a, int) or not isinstance(b, int): raise Undecided('allocation of symbolic size')
    c.st.trace.append(('malloc', None))
    p = Ptr(c.ex.new_obj(c.st, a * b, 'heap', 'malloc'), 0)
    c.ex.memset(c.st, p, 0, a * b)
    c.ex.assumptions.add('memory allocation does not fail')
    return p
@lib('operator delete', 'operator delete[]', 'free', '_ZdlPv', '_ZdlPvm', '_ZdaPv')
def _delete(c):
    p = c.args[0]
    if isinstance(p, Lazy) or isinstance(p, Junk): raise Undecided('release of an unknown pointer')
    if isinstance(p, Undef): c.ex.mem_fault(c.st, 'release of an uninitialised pointer')
    if isinstance(p, int) or p.null: return None
    o = c.st.mem.get(p.obj)
    if o is None: c.ex.mem_fault(c.st, 'object released twice')
    want = 'malloc' if c.key == 'free' else 'heap'
    if o.kind != want or p.off != 0: c.ex.mem_fault(c.st, 'release of something that was not allocated that way')
    c.ex.kill(c.st, p.obj)
    return None
@lib('std::addressof', 'std::__addressof', 'std::move', 'std::forward')
def _ident(c):
    return c.args[0]
LIB.pop('std::move'); LIB.pop('std::forward')   # std::move is also an algorithm: inline the library's own body

# ================================================================ std::string / std::filesystem::path
def text_arg(c, p, ty):
    """text of an argument by its declared type"""
    t = ty.strip()
    if re.match(r'^char( const)?\s*\*\s*(const)?\s*&{1,2}$', t):
        q = c.ex.load(c.st, p, 8)
        if not isinstance(q, Ptr): raise Undecided('text pointer')
        return read_cstr(c, q)
    if re.match(r'^(char|wchar_t)( const)?\s*(\*|\(?&?\)?\s*\[|\(&\)\s*\[)', t) or t.startswith('char const*') or re.match(r'^(char|wchar_t)( const)? ?\(&\)', t) or t in ('char*',):
        return read_wcstr(c, p) if t.startswith('wchar_t') else read_cstr(c, p)
    if 'basic_string_view' in t and not t.endswith('&') : return None
    if 'basic_string' in t or 'path' in t: return gettext(c, p).s
    raise Undecided('text argument of type %s' % t)

def chartype(c):
    return 'wchar_t' if 'wchar_t' in c.dem.split('(')[0] else 'char'

@lib('std::basic_string::basic_string')
def _str_ctor(c):
    this, a, P = c.args[0], c.args[1:], [p for p in c.params]
    P = [p for p in P if not p.startswith('std::allocator')]
    if not P: s = Str()
    elif 'basic_string_view' in P[0]:
        # passed as (length, pointer) or by reference
        if len(a) >= 2 and isinstance(a[1], Ptr) and not isinstance(a[0], Ptr): s = bytes_text(c, a[1], a[0])
        else:
            n = c.ex.load(c.st, a[0], 8); q = c.ex.load(c.st, c.ex.padd(a[0], 8), 8)
            s = bytes_text(c, q, n)
    elif 'basic_string' in P[0] and len(P) == 1:
        v = gettext(c, a[0]); s = v.s
        if P[0].endswith('&&'): 
            settext(c, a[0], Str(), 'string')
    elif 'basic_string' in P[0] and len(P) in (2, 3):
        s = substr(c, gettext(c, a[0]).s, a[1], a[2] if len(P) == 3 else None)
    elif re.match(r'^(char|wchar_t) const\*$', P[0]) and len(P) == 1:
        if isinstance(a[0], Ptr) and a[0].null: throws(c)
        s = text_arg(c, a[0], P[0])
    elif re.match(r'^(char|wchar_t) const\*$', P[0]) and len(P) == 2 and P[1] == 'unsigned long':
        s = bytes_text(c, a[0], a[1], wide=P[0].startswith('wchar_t'))
    elif len(P) == 2 and P[0] == 'unsigned long' and P[1] in ('char', 'wchar_t'):
        if not (isinstance(a[0], int) and isinstance(a[1], int)): raise Undecided('fill constructor')
        s = Str.lit(bytes([a[1] & 255]) * a[0])
    elif len(P) == 2 and isinstance(a[0], Ptr) and isinstance(a[1], Ptr):
        n = c.ex.binop(c.st, 'sub', 64, a[1], a[0])
        el = 4 if 'wchar_t' in P[0] else 1
        if el == 4: n = simp(z3.UDiv(tobv(n, 64), bvv(4, 64)))
        s = bytes_text(c, a[0], n, wide=el == 4)
        if chartype(c) == 'wchar_t' and el == 1:
            s = s     # each char zero-extended: digits and ASCII stay themselves
            if s.literal is None and not all(k == 'l' or is_dec(v) for k, v in s.p): raise Undecided('widening of opaque bytes')
    elif len(P) == 2 and 'initializer_list' in P[0]:
        raise Undecided('initializer list text')
    else: raise Undecided('string constructor (%s)' % ', '.join(c.params))
    c.ex.setghost(c.st, this, 32, Text(s, 'string'))

def is_dec(t):
    return z3.is_app(t) and t.decl().name() == 'dec'

def bytes_text(c, p, n, wide=False):
    """text of n bytes at p"""
    ex, st = c.ex, c.st
    if isinstance(n, int) and n == 0: return Str()
    if wide:
        out = ''
        if not isinstance(n, int):
            return wide_text(c, p, n)
        sym = False
        for k in range(n):
            v = ex.load(st, ex.padd(p, 4 * k), 4)
            if not isinstance(v, int): return wide_text(c, p, n)
            out += chr(v)
        return Str.lit(out.encode())
    o = ex.check_ptr(st, p, 1, 'read')
    r = ex.find_region(o, p.off, p.reg) if o.regions else None
    if r is not None and r.kind == 'kbuf': raise Undecided('raw text from the kernel buffer')
    if isinstance(p.off, int):
        cell = o.cells.get(p.off)
        if cell is not None and isinstance(cell[1], CBuf):
            b = cell[1]
            ln = tobv(b.s.length() if b.n is None else b.n, 64)
            nn = tobv(n, 64)
            if ex.valid(st, nn == ln): return b.s
            if b.tail0 and isinstance(n, int):
                ex.ob(st, 'memory: text read inside its buffer', n <= b.cap, ('MEM',))
                # text followed by zero bytes up to n
                if ex.valid(st, z3.UGE(nn, ln)):
                    t = z3.Function('zpad', STR, z3.BitVecSort(64), STR)(b.s.term(ex), nn)
                    return Str.sym(t)
            l = b.s.literal
            if l is not None and isinstance(n, int):
                full = l + (b'\0' if b.n is None else b'')
                if n <= len(full): return Str.lit(full[:n])
                ex.mem_fault(st, 'text read past its end')
            ok = z3.ULE(nn, ln + (1 if b.n is None else 0))
            ex.ob(st, 'memory: text read inside its buffer', ok, ('MEM',))
            if isinstance(n, int) or True:
                t = z3.Function('sprefix', STR, z3.BitVecSort(64), STR)(b.s.term(ex), nn)
                st.pc.append(slen(t) == nn)
                return Str.sym(t)
    if isinstance(n, int):
        out = bytearray()
        for k in range(n):
            v = ex.load(st, ex.padd(p, k), 1)
            if isinstance(v, Undef): ex.mem_fault(st, 'text made of uninitialised bytes')
            if not isinstance(v, int): raise Undecided('text made of symbolic bytes')
            out.append(v)
        return Str.lit(bytes(out))
    raise Undecided('text of symbolic length')

def wide_text(c, p, n):
    """wchar_t array whose elements are the zero-extended bytes of one text"""
    ex, st = c.ex, c.st
    if not isinstance(n, int):
        # the number of characters, settled on this path
        cnt = next((m for m in range(1, 65) if ex.valid(st, tobv(n, 64) == m)), None)
        if cnt is None: raise Undecided('wide text of symbolic length')
    else: cnt = n
    base = None
    for k in range(cnt):
        v = ex.load(st, ex.padd(p, 4 * k), 4)
        e = v
        if isinstance(e, int): raise Undecided('mixed wide text')
        # ZeroExt(24, charat(t, k))
        if not (z3.is_app(e)): raise Undecided('wide text')
        q = e
        s = z3.simplify(z3.Extract(7, 0, e))
        if not (z3.is_app(s) and s.decl().name() == 'charat'): raise Undecided('wide text')
        if base is None: base = s.arg(0)
        if not s.arg(0).eq(base) or not z3.simplify(s.arg(1) == k).eq(z3.BoolVal(True)): raise Undecided('wide text')
        if not ex.valid(st, z3.ZeroExt(24, s) == e): raise Undecided('wide text')
    if base is None: return Str()
    nn = tobv(n, 64)
    if ex.valid(st, nn == slen(base)): return Str.sym(base)
    return Str.sym(z3.Function('zpad', STR, z3.BitVecSort(64), STR)(base, nn))

def substr(c, s, pos, n):
    l = s.literal
    if l is not None and isinstance(pos, int) and (n is None or isinstance(n, int)):
        if pos > len(l): throws(c)
        return Str.lit(l[pos:] if n is None else l[pos:pos + n])
    if isinstance(pos, int) and pos == 0 and (n is None or n == (1 << 64) - 1): return s
    raise Undecided('substring of opaque text')

@lib('std::basic_string::~basic_string')
def _str_dtor(c): killtext(c, c.args[0], 'string')

@lib('std::basic_string::operator=', 'std::basic_string::assign')
def _str_assign(c):
    this, a, P = c.args[0], c.args[1:], c.params
    if len(P) == 1:
        if P[0] in ('char', 'wchar_t'):
            s = char_text(c, a[0])
        else: s = text_arg(c, a[0], P[0])
    elif len(P) == 2 and P[1] == 'unsigned long' and 'char' in P[0]: s = bytes_text(c, a[0], a[1])
    else: raise Undecided('string assign')
    settext(c, this, s, 'string')
    return this

def simp_char(v): return one(simp(v)) if v.size() == 8 else one32(simp(v))

def char_text(c, v):
    if isinstance(v, int):
        if v > 127 and 'wchar_t' in ''.join(c.params): return Str.lit(chr(v).encode())
        return Str.lit(bytes([v & 255]))
    if z3.is_expr(v) and z3.is_bv(v) and v.size() in (8, 32):
        t = simp_char(v)
        c.st.pc.append(slen(t) == 1)
        return Str.sym(t)
    raise Undecided('text of a symbolic character')

@lib('std::basic_string::operator+=', 'std::basic_string::append', 'std::basic_string::push_back')
def _str_append(c):
    this, a, P = c.args[0], c.args[1:], c.params
    v = gettext(c, this)
    if len(P) == 1:
        if P[0] in ('char', 'wchar_t'): t = char_text(c, a[0])
        elif 'basic_string_view' in P[0]:
            if isinstance(a[0], Ptr) and len(a) == 1: t = bytes_text(c, c.ex.load(c.st, c.ex.padd(a[0], 8), 8), c.ex.load(c.st, a[0], 8))
            else: t = bytes_text(c, a[1], a[0])
        else: t = text_arg(c, a[0], P[0])
    elif len(P) == 2 and P[1] == 'unsigned long': t = bytes_text(c, a[0], a[1])
    elif len(P) == 2 and P[0] == 'unsigned long' and isinstance(a[0], int): 
        t = Str([('l', char_text(c, a[1]).literal * a[0])])
    else: raise Undecided('string append')
    settext(c, this, v.s + t, 'string')
    return this if c.key.split('::')[-1] != 'push_back' else None

def data_of(c, this, kind):
    v = gettext(c, this, kind)
    if v.buf is not None and v.buf in c.st.mem: return Ptr(v.buf, 0)
    oid = c.ex.new_obj(c.st, None, 'text of a ' + kind, 'text')
    l = v.s.literal
    o = c.st.mem[oid]
    wide = kind == 'string' and chartype(c) == 'wchar_t'
    if wide:
        o.cells[0] = (1 << 22, CBuf(v.s, None, wide=True)); o.size = None
    else:
        o.cells[0] = (len(l) + 1 if l is not None else 1 << 20, CBuf(v.s, None))
        o.size = len(l) + 1 if l is not None else None
    c.ex.setghost(c.st, this, SZ[kind], Text(v.s, v.kind, oid))
    return Ptr(oid, 0)

@lib('std::basic_string::c_str', 'std::basic_string::data', 'std::basic_string::begin', 'std::basic_string::cbegin')
def _str_cstr(c): return data_of(c, c.args[0], 'string')
@lib('std::basic_string::end', 'std::basic_string::cend')
def _str_end(c):
    p = data_of(c, c.args[0], 'string')
    return c.ex.padd(p, gettext(c, c.args[0]).s.length())
@lib('std::basic_string::size', 'std::basic_string::length')
def _str_size(c): return gettext(c, c.args[0]).s.length()
@lib('std::basic_string::empty')
def _str_empty(c):
    n = gettext(c, c.args[0]).s.length()
    return simp(tobv(n, 64) == 0)
@lib('std::basic_string::clear')
def _str_clear(c): settext(c, c.args[0], Str(), 'string')
@lib('std::basic_string::reserve', 'std::basic_string::shrink_to_fit')
def _str_reserve(c): gettext(c, c.args[0]); return None
@lib('std::basic_string::substr')
def _str_substr(c):
    s = substr(c, gettext(c, c.args[1]).s, c.args[2], c.args[3] if len(c.args) > 3 else None)
    c.ex.setghost(c.st, c.args[0], 32, Text(s, 'string'))
@lib('std::basic_string::operator[]', 'std::basic_string::at', 'std::basic_string::front')
def _str_idx(c):
    p = data_of(c, c.args[0], 'string')
    i = c.args[1] if len(c.args) > 1 else 0
    ln = tobv(gettext(c, c.args[0]).s.length(), 64)
    c.ex.ob(c.st, 'memory: string index in range', z3.ULE(tobv(i, 64), ln), ('MEM',))
    if chartype(c) == 'wchar_t': i = i * 4 if isinstance(i, int) else simp(tobv(i, 64) * 4)
    return c.ex.padd(p, i)
@lib('std::basic_string::operator basic_string_view', 'std::basic_string::operator std::basic_string_view')
def _str_sv(c):
    v = gettext(c, c.args[0])
    return [v.s.length(), data_of(c, c.args[0], 'string')]

def opplus(c):
    # sret, lhs, rhs
    out = c.args[0]; a = c.args[1:]; P = c.params
    def arg(k):
        t = P[k]
        if t in ('char', 'wchar_t'): return char_text(c, a[k])
        if 'basic_string' in t:
            v = gettext(c, a[k])
            return v.s
        if 'wchar_t const*' in t: return read_wcstr(c, a[k])
        return text_arg(c, a[k], t)
    s = arg(0) + arg(1)
    for k in (0, 1):
        if P[k].endswith('&&') and 'basic_string' in P[k]:
            if not (a[k].obj == out.obj and a[k].off == out.off): settext(c, a[k], Str(), 'string')
    c.ex.setghost(c.st, out, 32, Text(s, 'string'))
@lib('std::operator+')
def _opplus(c):
    if not any('basic_string' in p for p in c.params): raise Undecided('operator+')
    return opplus(c)

def cmp_text(c):
    a, b = c.args[-2], c.args[-1]
    P = c.params
    if len(c.args) == 4 and 'basic_string_view' in P[0]:
        x, y = bytes_text(c, c.args[1], c.args[0]), bytes_text(c, c.args[3], c.args[2])
        return str_eq(c.ex, x, y)
    x = text_arg(c, a, P[0]); y = text_arg(c, b, P[1])
    return str_eq(c.ex, x, y)
@lib('std::operator==', 'std::filesystem::operator==')
def _opeq(c):
    if any('__normal_iterator' in p for p in c.params): raise Undecided('iterator comparison')
    if any('error_code' in p for p in c.params): raise Undecided('error_code comparison')
    if not any('basic_string' in p or 'path' in p for p in c.params): raise Undecided('operator==(%s)' % ', '.join(c.params))
    return simp(cmp_text(c))
@lib('std::operator!=', 'std::filesystem::operator!=')
def _opne(c):
    if not any('basic_string' in p or 'path' in p for p in c.params): raise Undecided('operator!=(%s)' % ', '.join(c.params))
    return simp(z3.Not(cmp_text(c)))
@lib('std::basic_string::compare', 'std::filesystem::path::compare')
def _compare(c):
    if len(c.params) != 1: raise Undecided('compare')
    x = gettext(c, c.args[0]).s
    y = text_arg(c, c.args[1], c.params[0])
    e = str_eq(c.ex, x, y)
    r = c.ex.fresh('cmp', 32)
    c.st.pc.append((r == 0) == e)
    return r

# paths
@lib('std::filesystem::path::path')
def _path_ctor(c):
    this, a, P = c.args[0], c.args[1:], [p for p in c.params if 'path::format' not in p]
    if not P: s = Str()
    elif len(P) == 1:
        t = P[0]
        if 'basic_string_view' in t and len(a) >= 2 and not isinstance(a[0], Ptr): s = bytes_text(c, a[1], a[0])
        else:
            s = text_arg(c, a[0], t)
            if t.endswith('&&') and ('basic_string' in t or 'path' in t) :
                v = gettext(c, a[0]); settext(c, a[0], Str(), v.kind)
    else: raise Undecided('path constructor')
    c.ex.setghost(c.st, this, 40, Text(s, 'path'))
@lib('std::filesystem::path::~path')
def _path_dtor(c): killtext(c, c.args[0], 'path')
@lib('std::filesystem::path::operator=', 'std::filesystem::path::assign')
def _path_assign(c):
    s = text_arg(c, c.args[1], c.params[0])
    settext(c, c.args[0], s, 'path')
    return c.args[0]
@lib('std::filesystem::path::c_str', 'std::filesystem::path::native')
def _path_cstr(c):
    if c.key.endswith('native'):
        # the string inside a path: same value, read-only
        v = gettext(c, c.args[0])
        oid = c.ex.new_obj(c.st, 32, 'native string of a path', 'text')
        c.st.mem[oid].cells[0] = (32, Text(v.s, 'string'))
        return Ptr(oid, 0)
    return data_of(c, c.args[0], 'path')
@lib('std::filesystem::path::string', 'std::filesystem::path::u8string', 'std::filesystem::path::generic_string')
def _path_string(c):
    if is_wide(c): raise Undecided('wide path string')
    c.ex.setghost(c.st, c.args[0], 32, Text(gettext(c, c.args[1], 'path').s, 'string'))
@lib('std::filesystem::path::wstring', 'std::filesystem::path::generic_wstring')
def _path_wstring(c):
    v = gettext(c, c.args[1], 'path')
    c.ex.setghost(c.st, c.args[0], 32, Text(Str.sym(widen(v.s.term(c.ex))), 'string'))
@lib('std::filesystem::path::operator std::string', 'std::filesystem::path::operator basic_string', 'std::filesystem::path::operator std::basic_string')
def _path_conv(c):
    c.ex.setghost(c.st, c.args[0], 32, Text(gettext(c, c.args[1], 'path').s, 'string'))
@lib('std::filesystem::path::empty')
def _path_empty(c): return simp(tobv(gettext(c, c.args[0], 'path').s.length(), 64) == 0)

def join(c, a, b):
    """path a / b. The contract says no more than that it is the join."""
    ta, tb = a.term(c.ex), b.term(c.ex)
    return Str.sym(sjoin(ta, tb))
@lib('std::filesystem::operator/')
def _path_div(c):
    a = text_arg(c, c.args[1], c.params[0]); b = text_arg(c, c.args[2], c.params[1])
    c.ex.setghost(c.st, c.args[0], 40, Text(join(c, a, b), 'path'))
@lib('std::filesystem::path::operator/=', 'std::filesystem::path::append')
def _path_dive(c):
    v = gettext(c, c.args[0], 'path')
    b = text_arg(c, c.args[1], c.params[0])
    settext(c, c.args[0], join(c, v.s, b), 'path')
    return c.args[0]
@lib('std::filesystem::path::operator+=', 'std::filesystem::path::concat')
def _path_cat(c):
    v = gettext(c, c.args[0], 'path')
    b = text_arg(c, c.args[1], c.params[0])
    settext(c, c.args[0], v.s + b, 'path')
    return c.args[0]

# filesystem queries
isdirF = 'isdir'
def set_ec(c, p, val):
    # std::error_code { int value; category* }
    c.ex.store(c.st, p, 4, val)
    c.ex.store(c.st, c.ex.padd(p, 8), 8, Ptr(cat_obj(c), 0))
def cat_obj(c):
    if 'category' not in c.ex.gobj:
        c.ex.oid += 1; c.ex.gobj['category'] = c.ex.oid
    oid = c.ex.gobj['category']
    if oid not in c.st.mem: c.st.mem[oid] = Obj(8, 'category', 'global', c.st.id)
    return oid
@lib('std::system_category', 'std::generic_category', 'std::_V2::system_category')
def _syscat(c): return Ptr(cat_obj(c), 0)
@lib('std::error_code::error_code')
def _ec_ctor(c):
    if len(c.args) == 1: set_ec(c, c.args[0], 0)
    else: set_ec(c, c.args[0], c.args[1])

def ecfork(c, ecp):
    """may fail: error code non-zero; or succeed: zero"""
    k = c.choose(2)
    if k == 0:
        set_ec(c, ecp, 0); return True
    e = c.ex.fresh('ec', 32)
    c.assume(e != 0)
    set_ec(c, ecp, e)
    return False
@lib('std::filesystem::absolute')
def _absolute(c):
    out, p = c.args[0], c.args[1]
    s = gettext(c, p, 'path').s
    if len(c.params) != 2: raise Undecided('throwing absolute')
    ok = ecfork(c, c.args[2])
    if ok: r = Str.sym(z3.Function('absolute', STR, STR)(s.term(c.ex)))
    else: r = Str()
    c.st.trace.append(('absolute', s, ok, r))
    c.ex.setghost(c.st, out, 40, Text(r, 'path'))
@lib('std::filesystem::is_directory')
def _isdir(c):
    if 'file_status' in c.params[0]:
        # by value: type in the low byte
        v = c.args[0]
        return simp(z3.Extract(7, 0, tobv(v, 64)) == 2) if not isinstance(v, int) else int((v & 255) == 2)
    s = gettext(c, c.args[0], 'path').s
    if len(c.params) != 2: raise Undecided('throwing is_directory')
    ok = ecfork(c, c.args[1])
    r = c.ex.fresh('isdir', 'bool') if ok else 0
    c.st.trace.append(('is_directory', s, ok, r))
    return r
@lib('std::filesystem::status', 'std::filesystem::symlink_status')
def _status(c): raise Undecided('filesystem status')
@lib('std::filesystem::exists')
def _exists(c):
    s = gettext(c, c.args[0], 'path').s
    if len(c.params) == 2:
        ok = ecfork(c, c.args[1])
    else: ok = True
    r = c.ex.fresh('exists', 'bool') if ok else 0
    c.st.trace.append(('exists', s, ok, r))
    return r
@lib('std::filesystem::current_path')
def _cwd(c):
    if len(c.params) != 0: raise Undecided('current_path')
    r = Str.sym(c.ex.fresh('cwd', 'str'))
    c.st.trace.append(('cwd', r))
    c.ex.setghost(c.st, c.args[0], 40, Text(r, 'path'))

# ================================================================ unordered_map<int, path>
def getmap(c, p):
    v = c.ex.getcell(c.st, p)
    if isinstance(v, MapVal): return v
    if v is None: c.ex.mem_fault(c.st, 'use of a map that is not alive')
    if isinstance(v, Junk): raise Undecided('map lost at a loop head')
    raise Undecided('map expected, found %r' % (v,))
def setmap(c, p, v): c.ex.setghost(c.st, p, 56, v)

def map_find(c, m, key):
    """(found, path text, identity of the entry) with forking"""
    k = tobv(key, 32)
    for u in reversed(m.ups):
        if u[0] == 'put':
            if c.branch(k == tobv(u[1], 32)): return True, u[2], ('u', u[3])
        elif u[0] == 'del':
            if c.branch(k == tobv(u[1], 32)): return False, None, None
        elif u[0] == 'delset':
            if c.branch(u[1](k)): return False, None, None
    if m.base == 'empty': return False, None, None
    kk = k
    if c.branch(map_has(m.base)(kk)):
        return True, Str.sym(map_path(m.base)(kk)), ('b', m.base, kk)
    return False, None, None

def map_node(c, mp, m, key, path, ident):
    """object standing for the entry; kept per map so that references stay stable"""
    tag = (ident[0],) + tuple(str(x) for x in ident[1:])
    oid = m.nodes.get(tag)
    if oid is not None and oid in c.st.mem:
        return oid
    oid = c.ex.new_obj(c.st, 48, 'map entry', 'node')
    o = c.st.mem[oid]
    o.cells[0] = (4, key)
    o.cells[8] = (40, Text(path, 'path'))
    m2 = MapVal(m.base, m.ups, m.nodes); m2.nodes[tag] = oid
    setmap_quiet(c, mp, m2)
    return oid
def setmap_quiet(c, p, v):
    """node bookkeeping is not a modification of the map"""
    log = c.st.wlog
    c.st.wlog = None
    setmap(c, p, v)
    c.st.wlog = log

@lib('std::unordered_map::unordered_map')
def _map_ctor(c):
    if len(c.args) > 1 and isinstance(c.args[1], Ptr) and ('unordered_map' in (c.params[0] if c.params else '')):
        m = getmap(c, c.args[1])
        if c.params[0].endswith('&&'):
            setmap(c, c.args[0], m)
            setmap(c, c.args[1], MapVal('empty'))
        else:
            setmap(c, c.args[0], MapVal(m.base, m.ups))
        return
    if c.params and 'initializer_list' in c.params[0]: raise Undecided('map from list')
    setmap(c, c.args[0], MapVal('empty'))
@lib('std::unordered_map::~unordered_map')
def _map_dtor(c):
    m = getmap(c, c.args[0])
    for o in m.nodes.values(): c.ex.kill(c.st, o)
    c.ex.delcell(c.st, c.args[0])
@lib('std::unordered_map::operator=')
def _map_assign(c):
    m = getmap(c, c.args[1])
    old = getmap(c, c.args[0])
    for o in old.nodes.values(): c.ex.kill(c.st, o)
    if c.params[0].endswith('&&'):
        setmap(c, c.args[0], m); setmap(c, c.args[1], MapVal('empty'))
    else: setmap(c, c.args[0], MapVal(m.base, m.ups))
    return c.args[0]
def key_arg(c, p):
    return c.ex.load(c.st, p, 4)
def node_ptr(c, mp, key):
    m = getmap(c, mp)
    f, path, ident = map_find(c, m, key)
    if not f: return None
    return Ptr(map_node(c, mp, m, key, path, ident), 0)
@lib('std::unordered_map::find')
def _map_find(c):
    p = node_ptr(c, c.args[0], key_arg(c, c.args[1]))
    return p if p is not None else NULL
@lib('std::unordered_map::end', 'std::unordered_map::cend')
def _map_end(c): getmap(c, c.args[0]); return NULL
@lib('std::unordered_map::count', 'std::unordered_map::contains')
def _map_count(c):
    f, _, _ = map_find(c, getmap(c, c.args[0]), key_arg(c, c.args[1]))
    return int(f)
@lib('std::unordered_map::empty')
def _map_empty(c):
    m = getmap(c, c.args[0])
    if not m.ups: 
        if m.base == 'empty': return 1
        return z3.Bool('empty_%s' % m.base)
    if m.base == 'empty' and all(u[0] == 'put' for u in m.ups): return 0
    if m.ups[-1][0] == 'put': return 0
    raise Undecided('emptiness of a map after erasure')
@lib('std::unordered_map::size')
def _map_size(c):
    m = getmap(c, c.args[0])
    if m.base == 'empty' and not m.ups: return 0
    if m.base == 'empty' and all(u[0] == 'put' for u in m.ups): return len(m.ups)
    if not m.ups:
        n = z3.BitVec('size_%s' % m.base, 64)
        c.st.pc.append((n == 0) == z3.Bool('empty_%s' % m.base))
        return n
    raise Undecided('size of a map after updates')
def map_put(c, mp, key, path, overwrite):
    """returns (entry pointer, inserted)"""
    m = getmap(c, mp)
    f, old, ident = map_find(c, m, key)
    if f and not overwrite:
        return Ptr(map_node(c, mp, m, key, old, ident), 0), 0
    c.ex.fresh_n += 1
    uid = c.ex.fresh_n
    m2 = MapVal(m.base, m.ups + (('put', key, path, uid),), m.nodes)
    if f:
        tag = (ident[0],) + tuple(str(x) for x in ident[1:])
        oid = m2.nodes.pop(tag, None)
        if oid is not None and oid in c.st.mem:
            o = c.st.wobj(oid); o.cells[8] = (40, Text(path, 'path'))
            m2.nodes[('u', str(uid))] = oid
    setmap(c, mp, m2)
    m = getmap(c, mp)
    return Ptr(map_node(c, mp, m, key, path, ('u', uid)), 0), 0 if f else 1
def pair_ret(c, node, ins):
    return [node, ins]
@lib('std::unordered_map::emplace', 'std::unordered_map::try_emplace')
def _map_emplace(c):
    a = c.args; P = c.params
    k = key_arg(c, a[1])
    if len(a) != 3: raise Undecided('emplace')
    path = text_arg(c, a[2], P[1])
    node, ins = map_put(c, a[0], k, path, False)
    return pair_ret(c, node, ins)
@lib('std::unordered_map::insert_or_assign')
def _map_ioa(c):
    a = c.args
    k = key_arg(c, a[1])
    node, ins = map_put(c, a[0], k, text_arg(c, a[2], c.params[1]), True)
    return pair_ret(c, node, ins)
@lib('std::unordered_map::insert')
def _map_insert(c):
    k = c.ex.load(c.st, c.args[1], 4)
    path = gettext(c, c.ex.padd(c.args[1], 8)).s
    node, ins = map_put(c, c.args[0], k, path, False)
    return pair_ret(c, node, ins)
@lib('std::unordered_map::operator[]')
def _map_idx(c):
    k = key_arg(c, c.args[1])
    m = getmap(c, c.args[0])
    p = node_ptr(c, c.args[0], k)
    if p is None:
        p, _ = map_put(c, c.args[0], k, Str(), False)
    raise_if_written(c)
    return c.ex.padd(p, 8)
def raise_if_written(c):
    # writes through the returned reference are folded back by node_sync
    c.st.ghost['map_ref_escaped'] = True
@lib('std::unordered_map::at')
def _map_at(c):
    p = node_ptr(c, c.args[0], key_arg(c, c.args[1]))
    if p is None: throws(c)
    return c.ex.padd(p, 8)
def map_del(c, mp, key):
    m = getmap(c, mp)
    f, path, ident = map_find(c, m, key)
    if not f: return 0
    tag = (ident[0],) + tuple(str(x) for x in ident[1:])
    m = getmap(c, mp)
    nodes = dict(m.nodes)
    oid = nodes.pop(tag, None)
    if oid is not None: c.ex.kill(c.st, oid)
    # identical keys known by other tags die as well
    setmap(c, mp, MapVal(m.base, m.ups + (('del', key),), nodes))
    return 1
@lib('std::unordered_map::erase')
def _map_erase(c):
    mp = c.args[0]
    t = c.params[0]
    if 'iterator' in t:
        it = c.args[1]
        if isinstance(it, Ptr) and it.null: c.ex.mem_fault(c.st, 'erase of end()')
        o = c.ex.check_ptr(c.st, it, 4, 'erase')
        key = c.ex.load(c.st, it, 4)
        map_del(c, mp, key)
        return NULL
    return map_del(c, mp, key_arg(c, c.args[1]))
@lib('std::unordered_map::clear')
def _map_clear(c):
    m = getmap(c, c.args[0])
    for o in m.nodes.values(): c.ex.kill(c.st, o)
    setmap(c, c.args[0], MapVal('empty'))
@lib('std::unordered_map::reserve')
def _map_reserve(c): return None
@lib('std::__detail::_Node_iterator::operator->', 'std::__detail::_Node_iterator::operator*', 'std::__detail::_Node_const_iterator::operator->', 'std::__detail::_Node_const_iterator::operator*')
def _node_deref(c):
    p = c.ex.load(c.st, c.args[0], 8)
    if isinstance(p, Lazy): raise Undecided('iterator carried around a loop')
    if isinstance(p, int): p = Ptr(None, p)
    if isinstance(p, Ptr) and p.null: c.ex.mem_fault(c.st, 'dereference of end()')
    c.ex.check_ptr(c.st, p, 4, 'dereference')
    return p

# ================================================================ std::function, std::async, future
@lib('std::function::function')
def _fn_ctor(c):
    this = c.args[0]
    if len(c.args) == 1 or (c.params and 'nullptr' in c.params[0]):
        c.ex.setghost(c.st, this, 32, FuncVal('empty')); return
    src = c.args[1]
    t = c.params[0] if c.params else ''
    if re.match(r'^std::function<', t):
        v = c.ex.getcell(c.st, src)
        if not isinstance(v, FuncVal): 
            if v is None: c.ex.mem_fault(c.st, 'copy of a function object that is not alive')
            raise Undecided('function copy')
        c.ex.setghost(c.st, this, 32, v)
        if t.endswith('&&'): c.ex.setghost(c.st, src, 32, FuncVal('empty'))
        return
    # closure: remember a copy of its memory and its call operator
    lam = re.sub(r'\s*(const)?\s*&{1,2}$', '', t)
    op = find_callop(c.ex, lam)
    if op is None: raise Undecided('call operator of %s' % lam)
    size = closure_size(c, src, lam)
    oid = c.ex.new_obj(c.st, size, 'closure', 'closure')
    c.ex.memcpy(c.st, Ptr(oid, 0), src, size)
    c.ex.setghost(c.st, this, 32, FuncVal('closure', op, oid, size))
def find_callop(ex, lam):
    lam = lam.replace('[abi:cxx11]', '')
    for n, d in ex.mod.dem.items():
        d = d.replace('[abi:cxx11]', '')
        if d.startswith(lam + '::operator()') and n in ex.mod.funcs: return n
        i = d.find(' ' + lam + '::operator()')
        if i >= 0 and n in ex.mod.funcs: return n
    return None
def closure_size(c, src, lam):
    o = c.st.mem.get(src.obj)
    if src.off == 0 and o.size is not None: return o.size
    raise Undecided('closure inside another object')
@lib('std::function::~function', 'std::_Function_base::~_Function_base')
def _fn_dtor(c):
    v = c.ex.getcell(c.st, c.args[0])
    if v is None: c.ex.mem_fault(c.st, 'destruction of a function object that is not alive')
    c.ex.delcell(c.st, c.args[0])
@lib('std::function::operator=')
def _fn_assign(c):
    v = c.ex.getcell(c.st, c.args[1])
    if not isinstance(v, FuncVal): raise Undecided('function assign')
    c.ex.setghost(c.st, c.args[0], 32, v)
    return c.args[0]
@lib('std::function::operator bool')
def _fn_bool(c):
    v = c.ex.getcell(c.st, c.args[0])
    if not isinstance(v, FuncVal): raise Undecided('function bool')
    return int(v.kind != 'empty')
@lib('std::function::operator()')
def _fn_call(c):
    v = c.ex.getcell(c.st, c.args[0])
    if v is None: c.ex.mem_fault(c.st, 'call of a function object that is not alive')
    if not isinstance(v, FuncVal): raise Undecided('call of %r' % (v,))
    if v.kind == 'empty': throws(c)
    if v.kind == 'closure': 
        return Enter(v.target, [Ptr(v.oid, 0)] + c.args[1:])
    return c.ex.unit.user_callback(c, v, c.args[1:])

@lib('std::async')
def _async(c):
    # sret future, policy, closure
    out, pol, src = c.args[0], c.args[1], c.args[2]
    lam = re.sub(r'\s*&{1,2}$', '', c.params[1]) if len(c.params) > 1 else ''
    m = re.search(r'std::async<(.*)>\(', c.dem)
    op = find_callop(c.ex, lam)
    if op is None: raise Undecided('task of std::async (%s)' % lam)
    size = closure_size(c, src, lam)
    oid = c.ex.new_obj(c.st, size, 'task closure', 'closure')
    c.ex.memcpy(c.st, Ptr(oid, 0), src, size)
    # the source is left moved-from: copy its ghosts back as empty
    c.st.trace.append(('async', pol, op, oid, size))
    c.ex.setghost(c.st, out, 16, FutureVal(1, (op, oid)))
@lib('std::future::future', 'std::__basic_future::__basic_future')
def _fut_ctor(c):
    if len(c.args) == 1: c.ex.setghost(c.st, c.args[0], 16, FutureVal(0, None))
    else:
        v = c.ex.getcell(c.st, c.args[1])
        c.ex.setghost(c.st, c.args[0], 16, v)
        c.ex.setghost(c.st, c.args[1], 16, FutureVal(0, None))
@lib('std::future::operator=', 'std::__basic_future::operator=')
def _fut_assign(c):
    v = c.ex.getcell(c.st, c.args[1])
    if not isinstance(v, FutureVal): raise Undecided('future assign')
    c.ex.setghost(c.st, c.args[0], 16, v)
    if c.args[0].obj != c.args[1].obj or c.args[0].off != c.args[1].off: c.ex.setghost(c.st, c.args[1], 16, FutureVal(0, None))
    return c.args[0]
@lib('std::__basic_future::valid', 'std::future::valid')
def _fut_valid(c):
    v = c.ex.getcell(c.st, c.args[0])
    if not isinstance(v, FutureVal): c.ex.mem_fault(c.st, 'use of a future that is not alive')
    return v.valid
def fut_finish(c, v, how, keep):
    r = c.ex.unit.task_result(c, v)
    if isinstance(r, Enter):
        h0 = r.hook
        def hook(ex, st, val, h0=h0):
            if h0 is not None: h0(ex, st, val)
            st.trace.append((how, v.task, val))
        r.hook, r.keep = hook, keep
        return r
    c.st.trace.append((how, v.task, r))
    return r if keep else None
@lib('std::future::get')
def _fut_get(c):
    v = c.ex.getcell(c.st, c.args[0])
    if not isinstance(v, FutureVal): c.ex.mem_fault(c.st, 'use of a future that is not alive')
    c.ex.ob(c.st, 'control: result of a watch taken at most once (future is valid)', tobool(v.valid), ('MEM', 'CLOSE'))
    c.ex.setghost(c.st, c.args[0], 16, FutureVal(0, None))
    return fut_finish(c, v, 'join', True)
@lib('std::__basic_future::wait', 'std::future::wait')
def _fut_wait(c):
    v = c.ex.getcell(c.st, c.args[0])
    c.ex.ob(c.st, 'control: waiting for a valid future', tobool(v.valid), ('MEM', 'CLOSE'))
    return fut_finish(c, v, 'join', False)
@lib('std::future::~future', 'std::__basic_future::~__basic_future')
def _fut_dtor(c):
    v = c.ex.getcell(c.st, c.args[0])
    if v is None: c.ex.mem_fault(c.st, 'destruction of a future that is not alive')
    c.ex.delcell(c.st, c.args[0])
    if isinstance(v, FutureVal) and not (isinstance(v.valid, int) and v.valid == 0):
        return fut_finish(c, v, 'dtor-join', False)

# ================================================================ clocks, numbers
@lib('std::chrono::system_clock::now')
def _now(c):
    t = c.ex.fresh('now', 64)
    c.st.trace.append(('now', t))
    return t
@lib('std::to_chars')
def _to_chars(c):
    first, last, v = c.args[0], c.args[1], c.args[2]
    t = c.params[2]
    w = 64 if 'long' in t else 32
    if w == 32 and not isinstance(v, int): v = z3.SignExt(32, v) if 'unsigned' not in t else z3.ZeroExt(32, v)
    if 'unsigned' in t and w == 64: raise Undecided('unsigned to_chars')
    ex, st = c.ex, c.st
    cap = ex.binop(st, 'sub', 64, last, first)
    s = dec_text(st, v)
    n = s.length()
    if len(c.args) > 3 and c.args[3] != 10: raise Undecided('to_chars base')
    if c.branch(z3.ULE(tobv(n, 64), tobv(cap, 64))):
        if not isinstance(first.off, int) or not isinstance(cap, int): raise Undecided('to_chars into a symbolic buffer')
        o = st.mem[first.obj]
        zero = True
        for k in range(cap):
            b = ex.load(st, ex.padd(first, k), 1)
            if not (isinstance(b, int) and b == 0): zero = False
        ex.wipe(st, first, cap)
        st.wobj(first.obj).cells[first.off] = (cap, CBuf(s, cap, n, zero))
        end = ex.padd(first, n)
        # {ptr, errc}
        return [end, 0]
    return [last, 75]
@lib('std::to_string')
def _to_string(c):
    v = c.args[1]; t = c.params[0]
    if 'unsigned' in t: raise Undecided('unsigned to_string')
    if 'long' not in t: v = z3.SignExt(32, v) if not isinstance(v, int) else sx(v, 32) & ((1 << 64) - 1)
    c.ex.setghost(c.st, c.args[0], 32, Text(dec_text(c.st, v), 'string'))

# ================================================================ C strings
@lib('strlen', 'std::char_traits::length')
def _strlen(c):
    if 'wchar_t' in c.dem.split('(')[0]: return read_wcstr(c, c.args[0]).length()
    return read_cstr(c, c.args[0]).length()
@lib('wcslen')
def _wcslen(c): return read_wcstr(c, c.args[0]).length()
@lib('strcmp')
def _strcmp(c):
    a, b = read_cstr(c, c.args[0]), read_cstr(c, c.args[1])
    e = str_eq(c.ex, a, b)
    if c.branch(e): return 0
    r = c.ex.fresh('strcmp', 32)
    c.assume(r != 0)
    return r
@lib('strncmp')
def _strncmp(c):
    """zero exactly when the first n bytes agree up to a terminator"""
    ex, st = c.ex, c.st
    n = c.args[2]
    if not isinstance(n, int) or n > 16: raise Undecided('strncmp of many bytes')
    a, b = read_cstr(c, c.args[0]), read_cstr(c, c.args[1])
    def byte(s, i):
        l = s.literal
        if l is not None: return bvv((l + bytes(n + 1))[i], 8)
        t = s.term(ex)
        v = charat(t, bvv(i, 64))
        st.pc.append(z3.Implies(z3.ULE(bvv(i, 64), tobv(s.length(), 64)), (v == 0) == (tobv(s.length(), 64) == i)))
        return v
    e = z3.BoolVal(True)
    for i in reversed(range(n)):
        x, y = byte(a, i), byte(b, i)
        e = z3.And(x == y, z3.Or(x == 0, e))
    if n: st.pc.append(z3.Implies(str_eq(ex, a, b), e))
    # a text shorter than n bytes agrees only with itself
    for s, l in ((a, b.literal), (b, a.literal)):
        if l is not None and len(l) < n: st.pc.append(z3.Implies(e, str_eq(ex, a, b)))
    if c.branch(simp(e)): return 0
    r = ex.fresh('strncmp', 32)
    c.assume(r != 0)
    return r
@lib('strcpy')
def _strcpy(c):
    ex, st = c.ex, c.st
    dst = c.args[0]
    s = read_cstr(c, c.args[1])
    space = bufspace(ex, st, dst)
    if space is None or not isinstance(space, int): raise Undecided('strcpy into unknown space')
    if not ex.ob(st, 'memory: copied text inside its buffer', z3.ULT(tobv(s.length(), 64), bvv(space, 64)), ('MEM',)): raise PathEnd()
    put_cstr(c, dst, s, space)
    return dst
@lib('strdup')
def _strdup(c):
    s = read_cstr(c, c.args[0])
    l = s.literal
    oid = c.ex.new_obj(c.st, None if l is None else len(l) + 1, 'strdup', 'malloc')
    c.st.mem[oid].cells[0] = (1 << 20 if l is None else len(l) + 1, CBuf(s, None))
    c.ex.assumptions.add('memory allocation does not fail')
    return Ptr(oid, 0)

@lib('snprintf', 'std::snprintf')
def _snprintf(c):
    ex, st = c.ex, c.st
    dst, size = c.args[0], c.args[1]
    fmt = read_cstr(c, c.args[2]).literal
    if fmt is None: raise Undecided('format string')
    rest = list(c.args[3:]); s = Str()
    for part in re.findall(rb'%%|%[-+ 0-9.]*(?:l|ll|z|h)*[a-zA-Z]|[^%]+', fmt):
        if part == b'%%': s = s + Str.lit(b'%')
        elif part[:1] == b'%':
            a = rest.pop(0)
            k = part[-1:]
            if part == b'%s': s = s + read_cstr(c, a)
            elif part == b'%d' or part == b'%i':
                v = sx(a, 32) & ((1 << 64) - 1) if isinstance(a, int) else simp(z3.SignExt(32, a))
                s = s + dec_text(st, v)
            elif part in (b'%u',):
                v = a if isinstance(a, int) else simp(z3.ZeroExt(32, a))
                s = s + dec_text(st, v)
            elif part in (b'%ld', b'%lld', b'%zd'): s = s + dec_text(st, a)
            elif part == b'%c' and isinstance(a, int): s = s + Str.lit(bytes([a & 255]))
            else: raise Undecided('format %r' % part)
        else: s = s + Str.lit(part)
    n = s.length()
    space = bufspace(ex, st, dst)
    if space is not None:
        ex.ob(st, 'memory: formatted write inside its buffer',
              z3.Or(z3.ULE(tobv(size, 64), tobv(space, 64)), z3.ULT(tobv(n, 64), tobv(space, 64))), ('MEM',))
    fits = c.branch(z3.ULT(tobv(n, 64), tobv(size, 64)))
    if not fits:
        t = ex.fresh('truncated', 'str')
        st.pc.append(slen(t) == tobv(size, 64) - 1)
        st.ghost['sym:truncated'] = True
        ws = Str.sym(t)
    else: ws = s
    if isinstance(dst.off, int):
        k = dst.off
        cell = st.mem[dst.obj].cells.get(k)
        cap = space
        if cap is None: raise Undecided('formatted write into unknown space')
        if isinstance(size, int): cap = min(cap, size) if isinstance(cap, int) else size
        put_cstr(c, dst, ws, cap)
    else:
        # append after existing text in the same buffer
        o = st.wobj(dst.obj)
        done = False
        for k, (m, v) in list(o.cells.items()):
            if isinstance(v, CBuf) and (dst.reg is None or dst.reg[0] <= k < dst.reg[1]):
                ln = v.s.length() if v.n is None else v.n
                if ex.valid(st, tobv(dst.off, 64) - k == tobv(ln, 64)):
                    o.cells[k] = (m, CBuf(v.s + ws, v.cap))
                    if st.wlog is not None: st.wlog.add((dst.obj, k, m))
                    done = True
        if not done: raise Undecided('formatted write at a symbolic position')
    r = simp(z3.Extract(31, 0, tobv(n, 64))) if not isinstance(n, int) else n
    return r

# ================================================================ hashing of names used by inlined helpers
@lib('std::char_traits::eq', 'std::char_traits::assign')
def _ct(c): raise Undecided('char_traits')
for n in ('std::char_traits::eq', 'std::char_traits::assign'): LIB.pop(n)

# ================================================================ streams (text accumulated per stream object)
def stream_put(c, p, s):
    name = stream_name(c, p)
    c.st.trace.append(('out', name, s))
    return p
def stream_name(c, p):
    for n, o in c.ex.gobj.items():
        if o == p.obj: return n
    o = c.st.mem.get(p.obj)
    return o.name if o else '?'
@lib('std::operator<<')
def _oshift(c):
    P = c.params
    if 'basic_ostream' not in P[0]: raise Undecided('operator<<')
    t = P[1]
    if t in ('char', 'wchar_t'): return stream_put(c, c.args[0], char_text(c, c.args[1]))
    if 'basic_string_view' in t: return stream_put(c, c.args[0], bytes_text(c, c.args[2], c.args[1], wide='wchar_t' in t))
    return stream_put(c, c.args[0], text_arg(c, c.args[1], t))
@lib('std::basic_ostream::operator<<', 'std::ostream::operator<<')
def _oshift_m(c):
    t = c.params[0]
    if '(*)' in t:
        f = c.args[1]
        if isinstance(f, FuncP) and 'endl' in f.name:
            stream_put(c, c.args[0], Str.lit(b'\n'))
            c.st.trace.append(('flush', stream_name(c, c.args[0])))
            return c.args[0]
        if isinstance(f, FuncP) and 'flush' in f.name:
            c.st.trace.append(('flush', stream_name(c, c.args[0])))
            return c.args[0]
    if t in ('long', 'long long'): return stream_put(c, c.args[0], dec_text(c.st, c.args[1]))
    if t == 'int': return stream_put(c, c.args[0], dec_text(c.st, sx(c.args[1], 32) & (2**64 - 1) if isinstance(c.args[1], int) else z3.SignExt(32, c.args[1])))
    raise Undecided('stream output of %s' % t)
@lib('std::endl')
def _endl(c):
    stream_put(c, c.args[0], Str.lit(b'\n')); c.st.trace.append(('flush', stream_name(c, c.args[0])))
    return c.args[0]
@lib('std::flush', 'std::basic_ostream::flush', 'std::ostream::flush')
def _flush(c): c.st.trace.append(('flush', stream_name(c, c.args[0]))); return c.args[0]
