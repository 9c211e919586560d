"""Reader for LLVM-18 textual IR (the subset clang -O0 emits).

Nothing is dropped except debug records, attributes and metadata other than
source line locations."""
import re, subprocess

TOK = re.compile(r'''
   (?P<str>c"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*")
 | (?P<loc>%(?:"(?:[^"\\]|\\.)*"|[-A-Za-z$._0-9]+))
 | (?P<glob>@(?:"(?:[^"\\]|\\.)*"|[-A-Za-z$._0-9]+))
 | (?P<meta>!(?:[A-Za-z_][-A-Za-z0-9_.]*|\d+|\{[^}]*\}|"[^"]*")?)
 | (?P<attr>\#\d+)
 | (?P<num>-?\d+\.\d+(?:[eE][-+]?\d+)?|0x[KMLHR]?[0-9A-Fa-f]+|-?\d+)
 | (?P<word>[A-Za-z_][A-Za-z0-9_.]*)
 | (?P<dots>\.\.\.)
 | (?P<qs>"(?:[^"\\]|\\.)*")
 | (?P<p>[\[\]{}()<>,=*:])
''', re.X)

class IRError(Exception):
    pass

# ---------------------------------------------------------------- types
PTR = ('ptr',)
VOID = ('void',)
FLOATS = {'half': 2, 'float': 4, 'double': 8, 'x86_fp80': 16, 'fp128': 16}

class Types:
    def __init__(self):
        self.named = {}
        self._size = {}
        self._lay = {}

    def resolve(self, t):
        while t[0] == 'named':
            t = self.named[t[1]]
        return t

    def align(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == 'i':
            n = (t[1] + 7) // 8
            if n > 8: return 16
            a = 1
            while a < n: a *= 2
            return a
        if k == 'ptr': return 8
        if k == 'fp': return FLOATS[t[1]]
        if k == 'arr': return self.align(t[2])
        if k == 'struct':
            if t[2]: return 1
            return max([1] + [self.align(x) for x in t[1]])
        if k == 'vec': return self.size(t)
        raise IRError('align %r' % (t,))

    def size(self, t):
        key = t
        if key in self._size: return self._size[key]
        r = self.resolve(t)
        k = r[0]
        if k == 'i':
            n = (r[1] + 7) // 8
            a = self.align(r)
            s = (n + a - 1) // a * a
        elif k == 'ptr': s = 8
        elif k == 'fp': s = FLOATS[r[1]]
        elif k == 'arr': s = r[1] * self.size(r[2])
        elif k == 'vec': s = r[1] * self.size(r[2])
        elif k == 'struct': s = self.layout(r)[1]
        elif k == 'opaque': s = 0
        elif k == 'void': s = 0
        else: raise IRError('size %r' % (r,))
        self._size[key] = s
        return s

    def layout(self, t):
        t = self.resolve(t)
        if t in self._lay: return self._lay[t]
        offs, o = [], 0
        for x in t[1]:
            a = 1 if t[2] else self.align(x)
            o = (o + a - 1) // a * a
            offs.append(o)
            o += self.size(x)
        a = self.align(t)
        o = (o + a - 1) // a * a
        self._lay[t] = (tuple(offs), o)
        return self._lay[t]

# ---------------------------------------------------------------- values
# constants: ('int',type,val) ('null',) ('undef',type) ('zero',type)
# ('global',name) ('cgep',basetype,ptr,[idx...]) ('cstr',bytes)
# ('agg',type,[consts]) ('fp',kind,text) ('cast',op,val,type) ('local',name)

class Inst:
    __slots__ = ('op', 'res', 'ty', 'args', 'extra', 'dbg')
    def __init__(self, op, res, ty, args, extra=None, dbg=None):
        self.op, self.res, self.ty, self.args, self.extra, self.dbg = op, res, ty, args, extra, dbg
    def __repr__(self):
        return '%s = %s %r %r %r' % (self.res, self.op, self.ty, self.args, self.extra)

class Function:
    def __init__(self, name):
        self.name = name
        self.params = []        # (name, type, attrs dict)
        self.ret = VOID
        self.blocks = {}        # label -> [Inst]
        self.order = []
        self.vararg = False
        self.dbg = None

class Module:
    def __init__(self):
        self.types = Types()
        self.globals = {}       # name -> (type, const|None, is_const)
        self.aliases = {}
        self.funcs = {}
        self.decls = {}
        self.dem = {}
        self.locs = {}
        self.lines = {}

ATTRW = set('''noundef dead_on_return nonnull zeroext signext inreg noalias nocapture readonly writeonly readnone returned
 immarg swiftself nest noreturn dso_local local_unnamed_addr unnamed_addr hidden protected internal private linkonce_odr
 weak_odr weak linkonce external common available_externally appending default extern_weak fastcc ccc coldcc
 tail musttail notail nsz nnan ninf arcp contract afn reassoc fast nofree allocptr allocalign
 thread_local dllimport dllexport preallocated inalloca writable dead_on_unwind'''.split())
PATTR = set(('align', 'dereferenceable', 'dereferenceable_or_null', 'byval', 'sret', 'byref', 'elementtype', 'memory', 'range', 'nofpclass', 'allocsize', 'initializes', 'captures'))

class P:
    """token cursor"""
    def __init__(self, toks, types):
        self.t, self.i, self.types = toks, 0, types
    def peek(self):
        return self.t[self.i][1] if self.i < len(self.t) else None
    def kind(self):
        return self.t[self.i][0] if self.i < len(self.t) else None
    def next(self):
        x = self.t[self.i][1]; self.i += 1; return x
    def acc(self, s):
        if self.peek() == s: self.i += 1; return True
        return False
    def exp(self, s):
        if not self.acc(s):
            raise IRError('expected %s at %r' % (s, [x[1] for x in self.t[self.i:self.i+8]]))

    def type(self):
        k, v = self.t[self.i]; self.i += 1
        if k == 'word':
            if v == 'ptr':
                if self.peek() == 'addrspace': self.next(); self.exp('('); self.next(); self.exp(')')
                r = PTR
            elif v == 'void': r = VOID
            elif v in FLOATS: r = ('fp', v)
            elif re.fullmatch(r'i\d+', v): r = ('i', int(v[1:]))
            elif v in ('label', 'metadata', 'token', 'opaque'): r = (v,)
            else: raise IRError('type word %s' % v)
        elif k == 'loc': r = ('named', v[1:].strip('"'))
        elif v == '[':
            n = int(self.next()); self.exp('x'); t = self.type(); self.exp(']')
            r = ('arr', n, t)
        elif v == '{': r = self._struct('}', False)
        elif v == '<':
            if self.peek() == '{':
                self.next(); r = self._struct('}', True); self.exp('>')
            else:
                n = int(self.next()); self.exp('x'); t = self.type(); self.exp('>')
                r = ('vec', n, t)
        else: raise IRError('type %r' % v)
        # function type suffix
        if self.peek() == '(':
            ts = []; va = False
            self.next()
            while not self.acc(')'):
                if self.acc('...'): va = True
                else:
                    ts.append(self.type()); self.pattrs()
                self.acc(',')
            r = ('fn', r, tuple(ts), va)
        return r

    def _struct(self, close, packed):
        ts = []
        while not self.acc(close):
            ts.append(self.type()); self.acc(',')
        return ('struct', tuple(ts), packed)

    def pattrs(self):
        d = {}
        while True:
            v = self.peek()
            if v in ATTRW: self.next(); d[v] = True
            elif v in PATTR:
                self.next()
                if self.acc('('):
                    if v in ('byval', 'sret', 'byref', 'elementtype'):
                        d[v] = self.type(); self.exp(')')
                    else:
                        depth = 1; a = []
                        while depth:
                            x = self.next()
                            if x == '(': depth += 1
                            elif x == ')': depth -= 1
                            if depth: a.append(x)
                        d[v] = a
                else: d[v] = self.next()
            elif self.kind() in ('attr', 'qs'): 
                self.next()
                if self.acc('='): self.next()
            else: return d

    def value(self, ty):
        k, v = self.t[self.i]; self.i += 1
        if k == 'loc': return ('local', v[1:].strip('"'))
        if k == 'glob': return ('global', v[1:].strip('"'))
        if k == 'num':
            rt = self.types.resolve(ty)
            if rt[0] == 'fp': return ('fp', rt[1], v)
            return ('int', ty, int(v) & ((1 << rt[1]) - 1))
        if k == 'str': return ('cstr', unesc(v[2:-1]))
        if k == 'word':
            if v == 'true': return ('int', ty, 1)
            if v == 'false': return ('int', ty, 0)
            if v == 'null': return ('null',)
            if v in ('undef', 'poison'): return ('undef', ty)
            if v == 'zeroinitializer': return ('zero', ty)
            if v == 'getelementptr':
                while self.peek() in ('inbounds', 'nuw', 'nusw'): self.next()
                if self.acc('inrange'): 
                    self.exp('(')
                    while not self.acc(')'): self.next()
                self.exp('(')
                bt = self.type(); self.exp(',')
                pt = self.type(); p = self.value(pt)
                idx = []
                while self.acc(','):
                    self.acc('inrange')
                    t = self.type(); idx.append((t, self.value(t)))
                self.exp(')')
                return ('cgep', bt, p, idx)
            if v in ('inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
                self.exp('('); t = self.type(); x = self.value(t); self.exp('to'); t2 = self.type(); self.exp(')')
                return ('cast', v, t, x, t2)
            if v in ('add', 'sub', 'mul', 'xor', 'and', 'or', 'shl'):
                while self.peek() in ('nsw', 'nuw'): self.next()
                self.exp('('); t = self.type(); a = self.value(t); self.exp(','); t = self.type(); b = self.value(t); self.exp(')')
                return ('cbin', v, t, a, b)
            if v in ('dso_local_equivalent', 'no_cfi'): return self.value(ty)
            raise IRError('const %s' % v)
        if v in ('[', '{', '<'):
            packed = False
            if v == '<' and self.peek() == '{': self.next(); packed = True; close = '}'
            else: close = {'[': ']', '{': '}', '<': '>'}[v]
            xs = []
            while not self.acc(close):
                t = self.type(); xs.append((t, self.value(t))); self.acc(',')
            if packed: self.exp('>')
            return ('agg', ty, xs)
        raise IRError('value %r' % v)

    def tv(self):
        t = self.type(); self.pattrs()
        return t, self.value(t)

def unesc(s):
    out = bytearray(); i = 0
    while i < len(s):
        c = s[i]
        if c == '\\':
            if s[i+1] == '\\': out.append(92); i += 2
            else: out.append(int(s[i+1:i+3], 16)); i += 3
        else: out += c.encode('utf-8'); i += 1
    return bytes(out)

def toks(line):
    out = []; i = 0; n = len(line)
    while i < n:
        c = line[i]
        if c in ' \t': i += 1; continue
        if c == ';': break
        m = TOK.match(line, i)
        if not m: raise IRError('token at %r' % line[i:i+40])
        out.append((m.lastgroup, m.group())); i = m.end()
    return out

BIN = set('add sub mul udiv sdiv urem srem and or xor shl lshr ashr fadd fsub fmul fdiv frem'.split())
CASTS = set('trunc zext sext ptrtoint inttoptr bitcast fptoui fptosi uitofp sitofp fptrunc fpext addrspacecast'.split())

def parse_inst(line, types):
    dbg = None
    m = re.search(r', !dbg !(\d+)', line)
    if m: dbg = int(m.group(1))
    line = re.sub(r', ![A-Za-z_.]+ !\d+', '', line)
    p = P(toks(line), types)
    res = None
    if p.kind() == 'loc' and len(p.t) > 1 and p.t[1][1] == '=':
        res = p.next()[1:].strip('"'); p.next()
    tail = False
    while p.peek() in ('tail', 'musttail', 'notail'): p.next()
    op = p.next()
    def I(ty, args, extra=None): return Inst(op, res, ty, args, extra, dbg)
    if op == 'alloca':
        t = p.type(); n = ('int', ('i', 32), 1)
        while p.acc(','):
            if p.peek() == 'align': p.next(); p.next()
            else: n = p.tv()[1]
        return I(t, [n])
    if op == 'load':
        at = p.acc('atomic'); vol = p.acc('volatile')
        t = p.type(); p.exp(','); _, a = p.tv()
        return I(t, [a], {'atomic': at})
    if op == 'store':
        at = p.acc('atomic'); p.acc('volatile')
        t, v = p.tv(); p.exp(','); _, a = p.tv()
        return I(t, [v, a], {'atomic': at})
    if op == 'getelementptr':
        while p.peek() in ('inbounds', 'nuw', 'nusw'): p.next()
        bt = p.type(); p.exp(','); _, b = p.tv(); idx = []
        while p.acc(','):
            idx.append(p.tv())
        return I(bt, [b], idx)
    if op in BIN:
        fl = set()
        while p.peek() in ('nsw', 'nuw', 'exact', 'disjoint', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'fast'): fl.add(p.next())
        t = p.type(); a = p.value(t); p.exp(','); b = p.value(t)
        return I(t, [a, b], fl)
    if op == 'fneg':
        t = p.type(); return I(t, [p.value(t)])
    if op in CASTS:
        while p.peek() in ('nneg', 'nuw', 'nsw'): p.next()
        t = p.type(); a = p.value(t); p.exp('to'); t2 = p.type()
        return I(t2, [a], t)
    if op in ('icmp', 'fcmp'):
        while p.peek() in ('nnan', 'ninf', 'nsz', 'fast', 'samesign'): p.next()
        pred = p.next(); t = p.type(); a = p.value(t); p.exp(','); b = p.value(t)
        return I(t, [a, b], pred)
    if op == 'select':
        _, c = p.tv(); p.exp(','); t, a = p.tv(); p.exp(','); _, b = p.tv()
        return I(t, [c, a, b])
    if op == 'phi':
        t = p.type(); inc = []
        while True:
            p.exp('['); v = p.value(t); p.exp(','); l = p.next()[1:].strip('"'); p.exp(']')
            inc.append((v, l))
            if not p.acc(','): break
        return I(t, [], inc)
    if op == 'br':
        if p.acc('label'):
            return I(None, [], [p.next()[1:].strip('"')])
        _, c = p.tv(); p.exp(','); p.exp('label'); a = p.next()[1:].strip('"'); p.exp(','); p.exp('label'); b = p.next()[1:].strip('"')
        return I(None, [c], [a, b])
    if op == 'switch':
        t, c = p.tv(); p.exp(','); p.exp('label'); d = p.next()[1:].strip('"'); p.exp('[')
        cs = []
        while not p.acc(']'):
            _, v = p.tv(); p.exp(','); p.exp('label'); cs.append((v, p.next()[1:].strip('"')))
        return I(t, [c], (d, cs))
    if op == 'ret':
        if p.acc('void'): return I(VOID, [])
        t, v = p.tv(); return I(t, [v])
    if op == 'unreachable': return I(None, [])
    if op in ('call', 'invoke'):
        while p.peek() in ('fastcc', 'ccc', 'coldcc', 'nnan', 'ninf', 'nsz', 'fast', 'contract', 'afn', 'reassoc', 'arcp'): p.next()
        p.pattrs()
        rt = p.type()
        if rt[0] == 'fn': fnty = rt; rt = rt[1]
        callee = p.value(PTR); p.exp('(')
        args = []
        while not p.acc(')'):
            t = p.type(); at = p.pattrs()
            if t == ('metadata',):
                # skip
                depth = 0
                while not (depth == 0 and p.peek() in (',', ')')):
                    x = p.next()
                    if x == '(': depth += 1
                    if x == ')': depth -= 1
                args.append((t, None, at))
            else:
                args.append((t, p.value(t), at))
            p.acc(',')
        return I(rt, args, callee)
    if op == 'extractvalue':
        t, v = p.tv(); idx = []
        while p.acc(','): idx.append(int(p.next()))
        return I(t, [v], idx)
    if op == 'insertvalue':
        t, v = p.tv(); p.exp(','); t2, v2 = p.tv(); idx = []
        while p.acc(','): idx.append(int(p.next()))
        return I(t, [v, v2], (t2, idx))
    if op == 'atomicrmw':
        p.acc('volatile'); k = p.next(); _, a = p.tv(); p.exp(','); t, v = p.tv()
        return I(t, [a, v], k)
    if op == 'cmpxchg':
        p.acc('weak'); p.acc('volatile'); _, a = p.tv(); p.exp(','); t, c = p.tv(); p.exp(','); _, n = p.tv()
        return I(t, [a, c, n])
    if op == 'fence': return I(None, [])
    if op == 'freeze':
        t, v = p.tv(); return I(t, [v])
    raise IRError('instruction %s: %s' % (op, line[:120]))

def parse(text):
    mod = Module()
    lines = text.split('\n')
    i, n = 0, len(lines)
    raw = []
    while i < n:
        l = lines[i]; i += 1
        if not l or l[0] == ';': continue
        if l[0] == '%':
            m = re.match(r'%("(?:[^"\\]|\\.)*"|[-A-Za-z$._0-9]+) = type (.*)$', l)
            body = m.group(2)
            name = m.group(1).strip('"')
            if body.strip() == 'opaque': mod.types.named[name] = ('opaque',)
            else: mod.types.named[name] = P(toks(body), mod.types).type()
        elif l[0] == '@': raw.append(l)
        elif l.startswith('define '):
            body = []
            while lines[i] != '}':
                body.append(lines[i]); i += 1
            i += 1
            f = parse_header(l, mod, True)
            f._body = body
            mod.funcs[f.name] = f
        elif l.startswith('declare '):
            f = parse_header(l, mod, False)
            mod.decls[f.name] = f
        elif l[0] == '!':
            m = re.match(r'!(\d+) = (?:distinct )?!DILocation\(line: (\d+)(?:, column: \d+)?, scope: !(\d+)(?:, inlinedAt: !\d+)?', l)
            if m: mod.locs[int(m.group(1))] = (int(m.group(2)), int(m.group(3)))
    for l in raw:
        m = re.match(r'@("(?:[^"\\]|\\.)*"|[-A-Za-z$._0-9]+) = (.*)$', l)
        name = m.group(1).strip('"')
        p = P(toks(m.group(2)), mod.types)
        while p.peek() in ATTRW or p.kind() == 'word' and p.peek() in ('thread_local',):
            w = p.next()
            if w == 'thread_local' and p.acc('('): p.next(); p.exp(')')
        if p.peek() == 'alias':
            p.next(); p.type(); p.exp(',')
            _, v = p.tv()
            mod.aliases[name] = v
            continue
        if p.peek() == 'addrspace': p.next(); p.exp('('); p.next(); p.exp(')')
        if p.peek() == 'externally_initialized': p.next()
        kind = p.next()
        if kind not in ('global', 'constant'): continue
        t = p.type(); init = None
        if p.i < len(p.t) and p.peek() not in (',',):
            try: init = p.value(t)
            except IRError: init = ('unparsed',)
        mod.globals[name] = (t, init, kind == 'constant')
    # demangle
    names = list(mod.funcs) + list(mod.decls)
    out = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True).stdout.split('\n')
    mod.dem = dict(zip(names, out))
    return mod

def parse_header(l, mod, define):
    l = re.sub(r'!dbg !\d+', '', l)
    p = P(toks(l), mod.types)
    p.next()
    ret_at = {}
    while p.peek() in ATTRW or p.peek() in PATTR: ret_at.update(p.pattrs())
    rt = p.type() if p.peek() != '(' else VOID
    if rt[0] == 'fn': raise IRError('fn ret')
    name = p.next()[1:].strip('"')
    f = Function(name); f.ret = rt
    p.exp('(')
    k = 0
    while not p.acc(')'):
        if p.acc('...'): f.vararg = True; continue
        t = p.type(); at = p.pattrs()
        nm = None
        if p.kind() == 'loc': nm = p.next()[1:].strip('"')
        if nm is None: nm = str(k)
        f.params.append((nm, t, at)); k += 1
        p.acc(',')
    return f

def body(mod, f):
    """parse the body lazily"""
    if f.order: return f
    cur = None
    anon = sum(1 for n, _, _ in f.params if n.isdigit())
    insts = None
    b = f._body
    i = 0
    while i < len(b):
        l = b[i]; i += 1
        if not l.strip(): continue
        m = re.match(r'^("(?:[^"\\]|\\.)*"|[-A-Za-z$._0-9]+):', l)
        if m and l[0] not in ' \t':
            cur = m.group(1).strip('"')
            insts = []
            f.blocks[cur] = insts; f.order.append(cur)
            continue
        s = l.strip()
        if s.startswith(';'): continue
        if s.startswith('#dbg'): continue
        if cur is None:
            cur = str(anon); insts = []; f.blocks[cur] = insts; f.order.append(cur)
        if s.startswith('switch ') and not s.rstrip().endswith(']'):
            while True:
                s += ' ' + b[i].strip(); i += 1
                if b[i-1].strip().startswith(']'): break
        insts.append(parse_inst(s, mod.types))
    return f

if __name__ == '__main__':
    import sys, time
    t = time.time()
    m = parse(open(sys.argv[1]).read())
    print(len(m.funcs), len(m.decls), len(m.globals), time.time() - t)
    for f in m.funcs.values(): body(m, f)
    print(time.time() - t)
