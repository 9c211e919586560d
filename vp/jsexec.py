"""Executes JavaScript (the syntax tree of what the TypeScript compiler leaves of a .ts file) on unknown values."""
import z3
from .sym import Undecided
from .script import *

class Undefined:
    def __repr__(self): return 'undefined'
UND = Undefined()
class Tdz: pass
TDZ = Tdz()
class JsThrow(Exception):
    def __init__(self, v): self.v = v
class Ret(Exception):
    def __init__(self, v): self.v = v
class Brk(Exception):
    def __init__(self, label=None): self.label = label
class Cont(Exception):
    def __init__(self, label=None): self.label = label
class Getter:
    def __init__(self, get, set_=None): self.get, self.set = get, set_

class JSObj:
    def __init__(self, cls='Object', proto=None): self.p, self.cls, self.proto, self.frozen = {}, cls, proto, False
    def __repr__(self): return '<%s>' % self.cls
class JSArr(JSObj):
    def __init__(self, items=()): super().__init__('Array'); self.a = list(items)
class JSMap(JSObj):
    def __init__(self, kind='Map'): super().__init__(kind); self.m = []           # pairs
class JSFunc(JSObj):
    def __init__(self, node, env, this=None, arrow=False, name=''):
        super().__init__('Function'); self.node, self.env, self.this, self.arrow, self.name = node, env, this, arrow, name
        self.fields, self.home, self.base, self.isclass = (), None, None, False
    def __repr__(self): return '<function %s>' % self.name
class Native(JSObj):
    def __init__(self, name, fn, new=None): super().__init__('Function'); self.name, self.fn, self.new = name, fn, new
    def __repr__(self): return '<%s>' % self.name
class Env:
    def __init__(self, up, fn=False): self.v, self.up, self.const, self.fn = {}, up, set(), fn
    def find(self, n):
        e = self
        while e is not None:
            if n in e.v: return e
            e = e.up
        return None

def isnum(v): return isinstance(v, (int, float)) and not isinstance(v, bool) or isinstance(v, SInt)
def isbool(v): return isinstance(v, (bool, SBool))
def istext(v): return isinstance(v, (str, SText))
def isfun(v): return isinstance(v, (JSFunc, Native))
def concrete(v): return v is UND or v is None or isinstance(v, (bool, int, float, str))
def parts(v): return v.p if isinstance(v, SText) else [('l', v)]
def mktext(ps):
    t = SText(ps, 'str'); l = t.literal
    return t if l is None else l
def num(v):
    return str(int(v)) if isinstance(v, int) or v == int(v) and abs(v) < 1e21 else repr(v)

class Interp:
    def __init__(self, world, path, modules, seen):
        self.w, self.path, self.modules, self.seen = world, path, modules, seen
        self.depth = self.steps = self.line = 0
        self.glob = Env(None, True)
        self.exports = {}
        self.protos()
    # ---------------------------------------------------------------- module
    def module(self, ast):
        env = Env(self.glob, True)
        self.top = env
        self.hoist(ast['body'], env, True)
        for s in ast['body']: self.stmt(s, env)
        out = {}
        for k, (e, n) in self.exports.items(): out[k] = e.v[n]
        return out
    def throw(self, cls, msg=''):
        e = JSObj('Error', self.errors.get(cls)); e.p.update(message=msg, name=cls); raise JsThrow(e)
    def hoist(self, body, env, fn=False):
        def decls(s, top):
            t = s['type']
            if t in ('ExportNamedDeclaration', 'ExportDefaultDeclaration'):
                if s.get('declaration'): decls(s['declaration'], top)
                return
            if t == 'VariableDeclaration':
                for d in s['declarations']:
                    for n in self.names(d['id']):
                        if s['kind'] == 'var': self.fnenv(env).v.setdefault(n, UND)
                        elif top: env.v[n] = TDZ
            elif t == 'ClassDeclaration' and top and s.get('id'): env.v[s['id']['name']] = TDZ
            elif t == 'FunctionDeclaration' and top and s.get('id'): env.v[s['id']['name']] = self.func(s, env)
            elif not top or t in ('IfStatement', 'ForStatement', 'ForOfStatement', 'ForInStatement', 'WhileStatement', 'DoWhileStatement', 'TryStatement', 'BlockStatement', 'SwitchStatement', 'LabeledStatement'):
                for v in s.values():
                    for x in v if isinstance(v, list) else [v]:
                        if isinstance(x, dict) and x.get('type', '') in ('VariableDeclaration', 'IfStatement', 'ForStatement', 'ForOfStatement', 'ForInStatement', 'WhileStatement', 'DoWhileStatement', 'TryStatement', 'BlockStatement', 'SwitchStatement', 'CatchClause', 'SwitchCase', 'LabeledStatement'): decls(x, False)
        for s in body: decls(s, True)
    def fnenv(self, env):
        while not env.fn: env = env.up
        return env
    def names(self, p):
        t = p['type']
        if t == 'Identifier': return [p['name']]
        if t == 'ObjectPattern': return [n for q in p['properties'] for n in self.names(q['value'] if q['type'] == 'Property' else q['argument'])]
        if t == 'ArrayPattern': return [n for q in p['elements'] if q for n in self.names(q)]
        if t == 'AssignmentPattern': return self.names(p['left'])
        if t == 'RestElement': return self.names(p['argument'])
        raise Undecided('pattern ' + t)
    # ---------------------------------------------------------------- statements
    def stmt(self, s, env):
        self.steps += 1
        if self.steps > 100000: raise Undecided('too many steps')
        if 'loc' in s: self.line = s['loc']['start']['line']
        m = getattr(self, 's_' + s['type'], None)
        if m is None: raise Undecided('JavaScript statement ' + s['type'])
        return m(s, env)
    def block(self, body, env):
        e = Env(env); self.hoist(body, e)
        for s in body: self.stmt(s, e)
    def s_BlockStatement(self, s, env): self.block(s['body'], env)
    def s_EmptyStatement(self, s, env): pass
    def s_DebuggerStatement(self, s, env): pass
    def s_ExpressionStatement(self, s, env): self.ev(s['expression'], env)
    def s_VariableDeclaration(self, s, env):
        for d in s['declarations']:
            if s['kind'] == 'var' and d['init'] is None: continue
            v = UND if d['init'] is None else self.named(d['init'], d['id'], env)
            self.pattern(d['id'], v, env, s['kind'])
    def named(self, e, target, env):
        v = self.ev(e, env)
        if isinstance(v, JSFunc) and not v.name and target['type'] == 'Identifier' and e['type'] in ('ArrowFunctionExpression', 'FunctionExpression', 'ClassExpression'): v.name = target['name']
        return v
    def pattern(self, p, v, env, kind):
        t = p['type']
        if t == 'Identifier':
            if kind == 'assign': return self.setvar(p['name'], v, env)
            e = self.fnenv(env) if kind == 'var' else env
            e.v[p['name']] = v
            if kind == 'const': e.const.add(p['name'])
            return
        if t == 'MemberExpression' and kind == 'assign': return self.assignto(p, v, env)
        if t == 'AssignmentPattern':
            return self.pattern(p['left'], self.ev(p['right'], env) if v is UND else v, env, kind)
        if t == 'ObjectPattern':
            if v is UND or v is None: self.throw('TypeError', 'destructuring')
            used = []
            for q in p['properties']:
                if q['type'] == 'RestElement':
                    o = JSObj(); o.p = {k: x for k, x in self.own(v) if k not in used}; self.pattern(q['argument'], o, env, kind); continue
                k = self.propkey(q, env); used.append(k)
                self.pattern(q['value'], self.get(v, k), env, kind)
            return
        if t == 'ArrayPattern':
            l = self.iterate(v)
            for i, q in enumerate(p['elements']):
                if q is None: continue
                if q['type'] == 'RestElement': self.pattern(q['argument'], JSArr(l[i:]), env, kind)
                else: self.pattern(q, l[i] if i < len(l) else UND, env, kind)
            return
        raise Undecided('pattern ' + t)
    def s_FunctionDeclaration(self, s, env): pass
    def s_ClassDeclaration(self, s, env): env.v[s['id']['name']] = self.e_ClassExpression(s, env)
    def s_ReturnStatement(self, s, env): raise Ret(UND if s['argument'] is None else self.ev(s['argument'], env))
    def s_IfStatement(self, s, env):
        if self.truth(self.ev(s['test'], env)): self.stmt(s['consequent'], env)
        elif s['alternate']: self.stmt(s['alternate'], env)
    def s_ThrowStatement(self, s, env): raise JsThrow(self.ev(s['argument'], env))
    def s_TryStatement(self, s, env):
        try:
            try: self.stmt(s['block'], env)
            except JsThrow as x:
                if not s['handler']: raise
                e = Env(env)
                if s['handler']['param']: self.pattern(s['handler']['param'], x.v, e, 'let')
                self.stmt(s['handler']['body'], e)
        except (JsThrow, Ret, Brk, Cont) as flow:
            if s['finalizer']: self.stmt(s['finalizer'], env)
            raise flow
        else:
            if s['finalizer']: self.stmt(s['finalizer'], env)
    def s_BreakStatement(self, s, env): raise Brk(s['label'] and s['label']['name'])
    def s_ContinueStatement(self, s, env): raise Cont(s['label'] and s['label']['name'])
    def s_LabeledStatement(self, s, env): raise Undecided('label')
    def loop(self, test, body, update, env):
        n = 0
        while test():
            n += 1
            if n > 200: raise Undecided('a loop over unknown values')
            try: self.stmt(body, env)
            except Brk as b:
                if b.label: raise
                return
            except Cont as c:
                if c.label: raise
            update()
    def s_WhileStatement(self, s, env): self.loop(lambda: self.truth(self.ev(s['test'], env)), s['body'], lambda: None, env)
    def s_DoWhileStatement(self, s, env):
        first = [True]
        def t():
            if first[0]: first[0] = False; return True
            return self.truth(self.ev(s['test'], env))
        self.loop(t, s['body'], lambda: None, env)
    def s_ForStatement(self, s, env):
        e = Env(env)
        if s['init']:
            if s['init']['type'] == 'VariableDeclaration': self.stmt(s['init'], e)
            else: self.ev(s['init'], e)
        if self.closures(s['body']): raise Undecided('closures made in a counting loop')
        self.loop(lambda: s['test'] is None or self.truth(self.ev(s['test'], e)), s['body'], lambda: s['update'] and self.ev(s['update'], e), e)
    def closures(self, n):
        if isinstance(n, list): return any(self.closures(x) for x in n)
        if not isinstance(n, dict): return False
        return n.get('type') in ('ArrowFunctionExpression', 'FunctionExpression', 'FunctionDeclaration', 'ClassExpression') or any(self.closures(v) for v in n.values())
    def over(self, items, s, env):
        for x in items:
            e = Env(env)
            if s['left']['type'] == 'VariableDeclaration': self.pattern(s['left']['declarations'][0]['id'], x, e, s['left']['kind'])
            else: self.pattern(s['left'], x, e, 'assign')
            try: self.stmt(s['body'], e)
            except Brk as b:
                if b.label: raise
                return
            except Cont as c:
                if c.label: raise
    def s_ForOfStatement(self, s, env):
        if s.get('await'): raise Undecided('for await')
        self.over(self.iterate(self.ev(s['right'], env)), s, env)
    def s_ForInStatement(self, s, env): self.over(self.keys(self.ev(s['right'], env)), s, env)
    def s_SwitchStatement(self, s, env):
        v = self.ev(s['discriminant'], env); e = Env(env); self.hoist([x for c in s['cases'] for x in c['consequent']], e)
        start = None
        for i, c in enumerate(s['cases']):
            if c['test'] is not None and self.path.branch(self.strict(v, self.ev(c['test'], e))): start = i; break
        if start is None: start = next((i for i, c in enumerate(s['cases']) if c['test'] is None), None)
        if start is None: return
        try:
            for c in s['cases'][start:]:
                for x in c['consequent']: self.stmt(x, e)
        except Brk as b:
            if b.label: raise
    def s_ImportDeclaration(self, s, env):
        n = s['source']['value']
        if n not in self.modules: raise Undecided('module %s has no contract' % n)
        m = self.modules[n]
        for x in s['specifiers']:
            if x['type'] == 'ImportSpecifier':
                k = x['imported'].get('name', x['imported'].get('value'))
                if k not in m.p: raise Undecided('%s.%s has no contract' % (n, k))
                env.v[x['local']['name']] = m.p[k]
            elif x['type'] == 'ImportDefaultSpecifier': env.v[x['local']['name']] = m.p.get('default', m)
            else: env.v[x['local']['name']] = m
    def s_ExportNamedDeclaration(self, s, env):
        if s['source']: raise Undecided('re-export')
        if s['declaration']:
            d = s['declaration']; self.stmt(d, env)
            for n in ([d['id']['name']] if d.get('id') else [n for x in d['declarations'] for n in self.names(x['id'])]): self.exports[n] = (env, n)
        for x in s['specifiers']: self.exports[x['exported'].get('name', x['exported'].get('value'))] = (env, x['local']['name'])
    def s_ExportDefaultDeclaration(self, s, env):
        d = s['declaration']
        if d['type'] in ('FunctionDeclaration', 'ClassDeclaration') and d.get('id'):
            self.stmt(d, env); self.exports['default'] = (env, d['id']['name'])
        else: env.v['*default*'] = self.ev(dict(d, type=d['type'].replace('Declaration', 'Expression')) if 'Declaration' in d['type'] else d, env); self.exports['default'] = (env, '*default*')
    # ---------------------------------------------------------------- expressions
    def ev(self, e, env):
        self.steps += 1
        m = getattr(self, 'e_' + e['type'], None)
        if m is None: raise Undecided('JavaScript expression %s' % e['type'])
        return m(e, env)
    def e_Literal(self, e, env):
        if 'regex' in e or 'bigint' in e: raise Undecided('regular expression or bigint')
        v = e['value']
        return int(v) if isinstance(v, float) and v == int(v) else v
    def e_Identifier(self, e, env):
        n = e['name']
        x = env.find(n)
        if x is None:
            if n == 'undefined': return UND
            if n in self.std: return self.std[n]
            raise Undecided('global %s has no contract' % n) if n not in ('require',) else self.throw('ReferenceError', n)
        v = x.v[n]
        if v is TDZ: self.throw('ReferenceError', n)
        return v
    def setvar(self, n, v, env):
        x = env.find(n)
        if x is None: self.throw('ReferenceError', n)
        if n in x.const: self.throw('TypeError', 'Assignment to constant variable')
        if x.v[n] is TDZ: self.throw('ReferenceError', n)
        x.v[n] = v
    def e_ThisExpression(self, e, env):
        x = env.find('this')
        return UND if x is None else x.v['this']
    def e_MetaProperty(self, e, env):
        o = JSObj(); o.p['url'] = 'file:///module'; o.p['dirname'] = '/'; o.p['filename'] = '/module'
        return o
    def e_TemplateLiteral(self, e, env):
        out = []
        for i, q in enumerate(e['quasis']):
            out.append(('l', q['value']['cooked']))
            if i < len(e['expressions']): out += parts(self.tostr(self.ev(e['expressions'][i], env)))
        return mktext(out)
    def e_SequenceExpression(self, e, env):
        for x in e['expressions']: v = self.ev(x, env)
        return v
    def e_ConditionalExpression(self, e, env): return self.ev(e['consequent'] if self.truth(self.ev(e['test'], env)) else e['alternate'], env)
    def e_LogicalExpression(self, e, env):
        l = self.ev(e['left'], env); o = e['operator']
        if o == '??': return self.ev(e['right'], env) if l is UND or l is None else l
        t = self.truth(l)
        if o == '&&': return self.ev(e['right'], env) if t else (False if isbool(l) else l)
        return (True if isbool(l) else l) if t else self.ev(e['right'], env)
    def e_UnaryExpression(self, e, env):
        o = e['operator']
        if o == 'typeof':
            if e['argument']['type'] == 'Identifier' and env.find(e['argument']['name']) is None and e['argument']['name'] not in self.std: return 'undefined'
            return self.typeof(self.ev(e['argument'], env))
        if o == 'delete':
            a = e['argument']
            if a['type'] != 'MemberExpression': raise Undecided('delete')
            b, k = self.ev(a['object'], env), self.key(a, env)
            if isinstance(b, JSObj) and isinstance(k, str): b.p.pop(k, None); return True
            raise Undecided('delete')
        v = self.ev(e['argument'], env)
        if o == '!': return not self.truth(v)
        if o == 'void': return UND
        if o in '+-' and isnum(v) and concrete(v): return v if o == '+' else -v
        if o == '+' and isinstance(v, SInt): return v
        if o == '+' and isbool(v): return 1 if self.truth(v) else 0
        if o == '-' and isinstance(v, SInt): return SInt(-v.t)
        raise Undecided('operator ' + o)
    def typeof(self, v):
        return 'undefined' if v is UND else 'object' if v is None else 'boolean' if isbool(v) else 'number' if isnum(v) else 'string' if istext(v) else 'function' if isfun(v) else 'object'
    def truth(self, v):
        if v is UND or v is None: return False
        if isinstance(v, SBool): return self.path.branch(v)
        if isinstance(v, SInt): return self.path.branch(v.t != 0)
        if isinstance(v, SText):
            if any(k == 'l' for k, _ in v.p): return True
            return self.path.branch(self.w.term(v) != EMPTY)
        if isinstance(v, float): return v == v and v != 0
        return bool(v) if concrete(v) else True
    def strict(self, a, b):
        if isnum(a) and isnum(b): return a == b if concrete(a) and concrete(b) else self.int(a) == self.int(b)
        if isbool(a) and isbool(b):
            if concrete(a) and concrete(b): return a == b
            return self.bool(a) == self.bool(b)
        if istext(a) and istext(b): return self.path.text_eq(a, b)
        if concrete(a) or concrete(b) or isinstance(a, (SInt, SText, SBool)) or isinstance(b, (SInt, SText, SBool)):
            return a is b if (a is None or a is UND) else False
        return a is b
    def int(self, v):
        if isinstance(v, float) and v != int(v): raise Undecided('fraction')
        return v.t if isinstance(v, SInt) else z3.IntVal(int(v))
    def bool(self, v): return v.t if isinstance(v, SBool) else z3.BoolVal(v)
    def e_BinaryExpression(self, e, env):
        if e['left']['type'] == 'PrivateIdentifier': raise Undecided('#x in')
        a, b, o = self.ev(e['left'], env), self.ev(e['right'], env), e['operator']
        return self.binary(o, a, b)
    def wrap(self, r): return r if isinstance(r, bool) else SBool(r)
    def binary(self, o, a, b):
        if o == '===': return self.wrap(self.strict(a, b))
        if o == '!==':
            r = self.strict(a, b); return (not r) if isinstance(r, bool) else SBool(z3.Not(r))
        if o in ('==', '!='):
            n = (a is None or a is UND, b is None or b is UND)
            if any(n): r = all(n)
            elif self.typeof(a) == self.typeof(b): r = self.strict(a, b)
            else: raise Undecided('loose equality')
            if o == '==': return self.wrap(r)
            return (not r) if isinstance(r, bool) else SBool(z3.Not(r))
        if o == '+' and (istext(a) or istext(b)): return mktext(parts(self.tostr(a)) + parts(self.tostr(b)))
        if o == 'instanceof':
            if not isfun(b): self.throw('TypeError', 'instanceof')
            x = a.proto if isinstance(a, JSObj) else None
            if b is self.std.get('Object') or b is self.std.get('Array') or b is self.std.get('Function'): raise Undecided('instanceof')
            while x is not None:
                if x is b.p.get('prototype'): return True
                x = x.proto
            return False
        if o == 'in':
            if isinstance(b, JSObj) and isinstance(a, str): return self.has(b, a)
            if isinstance(b, JSArr) and isinstance(a, int): return 0 <= a < len(b.a)
            raise Undecided('in')
        if isnum(a) and isnum(b):
            if concrete(a) and concrete(b):
                try: return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '/': lambda: (a // b if a % b == 0 else a / b), '%': lambda: a % b if a >= 0 and b > 0 else 1 // 0, '<': lambda: a < b, '>': lambda: a > b, '<=': lambda: a <= b, '>=': lambda: a >= b,
                             '|': lambda: int(a) | int(b), '&': lambda: int(a) & int(b), '<<': lambda: int(a) << int(b), '>>': lambda: int(a) >> int(b), '>>>': lambda: int(a) >> int(b), '**': lambda: a ** b, '^': lambda: int(a) ^ int(b)}[o]()
                except Exception: raise Undecided('arithmetic ' + o)
            x, y = self.int(a), self.int(b)
            c = {'<': lambda: x < y, '>': lambda: x > y, '<=': lambda: x <= y, '>=': lambda: x >= y}.get(o)
            if c: return SBool(c())
        if isinstance(a, str) and isinstance(b, str) and o in ('<', '>', '<=', '>='): return {'<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b}[o]
        if (a is UND or b is UND) and o in ('<', '>', '<=', '>='): return False
        raise Undecided('operator %s on unknown values' % o)
    def tostr(self, v):
        if istext(v): return v
        if v is UND: return 'undefined'
        if v is None: return 'null'
        if isinstance(v, bool): return 'true' if v else 'false'
        if isinstance(v, SBool): return 'true' if self.path.branch(v) else 'false'
        if isnum(v) and concrete(v): return num(v)
        raise Undecided('text of an unknown value')
    def e_AssignmentExpression(self, e, env):
        o, l = e['operator'], e['left']
        if o == '=':
            if l['type'] == 'MemberExpression':
                b, k = self.ev(l['object'], env), self.key(l, env)
                v = self.ev(e['right'], env); self.set(b, k, v); return v
            v = self.named(e['right'], l, env)
            self.pattern(l, v, env, 'assign'); return v
        if l['type'] == 'MemberExpression':
            b, k = self.ev(l['object'], env), self.key(l, env)
            cur, put = self.get(b, k), lambda v: self.set(b, k, v)
        else: cur, put = self.ev(l, env), lambda v: self.setvar(l['name'], v, env)
        if o in ('??=', '||=', '&&='):
            do = cur is UND or cur is None if o == '??=' else not self.truth(cur) if o == '||=' else self.truth(cur)
            if not do: return cur
            v = self.ev(e['right'], env)
        else: v = self.binary(o[:-1], cur, self.ev(e['right'], env))
        put(v); return v
    def assignto(self, p, v, env): self.set(self.ev(p['object'], env), self.key(p, env), v)
    def e_UpdateExpression(self, e, env):
        l = e['argument']
        cur = self.ev(l, env)
        if not isnum(cur): raise Undecided('update')
        new = cur + (1 if e['operator'] == '++' else -1) if concrete(cur) else SInt(cur.t + (1 if e['operator'] == '++' else -1))
        if l['type'] == 'MemberExpression': self.assignto(l, new, env)
        else: self.setvar(l['name'], new, env)
        return new if e['prefix'] else cur
    def e_ObjectExpression(self, e, env):
        o = JSObj(proto=None)
        for q in e['properties']:
            if q['type'] == 'SpreadElement':
                v = self.ev(q['argument'], env)
                if v is not UND and v is not None:
                    for k, x in self.own(v): o.p[k] = x
                continue
            k = self.propkey(q, env)
            v = self.ev(q['value'], env)
            if q['kind'] in ('get', 'set'):
                g = o.p.get(k); g = g if isinstance(g, Getter) else Getter(None)
                if q['kind'] == 'get': g.get = v
                else: g.set = v
                o.p[k] = g; continue
            if isinstance(v, JSFunc) and not v.name: v.name = str(k)
            if k == '__proto__': raise Undecided('__proto__')
            o.p[k] = v
        return o
    def propkey(self, q, env):
        if q['computed']: return self.tokey(self.ev(q['key'], env))
        k = q['key']
        if k['type'] == 'PrivateIdentifier': return '#' + k['name']
        return k['name'] if k['type'] == 'Identifier' else self.tokey(k['value'])
    def tokey(self, v):
        if isinstance(v, str): return v
        if isinstance(v, Native): return v.name                # Symbol.x
        if isnum(v) and concrete(v): return num(v)
        if v is UND or v is None or isinstance(v, bool): return self.tostr(v)
        raise Undecided('unknown property name')
    def e_ArrayExpression(self, e, env):
        out = []
        for x in e['elements']:
            if x is None: raise Undecided('array hole')
            if x['type'] == 'SpreadElement': out += self.iterate(self.ev(x['argument'], env))
            else: out.append(self.ev(x, env))
        return JSArr(out)
    def func(self, e, env):
        if e.get('async') or e.get('generator'): raise Undecided('async or generator function')
        f = JSFunc(e, env, arrow=e['type'] == 'ArrowFunctionExpression', name=e['id']['name'] if e.get('id') else '')
        if not f.arrow:
            pr = JSObj('prototype'); f.p['prototype'] = pr
        return f
    def e_ArrowFunctionExpression(self, e, env): return self.func(e, env)
    def e_FunctionExpression(self, e, env):
        if e.get('id'):
            env = Env(env); f = self.func(e, env); env.v[e['id']['name']] = f; return f
        return self.func(e, env)
    def e_ClassExpression(self, e, env):
        base = self.ev(e['superClass'], env) if e['superClass'] else None
        if base is not None and not isinstance(base, JSFunc): raise Undecided('class extends')
        cenv = Env(env)
        ctor, methods, fields, static = None, [], [], []
        for m in e['body']['body']:
            if m['type'] == 'StaticBlock': raise Undecided('static block')
            if m['type'] == 'PropertyDefinition': (static if m['static'] else fields).append(m)
            elif m['kind'] == 'constructor': ctor = m['value']
            else: methods.append(m)
        node = ctor or dict(type='FunctionExpression', params=[], body=dict(type='BlockStatement', body=[]), id=None)
        f = JSFunc(node, cenv, name=e['id']['name'] if e.get('id') else '')
        f.isclass, f.base, f.fields, f.implicit = True, base, fields, ctor is None
        pr = JSObj('prototype', base.p['prototype'] if base else None); f.p['prototype'] = pr
        if e.get('id'): cenv.v[e['id']['name']] = f
        for m in methods:
            k = self.propkey(m, cenv); g = self.func(m['value'], cenv); g.name = k; g.home = f
            t = f if m['static'] else pr
            if m['kind'] in ('get', 'set'):
                old = t.p.get(k); old = old if isinstance(old, Getter) else Getter(None)
                setattr(old, m['kind'], g); t.p[k] = old
            else: t.p[k] = g
        f.home = f
        for m in static:
            x = Env(cenv); x.v['this'] = f
            f.p[self.propkey(m, cenv)] = UND if m['value'] is None else self.ev(m['value'], x)
        return f
    def e_Super(self, e, env): raise Undecided('super')
    def e_ChainExpression(self, e, env):
        try: return self.ev(e['expression'], env)
        except Short: return UND
    def key(self, e, env):
        p = e['property']
        if e['computed']:
            v = self.ev(p, env)
            return v if isinstance(v, (str, int, SInt, SText)) and not isinstance(v, bool) else self.tokey(v)
        return '#' + p['name'] if p['type'] == 'PrivateIdentifier' else p['name']
    def e_MemberExpression(self, e, env):
        o = self.ev(e['object'], env)
        if e.get('optional') and (o is UND or o is None): raise Short()
        return self.get(o, self.key(e, env))
    def e_CallExpression(self, e, env):
        c = e['callee']; this = UND
        if c['type'] == 'Super': return self.supercall(e, env)
        if c['type'] == 'ChainExpression': raise Undecided('chain')
        if c['type'] == 'MemberExpression':
            this = self.ev(c['object'], env)
            if c.get('optional') and (this is UND or this is None): raise Short()
            f = self.get(this, self.key(c, env))
        else: f = self.ev(c, env)
        if e.get('optional') and (f is UND or f is None): raise Short()
        args = self.args(e['arguments'], env)
        if 'loc' in e: self.line = e['loc']['start']['line']
        return self.call(f, this, args)
    def supercall(self, e, env):
        fe = env.find('%home')
        f = fe.v['%home']; this = fe.v['this']
        self.construct_into(f.base, this, self.args(e['arguments'], env))
        self.initfields(f, this)
        return UND
    def args(self, l, env):
        out = []
        for a in l:
            if a['type'] == 'SpreadElement': out += self.iterate(self.ev(a['argument'], env))
            else: out.append(self.ev(a, env))
        return out
    def e_NewExpression(self, e, env):
        f = self.ev(e['callee'], env); args = self.args(e['arguments'], env)
        if isinstance(f, Native):
            if f.new is None: raise Undecided('new ' + f.name)
            return f.new(*args)
        if not isinstance(f, JSFunc) or f.arrow: self.throw('TypeError', 'not a constructor')
        o = JSObj(f.name, f.p['prototype'])
        r = self.construct_into(f, o, args)
        return r if isinstance(r, JSObj) else o
    def construct_into(self, f, o, args):
        if f.isclass and f.base is None: self.initfields(f, o)
        if f.isclass and f.base is not None and f.implicit:
            self.construct_into(f.base, o, args); self.initfields(f, o); return UND
        return self.callf(f, o, args)
    def initfields(self, f, o):
        for m in f.fields:
            x = Env(f.env); x.v['this'] = o
            o.p[self.propkey(m, x)] = UND if m['value'] is None else self.ev(m['value'], x)
    # ---------------------------------------------------------------- calls
    def call(self, f, this, args):
        if isinstance(f, Native):
            self.path and None
            return f.fn(this, *args)
        if isinstance(f, JSFunc):
            if f.isclass: self.throw('TypeError', 'class called')
            return self.callf(f, this, args)
        self.throw('TypeError', 'not a function')
    def callf(self, f, this, args):
        self.depth += 1
        if self.depth > 60: raise Undecided('recursion')
        if f.name: self.seen.add(f.name)
        env = Env(f.env, True)
        n = f.node
        if not f.arrow:
            env.v['this'] = this; env.v['arguments'] = JSArr(args)
            if f.home: env.v['%home'] = f.home
        for i, p in enumerate(n['params']):
            if p['type'] == 'RestElement': self.pattern(p['argument'], JSArr(args[i:]), env, 'let')
            else: self.pattern(p, args[i] if i < len(args) else UND, env, 'let')
        line = self.line
        try:
            if n['body']['type'] != 'BlockStatement': return self.ev(n['body'], env)
            body = Env(env); body.fn = True
            self.hoist(n['body']['body'], body)
            for s in n['body']['body']: self.stmt(s, body)
            return UND
        except Ret as r: return r.v
        finally: self.depth -= 1; self.line = line
    # ---------------------------------------------------------------- objects
    def lookup(self, o, k):
        x = o
        while x is not None:
            if k in x.p: return x.p[k]
            x = x.proto
        return None
    def has(self, o, k):
        x = o
        while x is not None:
            if k in x.p: return True
            x = x.proto
        return k in self.objproto
    def get(self, o, k):
        if o is UND or o is None: self.throw('TypeError', 'cannot read properties of %r (reading %r)' % (o, k))
        if isinstance(o, JSObj):
            if isinstance(o, JSArr):
                if isinstance(k, SInt):
                    for i, x in enumerate(o.a):
                        if self.path.branch(k.t == i): return x
                    return UND
                if isinstance(k, int) or isinstance(k, str) and k.isdigit():
                    return o.a[int(k)] if 0 <= int(k) < len(o.a) else UND
                if k == 'length': return len(o.a)
                if k in self.arrproto: return self.arrproto[k]
                if isinstance(k, str) and k not in o.p and k in ARRAY: raise Undecided('array method ' + k)
            if isinstance(k, (SInt, SText)):
                if o.proto is not None or isinstance(o, (JSArr, JSMap)): raise Undecided('unknown property name')
                if isinstance(k, SText):
                    for n, v in o.p.items():
                        if self.path.branch(self.path.text_eq(n, k)): return self.value(v, o)
                else:
                    for n, v in o.p.items():
                        if n.lstrip('-').isdigit() and self.path.branch(k.t == int(n)): return self.value(v, o)
                return UND
            if isinstance(k, int): k = num(k)
            v = self.lookup(o, k)
            if v is not None or self.has(o, k) and k not in self.objproto: return self.value(v, o)
            if isinstance(o, JSMap) and k in self.mapproto: return self.value(self.mapproto[k], o)
            if isfun(o) and k in self.funproto: return self.funproto[k]
            if isfun(o) and k == 'name': return o.name
            if k in self.objproto: return self.objproto[k]
            if getattr(o, 'strict', False): raise Undecided('%r.%s has no contract' % (o, k))
            return UND
        if istext(o):
            if k == 'length':
                if isinstance(o, str): return len(o.encode('utf-16-le')) // 2
                n = self.path.fresh('length', z3.IntSort()); self.path.pc.append(n >= 0); self.path.pc.append((n == 0) == (self.w.term(o) == EMPTY)); return SInt(n)
            if isinstance(o, str) and isinstance(k, int): return o[k] if 0 <= k < len(o) else UND
            return Native('text.%s' % k, lambda this, *a: self.textmethod(this, k, a))
        if isnum(o) or isbool(o):
            if k in ('toString', 'valueOf'): return Native(k, lambda this, *a: this if k == 'valueOf' else self.tostr(this))
            raise Undecided('number.%s' % k)
        raise Undecided('property of %r' % (o,))
    def value(self, v, o):
        if isinstance(v, Getter): return UND if v.get is None else self.call(v.get, o, [])
        return v
    def set(self, o, k, v):
        if o is UND or o is None: self.throw('TypeError', 'cannot set properties of %r' % (o,))
        if not isinstance(o, JSObj): raise Undecided('property set')
        if o.frozen: self.throw('TypeError', 'frozen')
        if isinstance(o, JSArr):
            if isinstance(k, int) and 0 <= k <= len(o.a):
                if k == len(o.a): o.a.append(v)
                else: o.a[k] = v
                return
            if k == 'length' and isinstance(v, int) and v <= len(o.a): del o.a[v:]; return
            raise Undecided('array element set')
        if isinstance(k, (SInt, SText)): raise Undecided('unknown property name set')
        if isinstance(k, int): k = num(k)
        if getattr(o, 'strict', False): raise Undecided('%r.%s set' % (o, k))
        g = self.lookup(o, k)
        if isinstance(g, Getter):
            if g.set is None: self.throw('TypeError', 'no setter')
            self.call(g.set, o, [v]); return
        o.p[k] = v
    def own(self, o):
        if isinstance(o, JSArr): return [(str(i), x) for i, x in enumerate(o.a)]
        if isinstance(o, JSObj): return [(k, self.value(o.p[k], o)) for k in self.keys(o)]
        if isinstance(o, str): return [(str(i), x) for i, x in enumerate(o)]
        raise Undecided('own properties')
    def keys(self, o):
        if o is UND or o is None: self.throw('TypeError', 'keys')
        if isinstance(o, JSArr): return [str(i) for i in range(len(o.a))]
        if isinstance(o, JSObj):
            if getattr(o, 'strict', False): raise Undecided('keys of %r' % o)
            ks = [k for k in o.p if not k.startswith('#') and not (isfun(o) and k == 'prototype')]
            ints = sorted((k for k in ks if k.isdigit()), key=int)       # integer names come first
            return ints + [k for k in ks if not k.isdigit()]
        raise Undecided('keys')
    def iterate(self, o):
        if isinstance(o, JSArr): return list(o.a)
        if isinstance(o, JSMap): return [JSArr(p) for p in o.m] if o.cls == 'Map' else [k for k, _ in o.m]
        if isinstance(o, str): return list(o)
        if o is UND or o is None: self.throw('TypeError', 'not iterable')
        raise Undecided('iteration')
    def textmethod(self, o, k, a):
        if isinstance(o, str) and all(concrete(x) for x in a):
            f = {'toUpperCase': lambda: o.upper(), 'toLowerCase': lambda: o.lower(), 'slice': lambda i=0, j=None: o[i:j], 'charAt': lambda i=0: o[i:i + 1], 'split': lambda s: JSArr(o.split(s)), 'indexOf': lambda s: o.find(s), 'startsWith': o.startswith, 'endsWith': o.endswith,
                 'includes': lambda s: s in o, 'trim': o.strip, 'toString': lambda: o, 'replace': lambda x, y: o.replace(x, y, 1), 'concat': lambda *x: o + ''.join(x), 'replaceAll': lambda x, y: o.replace(x, y)}.get(k)
            if f: return f(*a)
        if k in ('toString', 'valueOf') : return o
        if k == 'concat':
            out = parts(o)
            for x in a: out = out + parts(self.tostr(x))
            return mktext(out)
        raise Undecided('text method %s on unknown text' % k)
    # ---------------------------------------------------------------- library
    def protos(self):
        it = self
        T = lambda v: it.truth(v)
        def N(name, fn): return Native(name, fn)
        def cb(f): 
            if not isfun(f): it.throw('TypeError', 'not a function')
            return lambda *a: it.call(f, UND, list(a))
        def same(a, b): return it.path.branch(it.strict(a, b))
        def find(this, f):
            for i, x in enumerate(this.a):
                if T(cb(f)(x, i, this)): return i
            return -1
        def indexof(this, v, *r):
            for i, x in enumerate(this.a):
                if same(x, v): return i
            return -1
        def each(this, f):
            for i, x in enumerate(list(this.a)): cb(f)(x, i, this)
            return UND
        def reduce(this, f, *init):
            l = list(this.a); acc = init[0] if init else l.pop(0)
            for i, x in enumerate(l): acc = cb(f)(acc, x, i, this)
            return acc
        def at(this, i):
            if isinstance(i, SInt): return it.get(this, i)
            return this.a[i] if -len(this.a) <= i < len(this.a) else UND
        def join(this, s=','):
            out = []
            for i, x in enumerate(this.a):
                if i: out += parts(s)
                out += parts('' if x is UND or x is None else it.tostr(x))
            return mktext(out)
        def splice(this, i, n=None, *new):
            if not isinstance(i, int): raise Undecided('splice')
            n = len(this.a) if n is None else n
            r = this.a[i:i + n]; this.a[i:i + n] = list(new); return JSArr(r)
        ap = dict(map=lambda this, f: JSArr([cb(f)(x, i, this) for i, x in enumerate(this.a)]), filter=lambda this, f: JSArr([x for i, x in enumerate(this.a) if T(cb(f)(x, i, this))]),
                  find=lambda this, f: (lambda i: UND if i < 0 else this.a[i])(find(this, f)), findIndex=find, indexOf=indexof, includes=lambda this, v: indexof(this, v) >= 0, forEach=each, reduce=reduce, at=at, join=join,
                  push=lambda this, *v: (this.a.extend(v), len(this.a))[1], pop=lambda this: this.a.pop() if this.a else UND, slice=lambda this, i=0, j=None: JSArr(this.a[i:j]), concat=lambda this, *x: JSArr(this.a + [v for y in x for v in (y.a if isinstance(y, JSArr) else [y])]),
                  some=lambda this, f: find(this, f) >= 0, every=lambda this, f: all(T(cb(f)(x, i, this)) for i, x in enumerate(this.a)), entries=lambda this: JSArr([JSArr([i, x]) for i, x in enumerate(this.a)]), keys=lambda this: JSArr(range(len(this.a))), values=lambda this: JSArr(this.a),
                  splice=splice, shift=lambda this: this.a.pop(0) if this.a else UND, unshift=lambda this, *v: (this.a.__setitem__(slice(0, 0), v), len(this.a))[1])
        self.arrproto = {k: N('Array.' + k, f) for k, f in ap.items()}
        def mfind(m, k):
            for p in m.m:
                if same(p[0], k): return p
            return None
        def mset(this, k, v):
            p = mfind(this, k)
            if p: p[1] = v
            else: this.m.append([k, v])
            return this
        def mdel(this, k):
            p = mfind(this, k)
            if p: this.m.remove(p)
            return bool(p)
        mp = dict(get=lambda this, k: (mfind(this, k) or [0, UND])[1], has=lambda this, k: mfind(this, k) is not None, set=mset, add=lambda this, k: mset(this, k, k), delete=mdel, clear=lambda this: (this.m.clear(), UND)[1],
                  forEach=lambda this, f: ([cb(f)(p[1], p[0], this) for p in list(this.m)], UND)[1], keys=lambda this: JSArr([p[0] for p in this.m]), values=lambda this: JSArr([p[1] for p in this.m]), entries=lambda this: JSArr([JSArr(p) for p in this.m]))
        self.mapproto = {k: N('Map.' + k, f) for k, f in mp.items()}
        self.mapproto['size'] = Getter(N('size', lambda this: len(this.m)))
        def bind(this, t=UND, *a): return N('bound', lambda _t, *b: it.call(this, t, list(a) + list(b)))
        self.funproto = dict(call=N('call', lambda this, t=UND, *a: it.call(this, t, list(a))), apply=N('apply', lambda this, t=UND, a=UND: it.call(this, t, [] if a is UND or a is None else it.iterate(a))), bind=N('bind', bind))
        self.objproto = dict(hasOwnProperty=N('hasOwnProperty', lambda this, k: it.tokey(k) in this.p), toString=N('toString', lambda this: '[object Object]'))
        std = self.std = {}
        def ns(name, d):
            o = JSObj(name); o.strict = True; o.p = {k: N(name + '.' + k, f) for k, f in d.items()}; std[name] = o; return o
        def assign(this, t, *src):
            for s in src:
                if s is not UND and s is not None:
                    for k, v in it.own(s): it.set(t, k, v)
            return t
        def fromentries(this, x):
            o = JSObj()
            for p in it.iterate(x): o.p[it.tokey(it.get(p, 0))] = it.get(p, 1)
            return o
        def freeze(this, o):
            if isinstance(o, JSObj): o.frozen = True
            return o
        def native_class(name, fn, new, statics=()):
            c = Native(name, fn, new); c.p.update({k: N(name + '.' + k, f) for k, f in dict(statics).items()}); c.p['prototype'] = JSObj('prototype'); c.strict = True; std[name] = c; return c
        native_class('Object', lambda this, x=UND: x if isinstance(x, JSObj) else JSObj(), lambda *a: JSObj(), dict(keys=lambda this, o: JSArr(it.keys(o)), values=lambda this, o: JSArr([v for _, v in it.own(o)]), entries=lambda this, o: JSArr([JSArr([k, v]) for k, v in it.own(o)]),
                     assign=assign, freeze=freeze, fromEntries=fromentries, hasOwn=lambda this, o, k: it.tokey(k) in o.p, create=lambda this, p, *r: JSObj('Object', p), seal=lambda this, o: o))
        native_class('Array', None, None, dict(isArray=lambda this, x: isinstance(x, JSArr), of=lambda this, *a: JSArr(a)))
        std['Array'].p['from'] = N('Array.from', lambda this, x, f=UND: JSArr([v if f is UND else cb(f)(v, i) for i, v in enumerate(it.iterate(x))]))
        native_class('String', lambda this, x='': it.tostr(x), None)
        native_class('Number', lambda this, x=0: x if isnum(x) else it.e_UnaryExpression(dict(operator='+', argument=dict(type='Literal', value=x)), None) if concrete(x) else Undef('Number()'), None, dict(isInteger=lambda this, x: Undef('isInteger') if isinstance(x, SInt) else isnum(x) and x == int(x)))
        native_class('Boolean', lambda this, x=UND: T(x), None)
        native_class('Function', None, None)
        native_class('Symbol', None, None)
        std['Symbol'].p.update({k: N('@@' + k, None) for k in ('iterator', 'dispose', 'asyncDispose', 'toStringTag')})
        def mkmap(kind):
            def new(x=UND):
                m = JSMap(kind)
                if x is not UND and x is not None:
                    for p in it.iterate(x): m.m.append([it.get(p, 0), it.get(p, 1)] if kind.endswith('Map') else [p, p])
                return m
            return new
        for k in ('Map', 'Set', 'WeakMap', 'WeakSet'): native_class(k, lambda this, *a: it.throw('TypeError', 'new'), mkmap(k.replace('Weak', '')))
        self.errors = {}
        for k in ('Error', 'TypeError', 'RangeError', 'ReferenceError', 'SyntaxError'):
            def new(msg='', opts=UND, k=k):
                e = JSObj('Error', it.errors[k]); e.p.update(message=msg, name=k); return e
            c = native_class(k, lambda this, *a, new=new: new(*a), new)
            c.p['prototype'].proto = None if k == 'Error' else self.errors['Error']
            self.errors[k] = c.p['prototype']
        c = ns('console', {k: (lambda this, *a: UND) for k in ('log', 'error', 'warn', 'info', 'debug')})
        std['globalThis'] = ns('globalThis', {})
        std['NaN'] = float('nan'); std['Infinity'] = float('inf')
class Short(Exception): pass
def Undef(what): raise Undecided(what)
ARRAY = {'sort', 'reverse', 'flat', 'flatMap', 'fill', 'lastIndexOf', 'findLast', 'copyWithin', 'reduceRight', 'with', 'toSorted'}
