"""Getting at the real code: compiles /repo's current sources to LLVM IR (unoptimised)
and reads the facts about layouts from the compiler. Nothing is copied by hand."""
import os, subprocess, hashlib, tempfile, pickle, re, shutil
from . import ir

REPO = os.environ.get('VP_REPO', '/repo')
CLANG = 'clang++-18'
FLAGS = ['-std=c++17', '-O0', '-g1', '-fno-exceptions', '-fno-rtti', '-Xclang', '-disable-O0-optnone',
         '-fno-discard-value-names', '-fno-access-control', '-w']
TREES = [('devel', 'devel/include'), ('release', 'include')]

class Broken(Exception):
    """the source does not compile, or a name the contracts are attached to is gone"""

_scratch = None
def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='vp-')
        import atexit
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch

PRE = '#include "wtr/watcher.hpp"\n'

CORE = PRE + r'''
#include <new>
wtr::watch* vp_mk(std::filesystem::path const& p, wtr::event::callback const& c){ return new wtr::watch(p, c); }
bool vp_close(wtr::watch* w){ return w->close(); }
void vp_del(wtr::watch* w){ delete w; }
extern const unsigned long vp_p[] = {
  sizeof(wtr::event), __builtin_offsetof(wtr::event, path_name), __builtin_offsetof(wtr::event, effect_type),
  __builtin_offsetof(wtr::event, path_type), __builtin_offsetof(wtr::event, effect_time), __builtin_offsetof(wtr::event, associated),
  sizeof(wtr::event::effect_type), sizeof(wtr::event::path_type),
  (unsigned long)wtr::event::effect_type::rename, (unsigned long)wtr::event::effect_type::modify, (unsigned long)wtr::event::effect_type::create,
  (unsigned long)wtr::event::effect_type::destroy, (unsigned long)wtr::event::effect_type::owner, (unsigned long)wtr::event::effect_type::other,
  (unsigned long)wtr::event::path_type::dir, (unsigned long)wtr::event::path_type::file, (unsigned long)wtr::event::path_type::hard_link,
  (unsigned long)wtr::event::path_type::sym_link, (unsigned long)wtr::event::path_type::watcher, (unsigned long)wtr::event::path_type::other,
};
'''
CORE_NAMES = ['ev.size', 'ev.path', 'ev.et', 'ev.pt', 'ev.time', 'ev.assoc', 'ev.etsz', 'ev.ptsz',
              'et.rename', 'et.modify', 'et.create', 'et.destroy', 'et.owner', 'et.other',
              'pt.dir', 'pt.file', 'pt.hard_link', 'pt.sym_link', 'pt.watcher', 'pt.other']

IMPL = r'''
extern const unsigned long vp_q[] = {
  sizeof(wtr::watch), __builtin_offsetof(wtr::watch, living), __builtin_offsetof(wtr::watch, watching),
  sizeof(detail::wtr::watcher::semabin), __builtin_offsetof(detail::wtr::watcher::semabin, is), __builtin_offsetof(detail::wtr::watcher::semabin, fd),
  (unsigned long)detail::wtr::watcher::semabin::pending, (unsigned long)detail::wtr::watcher::semabin::released, (unsigned long)detail::wtr::watcher::semabin::error,
};
'''
IMPL_NAMES = ['w.size', 'w.living', 'w.watching', 'sb.size', 'sb.is', 'sb.fd', 'sb.pending', 'sb.released', 'sb.error']

ADAPT = r'''
namespace A = detail::wtr::watcher::adapter;
extern const unsigned long vp_r[] = {
  sizeof(A::inotify::sysres), __builtin_offsetof(A::inotify::sysres, ok), __builtin_offsetof(A::inotify::sysres, ke), __builtin_offsetof(A::inotify::sysres, il), __builtin_offsetof(A::inotify::sysres, ep),
  __builtin_offsetof(A::inotify::ke_in_ev, fd), __builtin_offsetof(A::inotify::ke_in_ev, dm), 
  sizeof(A::fanotify::sysres), __builtin_offsetof(A::fanotify::sysres, ok), __builtin_offsetof(A::fanotify::sysres, ke), __builtin_offsetof(A::fanotify::sysres, il), __builtin_offsetof(A::fanotify::sysres, ep),
  __builtin_offsetof(A::fanotify::ke_fa_ev, fd),
  __builtin_offsetof(A::ep, fd), sizeof(A::ep),
  (unsigned long)A::result::pending, (unsigned long)A::result::complete, (unsigned long)A::result::e,
  (unsigned long)A::result::e_sys_api_fanotify,
  sizeof(A::result),
};
'''
ADAPT_NAMES = ['in.size', 'in.ok', 'in.ke', 'in.il', 'in.ep', 'inke.fd', 'inke.dm', 'fa.size', 'fa.ok', 'fa.ke', 'fa.il', 'fa.ep', 'fake.fd',
               'ep.fd', 'ep.size', 'r.pending', 'r.complete', 'r.e', 'r.fanotify', 'r.size']

TUS = {
    'life': (CORE + IMPL, [('vp_p', CORE_NAMES), ('vp_q', IMPL_NAMES)]),
    'core': (CORE + IMPL + ADAPT, [('vp_p', CORE_NAMES), ('vp_q', IMPL_NAMES), ('vp_r', ADAPT_NAMES)]),
}

EVENT = CORE + r'''
#include <sstream>
using vpE = wtr::event; using vpS = std::string; using vpW = std::wstring; using vpSv = std::string_view; using vpWv = std::wstring_view;
void vp_e_copy(vpE* o, vpE const& e){ new (o) vpE(e); }
void vp_e_mk(vpE* o, std::filesystem::path const& p, enum vpE::effect_type t, enum vpE::path_type k){ new (o) vpE(p, t, k); }
void vp_e_with(vpE* o, vpE const& b, vpE& a){ new (o) vpE(b, std::move(a)); }
bool vp_e_eq(vpE const& l, vpE const& r){ return l == r; }
bool vp_e_ne(vpE const& l, vpE const& r){ return l != r; }
void vp_e_del(vpE* e){ e->~vpE(); }
void vp_s_ev(vpS* o, vpE const& e){ new (o) vpS(wtr::to<vpS>(e)); }
void vp_s_et(vpS* o, enum vpE::effect_type e){ new (o) vpS(wtr::to<vpS>(e)); }
void vp_s_pt(vpS* o, enum vpE::path_type e){ new (o) vpS(wtr::to<vpS>(e)); }
void vp_s_pn(vpS* o, std::filesystem::path const& e){ new (o) vpS(wtr::to<vpS>(e)); }
void vp_s_tm(vpS* o, long long e){ new (o) vpS(wtr::to<vpS>(e)); }
void vp_sv_et(vpSv* o, enum vpE::effect_type e){ new (o) vpSv(wtr::to<vpSv>(e)); }
void vp_sv_pt(vpSv* o, enum vpE::path_type e){ new (o) vpSv(wtr::to<vpSv>(e)); }
void vp_w_ev(vpW* o, vpE const& e){ new (o) vpW(wtr::to<vpW>(e)); }
void vp_w_et(vpW* o, enum vpE::effect_type e){ new (o) vpW(wtr::to<vpW>(e)); }
void vp_w_pt(vpW* o, enum vpE::path_type e){ new (o) vpW(wtr::to<vpW>(e)); }
void vp_w_pn(vpW* o, std::filesystem::path const& e){ new (o) vpW(wtr::to<vpW>(e)); }
void vp_w_tm(vpW* o, long long e){ new (o) vpW(wtr::to<vpW>(e)); }
void vp_wv_et(vpWv* o, enum vpE::effect_type e){ new (o) vpWv(wtr::to<vpWv>(e)); }
void vp_wv_pt(vpWv* o, enum vpE::path_type e){ new (o) vpWv(wtr::to<vpWv>(e)); }
std::ostream& vp_o_ev(std::ostream& o, vpE const& e){ return wtr::operator<<(o, e); }
std::ostream& vp_o_et(std::ostream& o, enum vpE::effect_type e){ return wtr::operator<<(o, e); }
std::ostream& vp_o_pt(std::ostream& o, enum vpE::path_type e){ return wtr::operator<<(o, e); }
std::wostream& vp_ow_ev(std::wostream& o, vpE const& e){ return wtr::operator<<(o, e); }
std::wostream& vp_ow_et(std::wostream& o, enum vpE::effect_type e){ return wtr::operator<<(o, e); }
std::wostream& vp_ow_pt(std::wostream& o, enum vpE::path_type e){ return wtr::operator<<(o, e); }
'''
def incl(f): return '#include "%s"\n' % os.path.join(REPO, f)
CAPI = CORE + incl('watcher-c/src/watcher-c.cpp') + r'''
extern const unsigned long vp_c[] = {
  sizeof(wtr_watcher_event), __builtin_offsetof(wtr_watcher_event, effect_time), __builtin_offsetof(wtr_watcher_event, path_name), __builtin_offsetof(wtr_watcher_event, associated_path_name),
  __builtin_offsetof(wtr_watcher_event, effect_type), __builtin_offsetof(wtr_watcher_event, path_type),
  (unsigned long)WTR_WATCHER_EFFECT_RENAME, (unsigned long)WTR_WATCHER_EFFECT_MODIFY, (unsigned long)WTR_WATCHER_EFFECT_CREATE, (unsigned long)WTR_WATCHER_EFFECT_DESTROY, (unsigned long)WTR_WATCHER_EFFECT_OWNER, (unsigned long)WTR_WATCHER_EFFECT_OTHER,
  (unsigned long)WTR_WATCHER_PATH_DIR, (unsigned long)WTR_WATCHER_PATH_FILE, (unsigned long)WTR_WATCHER_PATH_HARD_LINK, (unsigned long)WTR_WATCHER_PATH_SYM_LINK, (unsigned long)WTR_WATCHER_PATH_WATCHER, (unsigned long)WTR_WATCHER_PATH_OTHER,
};
'''
CAPI_NAMES = ['c.size', 'c.time', 'c.path', 'c.assoc', 'c.et', 'c.pt'] + ['c.et.' + w for w in ('rename', 'modify', 'create', 'destroy', 'owner', 'other')] + ['c.pt.' + w for w in ('dir', 'file', 'hard_link', 'sym_link', 'watcher', 'other')]
CLI = incl('src/wtr/watcher/main.cpp') + CORE
# the Node bridge: the C header's names, and the native functions through the module's initialisation
NODE = '#define NODE_GYP_MODULE_NAME vp_node\n' + incl('watcher-nodejs/lib/watcher-napi.cpp') + CAPI[CAPI.index('extern const unsigned long vp_c'):]
TUS.update({
    'node': (NODE, [('vp_c', CAPI_NAMES)]),
    'event': (EVENT, [('vp_p', CORE_NAMES)]),
    'capi': (CAPI, [('vp_p', CORE_NAMES), ('vp_c', CAPI_NAMES)]),
    'cli': (CLI, [('vp_p', CORE_NAMES)]),
})
EXTRA = {'capi': ['-I', os.path.join(REPO, 'watcher-c/include')],
         'node': ['-I', os.path.join(REPO, 'watcher-c/include'), '-I', '/usr/include/node']}

class Code:
    """one translation unit of the real code, parsed, with layout facts"""
    def __init__(self, mod, probes, tu, tree):
        self.mod, self.k, self.tu, self.tree = mod, probes, tu, tree

def preprocess(src, inc, extra=()):
    d = scratch()
    p = os.path.join(d, 'p%s.cpp' % hashlib.sha1(src.encode()).hexdigest()[:10])
    open(p, 'w').write(src)
    r = subprocess.run([CLANG, *FLAGS[:1], '-E', '-P', '-I', inc, *extra, p], capture_output=True, text=True)
    if r.returncode: raise Broken('does not compile: ' + r.stderr[-2000:])
    return r.stdout

def compile_ir(src, inc, extra=(), opt=()):
    d = scratch()
    h = hashlib.sha1((src + inc + repr(extra) + repr(opt)).encode()).hexdigest()[:12]
    p = os.path.join(d, h + '.cpp'); o = os.path.join(d, h + '.ll')
    if not os.path.exists(o):
        open(p, 'w').write(src)
        r = subprocess.run([CLANG, *FLAGS, *opt, '-I', inc, *extra, '-S', '-emit-llvm', p, '-o', o], capture_output=True, text=True)
        if r.returncode: raise Broken('does not compile: ' + r.stderr[-2000:])
    return open(o).read()

def read_probes(mod, arrays):
    out = {}
    for arr, names in arrays:
        g = mod.globals.get(arr)
        if g is None: raise Broken('probe %s missing' % arr)
        t, init, const = g
        if init[0] == 'zero': vals = [0] * len(names)
        else: vals = [v[1][2] for v in init[2]]
        out.update(zip(names, vals))
    return out

# the Rust binding: the C names mechanically from the C header (as bindgen does), the dependencies as contracts
RUSTC = 'rustc'
CTYPES = {'int64_t': 'i64', 'int8_t': 'i8', 'uint8_t': 'u8', 'int': 'i32', 'char const*': '*const ::std::os::raw::c_char', 'const char *': '*const ::std::os::raw::c_char', 'void *': '*mut ::std::os::raw::c_void', 'bool': 'bool', '_Bool': 'bool'}
def c_bindings(header):
    """the Rust names of a C header, and its constants"""
    import json
    r = subprocess.run(['clang-18', '-Xclang', '-ast-dump=json', '-fsyntax-only', '-x', 'c', header], capture_output=True, text=True)
    if r.returncode: raise Broken('the C header does not compile')
    out, consts = [], {}
    def lit(n):
        if n['kind'] == 'IntegerLiteral': return int(n['value'])
        if n['kind'] == 'UnaryOperator' and n.get('opcode') == '-': return -lit(n['inner'][0])
        if n.get('inner'): return lit(n['inner'][0])
        raise Broken('constant of the C header')
    def ty(t):
        t = t.replace('const char *const', 'const char *')
        if t in CTYPES: return CTYPES[t]
        if t.startswith('struct ') and '*' not in t: return t[7:]
        if re.fullmatch(r'\w+', t): return t
        raise Broken('type of the C header: ' + t)
    for n in json.loads(r.stdout)['inner']:
        name = n.get('name', '')
        if not name.lower().startswith('wtr_'): continue
        if n['kind'] == 'VarDecl':
            t = n['type']['qualType'].replace('const ', '')
            consts[name] = lit(n['inner'][0]); out.append('pub const %s: %s = %d;' % (name, ty(t), consts[name]))
        elif n['kind'] == 'RecordDecl' and n.get('completeDefinition'):
            out.append('#[repr(C)] #[derive(Debug, Copy, Clone)] pub struct %s { %s }' % (name, ', '.join('pub %s: %s' % (f['name'], ty(f['type']['qualType'])) for f in n['inner'] if f['kind'] == 'FieldDecl')))
        elif n['kind'] == 'TypedefDecl':
            m = re.fullmatch(r'void \(\*\)\((.*)\)', n['type']['qualType'])
            if m: out.append('pub type %s = ::std::option::Option<unsafe extern "C" fn(%s)>;' % (name, ', '.join('a%d: %s' % (i, ty(a)) for i, a in enumerate(m.group(1).split(', ')))))
        elif n['kind'] == 'FunctionDecl':
            rt = n['type']['qualType'].split('(')[0].strip()
            if rt.endswith('*') and not rt.endswith(' *'): rt = rt[:-1] + ' *'
            out.append('unsafe extern "C" { pub fn %s(%s) -> %s; }' % (name, ', '.join('%s: %s' % (a.get('name', 'a'), ty(a['type']['qualType'])) for a in n.get('inner', ()) if a['kind'] == 'ParmVarDecl'), ty(rt)))
    return '\n'.join(out) + '\n', consts

RUST_CODES = ['WTR_WATCHER_' + x for x in ('EFFECT_RENAME', 'EFFECT_MODIFY', 'EFFECT_CREATE', 'EFFECT_DESTROY', 'EFFECT_OWNER', 'EFFECT_OTHER', 'PATH_DIR', 'PATH_FILE', 'PATH_HARD_LINK', 'PATH_SYM_LINK', 'PATH_WATCHER', 'PATH_OTHER')]
def rust_ir(lib=None):
    """the LLVM IR of lib.rs behind its harness; with lib, the same compiled to a static library there"""
    here = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'rust')
    d = os.path.join(scratch(), 'rust'); os.makedirs(d, exist_ok=True)
    b, consts = c_bindings(os.path.join(REPO, 'watcher-c/include/wtr/watcher-c.h'))
    open(os.path.join(d, 'watcher_c.rs'), 'w').write(b)
    for n in RUST_CODES:
        if n not in consts: raise Broken('constant %s of the C header is gone' % n)
    h = open(os.path.join(here, 'harness.rs')).read().replace('"LIB"', '"%s"' % os.path.join(REPO, 'watcher-rs/src/lib.rs')).replace('CODES', ', '.join(str(consts[n]) for n in RUST_CODES))
    open(os.path.join(d, 'h.rs'), 'w').write(h)
    def rc(*a):
        r = subprocess.run([RUSTC, '--edition', '2021', '-C', 'panic=abort', '-Awarnings', '-L', d, *a], capture_output=True, text=True, env=dict(os.environ, OUT_DIR=d), cwd=d)
        if r.returncode: raise Broken('the Rust binding does not compile over the contracts of its dependencies: ' + (r.stderr or '')[:1500])
    for n in ('futures', 'serde'): rc('--crate-type', 'rlib', os.path.join(here, n + '.rs'), '-o', os.path.join(d, 'lib%s.rlib' % n))
    ex = ['--extern', 'futures=' + os.path.join(d, 'libfutures.rlib'), '--extern', 'serde=' + os.path.join(d, 'libserde.rlib')]
    if lib: return rc('--crate-type', 'staticlib', '--crate-name', 'vp', os.path.join(d, 'h.rs'), *ex, '-C', 'opt-level=1', '-C', 'debug-assertions=on', '-g', '-o', lib)
    o = os.path.join(d, 'h.ll')
    rc('--crate-type', 'lib', '--crate-name', 'vp', os.path.join(d, 'h.rs'), *ex, '--emit', 'llvm-ir',
       '-C', 'opt-level=2', '-C', 'codegen-units=1', '-C', 'debuginfo=line-tables-only', '-C', 'no-vectorize-slp', '-C', 'no-vectorize-loops', '-o', o)
    return open(o).read()
RUST_NAMES = ['watch.size', 'view.size', 'c.size', 'c.time', 'c.path', 'c.assoc', 'c.et', 'c.pt']

def rust_probes(mod):
    def raw(name):
        t, init, _ = mod.globals[name]
        def flat(v, t):
            t = mod.types.resolve(t)
            if v[0] == 'cstr': return v[1]
            if v[0] == 'zero': return bytes(mod.types.size(t))
            if v[0] == 'int': return v[2].to_bytes(mod.types.size(t), 'little')
            if v[0] == 'agg': return b''.join(flat(x, xt) for xt, x in v[2])
            raise Broken('probe')
        return flat(init, t)
    b = raw('vp_rust'); out = dict(zip(RUST_NAMES, [int.from_bytes(b[i:i + 8], 'little') for i in range(0, 64, 8)]))
    out['codes'] = list(raw('vp_codes'))
    return out

_cache = {}
def load(tu, tree):
    key = (tu, tree)
    if key in _cache: return _cache[key]
    if tu == 'rust':
        mod = ir.parse(rust_ir())
        c = _cache[key] = Code(mod, rust_probes(mod), tu, tree)
        return c
    src, arrays = TUS[tu]
    inc = os.path.join(REPO, dict(TREES)[tree])
    txt = compile_ir(src, inc, EXTRA.get(tu, ()))
    mod = ir.parse(txt)
    c = Code(mod, read_probes(mod, arrays), tu, tree)
    _cache[key] = c
    return c

def same_trees(tu):
    """do both header trees give the same program text?"""
    if tu == 'rust': return True
    src = TUS[tu][0]
    e = EXTRA.get(tu, ())
    return preprocess(src, os.path.join(REPO, TREES[0][1]), e) == preprocess(src, os.path.join(REPO, TREES[1][1]), e)

def find(mod, key, what=None):
    """the unique function whose qualified name is `key`"""
    from .sym import split_name
    hits = [n for n in mod.funcs if split_name(mod.dem.get(n, n))[0] == key]
    return hits
