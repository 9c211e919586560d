// C16: the real watcher-napi.cpp over a script runtime (N-API) and a C interface the driver controls.
#define NODE_GYP_MODULE_NAME vp_node
#include <lib/watcher-napi.cpp>
#include <array>
#include <cmath>
#include <memory>
#include <set>
#include <deque>
#include <thread>
#include <sanitizer/allocator_interface.h>
#include "drive.hpp"
using std::string;

// ---- what the bridge allocates and has not released
static bool inside = false;
static void* held[4096]; static int nheld = 0;
static void took(const volatile void* p, size_t) { if (inside && nheld < 4096) held[nheld++] = (void*)p; }
static void gave(const volatile void* p) { for (int i = 0; i < nheld; i++) if (held[i] == p) { held[i] = held[--nheld]; return; } }
struct In { bool was = inside; In() { inside = true; } ~In() { inside = was; } };
struct Out { bool was = inside; Out() { inside = false; } ~Out() { inside = was; } };

// ---- script values
struct Val { int kind = 0; double num = 0; string text; bool b = false; napi_callback fn = nullptr; void* data = nullptr; std::map<string, Val*> props; std::vector<std::array<void*, 3>> fins; };
enum { UNDEF, NUL, BOOL, NUM, TEXT, OBJ, FN, GLOBAL, BIG };
static std::deque<std::unique_ptr<Val>> vals;
static napi_value mk(int kind) { vals.emplace_back(new Val); vals.back()->kind = kind; return (napi_value)vals.back().get(); }
static Val* V(napi_value v) { return (Val*)v; }
struct Q { Val* fn; void* ctx; napi_threadsafe_function_call_js js; std::deque<void*> items; bool released = false; napi_finalize fin = nullptr; void* fdata = nullptr; };
static std::deque<std::unique_ptr<Q>> queues;
struct Ref { Val* v; bool live; };
static std::deque<std::unique_ptr<Ref>> refs;
struct Call { Val* fn; std::vector<Val*> args; };
static std::vector<Call> calls;
static std::vector<string> thrown;
static int faults = 0;          // percent of the fallible calls that fail
static bool qfull = false;
static Rng* rng; static Scenario* scn;
static std::vector<Val*> cbargs; static void* cbdata;
static bool fault() { return faults && rng->pick(100) < faults; }
static napi_status bad() { static napi_status const s[] = {napi_generic_failure, napi_queue_full, napi_closing, napi_invalid_arg, napi_pending_exception}; return s[rng->pick(5)]; }
static napi_env ENV = (napi_env)&faults;
extern "C" {
#define GIVE(out, what) Out o_; if (fault()) return bad(); *out = what; return napi_ok
napi_status napi_create_object(napi_env, napi_value* r) { GIVE(r, mk(OBJ)); }
napi_status napi_get_null(napi_env, napi_value* r) { GIVE(r, mk(NUL)); }
napi_status napi_get_undefined(napi_env, napi_value* r) { GIVE(r, mk(UNDEF)); }
napi_status napi_get_global(napi_env, napi_value* r) { GIVE(r, mk(GLOBAL)); }
static napi_value num(double d) { auto v = mk(NUM); V(v)->num = d; return v; }
napi_status napi_create_int64(napi_env, int64_t n, napi_value* r) { GIVE(r, num((double)n)); }
napi_status napi_create_int32(napi_env, int32_t n, napi_value* r) { GIVE(r, num(n)); }
napi_status napi_create_uint32(napi_env, uint32_t n, napi_value* r) { GIVE(r, num(n)); }
napi_status napi_create_double(napi_env, double n, napi_value* r) { GIVE(r, num(n)); }
napi_status napi_get_boolean(napi_env, bool b, napi_value* r) { Out o; auto v = mk(BOOL); V(v)->b = b; *r = v; return napi_ok; }
napi_status napi_create_string_utf8(napi_env, const char* s, size_t n, napi_value* r) { Out o; if (! s || fault()) return napi_invalid_arg; auto v = mk(TEXT); V(v)->text = n == NAPI_AUTO_LENGTH ? string(s) : string(s, n); *r = v; return napi_ok; }
napi_status napi_set_named_property(napi_env, napi_value o, const char* k, napi_value v) { Out x; if (! o || ! v || fault()) return napi_invalid_arg; V(o)->props[k] = V(v); return napi_ok; }
napi_status napi_set_property(napi_env e, napi_value o, napi_value k, napi_value v) { Out x; if (! o || ! k || ! v) return napi_invalid_arg; return napi_set_named_property(e, o, V(k)->text.c_str(), v); }
napi_status napi_define_properties(napi_env, napi_value o, size_t n, const napi_property_descriptor* p) { Out x; if (! o) return napi_invalid_arg; for (size_t i = 0; i < n; i++) { Val* v = V(p[i].value); if (! v && p[i].method) { v = V(mk(FN)); v->fn = p[i].method; v->data = p[i].data; } if (v) V(o)->props[p[i].utf8name ? string(p[i].utf8name) : V(p[i].name)->text] = v; } return napi_ok; }
napi_status napi_call_function(napi_env, napi_value, napi_value f, size_t n, const napi_value* a, napi_value* r) {
  Out o; if (! f || V(f)->kind != FN) return napi_invalid_arg;
  Call c{V(f), {}}; for (size_t i = 0; i < n; i++) { if (! a[i]) return napi_invalid_arg; c.args.push_back(V(a[i])); }
  calls.push_back(c); if (fault()) return napi_pending_exception; if (r) *r = mk(UNDEF); return napi_ok; }
napi_status napi_get_cb_info(napi_env, napi_callback_info, size_t* n, napi_value* a, napi_value* t, void** d) {
  Out o; if (n) { if (a) for (size_t i = 0; i < *n; i++) a[i] = i < cbargs.size() ? (napi_value)cbargs[i] : mk(UNDEF); *n = cbargs.size(); } if (t) *t = mk(OBJ); if (d) *d = cbdata; return napi_ok; }
napi_status napi_throw_error(napi_env, const char*, const char* m) { Out o; thrown.push_back(m ? m : ""); return napi_ok; }
napi_status napi_throw_type_error(napi_env e, const char* c, const char* m) { return napi_throw_error(e, c, m); }
napi_status napi_throw_range_error(napi_env e, const char* c, const char* m) { return napi_throw_error(e, c, m); }
napi_status napi_typeof(napi_env, napi_value v, napi_valuetype* t) { static napi_valuetype const k[] = {napi_undefined, napi_null, napi_boolean, napi_number, napi_string, napi_object, napi_function, napi_object, napi_bigint}; if (! v) return napi_invalid_arg; *t = k[V(v)->kind]; return napi_ok; }
napi_status napi_get_value_string_utf8(napi_env, napi_value v, char* b, size_t n, size_t* r) {
  Out o; if (! v || V(v)->kind != TEXT) return napi_string_expected; if (fault()) return bad();
  string const& s = V(v)->text; if (! b) { *r = s.size(); return napi_ok; }
  size_t k = 0;
  if (n) { k = std::min(n - 1, s.size()); while (k < s.size() && k && ((unsigned char)s[k] & 0xc0) == 0x80) k--; memcpy(b, s.data(), k); b[k] = 0; }
  if (r) *r = k; return napi_ok; }
napi_status napi_create_reference(napi_env, napi_value v, uint32_t, napi_ref* r) { Out o; if (! v || fault()) return napi_invalid_arg; refs.emplace_back(new Ref{V(v), true}); *r = (napi_ref)refs.back().get(); return napi_ok; }
napi_status napi_delete_reference(napi_env, napi_ref r) { Out o; if (! r) return napi_invalid_arg; scn->want(((Ref*)r)->live, "a reference is deleted twice"); ((Ref*)r)->live = false; return napi_ok; }
napi_status napi_create_threadsafe_function(napi_env, napi_value f, napi_value, napi_value, size_t, size_t, void* fd, napi_finalize fin, void* ctx, napi_threadsafe_function_call_js js, napi_threadsafe_function* r) {
  Out o; if (fault()) return bad(); queues.emplace_back(new Q{V(f), ctx, js}); queues.back()->fin = fin; queues.back()->fdata = fd; *r = (napi_threadsafe_function)queues.back().get(); return napi_ok; }
napi_status napi_release_threadsafe_function(napi_threadsafe_function f, napi_threadsafe_function_release_mode) { Out o; if (! f) return napi_invalid_arg; Q* q = (Q*)f; scn->want(! q->released, "a queue is released twice"); q->released = true; return napi_ok; }
napi_status napi_call_threadsafe_function(napi_threadsafe_function f, void* d, napi_threadsafe_function_call_mode m) {
  Out o; if (! f) return napi_invalid_arg; Q* q = (Q*)f;
  scn->want(! q->released, "an event is queued on a released queue");
  scn->want(m == napi_tsfn_nonblocking, "the watching thread waits for the script side");
  if (q->released || qfull) return qfull ? napi_queue_full : napi_closing;
  q->items.push_back(d); return napi_ok; }
napi_status napi_unref_threadsafe_function(napi_env, napi_threadsafe_function) { return napi_ok; }
napi_status napi_ref_threadsafe_function(napi_env, napi_threadsafe_function) { return napi_ok; }
static Val* mkfn(napi_callback f, void* d) { Val* v = V(mk(FN)); v->fn = f; v->data = d; return v; }
napi_status napi_create_function(napi_env, const char*, size_t, napi_callback f, void* d, napi_value* r) { GIVE(r, (napi_value)mkfn(f, d)); }
napi_status napi_add_finalizer(napi_env, napi_value v, void* d, napi_finalize f, void* h, napi_ref*) { Out o; if (! v || fault()) return napi_invalid_arg; V(v)->fins.push_back({d, (void*)f, h}); return napi_ok; }
napi_status napi_wrap(napi_env, napi_value v, void* d, napi_finalize f, void* h, napi_ref*) { Out o; if (! v || fault()) return napi_invalid_arg; if (f) V(v)->fins.push_back({d, (void*)f, h}); V(v)->data = d; return napi_ok; }
napi_status napi_unwrap(napi_env, napi_value v, void** r) { if (! v || ! V(v)->data) return napi_invalid_arg; *r = V(v)->data; return napi_ok; }
// ---- the C interface
struct FW { Q* q; wtr_watcher_callback cb; void* ctx; string path; int closes = 0; bool open = true; };
static std::deque<std::unique_ptr<FW>> watchers;
static size_t nq = 0; static bool open_fails = false, close_ok = true;
static std::vector<std::pair<string, void*>> opened;
void* wtr_watcher_open(char const* const path, wtr_watcher_callback cb, void* ctx) {
  Out o; opened.push_back({path, ctx}); if (open_fails) return nullptr;
  watchers.emplace_back(new FW{queues.size() > nq ? queues.back().get() : nullptr, cb, ctx, path}); return watchers.back().get(); }
static void deliver(FW* f);
bool wtr_watcher_close(void* h) {
  Out o; if (! h) return false; FW* f = (FW*)h; scn->want(f->open, "a watcher is closed twice");
  if (rng->coin()) deliver(f);          // events come until it is closed
  f->closes++; f->open = false; return close_ok; }
}
struct Sent { string path, assoc; bool has; int8_t et, pt; int64_t time; bool queued; };
static std::map<Q*, std::deque<Sent>> sent;
static void deliver(FW* f) {
  Rng& r = *rng;
  auto path = std::make_unique<string>(name(r)), as = std::make_unique<string>(name(r)); bool has = r.coin();
  struct wtr_watcher_event e{}; e.path_name = path->c_str(); e.associated_path_name = has ? as->c_str() : nullptr; e.effect_time = r.coin() ? number(r) : r.pick(1 << 30); e.effect_type = (int8_t)r.pick(7); e.path_type = (int8_t)(r.pick(3) ? r.pick(7) : (int)(int8_t)r.u64());
  if (r.pick(4) == 0) e.effect_type = (int8_t)r.u64();
  qfull = faults && r.pick(4) == 0;
  size_t n = 0, m = 0; for (auto& q : queues) n += q->items.size();
  Sent s{e.path_name, has ? as->c_str() : "", has, e.effect_type, e.path_type, e.effect_time, ! qfull};
  scn->note("event " + show(s.path) + (has ? " with " + show(s.assoc) : "") + (qfull ? ", which the queue has no room for" : ""));
  int before = nheld;
  { In i; f->cb(e, f->ctx); }
  path.reset(); as.reset();
  for (auto& q : queues) m += q->items.size();
  Q* q = f->q;
  if (qfull || ! q) { scn->want(nheld == before, "the copy of an event that cannot be queued is not released"); scn->want(m == n, "queued"); }
  else { scn->want(m == n + 1, "an event is queued " + std::to_string(m - n) + " times"); sent[q].push_back(s); }
  qfull = false;
}
static void drain1(Q* q, bool env) {
  if (q->items.empty()) return;
  void* d = q->items.front(); q->items.pop_front(); Sent s = sent[q].front(); sent[q].pop_front();
  size_t n = calls.size(); int before = nheld, f = faults;
  if (env && rng->coin()) faults = 0;
  bool clean = faults == 0 && env;
  { In i; q->js(env ? ENV : nullptr, env ? (napi_value)q->fn : nullptr, q->ctx, d); }
  faults = f;
  scn->want(nheld < before, "the copy of an event is not released");
  if (! clean) return;
  if (calls.size() != n + 1) { scn->fail("the script callback is called " + std::to_string(calls.size() - n) + " times"); return; }
  Call& c = calls.back();
  scn->want(c.fn == q->fn, "another function is called");
  if (c.args.size() != 1 || c.args[0]->kind != OBJ) { scn->fail("the script callback is not given one object"); return; }
  auto& p = c.args[0]->props;
  auto has = [&](char const* k, int kind) { return p.count(k) && p[k]->kind == kind; };
  scn->want(p.size() == 5, "not five properties");
  scn->want(has("pathName", TEXT) && p["pathName"]->text == s.path, "the path arrives otherwise");
  scn->want(s.has ? has("associatedPathName", TEXT) && p["associatedPathName"]->text == s.assoc : has("associatedPathName", NUL), "the associated path arrives otherwise");
  scn->want(has("effectType", NUM) && p["effectType"]->num == s.et, "the effect arrives otherwise");
  scn->want(has("pathType", NUM) && p["pathType"]->num == s.pt, "the kind arrives otherwise");
  scn->want((has("effectTime", NUM) && p["effectTime"]->num == (double)s.time), "the time arrives otherwise");
}
static napi_value call(Val* f, std::vector<Val*> a) { cbargs = a; cbdata = f->data; In i; return f->fn(ENV, (napi_callback_info)&cbargs); }
static void scenario(Scenario& sc) {
  Rng& r = sc.r; rng = &r; scn = &sc; nheld = 0; inside = false; faults = 0; qfull = false; open_fails = false;
  vals.clear(); queues.clear(); refs.clear(); calls.clear(); thrown.clear(); watchers.clear(); opened.clear(); sent.clear();
  static bool once = [] { __sanitizer_install_malloc_and_free_hooks(took, gave); return true; }(); (void)once;
  static napi_addon_register_func reg = napi_register_module_v1;
  napi_value exports = mk(OBJ); { In i; reg(ENV, exports); }
  Val* watch = V(exports)->props.count("watch") ? V(exports)->props["watch"] : nullptr;
  if (! watch || ! watch->fn) { sc.fail("no watch function"); return; }
  struct W { Val* obj; Val* cb; FW* f; bool closed = false, fin = false; Val* close = nullptr; };
  std::vector<W> ws;
  int level = r.coin() ? 0 : 1 + r.pick(40);
  int ops = 3 + r.pick(12);
  for (int i = 0; i < ops; i++) {
    faults = 0;
    int k = r.pick(10);
    if (ws.empty() || k == 0) {
      Val* a = V(mk(r.pick(8) ? TEXT : 1 + r.pick(5))); 
      if (a->kind == TEXT) { a->text = name(r); if (r.pick(6) == 0) a->text = string(4085 + r.pick(20), 'p'); if (r.pick(6) == 0) a->text.insert(r.pick((unsigned)a->text.size() + 1), 1, '\0'); }
      Val* cb = mkfn(nullptr, nullptr); std::vector<Val*> args{a, cb};
      int wrong = r.pick(10); if (wrong == 0) args.pop_back(); if (wrong == 1) args.clear(); if (wrong == 2) args.push_back(cb);
      open_fails = r.pick(5) == 0; faults = level;
      size_t n = watchers.size(), o = opened.size(), t = thrown.size(); int before = nheld; size_t live = 0, q = 0; for (auto& x : refs) live += x->live; for (auto& x : queues) q += ! x->released;
      sc.note("watch " + (a->kind == TEXT ? a->text.size() > 100 ? std::to_string(a->text.size()) + " bytes" : show(a->text) : "something that is not text") + (open_fails ? ", which cannot be opened" : "") + (faults ? ", calls failing" : ""));
      nq = queues.size();
      napi_value res = call(watch, args);
      bool ff = faults; faults = 0; open_fails = false;
      if (watchers.size() == n) {
        sc.want(thrown.size() > t && ! res, "a refusal is not told");
        sc.want(nheld == before, "a refusal leaves memory behind");
        size_t live2 = 0, q2 = 0; for (auto& x : refs) live2 += x->live; for (auto& x : queues) q2 += ! x->released;
        sc.want(live2 == live && q2 == q, "a refusal leaves resources behind");
        if (! ff && opened.size() == o && args.size() == 2 && a->kind == TEXT) sc.want(a->text.size() >= 4096 || a->text.find('\0') != string::npos, "a path is refused");
        continue;
      }
      sc.want(args.size() == 2 && a->kind == TEXT, "opened on what is not a path");
      sc.want(watchers.size() == n + 1 && watchers.back()->path == a->text, "opened on another path");
      W w{V(res), cb, watchers.back().get()};
      if (res && V(res)->props.count("close")) w.close = V(res)->props["close"]; else sc.want(ff, "no close function");
      if (! ff) { Q* qq = queues.empty() ? nullptr : queues.back().get(); sc.want(qq && qq->fn == cb, "the queue calls another function"); }
      ws.push_back(w);
      continue;
    }
    W& w = ws[(size_t)r.pick((int)ws.size())];
    if (k == 1) {
      if (! w.close || w.fin) continue;
      close_ok = r.pick(3); size_t closes = (size_t)w.f->closes; bool again = w.closed;
      faults = level; sc.note(string("close") + (again ? " again" : close_ok ? "" : ", which is not clean"));
      size_t live = 0, q = 0; for (auto& x : refs) live += x->live; for (auto& x : queues) q += ! x->released;
      napi_value res = call(w.close, {}); faults = 0;
      bool b = res && V(res)->kind == BOOL && V(res)->b;
      sc.want(res && V(res)->kind == BOOL, "closing does not answer true or false");
      if (again) { sc.want(! b && w.f->closes == (int)closes, "closing again is not refused"); continue; }
      sc.want(w.f->closes == 1, "closing does not close the watcher once");
      sc.want(level ? ! b || close_ok : b == close_ok, "the result of closing is not the watcher's");
      size_t live2 = 0, q2 = 0; for (auto& x : refs) live2 += x->live; for (auto& x : queues) q2 += ! x->released;
      if (! level) sc.want(live2 + 1 == live && q2 + 1 == q, "closing does not release the callback");
      w.closed = true;
    }
    else if (k < 6) { if (w.f->open) { faults = level; deliver(w.f); faults = 0; } }
    else { faults = level; for (auto& q : queues) drain1(q.get(), true); faults = 0; }
  }
  for (auto& w : ws) if (! w.closed && w.close) { close_ok = true; call(w.close, {}); w.closed = true; }
  for (auto& q : queues) while (! q->items.empty()) drain1(q.get(), r.coin() || ! level);
  for (auto& w : ws) if (w.closed) for (Val* v : {w.close, w.obj}) if (v) for (auto& f : v->fins) { In i; ((napi_finalize)f[1])(ENV, f[0], f[2]); }
  if (! level) {
    sc.want(nheld == 0, "memory is left in the end: " + std::to_string(nheld));
    for (auto& x : refs) sc.want(! x->live, "a reference is left in the end");
    for (auto& x : queues) sc.want(x->released, "a queue is left in the end");
  }
}
