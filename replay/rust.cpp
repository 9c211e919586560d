// C15: the real lib.rs (compiled by rustc, linked in) over a C interface and a channel the driver controls.
#include <wtr/watcher-c.h>
#include <algorithm>
#include <csignal>
#include <deque>
#include <memory>
#include <set>
#include <sanitizer/allocator_interface.h>
#include "drive.hpp"
using std::string;
static bool inside = false;
static void* held[65536]; static int nheld = 0;
static void took(const volatile void* p, size_t) { if (inside && nheld < 65536) held[nheld++] = (void*)p; }
static void gave(const volatile void* p) { for (int i = nheld; i-- > 0;) if (held[i] == p) { held[i] = held[--nheld]; return; } }
struct In { bool was = inside; In() { inside = true; } ~In() { inside = was; } };
struct Out { bool was = inside; Out() { inside = false; } ~Out() { inside = was; } };
static Rng* rng; static Scenario* scn;

// ---- the channel
struct Chan { size_t room; std::deque<std::vector<uint8_t>> q; int tx = 1, rx = 1; };
static std::deque<std::unique_ptr<Chan>> chans;
static Chan* ch(void* p) { for (auto& c : chans) if (c.get() == p) return c.get(); scn->fail("a channel is used that is not one"); fprintf(stdout, "FAIL a channel is used that is not one\n"); fflush(stdout); abort(); }
extern "C" {
uint8_t* vp_chan(size_t room) { Out o; chans.emplace_back(new Chan{room}); return (uint8_t*)chans.back().get(); }
uint8_t vp_send(uint8_t* c, uint8_t* v, size_t n) { Out o; Chan* x = ch(c); scn->want(x->tx > 0, "a sender is used after it was dropped"); if (x->rx != 1) return 1; if (x->q.size() > x->room) return 2; x->q.emplace_back(v, v + n); return 0; }
uint8_t vp_poll(uint8_t* c, uint8_t* v, size_t n, uint8_t*) { Out o; Chan* x = ch(c); scn->want(x->rx > 0, "a receiver is used after it was dropped"); if (! x->q.empty()) { memcpy(v, x->q.front().data(), n); x->q.pop_front(); return 2; } return x->tx && x->rx == 1 ? 0 : 1; }
void vp_clone_tx(uint8_t* c) { ch(c)->tx++; }
void vp_drop_tx(uint8_t* c) { Chan* x = ch(c); scn->want(x->tx > 0, "a sender is dropped twice"); x->tx--; }
void vp_drop_rx(uint8_t* c) { Chan* x = ch(c); scn->want(x->rx > 0, "a receiver is dropped twice"); x->rx = 0; }
void vp_close_rx(uint8_t* c) { ch(c)->rx = 2; }
bool vp_shut(uint8_t* c) { return ch(c)->rx != 1; }
// ---- lib.rs
bool vp_new(const uint8_t*, size_t, void*); bool vp_close(void*); void vp_drop(void*); uint8_t vp_next(void*, void*, void*); void vp_cx(void (*)(void*, void*), void*);
extern uint64_t vp_rust[8];
}
struct View { int64_t time; const char* path; size_t path_n; uint64_t has; const char* assoc; size_t assoc_n; uint8_t et, pt; };

// ---- the C interface
struct W { string path; wtr_watcher_callback cb; void* cx; bool open = true; int closes = 0; };
static std::deque<std::unique_ptr<W>> ws;
static int opens = 0; static bool refuse = false, dirty = false, child = false;
struct Ev { int64_t time; string path; bool has; string assoc; int8_t et, pt; };
static std::deque<Ev> told;
static int nev = 0;
static string some(Rng& r) { string s = name(r); switch (r.pick(8)) { case 0: s += "\xff"; break; case 1: s = ""; break; case 2: s.insert(s.size() / 2, "\xc3"); break; case 3: s += utf8(0x10000 + r.pick(0x10000)); break; default: break; } return s; }
static void tell(W* w, bool keep = true) {
  Out o; Rng& r = *rng;
  Ev e{number(r), some(r), r.coin(), some(r), (int8_t)(r.pick(4) ? r.pick(7) : r.pick(256)), (int8_t)(r.pick(4) ? r.pick(6) : r.pick(256))};
  scn->note("event " + std::to_string(e.time) + " " + show(e.path) + (e.has ? " " + show(e.assoc) : "") + " effect " + std::to_string(e.et) + " kind " + std::to_string(e.pt));
  std::unique_ptr<char[]> p(strcpy(new char[e.path.size() + 1], e.path.c_str())), a(strcpy(new char[e.assoc.size() + 1], e.assoc.c_str()));
  wtr_watcher_event c{}; c.effect_time = e.time; c.path_name = p.get(); c.associated_path_name = e.has ? a.get() : nullptr; c.effect_type = e.et; c.path_type = e.pt;
  if (keep) told.push_back(e);
  nev++;
  { In i; w->cb(c, w->cx); }
  memset(p.get(), '#', e.path.size()); memset(a.get(), '#', e.assoc.size());
}
extern "C" {
void* wtr_watcher_open(const char* path, wtr_watcher_callback cb, void* cx) {
  Out o; opens++; if (child) _exit(3);
  scn->want(cb != nullptr, "a watcher is opened without a callback");
  if (refuse) return nullptr;
  ws.emplace_back(new W{path, cb, cx}); W* w = ws.back().get();
  while (rng->pick(3) == 0) tell(w);
  return w;
}
bool wtr_watcher_close(void* h) {
  Out o; if (! h) return false;
  W* w = nullptr; for (auto& x : ws) if (x.get() == h) w = x.get();
  if (! w) { scn->fail("something is closed that is no watcher"); return false; }
  if (w->closes++) { scn->fail("a watcher is closed more than once"); return false; }
  while (rng->pick(3) == 0) tell(w, false);
  w->open = false; return ! dirty;
}
}
static bool valid(string const& s) {
  for (size_t i = 0; i < s.size();) {
    unsigned char c = s[i]; int n = c < 0x80 ? 0 : c >= 0xc2 && c <= 0xdf ? 1 : (c & 0xf0) == 0xe0 ? 2 : c >= 0xf0 && c <= 0xf4 ? 3 : -1;
    if (n < 0 || i + n >= s.size() + (n == 0)) return false;
    for (int k = 1; k <= n; k++) if (i + k >= s.size() || ((unsigned char)s[i + k] & 0xc0) != 0x80) return false;
    unsigned char d = n ? s[i + 1] : 0;
    if ((c == 0xe0 && d < 0xa0) || (c == 0xed && d > 0x9f) || (c == 0xf0 && d < 0x90) || (c == 0xf4 && d > 0x8f)) return false;
    i += n + 1;
  }
  return true;
}
static uint8_t code(int8_t c, const int8_t* k) { for (int i = 0; i < 6; i++) if (k[i] == c) return i; return 5; }
static void take(void* w) {
  static int8_t const E[] = {WTR_WATCHER_EFFECT_RENAME, WTR_WATCHER_EFFECT_MODIFY, WTR_WATCHER_EFFECT_CREATE, WTR_WATCHER_EFFECT_DESTROY, WTR_WATCHER_EFFECT_OWNER, WTR_WATCHER_EFFECT_OTHER};
  static int8_t const P[] = {WTR_WATCHER_PATH_DIR, WTR_WATCHER_PATH_FILE, WTR_WATCHER_PATH_HARD_LINK, WTR_WATCHER_PATH_SYM_LINK, WTR_WATCHER_PATH_WATCHER, WTR_WATCHER_PATH_OTHER};
  struct A { void* w; View v; uint8_t r; } a{w, {}, 9};
  { In i; vp_cx([](void* cx, void* p) { auto& a = *(A*)p; a.r = vp_next(a.w, cx, &a.v); }, &a); }
  if (told.empty()) { scn->want(a.r == 0, "the stream yields something though there is no event"); return; }
  Ev e = told.front(); told.pop_front();
  if (a.r != 2) { scn->fail("the stream does not yield an event that was told"); return; }
  auto utf = [](string s) { return valid(s) ? s : string(); };
  string p(a.v.path, a.v.path_n), q = a.v.has ? string(a.v.assoc, a.v.assoc_n) : string();
  scn->want(a.v.time == e.time, "the stream tells time " + std::to_string(a.v.time) + " for " + std::to_string(e.time));
  scn->want(p == utf(e.path), "the stream tells path " + show(p) + " for " + show(e.path));
  scn->want((bool)a.v.has == e.has, e.has ? "the stream tells no associated path" : "the stream tells an associated path that is not there");
  if (e.has && a.v.has) scn->want(q == utf(e.assoc), "the stream tells associated path " + show(q) + " for " + show(e.assoc));
  scn->want(a.v.et == code(e.et, E), "the stream tells effect " + std::to_string(a.v.et) + " for code " + std::to_string(e.et));
  scn->want(a.v.pt == code(e.pt, P), "the stream tells kind " + std::to_string(a.v.pt) + " for code " + std::to_string(e.pt));
  // the text is the caller's now
  { free(a.v.path_n ? (void*)a.v.path : nullptr); if (a.v.has && a.v.assoc_n) free((void*)a.v.assoc); }
}
static void scenario(Scenario& s) {
  static bool hooked = (__sanitizer_install_malloc_and_free_hooks(took, gave), true); (void)hooked;
  Rng& r = s.r; rng = &r; scn = &s; chans.clear(); ws.clear(); told.clear(); opens = 0; nheld = 0;
  string path = name(r); if (! valid(path)) path = "/tmp/caf\xc3\xa9";
  if (r.pick(200) == 0) {         // a path with a NUL: nothing is opened (whether it panics or refuses)
    path.insert(r.pick((int)path.size() + 1), 1, '\0');
    s.note("open " + show(path)); fflush(stdout);
    if (pid_t p = fork()) { int st = 0; waitpid(p, &st, 0); s.want(! (WIFEXITED(st) && WEXITSTATUS(st) == 3), "a path with a NUL opens something"); }
    else { child = true; signal(SIGABRT, SIG_DFL); close(2); close(1); std::vector<char> m(vp_rust[0]); bool ok = vp_new((const uint8_t*)path.data(), path.size(), m.data()); _exit(ok ? 3 : 0); }
    return;
  }
  refuse = r.pick(8) == 0; dirty = r.pick(4) == 0;
  s.note("open " + show(path) + (refuse ? " (refused)" : ""));
  std::unique_ptr<max_align_t[]> mem(new max_align_t[vp_rust[0] / sizeof(max_align_t) + 1]); void* w = mem.get();
  bool ok; { In i; std::unique_ptr<char[]> t(new char[path.size()]); memcpy(t.get(), path.data(), path.size()); ok = vp_new((const uint8_t*)t.get(), path.size(), w); }
  s.want(opens == 1, "opening opens " + std::to_string(opens) + " watchers");
  s.want(ok == ! refuse, "opening does not say whether it succeeded");
  if (ok && ! ws.empty()) {
    s.want(ws[0]->path == path, "the watcher is opened on " + show(ws[0]->path) + " for " + show(path));
    int n = r.pick(12); bool closed = false;
    while (n--) switch (r.pick(8)) {
      case 0: case 1: case 2: if (ws[0]->open) tell(ws[0].get()); break;
      case 3: if (r.pick(3) == 0) {
        s.note("close"); bool c; { In i; c = vp_close(w); }
        s.want(c == (! closed && ! dirty), "closing says the wrong thing"); s.want(ws[0]->closes == 1, "closing does not close the watcher"); closed = true; told.clear(); goto end; } break;
      default: take(w);
    }
    end:
    while (r.coin()) { s.note("close"); bool c; { In i; c = vp_close(w); } s.want(c == (! closed && ! dirty), "closing says the wrong thing"); closed = true; }
    s.note("drop"); { In i; vp_drop(w); }
    s.want(ws[0]->closes == 1, "by the time it is dropped a watch was closed " + std::to_string(ws[0]->closes) + " times");
  } else if (ok) { s.fail("a watch without a watcher"); }
  for (auto& c : chans) s.want(! c->tx && ! c->rx, "a channel stays in use");
  // what was still queued belongs to the channel
  if (std::all_of(chans.begin(), chans.end(), [](auto& c) { return c->q.empty(); })) s.want(nheld == 0, "memory is left after the watch was dropped");
}
