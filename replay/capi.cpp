// C13: the real watcher-c.cpp over a watch class the driver controls.
#include <vector>
#include "fake_watch.hpp"
#include <src/watcher-c.cpp>
#include "want.hpp"
using namespace wtr;
using std::string;
using ET = enum event::effect_type; using PT = enum event::path_type;
static struct { ET e; int8_t c; } const ecodes[] = {{ET::rename, WTR_WATCHER_EFFECT_RENAME}, {ET::modify, WTR_WATCHER_EFFECT_MODIFY}, {ET::create, WTR_WATCHER_EFFECT_CREATE}, {ET::destroy, WTR_WATCHER_EFFECT_DESTROY}, {ET::owner, WTR_WATCHER_EFFECT_OWNER}, {ET::other, WTR_WATCHER_EFFECT_OTHER}};
static struct { PT e; int8_t c; } const pcodes[] = {{PT::dir, WTR_WATCHER_PATH_DIR}, {PT::file, WTR_WATCHER_PATH_FILE}, {PT::hard_link, WTR_WATCHER_PATH_HARD_LINK}, {PT::sym_link, WTR_WATCHER_PATH_SYM_LINK}, {PT::watcher, WTR_WATCHER_PATH_WATCHER}, {PT::other, WTR_WATCHER_PATH_OTHER}};
struct Got { string path, assoc; bool has; int8_t et, pt; int64_t time; void* ctx; };
static std::vector<Got> got;
static void heard(struct wtr_watcher_event e, void* ctx) { got.push_back({e.path_name ? e.path_name : "<null>", e.associated_path_name ? e.associated_path_name : "", !! e.associated_path_name, e.effect_type, e.path_type, e.effect_time, ctx}); }
static void heard2(struct wtr_watcher_event e, void* ctx) { heard(e, ctx); got.back().path = "2:" + got.back().path; }
static void scenario(Scenario& sc) {
  Rng& r = sc.r; got.clear(); fresh_fakes();
  sc.want(! wtr_watcher_close(nullptr) && fakes.empty(), "closing null");
  struct W { void* h; FakeWatch* f; bool two; void* ctx; string path; bool open; };
  std::vector<W> ws;
  int ops = 3 + r.pick(10);
  for (int i = 0; i < ops; i++) {
    int k = r.pick(10);
    if (ws.empty() || k == 0) {
      string path = name(r); void* ctx = r.pick(3) ? (void*)r.u64() : nullptr; bool two = r.coin();
      string given = path; size_t n = fakes.size();
      void* h = wtr_watcher_open(given.c_str(), two ? heard2 : heard, ctx);
      given.assign(given.size(), 'Z');
      sc.note("open " + show(path));
      if (! h || fakes.size() != n + 1) { sc.fail("opening does not give one new watch"); return; }
      sc.want(fakes.back()->path.string() == path, "opened on " + show(fakes.back()->path.string()));
      for (auto& w : ws) sc.want(! w.open || w.h != h, "the same handle twice");
      ws.push_back({h, fakes.back(), two, ctx, path, true});
    }
    else {
      W& w = ws[(size_t)r.pick((int)ws.size())];
      if (! w.open) continue;
      if (k == 1) {
        bool ok = r.pick(3); on_close = [ok](FakeWatch&) { return ok; };
        int c = w.f->closes;
        bool x = wtr_watcher_close(w.h);
        sc.note(string("close, which stops ") + (ok ? "cleanly" : "uncleanly"));
        sc.want(x == ok, "the result of closing is not the watch's");
        sc.want(w.f->closes == c + 1, "closing does not close the watch once");
        if (ok) { sc.want(w.f->dead, "closed, and not released"); w.open = false; }
      }
      else {
        int e = r.pick(6), p = r.pick(6);
        string path = name(r), ap = name(r); bool as = r.coin();
        event base(path, ecodes[e].e, pcodes[p].e);
        auto ev = as ? std::make_unique<event>(base, event(ap, ecodes[r.pick(6)].e, pcodes[r.pick(6)].e)) : std::make_unique<event>(base);
        long long t = number(r); *const_cast<long long*>(&ev->effect_time) = t;
        sc.note("event " + show(path) + (as ? " with " + show(ap) : "") + " at " + std::to_string(t));
        size_t n = got.size();
        w.f->cb(*ev);
        if (got.size() != n + 1) { sc.fail("the callback is called " + std::to_string(got.size() - n) + " times for an event"); continue; }
        Got& g = got.back();
        sc.want(g.path == (w.two ? "2:" : "") + path, "the path arrives as " + show(g.path));
        sc.want(g.has == as && g.assoc == (as ? ap : ""), "the associated path arrives as " + (g.has ? show(g.assoc) : "null"));
        sc.want(g.time == t, "the time arrives as " + std::to_string(g.time));
        sc.want(g.et == ecodes[e].c, "the effect arrives as " + std::to_string(g.et));
        sc.want(g.pt == pcodes[p].c, "the kind arrives as " + std::to_string(g.pt));
        sc.want(g.ctx == w.ctx, "the context is another");
      }
    }
  }
  on_close = [](FakeWatch&) { return true; };
  for (auto& w : ws) if (w.open) { sc.want(wtr_watcher_close(w.h) && w.f->dead, "closing in the end"); }
}
