// Runs the real watcher against scenarios of the fake kernel and compares with what the
// properties say. usage: run PROPERTY SEED SECONDS [SCENARIO]
#include "wtr/watcher.hpp"
#include "kernel.hpp"
#include <chrono>
#include <filesystem>
#include <random>
#include <sys/mman.h>
#include <sys/wait.h>
#include <thread>
#include <signal.h>
using namespace fk;
namespace fs = std::filesystem;
using ev = wtr::watcher::event;
using namespace std;
using ET = enum ev::effect_type; using PT = enum ev::path_type;

struct Seen { ET et; PT pt; string path; bool assoc = false; ET aet{}; PT apt{}; string apath; bool deep = false; };
static string words(Seen const& s) {
  auto e = [](ET t) -> string { switch (t) { case ev::effect_type::rename: return "rename"; case ev::effect_type::modify: return "modify"; case ev::effect_type::create: return "create"; case ev::effect_type::destroy: return "destroy"; case ev::effect_type::owner: return "owner"; case ev::effect_type::other: return "other"; } return "?" + to_string((int)t); };
  auto p = [](PT t) -> string { switch (t) { case ev::path_type::dir: return "dir"; case ev::path_type::file: return "file"; case ev::path_type::hard_link: return "hard_link"; case ev::path_type::sym_link: return "sym_link"; case ev::path_type::watcher: return "watcher"; case ev::path_type::other: return "other"; } return "?" + to_string((int)t); };
  string r = e(s.et) + " " + p(s.pt) + " " + s.path;
  if (s.assoc) r += " with " + e(s.aet) + " " + p(s.apt) + " " + s.apath + (s.deep ? " with more" : "");
  return r;
}
static bool same(Seen const& a, Seen const& b) { return words(a) == words(b); }

struct Rng { mt19937_64 g; explicit Rng(uint64_t s) : g(s) {} int below(int n) { return n <= 1 ? 0 : (int)(g() % n); } bool one_in(int n) { return below(n) == 0; } bool pct(int p) { return below(100) < p; } };

static string const text_of[] = {"w/sys/not_watched@", "w/sys/phantom@", "w/sys/bad_fd@", "w/sys/bad_meta@", "w/sys/q_overflow@"};

struct World {
  Rng r; Kernel& k = K();
  string root, base, given;
  vector<string> dirs;                    // real directories below base, base first
  set<string> absent, unlisted;                   // their entries are not (all) listed
  bool fan = false;
  // expectation
  vector<pair<Seen, bool>> want; vector<string> warn; string fatal; vector<Seen> got;
  struct NewDir { string path; size_t nth; bool exists; }; vector<NewDir> newdirs; // creation told as the nth event
  // inotify: what the records mean
  map<int, string> dm; vector<int> live, dead; set<int> cleared;
  uint32_t cookie = 100;
  // fanotify
  vector<string> hpath; vector<int> hstate;   // 0 ok, errno: cannot be opened, -errno: no link
  int reads = 0; bool foreign = false; string mode;
  vector<string> story;
  string only;
  bool early = false, missing = false, isfile = false, twice = true, nodest = false;
  explicit World(uint64_t seed) : r(seed) {}

  string name() {
    static char const* const pool[] = {"a", "b", "file.txt", ".hidden", "..", "a b", "x\ny", "\xff\xfe", "quote\"d", "back\\slash", "tab\t", "%d%s", "...", "self", "e/", "new"};
    for (;;) {
      if (r.one_in(14)) return string(200 + r.below(56), 'n');
      if (r.pct(50)) { string s; int n = 1 + r.below(12); for (int i = 0; i < n; i++) s += "abcdefgh._-0"[r.below(12)]; if (s != "." && s != "..") return s; continue; }
      string s = pool[r.below(sizeof pool / sizeof *pool)];
      if (s == ".." || s.find('/') != s.npos) continue;
      return s;
    }
  }
  void tree() {
    base = root + "/base"; mkdir(base.c_str(), 0755); dirs = {base};
    int n = r.below(7);
    for (int i = 0; i < n; i++) {
      string d = dirs[r.below(dirs.size())] + "/" + name();
      if (mkdir(d.c_str(), 0755) == 0) dirs.push_back(d);
    }
    for (int i = r.below(4); i > 0; i--) { string f = dirs[r.below(dirs.size())] + "/" + name(); int fd = ::open(f.c_str(), O_CREAT | O_EXCL | O_WRONLY, 0644); if (fd >= 0) ::close(fd); }
    string out = root + "/outside"; mkdir(out.c_str(), 0755); mkdir((out + "/deep").c_str(), 0755);
    for (int i = r.below(3); i > 0; i--) (void)!symlink(r.one_in(2) ? out.c_str() : dirs[r.below(dirs.size())].c_str(), (dirs[r.below(dirs.size())] + "/link" + to_string(i)).c_str());
  }
  void expect(ET e, PT p, string const& path, bool must = true) { want.push_back({Seen{e, p, path}, must}); }

  // ---------------------------------------------------------------- inotify
  struct In { int wd; uint32_t mask, cookie; string name; bool named = true; };
  static size_t in_size(In const& i) { return 16 + (i.named ? (i.name.size() + 1 + 15) / 16 * 16 : 0); }
  bool asked(uint64_t bits) { for (auto& m : k.marks) if (m.ok && (m.mask & bits)) return true; return false; }
  void sync_marks() { for (auto& m : k.marks) if (m.ok && m.wd > 0 && !dm.count(m.wd) && !cleared.count(m.wd)) { char b[PATH_MAX]; dm[m.wd] = realpath(m.path.c_str(), b) ? b : m.path; live.push_back(m.wd); } }
  void put(vector<In>& q, size_t& room, initializer_list<In> l) { size_t n = 0; for (auto& i : l) n += in_size(i); if (n > room) return; room -= n; for (auto& i : l) q.push_back(i); }
  ssize_t in_read(char* buf, size_t n, int upto) {
    sync_marks();
    if (live.empty()) { errno = EAGAIN; return -1; }
    vector<In> q; size_t room = n;
    auto wd = [&] { return live[r.below(live.size())]; };
    auto D = [&](uint32_t m) -> uint32_t { return r.one_in(4) ? m | IN_ISDIR : m; };
    for (int i = 0; i < upto; i++) {
      int a = wd(), b = wd();
      switch (r.below(18)) {
        case 0: case 1: put(q, room, {{a, D(IN_CREATE), 0, name()}}); break;
        case 2: case 3: put(q, room, {{a, IN_MODIFY, 0, name()}}); break;
        case 4: put(q, room, {{a, D(IN_DELETE), 0, name()}}); break;
        case 5: put(q, room, {{a, D(IN_MOVED_FROM), cookie++, name()}}); break;
        case 6: put(q, room, {{a, D(IN_MOVED_TO), cookie++, name()}}); break;
        case 7: case 8: case 9: { uint32_t d = r.one_in(3) ? IN_ISDIR : 0; put(q, room, {{a, IN_MOVED_FROM | d, cookie, name()}, {b, IN_MOVED_TO | d, cookie, name()}}); cookie++; break; }
        case 10: put(q, room, {{a, IN_MOVED_FROM, cookie, name()}, {b, (uint32_t)(r.one_in(2) ? IN_MODIFY : IN_CREATE), 0, name()}, {a, IN_MOVED_TO, cookie, name()}}); cookie++; break;
        case 11: put(q, room, {{a, IN_MOVED_FROM, cookie, name()}, {b, IN_MOVED_TO, cookie + 1, name()}}); cookie += 2; break;
        case 12: if (live.size() > 1 && r.one_in(2)) { put(q, room, {{a, D(IN_DELETE_SELF), 0, "", false}}); if (r.one_in(2)) put(q, room, {{a, IN_IGNORED, 0, "", false}}); } break;
        case 13: put(q, room, {{a, D(IN_MOVE_SELF), 0, "", false}}); break;
        case 14: put(q, room, {{-1, IN_Q_OVERFLOW, 0, "", false}}); break;
        case 15: { int w = dead.empty() || r.one_in(2) ? 90000 + r.below(9) : dead[r.below(dead.size())]; if (r.one_in(2)) put(q, room, {{w, IN_CREATE, 0, name(), true}}); else put(q, room, {{a, IN_MOVED_FROM, cookie, name()}, {w, IN_MOVED_TO, cookie, name()}}); cookie++; break; }
        case 16: put(q, room, {{a, D(r.one_in(2) ? IN_ATTRIB : IN_OPEN), 0, name()}}); break;
        case 17: put(q, room, {{a, IN_CREATE | IN_ISDIR, 0, name()}}); break;
      }
    }
    if (mode == "full") while (room >= 16) put(q, room, {{wd(), IN_MOVE_SELF, 0, "", false}});
    // the subscription decides what arrives
    uint32_t all = IN_CREATE | IN_DELETE | IN_DELETE_SELF | IN_MODIFY | IN_MOVE_SELF | IN_MOVED_FROM | IN_MOVED_TO;
    vector<In> out; for (auto& i : q) if (!(i.mask & all & ~IN_DELETE_SELF & ~IN_MOVE_SELF) || !(i.mask & all) || asked(i.mask & all)) out.push_back(i);
    // meaning
    set<int> ended;
    for (size_t i = 0; i < q.size(); i++) {
      auto& x = q[i];
      string d = (x.mask & IN_ISDIR) ? " (directory)" : "";
      k.note("  record: wd %d mask %#x cookie %u name \"%s\"", x.wd, x.mask, x.cookie, x.name.c_str());
      if (x.mask & IN_Q_OVERFLOW) { warn.push_back(text_of[4]); continue; }
      if (!dm.count(x.wd)) { warn.push_back(text_of[1]); continue; }
      if (x.mask & IN_DELETE_SELF) { ended.insert(x.wd); continue; }
      if (x.mask & (IN_MOVE_SELF | IN_IGNORED) || !(x.mask & all)) continue;
      string p = dm[x.wd] + "/" + x.name; auto pt = x.mask & IN_ISDIR ? ev::path_type::dir : ev::path_type::file;
      if (x.mask & IN_MOVED_FROM && i + 1 < q.size() && q[i + 1].mask & IN_MOVED_TO && q[i + 1].cookie == x.cookie && dm.count(q[i + 1].wd)) {
        auto& y = q[++i]; Seen s{ev::effect_type::rename, pt, p, true, ev::effect_type::rename, y.mask & IN_ISDIR ? ev::path_type::dir : ev::path_type::file, dm[y.wd] + "/" + y.name};
        k.note("  record: wd %d mask %#x cookie %u name \"%s\"", y.wd, y.mask, y.cookie, y.name.c_str());
        want.push_back({s, true}); continue;
      }
      auto et = x.mask & IN_CREATE ? ev::effect_type::create : x.mask & IN_DELETE ? ev::effect_type::destroy : x.mask & IN_MOVE ? ev::effect_type::rename : ev::effect_type::modify;
      if (x.mask & IN_CREATE && x.mask & IN_ISDIR) {
        bool ex = !absent.count(p) && r.pct(70) && (mkdir(p.c_str(), 0755) == 0 || errno == EEXIST); (void)ex;
        struct stat s; ex = stat(p.c_str(), &s) == 0 && S_ISDIR(s.st_mode); if (!ex) absent.insert(p);
        newdirs.push_back({p, want.size(), ex});
        if (!ex) warn.push_back(text_of[0] + p);
      }
      expect(et, pt, p);
    }
    size_t at = 0;
    for (auto& x : out) {
      inotify_event e{}; e.wd = x.wd; e.mask = x.mask; e.cookie = x.cookie; e.len = in_size(x) - 16;
      memcpy(buf + at, &e, 16); memset(buf + at + 16, 0, e.len); memcpy(buf + at + 16, x.name.data(), x.named ? x.name.size() : 0); at += 16 + e.len;
    }
    for (int w : ended) { dm.erase(w); cleared.insert(w); dead.push_back(w); erase(live, w); for (auto i = k.wd_of.begin(); i != k.wd_of.end();) i = i->second == w ? k.wd_of.erase(i) : next(i); }
    k.note("read -> %zu bytes, %zu records", at, out.size());
    if (!at) { errno = EAGAIN; return -1; }
    return at;
  }
  static void erase(vector<int>& v, int w) { for (size_t i = 0; i < v.size();) if (v[i] == w) v.erase(v.begin() + i); else i++; }

  // ---------------------------------------------------------------- fanotify
  struct Fa { uint64_t mask; int h; string name; int itype = FAN_EVENT_INFO_TYPE_DFID_NAME; int fd = FAN_NOFD; int vers = FANOTIFY_METADATA_VERSION; bool more = false; bool bare = false; int hb = 12; };
  static size_t fa_size(Fa const& f) { if (f.bare) return 24; size_t n = 24 + 12 + 8 + f.hb + f.name.size() + 1; n = (n + 3) / 4 * 4; if (f.more) n += 12 + 8 + 8; return n; }
  void fput(vector<Fa>& q, size_t& room, initializer_list<Fa> l) { size_t n = 0; for (auto& i : l) n += fa_size(i); if (n > room) return; room -= n; for (auto& i : l) q.push_back(i); }
  ssize_t fa_read(char* buf, size_t n, int upto) {
    bool any = false; for (auto& m : k.marks) any |= m.ok;
    if (!any) { errno = EAGAIN; return -1; }
    vector<Fa> q; size_t room = n;
    auto h = [&] { return r.below(hpath.size()); };
    static int const hbs[] = {8, 12, 16, 24, 32, 128};
    auto D = [&](uint64_t m) { return r.one_in(4) ? m | FAN_ONDIR : m; };
    for (int i = 0; i < upto; i++) {
      Fa a{0, (int)h(), name()}; a.hb = hbs[r.below(6)]; a.more = r.one_in(3); Fa b = a; b.h = h(); b.name = name(); b.hb = hbs[r.below(6)];
      switch (r.below(16)) {
        case 0: case 1: a.mask = D(FAN_CREATE); fput(q, room, {a}); break;
        case 2: a.mask = FAN_MODIFY; fput(q, room, {a}); break;
        case 3: a.mask = D(FAN_DELETE); fput(q, room, {a}); break;
        case 4: a.mask = D(FAN_MOVED_FROM); fput(q, room, {a}); break;
        case 5: a.mask = D(FAN_MOVED_TO); fput(q, room, {a}); break;
        case 6: case 7: case 8: a.mask = D(FAN_MOVED_FROM); b.mask = (a.mask & FAN_ONDIR) | FAN_MOVED_TO; fput(q, room, {a, b}); break;
        case 9: { a.mask = FAN_MOVED_FROM; b.mask = FAN_MODIFY; Fa c = a; c.mask = FAN_MOVED_TO; c.name = name(); fput(q, room, {a, b, c}); break; }
        case 10: a.mask = FAN_Q_OVERFLOW; a.bare = true; fput(q, room, {a}); break;
        case 11: a.mask = FAN_MODIFY; a.fd = 5000 + r.below(5); a.bare = r.one_in(2); fput(q, room, {a}); break;
        case 12: a.mask = D(FAN_MODIFY); a.itype = r.one_in(2) ? FAN_EVENT_INFO_TYPE_FID : FAN_EVENT_INFO_TYPE_DFID; fput(q, room, {a}); break;
        case 13: a.mask = FAN_DELETE | FAN_ONDIR; a.name = "."; fput(q, room, {a}); break;
        case 14: a.mask = FAN_CREATE | FAN_ONDIR; fput(q, room, {a}); break;
        case 15: if (r.one_in(20)) { a.mask = FAN_MODIFY; a.vers = 2 + 2 * r.below(2); fput(q, room, {a}); } break;
      }
    }
    if (mode == "full") while (room >= 24) { Fa a{FAN_Q_OVERFLOW, 0, ""}; a.bare = true; fput(q, room, {a}); }
    // two neighbouring halves of different types would be two renames: not distinguishable, not offered
    for (size_t i = 0; i + 1 < q.size(); i++) if ((q[i].mask & FAN_MOVE) && (q[i + 1].mask & FAN_MOVE)) q[i + 1].mask = (q[i + 1].mask & ~(uint64_t)FAN_ONDIR) | (q[i].mask & FAN_ONDIR);
    uint64_t all = FAN_CREATE | FAN_DELETE | FAN_MODIFY | FAN_MOVED_FROM | FAN_MOVED_TO;
    vector<Fa> out; for (auto& i : q) if (!(i.mask & all) || (asked(i.mask & all) && (!(i.mask & FAN_ONDIR) || asked(FAN_ONDIR)))) out.push_back(i);
    bool names = (k.fa_flags & (FAN_REPORT_DIR_FID | FAN_REPORT_NAME)) == (FAN_REPORT_DIR_FID | FAN_REPORT_NAME);
    auto usable = [&](Fa const& f) { return f.fd == FAN_NOFD && !(f.mask & FAN_Q_OVERFLOW) && f.itype == FAN_EVENT_INFO_TYPE_DFID_NAME; };
    auto path = [&](Fa const& f) { return f.name == "." ? hpath[f.h] : hpath[f.h] + "/" + f.name; };
    for (size_t i = 0; i < q.size() && !foreign; i++) {
      auto& x = q[i];
      k.note("  record: mask %#llx directory %s%s name \"%s\" fd %d information %d version %d", (unsigned long long)x.mask, hpath[x.h].c_str(), hstate[x.h] ? " (cannot be resolved)" : "", x.name.c_str(), x.fd, x.itype, x.vers);
      if (x.vers != FANOTIFY_METADATA_VERSION) { fatal = "e/sys/lim/kernel_version@"; foreign = true; break; }
      if (x.fd != FAN_NOFD) { warn.push_back(text_of[2]); continue; }
      if (x.mask & FAN_Q_OVERFLOW) { warn.push_back(text_of[4]); continue; }
      if (x.itype != FAN_EVENT_INFO_TYPE_DFID_NAME) { warn.push_back(text_of[3]); continue; }
      if (hstate[x.h]) { warn.push_back(text_of[2]); continue; }
      auto pt = x.mask & FAN_ONDIR ? ev::path_type::dir : ev::path_type::file;
      bool ft = i + 1 < q.size() && q[i + 1].vers == FANOTIFY_METADATA_VERSION && usable(q[i + 1]) && !hstate[q[i + 1].h];
      bool f1 = ft && x.mask & FAN_MOVED_FROM && q[i + 1].mask & FAN_MOVED_TO, f2 = ft && x.mask & FAN_MOVED_TO && q[i + 1].mask & FAN_MOVED_FROM;
      if ((f1 || f2) && (x.mask & FAN_ONDIR) != (q[i + 1].mask & FAN_ONDIR)) { story.push_back("mixed"); f1 = f2 = false; }
      if (f1 || f2) {
        auto& y = q[++i]; auto &fr = f1 ? x : y, &to = f1 ? y : x;
        k.note("  record: mask %#llx directory %s name \"%s\"", (unsigned long long)y.mask, hpath[y.h].c_str(), y.name.c_str());
        want.push_back({Seen{ev::effect_type::rename, pt, path(fr), true, ev::effect_type::rename, pt, path(to)}, true}); continue;
      }
      auto et = x.mask & FAN_CREATE ? ev::effect_type::create : x.mask & FAN_DELETE ? ev::effect_type::destroy : x.mask & FAN_MODIFY ? ev::effect_type::modify : ev::effect_type::rename;
      if (x.mask & FAN_CREATE && x.mask & FAN_ONDIR) {
        string p = path(x); if (!absent.count(p) && r.pct(70)) mkdir(p.c_str(), 0755);
        struct stat s; bool ex = stat(p.c_str(), &s) == 0 && S_ISDIR(s.st_mode); if (!ex) absent.insert(p);
        newdirs.push_back({p, want.size(), ex}); if (!ex) warn.push_back(text_of[0] + p);
      }
      expect(et, pt, path(x));
    }
    size_t at = 0;
    for (auto& x : out) {
      size_t sz = fa_size(x); memset(buf + at, 0, sz);
      fanotify_event_metadata m{}; m.event_len = sz; m.vers = x.vers; m.metadata_len = 24; m.mask = x.mask; m.fd = x.fd; m.pid = 77;
      memcpy(buf + at, &m, 24);
      if (!x.bare) {
        size_t il = (12 + 8 + x.hb + x.name.size() + 1 + 3) / 4 * 4;
        char* p = buf + at + 24; uint8_t ty = names ? x.itype : FAN_EVENT_INFO_TYPE_DFID; uint16_t l16 = il; uint32_t hb = x.hb; int ht = 1;
        p[0] = ty; memcpy(p + 2, &l16, 2); memcpy(p + 12, &hb, 4); memcpy(p + 16, &ht, 4);
        string hs(x.hb, '\1'); hs[0] = (char)x.h; hs[1] = 7; memcpy(p + 20, hs.data(), x.hb); memcpy(p + 20 + x.hb, x.name.data(), x.name.size());
        if (x.more) { p += il; uint16_t l2 = 28; uint32_t hb2 = 8; p[0] = FAN_EVENT_INFO_TYPE_FID; memcpy(p + 2, &l2, 2); memcpy(p + 12, &hb2, 4); }
      }
      at += sz;
    }
    k.note("read -> %zu bytes, %zu records", at, out.size());
    if (!at) { errno = EAGAIN; return -1; }
    return at;
  }

  // ---------------------------------------------------------------- the scenario
  vector<int> plan;   // per read: >0 records, 0 EAGAIN, <0 -errno
  void setup(uint64_t seed) {
    char b[600]; char const* at = getenv("VP_SCRATCH"); snprintf(b, sizeof b, "%s/vp_replay_XXXXXX", at ? at : "/tmp"); root = mkdtemp(b); k.root = root; (void)!chdir(root.c_str());
    tree();
    int pr = r.below(100);
    k.euid = r.one_in(2) ? 0 : 1000;
    fan = k.euid == 0;
    given = r.one_in(5) ? "base" : base;
    if (pr < 3) { missing = true; given = root + "/nowhere"; }
    else if (pr < 6) { isfile = true; given = root + "/plain"; int f = ::open(given.c_str(), O_CREAT | O_WRONLY, 0644); ::close(f); }
    else if (pr < 12) early = k.hold_thread = true;
    k.unknown_types = r.one_in(5);
    if (r.one_in(6)) k.zero_for = r.below(5);
    mode = r.one_in(4) ? "full" : "";
    // faults
    if (fan && r.one_in(5)) { k.faults.push_back({"fanotify_init", 1, EPERM}); fan = false; }
    if (!fan && r.one_in(14)) { k.faults.push_back({"inotify_init", 1, EMFILE}); }
    if (r.one_in(14)) { k.faults.push_back({"epoll_create", 1, EMFILE}); }
    if (r.one_in(10)) { k.faults.push_back({"epoll_ctl", 1 + r.below(2), ENOMEM}); }
    char const* mk = fan ? "fanotify_mark" : "inotify_add_watch";
    if (r.one_in(6)) { int n = 1 + r.below(5); k.faults.push_back({mk, n, ENOSPC}); }
    if (r.one_in(16)) for (int i = 1; i < 40; i++) k.faults.push_back({mk, i, ENOSPC});
    if (r.one_in(6)) { k.faults.push_back({"opendir", 1 + r.below(4), EACCES}); }
    if (r.one_in(8)) { k.faults.push_back({"readdir", 1 + r.below(8), EIO}); }
    // script
    int turns = r.below(5);
    bool done = false;
    for (int i = 0; i < turns && !done; i++) {
      Wake w; int c = r.below(20);
      auto batch = [&] { plan.push_back(mode == "full" && r.one_in(2) ? 200 : r.one_in(5) ? 1 : 1 + r.below(12)); };
      if (c == 0) w.err = EINTR;
      else if (c == 1) { w.err = r.one_in(2) ? EINVAL : EBADF; done = true; story.push_back("waiterr"); }
      else if (c == 2) { }                                     // nothing
      else if (c == 3) { w.items = {{false}}; plan.push_back(0); }
      else if (c == 4) { w.items = {{false}}; plan.push_back(-EIO); done = true; }
      else if (c == 5) { w.items = {{false}, {true}}; batch(); done = true; }
      else if (c == 6) { w.items = {{true}, {false}}; done = true; story.push_back("stopfirst"); }
      else if (c == 7) { w.items = {{false}, {true}}; plan.push_back(r.one_in(2) ? 0 : -EIO); done = true; }
      else { w.items = {{false}}; batch(); }
      k.script.push_back(w);
    }
    // directories fanotify records are about
    for (auto& d : dirs) { hpath.push_back(d); hstate.push_back(0); }
    hpath.push_back(root + "/gone"); hstate.push_back(ESTALE);
    if (r.one_in(2)) { hpath.push_back(root + "/nolink"); hstate.push_back(-ENOENT); }
    k.on_handle = [this](string const& s) -> int { int i = s.empty() ? -1 : (unsigned char)s[0]; if (i < 0 || i >= (int)hpath.size() || s[1] != 7) { k.fail("C06", "a file handle is used which no record has"); return -ESTALE; } return hstate[i] > 0 ? -hstate[i] : i; };
    k.handle_path = [this](int i) { return hpath[i]; };
    if (only == "C06" && r.one_in(4)) k.link_text = [](string const& p, size_t n) { return n < 300 ? p : "/" + string(n - 1, 'p'); };
    k.link_fails = [this](string const& p) { for (size_t i = 0; i < hpath.size(); i++) if (hpath[i] == p && hstate[i] < 0) return -hstate[i]; return 0; };
    k.on_read = [this](Fd& f, char* b, size_t n) -> ssize_t {
      if (reads >= (int)plan.size()) {
        // a second read in one turn: nothing more
        errno = EAGAIN; return -1;
      }
      int p = plan[reads++];
      if (p < 0) { k.note("read fails with errno %d", -p); fatal = "e/sys/api/read@"; errno = -p; return -1; }
      if (p == 0) { k.note("read finds nothing"); errno = EAGAIN; return -1; }
      size_t need = f.kind == Fd::IN ? 16 + 256 : 24 + 20 + 128 + 256;
      if (n < need) { k.fail(f.kind == Fd::IN ? "C04" : "C05", "the buffer of " + to_string(n) + " bytes has no room for the largest record"); errno = EINVAL; return -1; }
      return f.kind == Fd::IN ? in_read(b, n, p) : fa_read(b, n, p);
    };
  }
  bool has(string const& s) { for (auto& x : story) if (x == s) return true; return false; }
  // what the listing shows: replays the walk with the same faults
  void judge(bool r1, bool r2, bool closed_twice, string const& abs, size_t at_close) {
    auto bad = [&](char const* p, string const& s) { k.fail(p, s); };
    string die = "/self/die@" + abs, live_ = "/self/live@" + abs;
    bool pre = !early && !missing && !isfile;
    auto is = [&](Seen const& s, ET e, string const& t) { return s.et == e && s.pt == ev::path_type::watcher && s.path == t && !s.assoc; };
    // lifecycle
    size_t n = got.size(), nl = 0, nd = 0;
    for (auto& s : got) { if (s.pt == ev::path_type::watcher && s.path.find("/self/live@") != string::npos) nl++; if (s.pt == ev::path_type::watcher && s.path.find("/self/die@") != string::npos) nd++; }
    if (n < 2) { bad("C01", "only " + to_string(n) + " events were delivered"); return; }
    if (!is(got[0], ev::effect_type::create, (pre ? "s" : "e") + live_)) bad("C01", "the first event is \"" + words(got[0]) + "\", not " + (pre ? "s" : "e") + live_);
    if (nl != 1) bad("C01", to_string(nl) + " live messages");
    if (nd != 1) bad("C01", to_string(nd) + " die messages");
    if (!pre && (!k.inits.empty() || k.waits)) bad("C01", "something is watched though the start failed");
    // the backend
    vector<string> bk; if (pre) { if (k.euid == 0) bk.push_back("fanotify"); if (!fan) bk.push_back("inotify"); }
    if (bk != k.inits) { string s; for (auto& x : k.inits) s += " " + x; bad("C08", "backends tried:" + (s.empty() ? " none" : s) + " (effective user " + to_string(k.euid) + ")"); }
    if (!pre) {
      if (!is(got[n - 1], ev::effect_type::destroy, "e" + die)) bad("C01", "the last event is \"" + words(got[n - 1]) + "\", not e" + die);
      if (n != 2) bad("C01", "events between a failed start and its end");
      if (r1) bad("C02", "close returns true for a watch that did not start");
      if (closed_twice && r2) bad("C02", "the second close returns true");
      return;
    }
    // starting
    auto faulted = [&](char const* f) { for (auto& x : k.faults) if (x.fn == f && k.calls[f] >= x.nth) return true; return false; };
    bool started = true;
    if (!fan && faulted("inotify_init")) fatal = "e/sys/api/inotify@", started = false;
    size_t okmarks = 0, first = 0; for (auto& m : k.marks) if (m.ok && m.start) okmarks++;
    (void)first;
    // directories at the start
    if (started) {
      // follow the listing as it went: which opendir/readdir calls failed
      multiset<string> offered; for (auto& m : k.marks) if (m.start) offered.insert(m.path);
      bool listing_faults = faulted("opendir") || faulted("readdir");
      for (auto& m : offered) { bool known = false; for (auto& d : dirs) if (d == m) known = true; if (!known) bad("C07", "put under watch at the start though no real directory of the tree: " + m); if (offered.count(m) > 1) { bad("C07", "offered more than once: " + m); break; } }
      if (!listing_faults) for (auto& d : dirs) if (!offered.count(d)) bad("C07", "not put under watch at the start: " + d);
      for (auto& m : k.marks) if (m.start && !m.ok) warn.insert(warn.begin(), text_of[0] + m.path);
      if (!fan && !okmarks && fatal.empty()) fatal = "e/self/noent@", started = false;
      else if (!fan && !okmarks) started = false;
    }
    if (started && (faulted("epoll_create") || faulted("epoll_ctl"))) { if (k.waits == 0 || true) fatal = "e/sys/api/epoll@"; started = false; }
    if (started && has("waiterr") && k.step == k.script.size() && !k.script.empty() && k.script.back().err && k.script.back().err != EINTR && fatal.empty()) fatal = "e/sys/api/epoll@";
    bool clean = fatal.empty();
    if (!is(got[n - 1], ev::effect_type::destroy, (clean ? "s" : "e") + die)) bad("C01", "the last event is \"" + words(got[n - 1]) + "\", not " + (clean ? "s" : "e") + die);
    // closing
    if (r1 != clean) bad("C02", string("close returns ") + (r1 ? "true" : "false") + " though the run " + (clean ? "was clean" : "failed with " + fatal));
    if (closed_twice && r2) bad("C02", "the second close returns true");
    if (at_close != got.size()) bad("C02", "events are delivered after close returned");
    // messages
    vector<Seen> mid(got.begin() + 1, got.end() - 1), evs; multiset<string> w, ew(warn.begin(), warn.end()); vector<string> errs;
    for (auto& s : mid) {
      if (s.pt != ev::path_type::watcher) { evs.push_back(s); continue; }
      if (s.et != ev::effect_type::other || s.assoc) bad("C09", "a message is no (other, watcher) event: " + words(s));
      if (s.path.rfind("w/", 0) == 0) w.insert(s.path);
      else if (s.path.rfind("e/", 0) == 0) errs.push_back(s.path);
      else bad("C09", "unexpected message: " + words(s));
    }
    if (errs.size() != (clean ? 0u : 1u)) bad("C09", to_string(errs.size()) + " error messages" + (errs.empty() ? "" : ", first " + errs[0]) + (clean ? "" : "; expected " + fatal));
    else if (!clean && errs[0] != fatal + abs) bad("C09", "the error is told as " + errs[0] + ", not " + fatal + abs);
    if (!clean && errs.size() == 1 && mid.back().path != errs[0]) bad("C09", "the error is not the last message before the end");
    // warnings about a directory may come where the mark failed because of a fault
    for (auto& m : k.marks) if (!m.ok && !m.start && is_new(m.path) && exists_new(m.path)) ew.insert(text_of[0] + m.path);
    if (w != ew) {
      string s; for (auto& x : ew) if (w.count(x) != ew.count(x)) s += " [" + x + " expected " + to_string(ew.count(x)) + " times, told " + to_string(w.count(x)) + "]";
      for (auto& x : w) if (!ew.count(x)) s += " [" + x + " not expected]";
      bad("C09", "warnings differ:" + s);
      if (s.find("not_watched") != string::npos) bad("C07", "warnings differ:" + s);
      if (s.find("phantom") != string::npos) bad("C07", "the recorded paths differ:" + s);
      if (fan && s.find("not_watched") == string::npos) bad("C05", "warnings differ:" + s);
      if (!fan && s.find("not_watched") == string::npos) bad("C04", "warnings differ:" + s);
    }
    // events
    char const* ep = fan ? "C05" : "C04";
    for (size_t i = 0; i < max(evs.size(), want.size()); i++) {
      if (i >= evs.size()) { bad(ep, "missing event: " + words(want[i].first)); break; }
      if (i >= want.size()) { bad(ep, "extra event: " + words(evs[i])); break; }
      if (!same(evs[i], want[i].first)) {
        bad(ep, "event " + to_string(i) + " is \"" + words(evs[i]) + "\", expected \"" + words(want[i].first) + "\"");
        if (words(evs[i]).size() && !fan && evs[i].et == want[i].first.et && evs[i].path != want[i].first.path) bad("C07", "the recorded path is wrong: \"" + words(evs[i]) + "\", expected \"" + words(want[i].first) + "\"");
        break;
      }
    }
    // new directories
    if (evs.size() == want.size()) for (auto& d : newdirs) {
      if (!d.exists) continue;
      // callbacks before the creation was told
      int told = -1, c = 0, e = 0; for (auto& s : got) { if (s.pt != ev::path_type::watcher) { if (e == (int)d.nth) { told = c; break; } e++; } c++; }
      bool before = false, at_all = false; char b[PATH_MAX]; string rp = realpath(d.path.c_str(), b) ? b : d.path;
      for (auto& m : k.marks) if (m.path == d.path || m.path == rp) { at_all = true; if (told < 0 || m.at <= told) before = true; }
      if (!at_all) bad("C07", "a new directory is not put under watch: " + d.path);
      else if (!before) bad("C07", "the creation of a directory is told before it is put under watch: " + d.path);
    }
  }
  bool is_new(string const& p) { for (auto& d : newdirs) if (d.path == p) return true; return false; }
  bool exists_new(string const& p) { for (auto& d : newdirs) if (d.path == p && d.exists) return true; return false; }

  void run(uint64_t seed) {
    setup(seed);
    string abs = fs::absolute(given).string();
    k.note("path %s, effective user %u%s%s%s", given.c_str(), k.euid, early ? ", closed before it starts" : "", k.unknown_types ? ", entry types unknown" : "", k.zero_for >= 0 ? ", descriptor 0 free" : "");
    k.phase = "start";
    bool r1 = false, r2 = false; bool twice_ = r.one_in(2); bool only_destroy = r.one_in(6);
    size_t at_close = 0;
    k.on = true;
    {
      wtr::watch w(given, [this](ev const& e) {
        Seen s{e.effect_type, e.path_type, e.path_name.string()};
        if (e.associated) { s.assoc = true; s.aet = e.associated->effect_type; s.apt = e.associated->path_type; s.apath = e.associated->path_name.string(); s.deep = !!e.associated->associated; }
        L l(k.m); got.push_back(s); k.cb_count++; k.note("callback: %s", words(s).c_str());
        if (s.pt == ev::path_type::watcher && s.path.find("/self/die@") != string::npos) { k.over = true; k.cv.notify_all(); }
      });
      if (!early) { L l(k.m); if (!k.cv.wait_for(l, chrono::seconds(10), [&] { return k.over || k.want_stop; })) { k.fail(string(k.phase) == "decode" ? "C06" : "C03", string("the watch makes no progress (") + k.phase + ")"); k.over = true; } }
      if (!only_destroy) {
        r1 = w.close(); { L l(k.m); at_close = got.size(); k.note("close returns %s", r1 ? "true" : "false"); }
        if (twice_) { r2 = w.close(); L l(k.m); k.note("close again returns %s", r2 ? "true" : "false"); }
      }
    }
    k.on = false; k.unpoison();
    if (only_destroy) { at_close = got.size(); }
    for (auto& f : k.fds) if (f.second.open) { static char const* const kn[] = {"the inotify descriptor", "the fanotify descriptor", "the epoll descriptor", "the close request's descriptor", "a directory's descriptor"}; k.fail("C10", string(kn[f.second.kind]) + " " + to_string(f.first) + " is never closed"); }
    if (k.dirs_open) k.fail("C10", to_string(k.dirs_open) + " directory streams are never closed");
    if (only_destroy) { bool was = got.size() && got.back().path.rfind("s/self/die@", 0) == 0; r1 = was; if (k.bad.empty() || true) judge_only(r1, abs, at_close); }
    else judge(r1, r2, twice_, abs, at_close);
  }
  void judge_only(bool r1, string const& abs, size_t at_close) {
    size_t n = k.bad.size();
    judge(r1, false, false, abs, at_close);
    for (size_t i = n; i < k.bad.size();) if (k.bad[i].first == "C02") k.bad.erase(k.bad.begin() + i); else i++;
  }
};

static World* the_world;
#ifdef FK_ASAN
extern "C" void __sanitizer_set_death_callback(void (*)(void));
#endif
static void tell_phase() { char b[64]; int n = snprintf(b, sizeof b, "\nPHASE %s\n", K().phase); (void)!syscall(SYS_write, 2, b, n); }
static void guards() {
#ifdef FK_ASAN
  __sanitizer_set_death_callback(tell_phase);
#endif
  set_terminate([] { char const* m = "terminate called\n"; (void)!syscall(SYS_write, 2, m, strlen(m)); tell_phase(); _exit(98); });
  signal(SIGALRM, [](int) { char const* m = "does not finish\n"; (void)!syscall(SYS_write, 2, m, strlen(m)); tell_phase(); _exit(99); });
  alarm(25);
}
// which properties a crash or a hang in this phase of the run breaks
static bool concerns(string const& txt, string const& prop) {
  auto in = [&](char const* ph) { return txt.find(string("PHASE ") + ph) != string::npos; };
  auto any = [&](initializer_list<char const*> l) { for (auto x : l) if (prop == x) return true; return false; };
  if (in("start")) return any({"C01", "C07", "C08", "C10"});
  if (in("turn")) return any({"C03", "C06", "C09"});
  if (in("decode")) return any({"C03", "C04", "C05", "C06", "C09"});
  if (in("stop")) return any({"C01", "C02", "C03", "C10"});
  return true;
}
static void dump(FILE* f, char const* prop, uint64_t seed) {
  auto& k = K(); (void)seed;
  set<string> once;
  for (auto& b : k.bad) if (b.first == prop && once.insert(b.second).second) fprintf(f, "FAIL %s\n", b.second.c_str());
  if (!once.empty() || getenv("FK_LOG")) { fprintf(f, "scenario:\n"); for (auto& l : k.log) fprintf(f, "  %s\n", l.c_str()); }
  fflush(f);
}

int main(int argc, char** argv) {
  if (argc < 4) return 2;
  string prop = argv[1]; uint64_t seed = strtoull(argv[2], 0, 10); double secs = atof(argv[3]);
  long one = argc > 4 ? atol(argv[4]) : -1;
  if (one >= 0) {
    // one scenario, in this process; the outcome goes to descriptor 3 (or 1)
    int out = fcntl(3, F_GETFD) >= 0 ? 3 : 1;
    uint64_t s = seed * 1000003ull + one;
    guards();
    World w(s); w.only = prop; the_world = &w;
    w.run(s);
    FILE* f = fdopen(dup(out), "w");
    dump(f, prop.c_str(), s);
    std::error_code ec; fs::remove_all(w.root, ec);
    _exit(0);
  }
  auto t0 = chrono::steady_clock::now();
  long n = 0; int failures = 0;
  map<pid_t, pair<int, long>> kids;
  auto over = [&] { return chrono::duration<double>(chrono::steady_clock::now() - t0).count() > secs || failures >= 3; };
  auto reap = [&] {
    int st; pid_t p = wait(&st); auto it = kids.find(p); if (it == kids.end()) return;
    auto [fd, i] = it->second; kids.erase(it);
    lseek(fd, 0, SEEK_SET); string txt; char b[4096]; ssize_t c; while ((c = syscall(SYS_read, fd, b, sizeof b)) > 0) txt.append(b, c); syscall(SYS_close, fd);
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0) ) txt = "CRASH " + (WIFSIGNALED(st) ? "signal " + to_string(WTERMSIG(st)) : "status " + to_string(WEXITSTATUS(st))) + "\n" + txt;
    if (txt.empty() || (txt.rfind("CRASH", 0) == 0 && !concerns(txt, prop))) return;
    failures++;
    printf("== scenario %ld of seed %llu\n%s\n", i, (unsigned long long)seed, txt.substr(0, 6000).c_str()); fflush(stdout);
  };
  while (!over()) {
    while (kids.size() >= 8) reap();
    int out = memfd_create("out", 0); if (out < 0) return 2;
    long i = n++;
    pid_t p = fork();
    if (!p) {
      dup2(out, 2);
      uint64_t s = seed * 1000003ull + i;
      guards();
      char const* pr = prop.c_str();
      World w(s); w.only = prop; the_world = &w;
      w.run(s);
      FILE* f = fdopen(out, "w"); dump(f, pr, s);
      std::error_code ec; fs::remove_all(w.root, ec);
      _exit(0);
    }
    kids[p] = {out, i};
  }
  while (!kids.empty()) reap();
  printf("SCENARIOS %ld\n", n);
  return 0;
}
