// C14: the real main.cpp over a watch class, a sleep and streams the driver controls.
#include <vector>
#include <cmath>
#include <sstream>
#include <iostream>
#include <thread>
#include "fake_watch.hpp"
#include <optional>
#include <string_view>
static __int128 slept; static int sleeps, gets;
static std::function<void()> while_waiting = [] {};
extern "C" int nanosleep(timespec const* t, timespec*) { slept += (__int128)t->tv_sec * 1000000000 + t->tv_nsec; sleeps++; while_waiting(); return 0; }
extern "C" int clock_nanosleep(clockid_t, int, timespec const* t, timespec* r) { return nanosleep(t, r); }
#define main tool_main
#include <src/wtr/watcher/main.cpp>
#undef main
#include "want.hpp"
using ET = enum event::effect_type; using PT = enum event::path_type;
static ET const ets[] = {ET::rename, ET::modify, ET::create, ET::destroy, ET::owner, ET::other};
static PT const pts[] = {PT::dir, PT::file, PT::hard_link, PT::sym_link, PT::watcher, PT::other};
struct In : std::streambuf { int_type underflow() override { gets++; while_waiting(); return traits_type::eof(); } };
static std::unique_ptr<event> an_event(Rng& r, int depth, std::string& line) {
  std::string p = name(r); int e = r.pick(6), k = r.pick(6); long long t = number(r);
  std::string in = "null"; std::unique_ptr<event> ev;
  event base(p, ets[e], pts[k]);
  if (depth && r.coin()) { auto a = an_event(r, depth - 1, in); ev = std::make_unique<event>(base, event(*a)); }
  else ev = std::make_unique<event>(base);
  *const_cast<long long*>(&ev->effect_time) = t;
  line = "{\"path_type\":\"" + std::string(path_words[k]) + "\",\"path_name\":\"" + escaped(p) + "\",\"effect_type\":\"" + effect_words[e] + "\",\"effect_time\":" + std::to_string(t) + ",\"associated\":" + in + "}";
  return ev;
}
static void scenario(Scenario& sc) {
  static char const* units[] = {"-nanoseconds", "-ns", "-microseconds", "-us", "-milliseconds", "-ms", "-seconds", "-s", "-minutes", "-m", "-hours", "-h", "-days", "-d", "-weeks", "-w", "-months", "-mts", "-years", "-y", "-x", "", "ms", "-S"};
  static long long const ns[] = {1, 1, 1000, 1000, 1000000, 1000000, 1000000000, 1000000000, 60000000000, 60000000000, 3600000000000, 3600000000000, 86400000000000, 86400000000000, 604800000000000, 604800000000000, 2592000000000000, 2592000000000000, 31536000000000000, 31536000000000000, 1000000, 1000000, 1000000, 1000000};
  static char const* nums[] = {"0", "1", "2", "3", "10", "2.5", "0.4", "0.5", "1.5", "-1", "abc", "", "inf", "-inf", "nan", "1e3", "1e30", "100000", "9223372036854775807", "9007199254740993", "292", "293", "106751", "106752", "15250", "15251", "3558", "3559", "2562047", "2562048", "0x10", " 7", "12abc", "1e-9"};
  Rng& r = sc.r; fresh_fakes(); sleeps = gets = 0; slept = 0;
  int argc = 1 + r.pick(5); int u = r.pick(24); std::string num = r.pick(4) ? nums[r.pick(sizeof nums / sizeof *nums)] : std::to_string(r.u64() >> r.pick(64));
  int pk = r.pick(6);
  std::string path = pk == 0 ? "-h" : pk == 1 ? "--help" : pk == 2 ? "/no/such/place/at/all" : pk == 3 ? "." : pk == 4 ? "/" : "/proc/self/exe";
  std::string a[5] = {"tool", path, units[u], num, "more"}; char const* argv[6] = {};
  std::string line = "run:"; for (int i = 0; i < argc; i++) { argv[i] = a[i].c_str(); if (i) line += " " + show(a[i]); }
  sc.note(line);
  bool stops = r.coin(); on_close = [&](FakeWatch&) { return stops; };
  std::string expect; bool waited = false;
  int nev = r.pick(5);
  while_waiting = [&] {
    if (waited || fakes.empty()) return; waited = true;
    for (int i = 0; i < nev; i++) { std::string l; auto e = an_event(r, 3, l); expect += l + "\n"; fakes[0]->cb(*e); }
  };
  std::ostringstream out, err; In in;
  auto* ob = cout.rdbuf(out.rdbuf()); auto* eb = cerr.rdbuf(err.rdbuf()); auto* ib = cin.rdbuf(&in); cin.clear();
  int rc = tool_main(argc, argv);
  cout.rdbuf(ob); cerr.rdbuf(eb); cin.rdbuf(ib);
  auto helps = [](std::string const& s) { return s.find("wtr.watcher") != s.npos && s.find("--help") != s.npos; };
  if (argc >= 2 && pk < 2) {
    if (argc > 2) return;
    sc.want(rc == 0 && helps(out.str()) && fakes.empty() && ! sleeps && ! gets, "asking for help"); return;
  }
  if (argc >= 2 && pk == 2) { sc.want(rc != 0 && helps(out.str() + err.str()) && fakes.empty() && ! sleeps && ! gets, "a missing path"); return; }
  if (fakes.size() != 1) { sc.fail("opens " + std::to_string(fakes.size()) + " watches"); return; }
  auto dir = argc < 2 ? std::filesystem::current_path() : std::filesystem::path(path);
  sc.want(fakes[0]->path == dir, "watches " + show(fakes[0]->path.string()));
  sc.want(fakes[0]->closes == 1 && fakes[0]->dead, "closes " + std::to_string(fakes[0]->closes) + " times");
  sc.want((rc == 0) == stops, "exits with " + std::to_string(rc) + " when the watch stopped " + (stops ? "cleanly" : "uncleanly"));
  if (out.str() != expect || ! err.str().empty()) { sc.fail("does not print the events it was given, one line each"); sc.note("printed  " + show(out.str())); sc.note("expected " + show(expect)); }
  double n = argc > 3 ? strtod(num.c_str(), 0) : 0;
  if (n > 0 && n < HUGE_VAL) {
    __int128 most = 9223372036854775807ll, exp = n >= 9.3e18 ? most : (__int128)llround(n >= 9.2e18 ? 9.2e18 : n) * ns[u];
    if (n >= 9.2e18 || exp > most) exp = most;
    // at the very end of the range the last unit may be rounded either way
    bool ok = slept == exp || (n >= (double)(most / ns[u]) && slept == most);
    sc.want((sleeps > 0 || exp == 0) && ! gets && ok, "waits " + std::to_string((long long)slept) + " ns, not " + std::to_string((long long)exp));
  }
  else sc.want(! sleeps && gets > 0, "waits for a time though none was given");
}
