// C11 and C12 on the real event header: random events against an independent rendering and comparison.
#include "wtr/watcher.hpp"
#include <sstream>
#include "want.hpp"
using namespace wtr;
using std::string; using std::wstring; using std::to_string;
using ET = enum event::effect_type; using PT = enum event::path_type;
static ET const ets[] = {ET::rename, ET::modify, ET::create, ET::destroy, ET::owner, ET::other};
static PT const pts[] = {PT::dir, PT::file, PT::hard_link, PT::sym_link, PT::watcher, PT::other};

struct Spec { string path; int et, pt; long long time; std::vector<Spec> a; };
static ET et_of(int i) { return i < 6 ? ets[i] : (ET)(i * 7 + 93); }
static PT pt_of(int i) { return i < 6 ? pts[i] : (PT)(i * 5 + 71); }
static char const* ew(int i) { return effect_words[i < 6 ? i : 5]; }
static char const* pw(int i) { return path_words[i < 6 ? i : 5]; }
static Spec spec(Rng& r, int depth, bool text) {
  Spec s; s.path = name(r, text); s.et = r.pick(8); s.pt = r.pick(8); s.time = number(r);
  if (depth > 0 && r.pick(3)) s.a.push_back(spec(r, depth - 1, text));
  return s;
}
static string desc(Spec const& s) { return "{" + show(s.path) + " " + ew(s.et) + to_string(s.et) + " " + pw(s.pt) + to_string(s.pt) + " " + to_string(s.time) + (s.a.empty() ? "" : " with " + desc(s.a[0])) + "}"; }
// times can only be given through a copy: build the event, then set the time in place
static void set_time(event const& e, long long t) { *const_cast<long long*>(&e.effect_time) = t; }
static std::unique_ptr<event> build(Spec const& s, Scenario* sc = nullptr) {
  auto base = std::make_unique<event>(std::filesystem::path(s.path), et_of(s.et), pt_of(s.pt));
  if (sc) sc->want(base->path_name == s.path && base->effect_type == et_of(s.et) && base->path_type == pt_of(s.pt) && ! base->associated, "an event is not what it was made of");
  std::unique_ptr<event> out = std::move(base);
  if (! s.a.empty()) {
    auto a = build(s.a[0], sc);
    out = std::make_unique<event>(*out, event(*a));
    if (sc) sc->want(out->path_name == s.path && out->effect_type == et_of(s.et) && out->path_type == pt_of(s.pt) && out->associated && *out->associated == *a, "an event with an associated one is not what it was made of");
  }
  if (sc) {
    auto now = std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::system_clock::now().time_since_epoch()).count();
    sc->want(out->effect_time <= now && out->effect_time > now - 60000000000ll, "the time of a new event is not the time it was made");
  }
  set_time(*out, s.time);
  return out;
}
static string want(Spec const& s) {
  auto three = [](Spec const& s) { return "{\"effect_type\":\"" + string(ew(s.et)) + "\",\"path_name\":\"" + escaped(s.path) + "\",\"path_type\":\"" + pw(s.pt) + "\""; };
  return "\"" + to_string(s.time) + "\":" + three(s) + (s.a.empty() ? "" : ",\"associated\":" + three(s.a[0]) + "}") + "}";
}
static wstring widen(string const& s) {
  wstring o;
  for (size_t i = 0; i < s.size();) {
    unsigned char c = (unsigned char)s[i]; int n = c < 0x80 ? 1 : c < 0xe0 ? 2 : c < 0xf0 ? 3 : 4;
    uint32_t v = n == 1 ? c : c & (0xff >> (n + 1));
    for (int k = 1; k < n; k++) v = v << 6 | ((unsigned char)s[i + (size_t)k] & 63);
    o += (wchar_t)v; i += (size_t)n;
  }
  return o;
}
static bool equal(Spec const& a, Spec const& b) { return a.path == b.path && et_of(a.et) == et_of(b.et) && pt_of(a.pt) == pt_of(b.pt) && a.time == b.time && a.a.size() == b.a.size() && (a.a.empty() || equal(a.a[0], b.a[0])); }
static bool same(event const& e, Spec const& s) { return e.path_name.string() == s.path && e.effect_type == et_of(s.et) && e.path_type == pt_of(s.pt) && e.effect_time == s.time && !! e.associated == ! s.a.empty() && (s.a.empty() || same(*e.associated, s.a[0])); }
static void distinct(Scenario& sc, event const& a, event const& b) {
  if (a.associated && b.associated) { sc.want(a.associated.get() != b.associated.get(), "a copy shares its associated event"); distinct(sc, *a.associated, *b.associated); }
}
static void scenario(Scenario& sc) {
  Rng& r = sc.r;
  if (sc.prop == "C11") {
    Spec s = spec(r, 2, false);
    auto e = build(s);
    sc.note("event " + desc(s));
    string got = to<string>(*e), exp = want(s);
    if (got != exp) { sc.fail("an event is not rendered as documented"); sc.note("got      " + show(got)); sc.note("expected " + show(exp)); }
    sc.want(to<string>(e->effect_time) == to_string(s.time), "the time is rendered as " + show(to<string>(e->effect_time)));
    sc.want(to<string>(e->effect_type) == ew(s.et), "the effect is rendered as " + show(to<string>(e->effect_type)));
    sc.want(to<string>(e->path_type) == pw(s.pt), "the kind is rendered as " + show(to<string>(e->path_type)));
    sc.want(to<std::string_view>(e->effect_type) == ew(s.et) && to<std::string_view>(e->path_type) == pw(s.pt), "the views say something else");
    sc.want(to<string>(e->path_name) == s.path, "the path is rendered as something else");
    std::ostringstream o; o << *e << "|" << e->effect_type << "|" << e->path_type;
    sc.want(o.str() == exp + "|" + ew(s.et) + "|" + pw(s.pt), "streaming writes " + show(o.str()));
    // well-formed, and reads back as the name
    size_t i = got.find("\"path_name\":\""); string back;
    if (i == string::npos) sc.fail("no path name"); else { i += 13; sc.want(unescape(got, i, back) && back == s.path && i < got.size() && got[i] == ',', "the path name's JSON string does not read back as the name"); }
    Spec w = spec(r, 2, true);
    auto we = build(w); wstring wexp = widen(want(w));
    sc.note("wide event " + desc(w));
    sc.want(to<wstring>(*we) == wexp, "the wide rendering is not the narrow one");
    sc.want(to<wstring>(we->effect_time) == widen(to_string(w.time)) && to<wstring>(we->effect_type) == widen(ew(w.et)) && to<wstring>(we->path_type) == widen(pw(w.pt)) && to<wstring>(we->path_name) == widen(w.path), "a wide part is not the narrow one");
    sc.want(to<std::wstring_view>(we->effect_type) == widen(ew(w.et)) && to<std::wstring_view>(we->path_type) == widen(pw(w.pt)), "the wide views say something else");
    std::wostringstream wo; wo << *we << L"|" << we->effect_type << L"|" << we->path_type;
    sc.want(wo.str() == wexp + L"|" + widen(ew(w.et)) + L"|" + widen(pw(w.pt)), "wide streaming writes something else");
  }
  else {
    Spec a = spec(r, 4, false), b = a;
    // another spec, equal or changed in one place at some depth
    int k = r.pick(8); Spec* p = &b; for (int d = r.pick(4); d && ! p->a.empty(); d--) p = &p->a[0];
    if (k == 1) p->path = name(r); if (k == 2) p->et = r.pick(8); if (k == 3) p->pt = r.pick(8); if (k == 4) p->time = number(r); if (k == 5) p->a.clear(); if (k == 6) { p->a.clear(); p->a.push_back(spec(r, 1, false)); } if (k == 7) b = spec(r, 4, false);
    sc.note("one " + desc(a)); sc.note("other " + desc(b));
    auto e = build(a, &sc), f = build(b, &sc);
    sc.want(same(*e, a) && same(*f, b), "an event does not hold what it was given");
    bool eq = equal(a, b);
    sc.want((*e == *f) == eq && (*f == *e) == eq, eq ? "equal events compare different" : "different events compare equal");
    sc.want((*e != *f) == ! eq && (*f != *e) == ! eq, "inequality is not the negation of equality");
    sc.want(*e == *e && ! (*e != *e), "an event differs from itself");
    { event c(*e); sc.want(same(c, a) && c == *e, "a copy differs from its original"); distinct(sc, c, *e);
      e.reset(); sc.want(same(c, a), "a copy depends on its original");
      event d(c); sc.want(same(d, a), "a copy of a copy differs"); }
    sc.want(same(*f, b), "an event changed when another was destroyed");
  }
}
