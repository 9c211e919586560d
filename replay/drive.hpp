// Runs numbered scenarios of one property in forked children, reports the ones that fail.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <chrono>
#include <random>
#include <string>
#include <vector>
#include <map>
#include <functional>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>

struct Rng {
  std::mt19937_64 g;
  explicit Rng(uint64_t s) : g(s) {}
  uint64_t u64() { return g(); }
  int pick(int n) { return (int)(g() % (uint64_t)n); }
  bool coin() { return g() & 1; }
};
struct Scenario {
  Rng r; std::string prop, notes, fails;
  Scenario(uint64_t s, std::string p) : r(s), prop(std::move(p)) {}
  void note(std::string const& t) { notes += "  " + t + "\n"; }
  void fail(std::string const& t) { fails += "FAIL " + t + "\n"; }
  void want(bool ok, std::string const& t) { if (! ok) fail(t); }
};
// the property's scenario, written by each driver
static void scenario(Scenario&);

static std::string show(std::string const& s) {
  std::string o = "\"";
  for (unsigned char c : s) { char b[8]; if (c < 32 || c > 126 || c == '"' || c == '\\') { snprintf(b, sizeof b, "\\x%02x", c); o += b; } else o += (char)c; }
  return o + "\"";
}
static std::string utf8(uint32_t c) {
  std::string o;
  if (c < 0x80) o += (char)c;
  else if (c < 0x800) { o += (char)(0xc0 | c >> 6); o += (char)(0x80 | (c & 63)); }
  else if (c < 0x10000) { o += (char)(0xe0 | c >> 12); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); }
  else { o += (char)(0xf0 | c >> 18); o += (char)(0x80 | (c >> 12 & 63)); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); }
  return o;
}
// a path name: mostly plain, often with characters that need care
static std::string name(Rng& r, bool text = false) {
  static char const* some[] = {"", "a", "/", "/tmp/x", "/a/b.txt", "s/self/live@/tmp", "with space", "quo\"te", "back\\slash", "tab\there", "line\nbreak", "\x01", "\x1f", "caf\xc3\xa9", "null", "/a\"", "\"", "\\", "\\u0041", "\x7f"};
  std::string o;
  int n = 1 + r.pick(3);
  for (int i = 0; i < n; i++) switch (r.pick(6)) {
    case 0: case 1: o += some[r.pick(sizeof some / sizeof *some)]; break;
    case 2: o += utf8(1 + r.pick(0x7f)); break;
    case 3: { uint32_t c = 0x80 + r.pick(0x10ffff - 0x80); if (c >= 0xd800 && c < 0xe000) c = 0xe9; o += utf8(c); break; }
    case 4: o += text ? "/t" : std::string(1, (char)(1 + r.pick(255))); break;
    case 5: { int k = r.pick(r.pick(20) ? 12 : 600); for (int j = 0; j < k; j++) o += (char)(32 + r.pick(95)); break; }
  }
  return o;
}
static long long number(Rng& r) {
  switch (r.pick(6)) {
    case 0: { static long long const some[] = {0, 1, -1, 9, 10, -9, -10, 99, 100, 1678046920675963000ll, 9223372036854775807ll, -9223372036854775807ll - 1, 9223372036854775806ll, 999999999999999999ll, 1000000000000000000ll}; return some[r.pick(15)]; }
    case 1: return (long long)r.u64();
    case 2: return (long long)(r.u64() >> r.pick(64));
    case 3: return -(long long)(r.u64() >> (1 + r.pick(63)));
    case 4: { long long p = 1; int k = r.pick(19); while (k--) p *= 10; return p - r.pick(2); }
    default: return 1600000000000000000ll + (long long)(r.u64() >> 12);
  }
}

int main(int argc, char** argv) {
  if (argc < 4) return 2;
  std::string prop = argv[1]; uint64_t seed = strtoull(argv[2], 0, 10); double secs = atof(argv[3]);
  long one = argc > 4 ? atol(argv[4]) : -1;
  auto run = [&](long i, FILE* f) {
    Scenario s(seed * 1000003ull + (uint64_t)i, prop);
    fprintf(f, "@%ld\n", i); fflush(f);
    scenario(s);
    if (! s.fails.empty()) fprintf(f, "%s%s", s.fails.c_str(), s.notes.c_str());
    fflush(f);
    return s.fails.empty();
  };
  if (one >= 0) return run(one, stdout) ? 0 : 1;
  auto t0 = std::chrono::steady_clock::now();
  auto past = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > secs; };
  long next = 0; int failures = 0; long const batch = 100;
  std::map<pid_t, int> kids;
  long done = 0;
  auto reap = [&] {
    int st; pid_t p = wait(&st); auto it = kids.find(p); if (it == kids.end()) return;
    int fd = it->second; kids.erase(it);
    lseek(fd, 0, SEEK_SET); std::string t; char b[4096]; ssize_t c; while ((c = read(fd, b, sizeof b)) > 0) t.append(b, (size_t)c); close(fd);
    size_t i = 0;
    bool crash = ! (WIFEXITED(st) && WEXITSTATUS(st) == 0);
    while (i < t.size()) {
      size_t e = t.find("\n@", i); std::string part = t.substr(i, e == std::string::npos ? e : e - i + 1);
      i = e == std::string::npos ? t.size() : e + 1;
      size_t nl = part.find('\n'); std::string num = part.substr(1, nl - 1), body = part.substr(nl + 1);
      done++;
      if (crash && e == std::string::npos) body = "FAIL crash: " + (WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st)) : "status " + std::to_string(WEXITSTATUS(st))) + "\n" + body;
      if (body.empty()) continue;
      failures++;
      if (failures <= 3) printf("== scenario %s of seed %llu\n%s\n", num.c_str(), (unsigned long long)seed, body.substr(0, 5000).c_str());
      fflush(stdout);
    }
  };
  while (! past() && failures < 3) {
    while (kids.size() >= 8) reap();
    int fd = memfd_create("out", 0); if (fd < 0) return 2;
    long from = next; next += batch;
    pid_t p = fork();
    if (! p) {
      dup2(fd, 2); alarm(60);
      FILE* f = fdopen(fd, "w");
      for (long i = from; i < from + batch; i++) run(i, f);
      fflush(f); _exit(0);
    }
    kids[p] = fd;
  }
  while (! kids.empty()) reap();
  printf("SCENARIOS %ld\n", done);
  return 0;
}
