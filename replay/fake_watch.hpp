// The real headers, with the watch class replaced by one the driver controls.
#pragma once
#define watch real_watch
#include "wtr/watcher.hpp"
#undef watch
#include <functional>
#include <string>
struct FakeWatch { std::filesystem::path path; std::function<void(wtr::event const&)> cb; int closes = 0; bool dead = false; };
static std::vector<FakeWatch*> fakes;
static std::function<bool(FakeWatch&)> on_close = [](FakeWatch&) { return true; };
static void fresh_fakes() { for (auto* f : fakes) delete f; fakes.clear(); }
namespace wtr { inline namespace watcher {
class watch {
  FakeWatch* f;
  char* canary;  // freed once by the destructor
public:
  watch(std::filesystem::path const& p, event::callback const& cb) : f(new FakeWatch{p, cb}), canary(new char[16]) { fakes.push_back(f); }
  watch(watch const&) = delete;
  auto close() const -> bool { canary[0]++; f->closes++; return on_close(*f); }
  ~watch() { canary[0]++; delete[] canary; f->dead = true; }
};
} }
