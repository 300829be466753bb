// C08 dynamic libraries, C09 services bundle
#include "xv.h"
#include <Xsmp/LibraryHelper.h>
#include <dlfcn.h>
#include <algorithm>
#include <fstream>
#include <set>
#include <sys/stat.h>
#include <xsmp_event_manager.h>
#include <xsmp_link_registry.h>
#include <xsmp_logger.h>
#include <xsmp_resolver.h>
#include <xsmp_scheduler.h>
#include <xsmp_services.h>
#include <xsmp_time_keeper.h>
using xv::Case;
namespace {
bool loaded(const std::string &file) {
  void *h = dlopen(file.c_str(), RTLD_NOW | RTLD_NOLOAD);
  if (h) dlclose(h);
  (void)dlerror();
  return h != nullptr;
}
struct Lib { const char *name; int id; }; // id < 0: cannot be loaded
const Lib libs[] = {{"xvgood1", 1}, {"xvgood2", 2}, {"xvgood3", 3}, {"xvunresolved", -1}, {"xvcorrupt", -1}, {"xvempty", -1}, {"xvdirectory", -1}, {"xvmissing", -1}, {"", -1}, {"xvgood1.so", -1}, {"libxvgood1", -1}};
void badFiles() {
  static bool once = false;
  if (once) return;
  once = true;
  std::ofstream("libxvcorrupt.so") << "\x7f" << "ELF this is not a library";
  std::ofstream("libxvempty.so");
  mkdir("libxvdirectory.so", 0755);
}
} // namespace
XV_SCENARIO_NOLEAK(C08, histories, 3000, 100000) {
  badFiles();
  auto &r = c.rng;
  std::vector<void *> open[4];
  auto file = [](int id) { return "libxvgood" + std::to_string(id) + ".so"; };
  for (int id = 1; id <= 3; ++id) XV_CHECK(!loaded(file(id)), "harness", "library already loaded at the start");
  bool error = false; // an error text is pending
  (void)Xsmp::GetLastError();
  const std::size_t steps = 5 + r.below(25);
  auto use = [&](void *h, int id) {
    auto *f = Xsmp::GetSymbol<int (*)()>(h, "xv_id");
    XV_CHECK(f != nullptr, "symbol", "exported function of library " << id << " not found");
    XV_CHECK(Xsmp::GetLastError().empty(), "stale-error", "an error text is left after a successful lookup");
    XV_EQ(f(), id, "symbol", "function of the wrong library");
    auto *g = Xsmp::GetSymbol<int (*)()>(h, "xv_call_id");
    XV_CHECK(g && g() == id, "symbol", "library " << id << " is bound to another library's function: " << (g ? g() : -1));
    auto *d = Xsmp::GetSymbol<int *>(h, "xv_data");
    XV_CHECK(d && *d == id * 100, "symbol", "data of library " << id);
    XV_CHECK(Xsmp::GetSymbol(h, "xv_id") == reinterpret_cast<void *>(f), "symbol", "untyped lookup differs");
    XV_COUNT("lookups");
  };
  for (std::size_t k = 0; k < steps; ++k) {
    const int op = static_cast<int>(r.below(9));
    if (op < 3) {
      const Lib &l = libs[r.chance(1, 2) ? r.below(3) : r.below(std::size(libs))];
      c.op(std::string("load ") + l.name);
      void *h = Xsmp::LoadLibrary(l.name);
      if (l.id < 0) {
        XV_CHECK(!h, "load", "loading " << l.name << " succeeded");
        const std::string e = Xsmp::GetLastError();
        XV_CHECK(!e.empty(), "error-text", "no error text after failing to load '" << l.name << "'");
        XV_CHECK(e.find("lib" + std::string(l.name) + ".so") != std::string::npos, "error-text", "the error text does not name the library: " << e);
        XV_CHECK(Xsmp::GetLastError().empty(), "stale-error", "the error text is reported twice");
        error = false;
        c.nontrivial = true;
        XV_COUNT("failed loads");
      } else {
        XV_CHECK(h != nullptr, "load", "loading " << l.name << " failed: " << Xsmp::GetLastError());
        if (!open[l.id].empty()) XV_CHECK(open[l.id][0] == h, "load", "loading twice gives two handles");
        open[l.id].push_back(h);
        use(h, l.id);
        XV_COUNT("loads");
      }
    } else if (op == 3) {
      c.op("load null");
      XV_CHECK(Xsmp::LoadLibrary(nullptr) == nullptr, "load", "a null name loads something");
    } else if (op == 4) {
      const int id = 1 + static_cast<int>(r.below(3));
      if (open[id].empty()) continue;
      c.op("missing symbol");
      const char *name = r.pick<const char *>({"xv_nothing", "", "xv_i", "xv_id2", id == 1 ? "xv_nothing" : "xv_only_in_1"});
      XV_CHECK(Xsmp::GetSymbol(open[id][0], name) == nullptr, "symbol", "lookup of '" << name << "' in library " << id << " finds something");
      if (r.chance(1, 2)) {
        const std::string e = Xsmp::GetLastError();
        XV_CHECK(!e.empty() && e.find(name) != std::string::npos, "error-text", "error text of a missing symbol: " << e);
      } else error = true; // left pending on purpose: the next success must not report it
      XV_CHECK(Xsmp::GetSymbol(open[id][0], nullptr) == nullptr, "symbol", "lookup of a null name finds something");
      c.nontrivial = true;
    } else if (op < 7) {
      const int id = 1 + static_cast<int>(r.below(3));
      if (open[id].empty()) continue;
      c.op("close " + std::to_string(id));
      void *h = open[id].back();
      open[id].pop_back();
      Xsmp::CloseLibrary(h);
      if (open[id].empty()) { XV_CHECK(!loaded(file(id)), "leak", "library " << id << " is still loaded after being closed as often as loaded"); XV_COUNT("unloads"); }
      else { XV_CHECK(loaded(file(id)), "close", "library " << id << " is gone although still open"); use(open[id][0], id); }
    } else {
      const int id = 1 + static_cast<int>(r.below(3));
      if (open[id].empty()) continue;
      c.op("use " + std::to_string(id) + (error ? " after an error" : ""));
      use(open[id][r.below(open[id].size())], id);
      error = false;
    }
    XV_CHECK(!loaded("libxvunresolved.so"), "leak", "a library with unresolved symbols stays loaded");
  }
  for (int id = 1; id <= 3; ++id) {
    for (void *h : open[id]) { use(h, id); Xsmp::CloseLibrary(h); }
    XV_CHECK(!loaded(file(id)), "leak", "library " << id << " is still loaded at the end");
  }
}

// ---------------------------------------------------------------- C09
namespace {
const char *const order[] = {"logger", "time_keeper", "resolver", "event_manager", "link_registry", "scheduler"};
struct Call { std::string what; const void *sim, *types; };
std::vector<Call> calls;
unsigned failInit = 0, failFin = 0; // bit per service
unsigned bit(const char *s) { for (unsigned i = 0; i < 6; ++i) if (!std::strcmp(order[i], s)) return 1U << i; return 0; }
bool init(const char *s, const void *sim, const void *types) { calls.push_back({std::string("+") + s, sim, types}); return !(failInit & bit(s)); }
bool fin(const char *s) { calls.push_back({std::string("-") + s, nullptr, nullptr}); return !(failFin & bit(s)); }
} // namespace
extern "C" {
#define STUB(n) bool Initialise_xsmp_##n(::Smp::ISimulator *s, ::Smp::Publication::ITypeRegistry *t) { return init(#n, s, t); } bool Finalise_xsmp_##n() { return fin(#n); }
STUB(logger) STUB(time_keeper) STUB(resolver) STUB(event_manager) STUB(link_registry) STUB(scheduler)
bool Initialise(::Smp::ISimulator *, ::Smp::Publication::ITypeRegistry *);
bool Finalise(::Smp::ISimulator *);
}
XV_SCENARIO_NOLEAK(C09, histories, 20000, 400000) {
  auto &r = c.rng;
  failInit = failFin = 0;
  (void)Finalise_xsmp_services();
  static char sims[4], types[2];
  std::vector<int> known;
  const std::size_t steps = 3 + r.below(12);
  for (std::size_t k = 0; k < steps; ++k) {
    calls.clear();
    failInit = r.chance(1, 3) ? static_cast<unsigned>(r.below(64)) : 0;
    failFin = r.chance(1, 3) ? static_cast<unsigned>(r.below(64)) : 0;
    auto *t = r.chance(1, 4) ? nullptr : reinterpret_cast<::Smp::Publication::ITypeRegistry *>(&types[r.below(2)]);
    const bool viaPackage = r.chance(1, 2);
    const int op = static_cast<int>(r.below(8));
    if (op == 0) {
      c.op("initialise null");
      XV_CHECK(!(viaPackage ? Initialise(nullptr, t) : Initialise_xsmp_services(nullptr, t)), "null", "a null simulator is accepted");
      XV_CHECK(calls.empty(), "null", "a null simulator initialises " << calls[0].what);
    } else if (op < 6) {
      const int s = static_cast<int>(r.below(4));
      auto *sim = reinterpret_cast<::Smp::ISimulator *>(&sims[s]);
      const bool again = std::find(known.begin(), known.end(), s) != known.end();
      if (again) failInit = 0;
      c.op("initialise " + std::to_string(s) + (again ? " again" : "") + " failing " + std::to_string(failInit));
      const bool ok = viaPackage ? Initialise(sim, t) : Initialise_xsmp_services(sim, t);
      if (again) {
        XV_CHECK(ok && calls.empty(), "again", "initialising again: " << ok << " with " << calls.size() << " calls");
        XV_COUNT("repeated initialisations");
      } else {
        XV_EQ(ok, failInit == 0, "result", "initialise with failing services " << failInit);
        XV_EQ(calls.size(), std::size_t{6}, "calls", "number of services initialised");
        std::set<std::string> seen;
        for (auto &x : calls) {
          XV_CHECK(x.what[0] == '+' && seen.insert(x.what).second, "calls", "service called twice or finalised: " << x.what);
          XV_CHECK(x.sim == sim && x.types == t, "arguments", x.what << " got another simulator or type registry");
        }
        XV_CHECK(calls.front().what == "+logger" && calls.back().what == "+scheduler", "order", "first " << calls.front().what << " last " << calls.back().what);
        known.push_back(s);
        if (failInit) { c.nontrivial = true; XV_COUNT("initialisations with failures"); }
        // what a failed initialisation leaves is unspecified: start over
        if (failInit) { failFin = 0; (void)Finalise_xsmp_services(); known.clear(); }
        XV_COUNT("initialisations");
      }
    } else {
      c.op("finalise failing " + std::to_string(failFin));
      const bool ok = viaPackage ? Finalise(reinterpret_cast<::Smp::ISimulator *>(&sims[r.below(4)])) : Finalise_xsmp_services();
      if (known.empty()) XV_CHECK(ok && calls.empty(), "finalise", "finalising nothing: " << ok << " with " << calls.size() << " calls");
      else {
        XV_EQ(ok, failFin == 0, "result", "finalise with failing services " << failFin);
        XV_EQ(calls.size(), std::size_t{6}, "calls", "number of services finalised");
        for (unsigned i = 0; i < 6; ++i) XV_CHECK(calls[i].what == std::string("-") + order[5 - i], "order", "finalised in position " << i << ": " << calls[i].what);
        c.nontrivial = true;
        XV_COUNT("finalisations");
      }
      known.clear();
    }
  }
}
