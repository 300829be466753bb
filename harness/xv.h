// Support for run-time monitors: deterministic workloads, violation reports,
// event counters, and per-case leak accounting. One executable may hold the
// scenarios of several properties; the driver selects one property by id.
#ifndef XV_H_
#define XV_H_
#include <atomic>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <functional>
#include <iomanip>
#include <map>
#include <mutex>
#include <sstream>
#include <string>
#include <string_view>
#include <sys/mman.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define XV_ASAN 1
#include <sanitizer/allocator_interface.h>
#endif
#if __has_feature(thread_sanitizer)
#define XV_TSAN 1
#endif
#endif
namespace xv {

inline std::uint64_t mix(std::uint64_t x) {
  x += 0x9e3779b97f4a7c15ULL;
  x = (x ^ (x >> 30U)) * 0xbf58476d1ce4e5b9ULL;
  x = (x ^ (x >> 27U)) * 0x94d049bb133111ebULL;
  return x ^ (x >> 31U);
}
inline std::uint64_t hash(std::string_view s, std::uint64_t h = 1469598103934665603ULL) {
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ULL;
  return h;
}
struct Rng {
  std::uint64_t s;
  explicit Rng(std::uint64_t seed) : s(mix(seed)) {}
  std::uint64_t next() { return mix(s++ * 0x2545f4914f6cdd1dULL + 0x1234567ULL); }
  std::uint64_t below(std::uint64_t n) { return n ? next() % n : 0; }
  std::int64_t range(std::int64_t lo, std::int64_t hi) { return lo + static_cast<std::int64_t>(below(static_cast<std::uint64_t>(hi - lo) + 1)); }
  bool chance(unsigned num, unsigned den) { return below(den) < num; }
  double unit() { return static_cast<double>(next() >> 11U) / 9007199254740992.0; }
  template <typename C> auto &pick(C &c) { return c[below(c.size())]; }
  template <typename T> T pick(std::initializer_list<T> l) { return *(l.begin() + below(l.size())); }
};

struct Violation : std::exception {
  std::string key, detail;
  Violation(std::string k, std::string d) : key(std::move(k)), detail(std::move(d)) {}
  const char *what() const noexcept override { return detail.c_str(); }
};

inline std::string json(std::string_view s) {
  std::string o = "\"";
  char b[8];
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += static_cast<char>(c); }
    else if (c < 0x20 || c >= 0x7f) { std::snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += static_cast<char>(c);
  }
  return o + "\"";
}
/// printable form of arbitrary bytes, for reports
inline std::string show(std::string_view s, std::size_t max = 80) {
  std::string o = "'";
  char b[8];
  for (std::size_t i = 0; i < s.size() && i < max; ++i) {
    unsigned char c = static_cast<unsigned char>(s[i]);
    if (c < 0x20 || c >= 0x7f || c == '\'') { std::snprintf(b, sizeof b, "\\x%02x", c); o += b; } else o += static_cast<char>(c);
  }
  return o + (s.size() > max ? "'..(" + std::to_string(s.size()) + ")" : "'");
}

/// One execution of a scenario: its random source, its operation log and its identity.
struct Case {
  const char *scenario;
  std::uint64_t index;
  Rng rng;
  bool thorough;
  std::vector<std::string> log;
  std::mutex logMutex;
  std::uint64_t shape = 1469598103934665603ULL;
  bool nontrivial = false;
  std::vector<std::pair<std::string, std::string>> flagged;
  /// report a violation from a place whose exceptions the code under test may swallow
  void flag(const std::string &key, const std::string &detail) {
    std::lock_guard<std::mutex> g(logMutex);
    if (flagged.empty()) flagged.emplace_back(key, detail);
  }
  Case(const char *s, std::uint64_t i, std::uint64_t seed, bool t) : scenario(s), index(i), rng(seed), thorough(t) {}
  /// record one operation (kept for the report of a violation, and hashed into the case's identity)
  void op(const std::string &s) {
    std::lock_guard<std::mutex> g(logMutex);
    shape = hash(s, shape ^ 0x5bd1e995);
    if (log.size() < 4000) log.push_back(s);
    static const bool trace = std::getenv("XV_TRACE") != nullptr; // for cases that do not end
    if (trace) std::fprintf(stderr, "%s\n", s.c_str());
  }
};
struct Scenario {
  const char *prop;
  const char *name;
  std::uint64_t quick, thorough;
  std::function<void(Case &)> run;
  bool leakCheck;
};
inline std::vector<Scenario> &scenarios() { static std::vector<Scenario> v; return v; }
struct Reg {
  Reg(const char *p, const char *n, std::uint64_t q, std::uint64_t t, std::function<void(Case &)> f, bool leak = true) { scenarios().push_back({p, n, q, t, std::move(f), leak}); }
};
#define XV_CAT2(a, b) a##b
#define XV_CAT(a, b) XV_CAT2(a, b)
/// XV_SCENARIO("C01", name, quickCases, thoroughCases) { ... c.rng ... }
#define XV_SCENARIO(prop, name, q, t) \
  static void XV_CAT(prop, name)(xv::Case &c); \
  static xv::Reg XV_CAT(XV_CAT(reg_, prop), name)(#prop, #name, q, t, XV_CAT(prop, name)); \
  static void XV_CAT(prop, name)([[maybe_unused]] xv::Case &c)
#define XV_SCENARIO_NOLEAK(prop, name, q, t) \
  static void XV_CAT(prop, name)(xv::Case &c); \
  static xv::Reg XV_CAT(XV_CAT(reg_, prop), name)(#prop, #name, q, t, XV_CAT(prop, name), false); \
  static void XV_CAT(prop, name)([[maybe_unused]] xv::Case &c)

/// counters of what the monitors observed
struct Counters {
  std::mutex m;
  std::map<std::string, std::uint64_t> v;
};
inline Counters &counters() { static auto *c = new Counters; return *c; }
inline void count(const std::string &name, std::uint64_t n = 1) {
  auto &c = counters();
  std::lock_guard<std::mutex> g(c.m);
  c.v[name] += n;
}
/// cheap counter for hot paths: XV_COUNT("name")
#define XV_COUNT(name) do { static std::uint64_t &xv_c = xv::counters().v[name]; ++xv_c; } while (0)

#define XV_FAIL(key, msg) do { std::ostringstream xv_o; xv_o << msg; throw xv::Violation(key, xv_o.str()); } while (0)
#define XV_CHECK(cond, key, msg) do { if (!(cond)) XV_FAIL(key, msg); } while (0)
#define XV_EQ(got, want, key, msg) do { const auto &xv_g = (got); const auto &xv_w = (want); if (!(xv_g == xv_w)) XV_FAIL(key, msg << ": got " << xv_g << ", expected " << xv_w); } while (0)

/// expect the expression to throw exactly T
template <typename T, typename F> void throws(const char *key, const std::string &what, F &&f) {
  bool ok = false;
  try { f(); }
  catch (const T &) { ok = true; }
  catch (const Violation &) { throw; }
  catch (const std::exception &e) { XV_FAIL(key, what << ": threw the wrong error: " << e.what()); }
  if (!ok) XV_FAIL(key, what << ": no error thrown");
}
template <typename F> void quiet(const char *key, const std::string &what, F &&f) {
  try { f(); }
  catch (const Violation &) { throw; }
  catch (const std::exception &e) { XV_FAIL(key, what << ": unexpected error: " << e.what()); }
}

inline char *&progressPage() { static char *p = nullptr; return p; }

inline std::size_t allocated() {
#ifdef XV_ASAN
  return __sanitizer_get_current_allocated_bytes();
#else
  return 0;
#endif
}
} // namespace xv
#endif
