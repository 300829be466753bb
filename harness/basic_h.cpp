// C04 owned C strings, C05 fixed-size arrays, C06 integer comparisons
#include "xv.h"
#include <Smp/utility.h>
#include <Xsmp/Array.h>
#include <Xsmp/cstring.h>
#include <algorithm>
#include <array>
#include <limits>
#include <memory>
#include <optional>
#include <string>
using xv::Case;
using xv::show;
namespace {
struct Slot {
  std::unique_ptr<Xsmp::cstring> v;
  std::string text;
  bool moved = false; // content unspecified
};
void same(const Slot &s, std::size_t i, const std::string &op) {
  if (!s.v || s.moved) return;
  XV_CHECK(s.v->c_str() != nullptr, "content", "object " << i << " holds null after " << op);
  XV_CHECK(std::string(s.v->c_str()) == s.text, "content", "object " << i << " holds " << show(s.v->c_str()) << ", expected " << show(s.text) << " after " << op);
}
std::string randomText(xv::Rng &r, bool nul) {
  std::string s(r.pick<std::size_t>({0, 1, 2, 7, 8, 15, 16, 17, 40, 300}), 'a');
  for (auto &ch : s) ch = static_cast<char>(1 + r.below(255));
  if (nul && !s.empty() && r.chance(1, 6)) s[r.below(s.size())] = 0;
  return s;
}
} // namespace
XV_SCENARIO(C04, pool, 24000, 800000) {
  auto &r = c.rng;
  std::vector<Slot> pool(2 + r.below(5));
  const std::size_t steps = 4 + r.below(c.thorough ? 60 : 24);
  for (std::size_t k = 0; k < steps; ++k) {
    const std::size_t i = r.below(pool.size()), j = r.below(pool.size());
    Slot &a = pool[i], &b = pool[j];
    std::string op;
    if (!a.v) {
      const std::string t = randomText(r, true);
      const std::string z = t.c_str();
      switch (r.below(6)) {
      case 0: { auto src = std::make_unique<std::string>(z); a.v = std::make_unique<Xsmp::cstring>(src->c_str()); src->assign(src->size(), '#'); a.text = z; a.moved = false; op = "construct(cstr)"; break; }
      case 1: { std::unique_ptr<char[]> p(new char[t.size()]); if (!t.empty()) std::memcpy(p.get(), t.data(), t.size()); a.v = std::make_unique<Xsmp::cstring>(p.get(), t.size()); a.text = z; a.moved = false; op = "construct(ptr,len)";
        XV_CHECK(std::memcmp(a.v->c_str(), t.data(), t.size()) == 0 && a.v->c_str()[t.size()] == 0, "content", "construct(ptr,len) of " << show(t)); break; }
      case 2: { std::unique_ptr<char[]> p(new char[t.size()]); if (!t.empty()) std::memcpy(p.get(), t.data(), t.size()); a.v = std::make_unique<Xsmp::cstring>(std::string_view(p.get(), t.size())); a.text = z; a.moved = false; op = "construct(view)";
        XV_CHECK(std::memcmp(a.v->c_str(), t.data(), t.size()) == 0 && a.v->c_str()[t.size()] == 0, "content", "construct(view) of " << show(t)); break; }
      case 3: case 4: if (b.v) { a.v = std::make_unique<Xsmp::cstring>(*b.v); a.text = b.text; a.moved = b.moved; op = "copy construct"; if (!b.moved) XV_CHECK(a.v->c_str() != b.v->c_str(), "shared-buffer", "a copy shares the buffer of its source"); else XV_COUNT("copies of moved-from"); } break;
      default: if (b.v) { const char *old = b.v->c_str(); a.v = std::make_unique<Xsmp::cstring>(std::move(*b.v)); a.text = b.text; a.moved = b.moved; if (!b.moved) XV_CHECK(a.v->c_str() == old || a.text == a.v->c_str(), "content", "move construct"); b.moved = true; op = "move construct"; } break;
      }
    } else {
      switch (r.below(10)) {
      case 0: case 1: if (b.v) { *a.v = *b.v; a.text = b.text; a.moved = b.moved; op = i == j ? "copy assign itself" : "copy assign"; if (i == j) XV_COUNT("self assignments"); else if (!b.moved) XV_CHECK(a.v->c_str() != b.v->c_str(), "shared-buffer", "a copy shares the buffer of its source"); } break;
      case 2: if (b.v) { *a.v = std::move(*b.v); if (i != j) { a.text = b.text; a.moved = b.moved; b.moved = true; } else XV_COUNT("self assignments"); op = i == j ? "move assign itself" : "move assign"; } break;
      case 3: { const std::string t = randomText(r, false); auto src = std::make_unique<std::string>(t); *a.v = src->c_str(); src->assign(src->size(), '#'); a.text = t.c_str(); a.moved = false; op = "assign(cstr)"; break; }
      case 4: if (!a.moved) { const std::size_t p = r.below(a.text.size() + 1); *a.v = a.v->c_str() + p; a.text.erase(0, p); op = "assign own tail " + std::to_string(p); XV_COUNT("self assignments"); } break;
      case 5: if (b.v && !b.moved) { *a.v = b.v->c_str(); a.text = b.text; a.moved = false; op = "assign(cstr of other)"; } break;
      case 6: { Xsmp::cstring t(*a.v); Xsmp::cstring u(std::move(t)); *a.v = std::move(u); op = "through temporaries"; break; }
      case 7: case 8: a.v.reset(); op = "destroy"; break;
      default: { std::vector<Xsmp::cstring> v; for (int n = 0; n < 5; ++n) v.emplace_back(*a.v); v.erase(v.begin() + 1); v.insert(v.begin(), *a.v); for (auto &x : v) if (!a.moved) XV_CHECK(a.text == x.c_str(), "content", "in a vector"); op = "vector of copies"; break; }
      }
    }
    if (op.empty()) continue;
    c.op(std::to_string(i) + "," + std::to_string(j) + " " + op);
    if (i == j || pool.size() > 1) c.nontrivial = true;
    for (std::size_t n = 0; n < pool.size(); ++n) same(pool[n], n, op);
    XV_COUNT("operations");
  }
}

namespace {
template <typename T> T element(xv::Rng &r) {
  if constexpr (std::is_same_v<T, std::string>) return std::string(r.below(30), static_cast<char>('a' + r.below(3)));
  else if constexpr (std::is_floating_point_v<T>) { return r.pick<T>({T(0), -T(0), T(1), T(-1.5), std::numeric_limits<T>::infinity(), std::numeric_limits<T>::quiet_NaN(), std::numeric_limits<T>::lowest()}); }
  else if constexpr (std::is_arithmetic_v<T>) return static_cast<T>(r.chance(1, 2) ? r.below(3) : r.next());
  else { T t; for (auto &x : t) x = element<std::decay_t<decltype(x)>>(r); return t; }
}
template <typename T> bool eq(const T &a, const T &b) { return !std::memcmp(&a, &b, sizeof a); }
template <> bool eq(const std::string &a, const std::string &b) { return a == b; }
template <typename T, std::size_t N> struct Buf {
  unsigned char pre[16];
  Xsmp::Array<T, N> a;
  unsigned char post[16];
};
template <typename T, std::size_t N> void arrays(Case &c) {
  auto &r = c.rng;
  auto make = [] { auto b = std::make_unique<Buf<T, N>>(); std::memset(b->pre, 0xA5, 16); std::memset(b->post, 0x5A, 16); return b; };
  auto pa = make(), pb = make();
  auto &a = pa->a, &b = pb->a;
  const auto &ca = a;
  std::array<T, N> ma{}, mb{};
  for (std::size_t i = 0; i < N; ++i) { a[i] = ma[i] = element<T>(r); b[i] = mb[i] = r.chance(1, 2) ? ma[i] : element<T>(r); }
  c.op("size " + std::to_string(N) + " element size " + std::to_string(sizeof(T)));
  c.nontrivial = true;
  for (int k = 0; k < 10; ++k) {
    switch (r.below(6)) {
    case 0: { T v = element<T>(r); a.fill(v); ma.fill(v); c.op("fill"); break; }
    case 1: a.swap(b); ma.swap(mb); c.op("swap"); break;
    case 2: if (N) { std::size_t i = r.below(N); T v = element<T>(r); a[i] = v; ma[i] = v; c.op("set " + std::to_string(i)); } break;
    case 3: if (N) { std::size_t i = r.below(N); T v = element<T>(r); a.at(i) = v; ma[i] = v; c.op("set at " + std::to_string(i)); } break;
    case 4: b = a; mb = ma; c.op("copy"); break;
    default: { std::reverse(a.begin(), a.end()); std::reverse(ma.begin(), ma.end()); c.op("reverse"); break; }
    }
    XV_EQ(a.size(), N, "size", "size"); XV_EQ(a.max_size(), N, "size", "max_size"); XV_EQ(a.empty(), N == 0, "size", "empty");
    std::size_t n = 0;
    for (auto &x : ca) { XV_CHECK(n < N && eq(x, ma[n]), "element", "iteration at " << n); ++n; }
    XV_EQ(n, N, "element", "iterated");
    XV_EQ(static_cast<std::size_t>(std::distance(a.begin(), a.end())), N, "element", "distance");
    n = N;
    for (auto it = ca.rbegin(); it != ca.rend(); ++it) XV_CHECK(n > 0 && eq(*it, ma[--n]), "element", "reverse iteration at " << n);
    XV_EQ(n, std::size_t{0}, "element", "reverse iterated");
    n = N;
    for (auto it = a.rbegin(); it != a.rend(); ++it) XV_CHECK(n > 0 && &*it == &a[--n], "element", "reverse iteration at " << n);
    n = N;
    for (auto it = a.crbegin(); it != a.crend(); ++it) XV_CHECK(n > 0 && &*it == &a[--n], "element", "reverse iteration at " << n);
    XV_CHECK(ca.cbegin() == ca.begin() && ca.cend() == ca.end() && a.data() == a.begin() && ca.data() == ca.begin(), "element", "iterators");
    for (std::size_t i = 0; i < N; ++i) XV_CHECK(eq(a[i], ma[i]) && eq(ca[i], ma[i]) && &a.at(i) == &a[i] && &ca.at(i) == &a[i] && &a[i] == a.data() + i, "element", "element " << i);
    if constexpr (N > 0) XV_CHECK(&a.front() == &a[0] && &ca.front() == &a[0] && &a.back() == &a[N - 1] && &ca.back() == &a[N - 1], "element", "front/back");
    for (std::size_t i : {N, N + 1, N * 2 + 7, std::numeric_limits<std::size_t>::max()}) {
      xv::throws<std::out_of_range>("at-bounds", "at(" + std::to_string(i) + ") of size " + std::to_string(N), [&] { (void)a.at(i); });
      xv::throws<std::out_of_range>("at-bounds", "const at(" + std::to_string(i) + ") of size " + std::to_string(N), [&] { (void)ca.at(i); });
    }
    XV_EQ(a == b, ma == mb, "relation", "=="); XV_EQ(a != b, ma != mb, "relation", "!=");
    XV_EQ(a < b, ma < mb, "relation", "<"); XV_EQ(a > b, ma > mb, "relation", ">");
    if constexpr (!std::is_floating_point_v<T>) { XV_EQ(a <= b, ma <= mb, "relation", "<="); XV_EQ(a >= b, ma >= mb, "relation", ">="); }
    XV_COUNT("array states");
    for (auto *p : {pa.get(), pb.get()})
      for (int i = 0; i < 16; ++i) XV_CHECK(p->pre[i] == 0xA5 && p->post[i] == 0x5A, "neighbour-overwritten", "bytes beside the array changed");
  }
}
} // namespace
/// arrays whose type and size are deduced from a list of elements
void listed(Case &c) {
  const auto x = static_cast<int>(c.rng.next()), y = static_cast<int>(c.rng.next());
  Xsmp::Array three{x, y, 7};
  static_assert(std::is_same_v<decltype(three), Xsmp::Array<int, 3>>);
  XV_CHECK(three[0] == x && three[1] == y && three[2] == 7, "element", "array of a list of three elements");
  const auto s = element<std::string>(c.rng);
  Xsmp::Array one{s};
  static_assert(std::is_same_v<decltype(one), Xsmp::Array<std::string, 1>>);
  XV_CHECK(one.size() == 1 && one.front() == s, "element", "array of a list of one element");
  Xsmp::Array<int, 4> partial{x, y};
  XV_CHECK(partial[0] == x && partial[1] == y && partial[2] == 0 && partial[3] == 0, "element", "array of a list shorter than it");
}
XV_SCENARIO(C05, arrays, 6000, 200000) {
  listed(c);
  switch (c.index % 10) {
  case 0: arrays<int, 0>(c); break;
  case 1: arrays<int, 1>(c); break;
  case 2: arrays<int, 3>(c); break;
  case 3: arrays<std::string, 2>(c); break;
  case 4: arrays<double, 4>(c); break;
  case 5: arrays<unsigned char, 64>(c); break;
  case 6: arrays<Xsmp::Array<short, 3>, 2>(c); break;
  case 7: arrays<std::string, 0>(c); break;
  case 8: arrays<std::string, 17>(c); break;
  default: arrays<std::int64_t, 33>(c); break;
  }
}

namespace {
using Wide = __int128;
template <typename T> std::string num(T v) { return std::to_string(+v); }
template <typename T, typename U> void pairCheck(T t, U u) {
  const Wide a = t, b = u;
  namespace sut = Smp::utility;
#define ONE(f, want) { const bool g = sut::f(t, u); XV_CHECK(g == (want), "compare", #f "(" << num(t) << ":" << sizeof(T) << (std::is_signed_v<T> ? "s" : "u") << ", " << num(u) << ":" << sizeof(U) << (std::is_signed_v<U> ? "s" : "u") << ") gives " << g); }
  ONE(cmp_equal, a == b) ONE(cmp_not_equal, a != b) ONE(cmp_less, a < b) ONE(cmp_greater, a > b) ONE(cmp_less_equal, a <= b) ONE(cmp_greater_equal, a >= b)
#undef ONE
  const bool in = a >= static_cast<Wide>(std::numeric_limits<U>::lowest()) && a <= static_cast<Wide>(std::numeric_limits<U>::max());
  const bool got = sut::in_range<U>(t);
  XV_CHECK(got == in, "in-range", "in_range<" << sizeof(U) << (std::is_signed_v<U> ? "s" : "u") << ">(" << num(t) << ":" << sizeof(T) << ") gives " << got);
}
template <typename T> std::vector<T> interesting() {
  std::vector<T> v;
  for (int bits : {0, 1, 7, 8, 15, 16, 31, 32, 53, 63, 64})
    for (int d = -2; d <= 2; ++d)
      for (int s : {-1, 1}) {
        const Wide x = static_cast<Wide>(s) * ((static_cast<Wide>(1) << bits)) + d;
        v.push_back(static_cast<T>(static_cast<std::uint64_t>(x)));
      }
  v.push_back(std::numeric_limits<T>::max()); v.push_back(std::numeric_limits<T>::lowest()); v.push_back(0);
  std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end());
  return v;
}
template <typename T, typename U> void typePair(Case &c) {
  std::uint64_t n = 0;
  for (T t : interesting<T>()) for (U u : interesting<U>()) { pairCheck<T, U>(t, u); ++n; }
  if constexpr (sizeof(T) == 1 && sizeof(U) == 1) for (int x = 0; x < 256; ++x) for (int y = 0; y < 256; ++y) { pairCheck<T, U>(static_cast<T>(x), static_cast<U>(y)); ++n; }
  const int k = c.thorough ? 20000 : 600;
  for (int i = 0; i < k; ++i) {
    const std::uint64_t x = c.rng.next() >> c.rng.below(64), y = c.rng.next() >> c.rng.below(64);
    pairCheck<T, U>(static_cast<T>(x), static_cast<U>(y));
    pairCheck<T, U>(static_cast<T>(-x), static_cast<U>(y));
    pairCheck<T, U>(static_cast<T>(x), static_cast<U>(static_cast<T>(x)));
    n += 3;
  }
  xv::count("value pairs", n);
}
template <typename T> void withAll(Case &c, std::size_t k) {
  switch (k) {
  case 0: typePair<T, std::int8_t>(c); break; case 1: typePair<T, std::uint8_t>(c); break;
  case 2: typePair<T, std::int16_t>(c); break; case 3: typePair<T, std::uint16_t>(c); break;
  case 4: typePair<T, std::int32_t>(c); break; case 5: typePair<T, std::uint32_t>(c); break;
  case 6: typePair<T, std::int64_t>(c); break; default: typePair<T, std::uint64_t>(c); break;
  }
}
} // namespace
XV_SCENARIO(C06, types, 128, 640) { // each pair of types, with fresh random values each round
  const std::size_t t = c.index / 8 % 8, u = c.index % 8;
  c.op("types " + std::to_string(t) + "," + std::to_string(u) + " round " + std::to_string(c.index / 64)); c.nontrivial = true;
  switch (t) {
  case 0: withAll<std::int8_t>(c, u); break; case 1: withAll<std::uint8_t>(c, u); break;
  case 2: withAll<std::int16_t>(c, u); break; case 3: withAll<std::uint16_t>(c, u); break;
  case 4: withAll<std::int32_t>(c, u); break; case 5: withAll<std::uint32_t>(c, u); break;
  case 6: withAll<std::int64_t>(c, u); break; default: withAll<std::uint64_t>(c, u); break;
  }
}
// the helpers are usable in constant expressions and agree there
static_assert(Smp::utility::cmp_less(-1, 0U) && !Smp::utility::in_range<unsigned char>(-1) && Smp::utility::in_range<signed char>(127U));
