// C01-C03: fixed-capacity strings against an unbounded reference text.
#include "xv.h"
#include <Xsmp/String.h>
#include <iterator>
#include <memory>
#include <sstream>
#include <type_traits>
using xv::Case;
using xv::show;
namespace {
std::string cut(std::string s, std::size_t cap) {
  if (s.size() > cap) s.resize(cap);
  if (auto p = s.find('\0'); p != std::string::npos) s.resize(p);
  return s;
}
/// heap copy with the exact length: one byte read past it is reported
struct Exact {
  std::unique_ptr<char[]> p;
  std::size_t n;
  explicit Exact(std::string_view s) : p(new char[s.size()]), n(s.size()) { if (n) std::memcpy(p.get(), s.data(), n); }
  std::string_view view() const { return {p.get(), n}; }
};
struct ExactZ {
  std::unique_ptr<char[]> p;
  explicit ExactZ(std::string_view s) : p(new char[s.size() + 1]) { if (!s.empty()) std::memcpy(p.get(), s.data(), s.size()); p[s.size()] = 0; }
  const char *c() const { return p.get(); }
};
std::string text(xv::Rng &r, std::size_t cap, bool nul) {
  std::size_t n = 0;
  switch (r.below(8)) {
  case 0: n = 0; break;
  case 1: n = cap; break;
  case 2: n = cap + 1; break;
  case 3: n = cap ? cap - 1 : 0; break;
  case 4: n = r.below(4); break;
  case 5: n = cap + r.below(300); break;
  default: n = r.below(cap + 3); break;
  }
  std::string s(n, 'x');
  const unsigned mode = static_cast<unsigned>(r.below(3));
  for (auto &ch : s) ch = mode == 0 ? static_cast<char>('a' + r.below(3)) : mode == 1 ? static_cast<char>(1 + r.below(255)) : static_cast<char>(r.chance(1, 6) ? ' ' : 'a' + r.below(26));
  if (nul && n && r.chance(1, 5)) s[r.below(n)] = '\0';
  return s;
}
template <std::size_t N> struct Guarded {
  unsigned char pre[32];
  Xsmp::String<N> s;
  unsigned char post[32];
  Guarded() { std::memset(pre, 0xA5, sizeof pre); std::memset(post, 0x5A, sizeof post); }
  void check(const char *after) const {
    for (auto b : pre) XV_CHECK(b == 0xA5, "neighbour-overwritten", "byte before the string changed by " << after << " capacity " << N);
    for (auto b : post) XV_CHECK(b == 0x5A, "neighbour-overwritten", "byte after the string changed by " << after << " capacity " << N);
    bool term = false;
    for (std::size_t i = 0; i <= N; ++i) term |= s.internalString[i] == '\0';
    XV_CHECK(term, "not-terminated", "no terminator within capacity " << N << " after " << after);
    XV_CHECK(s.size() <= N, "capacity-exceeded", "size " << s.size() << " > capacity " << N << " after " << after);
  }
};
template <std::size_t N> void observe(const Xsmp::String<N> &s, Xsmp::String<N> &m, const std::string &want, const char *after, xv::Rng &r) {
  XV_CHECK(std::string(s.c_str()) == want, "content", "after " << after << " on capacity " << N << ": holds " << show(s.c_str()) << ", expected " << show(want));
  XV_EQ(s.size(), want.size(), "size", "size after " << after);
  XV_EQ(s.length(), want.size(), "size", "length after " << after);
  XV_EQ(s.empty(), want.empty(), "size", "empty after " << after);
  XV_EQ(s.max_size(), N, "size", "max_size");
  XV_CHECK(std::string(s.begin(), s.end()) == want && std::string(s.cbegin(), s.cend()) == want && std::string(m.begin(), m.end()) == want, "iteration", "forward iteration after " << after);
  const std::string rev(want.rbegin(), want.rend());
  XV_CHECK(std::string(s.rbegin(), s.rend()) == rev && std::string(s.crbegin(), s.crend()) == rev && std::string(m.rbegin(), m.rend()) == rev && std::string(m.crbegin(), m.crend()) == rev && std::string(m.cbegin(), m.cend()) == want, "iteration", "reverse iteration after " << after);
  XV_CHECK(s.data() == s.c_str() && m.data() == s.data(), "access", "data and c_str differ");
  for (std::size_t i = 0; i < want.size(); ++i) {
    XV_CHECK(s[i] == want[i] && m[i] == want[i], "access", "element " << i);
    XV_CHECK(s.at(i) == want[i] && m.at(i) == want[i], "access", "checked element " << i);
  }
  if (!want.empty()) {
    XV_CHECK(s.front() == want.front() && s.back() == want.back() && m.front() == want.front() && m.back() == want.back(), "access", "front/back after " << after);
  }
  for (std::size_t i : {want.size(), want.size() + 1, N + 1, static_cast<std::size_t>(-1)}) {
    xv::throws<std::out_of_range>("at-bounds", "const at(" + std::to_string(i) + ") of " + show(want), [&] { (void)s.at(i); });
    xv::throws<std::out_of_range>("at-bounds", "at(" + std::to_string(i) + ") of " + show(want), [&] { (void)m.at(i); });
  }
  if (r.chance(1, 4)) {
    std::ostringstream os;
    os << std::setw(static_cast<int>(r.below(6))) << std::left << s;
    std::ostringstream os2;
    xv::Rng copy = r;
    (void)copy;
    os2 << s;
    XV_CHECK(os2.str() == want, "stream", "stream output " << show(os2.str()) << " expected " << show(want));
  }
}
template <std::size_t N> void searches(const Xsmp::String<N> &s, const std::string &want, Case &c) {
  auto &r = c.rng;
  const std::string_view ref = want;
  std::string needle = r.chance(1, 2) && !want.empty() ? want.substr(r.below(want.size()), r.below(3)) : text(r, 2, true);
  if (r.chance(1, 6)) needle.clear();
  Exact e(needle);
  ExactZ z(cut(needle, needle.size()));
  const std::string zt = z.c();
  const std::size_t pos = r.chance(1, 5) ? std::string_view::npos : r.below(want.size() + 3);
  const std::size_t n = r.below(needle.size() + 1);
  const char ch = needle.empty() ? 'q' : needle[0];
#define ONE(f, dflt)                                                                                                                     \
  XV_EQ(s.f(e.view(), pos), ref.f(std::string_view(needle), pos), "search", #f "(view,pos) of " << show(needle) << "," << pos << " in " << show(want)); \
  XV_EQ(s.f(e.view()), ref.f(std::string_view(needle)), "search", #f "(view) of " << show(needle) << " in " << show(want));               \
  XV_EQ(s.f(ch, pos), ref.f(ch, pos), "search", #f "(char,pos) of " << show(std::string(1, ch)) << "," << pos << " in " << show(want));     \
  XV_EQ(s.f(ch), ref.f(ch), "search", #f "(char) in " << show(want));                                                                     \
  XV_EQ(s.f(e.p.get(), pos, n), ref.f(needle.data(), pos, n), "search", #f "(ptr,pos,n) of " << show(needle) << "," << pos << "," << n << " in " << show(want)); \
  XV_EQ(s.f(z.c(), pos), ref.f(zt.c_str(), pos), "search", #f "(ptr,pos) of " << show(zt) << "," << pos << " in " << show(want));           \
  XV_EQ(s.f(z.c()), ref.f(zt.c_str()), "search", #f "(ptr) of " << show(zt) << " in " << show(want));
  ONE(find, 0) ONE(rfind, npos) ONE(find_first_of, 0) ONE(find_last_of, npos) ONE(find_first_not_of, 0) ONE(find_last_not_of, npos)
#undef ONE
  const std::size_t p = r.below(want.size() + 2), l = r.chance(1, 4) ? std::string_view::npos : r.below(want.size() + 3);
  if (p <= want.size()) XV_CHECK(s.substr(p, l) == ref.substr(p, l), "search", "substr(" << p << "," << l << ") of " << show(want));
  else xv::throws<std::out_of_range>("search", "substr beyond the end", [&] { (void)s.substr(p, l); });
  XV_CHECK(s.substr() == ref, "search", "substr() of " << show(want));
  XV_COUNT("searches");
}
template <std::size_t N, std::size_t M> void history(Case &c) {
  auto &r = c.rng;
  auto g = std::make_unique<Guarded<N>>();
  auto o = std::make_unique<Guarded<M>>();
  Xsmp::String<N> &s = g->s;
  Xsmp::String<M> &t = o->s;
  std::string a, b; // reference texts of s and t
  const std::size_t steps = 2 + r.below(c.thorough ? 40 : 14);
  c.op("capacity " + std::to_string(N) + " other " + std::to_string(M));
  for (std::size_t k = 0; k < steps; ++k) {
    std::string src = text(r, N, true);
    Exact e(src);
    ExactZ z(cut(src, src.size()));
    const std::string zt = z.c();
    const std::string old = a;
    const std::size_t selfPos = r.below(a.size() + 1), selfLen = r.below(a.size() - selfPos + 1);
    std::string op;
    switch (r.below(34)) {
    case 0: s.assign(e.view()); a = cut(src, N); op = "assign(view)"; break;
    case 1: s.assign(e.p.get(), e.n); a = cut(src, N); op = "assign(ptr,len)"; break;
    case 2: s.assign(z.c()); a = cut(zt, N); op = "assign(cstr)"; break;
    case 3: s.assign(std::string(src)); a = cut(src, N); op = "assign(std::string)"; break;
    case 4: s = Xsmp::String<N>(e.view()); a = cut(src, N); op = "construct(view)"; break;
    case 5: s = Xsmp::String<N>(z.c()); a = cut(zt, N); op = "construct(cstr)"; break;
    case 6: s = Xsmp::String<N>(e.p.get(), e.n); a = cut(src, N); op = "construct(ptr,len)"; break;
    case 7: s = Xsmp::String<N>(std::string(src)); a = cut(src, N); op = "construct(std::string)"; break;
    case 8: s.append(e.view()); a = cut(a + src, N); op = "append(view)"; break;
    case 9: s.append(e.p.get(), e.n); a = cut(a + src, N); op = "append(ptr,len)"; break;
    case 10: s.append(z.c()); a = cut(a + zt, N); op = "append(cstr)"; break;
    case 11: s += e.view(); a = cut(a + src, N); op = "+=(view)"; break;
    case 12: { char ch = src.empty() ? 'k' : src[0]; s += ch; a = cut(a + std::string(1, ch), N); op = "+=(char)"; break; }
    case 13: { char ch = src.empty() ? 'k' : src[0]; s.push_back(ch); a = cut(a + std::string(1, ch), N); op = "push_back"; break; }
    case 14: if (!a.empty()) { s.pop_back(); a.pop_back(); } op = "pop_back"; break;
    case 15: { std::size_t n = r.below(a.size() + 1); s.remove_prefix(n); a.erase(0, n); op = "remove_prefix(" + std::to_string(n) + ")"; break; }
    case 16: { std::size_t n = r.below(a.size() + 1); s.remove_suffix(n); a.resize(a.size() - n); op = "remove_suffix(" + std::to_string(n) + ")"; break; }
    case 17: s.clear(); a.clear(); op = "clear"; break;
    case 18: s.assign(t); a = cut(b, N); op = "assign(other capacity)"; break;
    case 19: s.append(t); a = cut(a + b, N); op = "append(other capacity)"; break;
    case 20: s += t; a = cut(a + b, N); op = "+=(other capacity)"; break;
    case 21: s = t; a = cut(b, N); op = "=(other capacity)"; break;
    case 22: s = Xsmp::String<N>(t); a = cut(b, N); op = "construct(other capacity)"; break;
    case 23: t = s; b = cut(a, M); op = "other = this"; break;
    case 24: t.assign(e.view()); b = cut(src, M); op = "other.assign(view)"; break;
    case 25: s.append(std::string_view(s.data() + selfPos, selfLen)); a = cut(a + a.substr(selfPos, selfLen), N); op = "append(part of itself " + std::to_string(selfPos) + "," + std::to_string(selfLen) + ")"; break;
    case 26: s.append(s); a = cut(a + a, N); op = "append(itself)"; break;
    case 27: s += s; a = cut(a + a, N); op = "+= itself"; break;
    case 28: s.assign(std::string_view(s.data() + selfPos, selfLen)); a = a.substr(selfPos, selfLen); op = "assign(part of itself " + std::to_string(selfPos) + "," + std::to_string(selfLen) + ")"; break;
    case 29: { Xsmp::String<N> u(e.view()); std::string ut = cut(src, N); s.swap(u); std::swap(a, ut); XV_CHECK(std::string(u.c_str()) == ut, "content", "swap other side"); op = "swap"; break; }
    case 30: { Xsmp::String<N> u(e.view()); std::string ut = cut(src, N); using Xsmp::swap; swap(s, u); std::swap(a, ut); XV_CHECK(std::string(u.c_str()) == ut, "content", "free swap other side"); op = "free swap"; break; }
    case 31: { std::string in = src; for (auto &ch : in) if (ch == '\0') ch = 'n'; std::istringstream is(in); std::istringstream ref(in); std::string w; ref >> w; is >> s; a = cut(w, N); op = "stream input"; break; }
    case 32: s = z.c(); a = cut(zt, N); op = "= cstr"; break;
    default: { auto &self = s; s = self; s.assign(self); op = "assign itself"; break; }
    }
    c.op(op + (op.find("view") != std::string::npos || op.find("len") != std::string::npos || op.find("str") != std::string::npos ? " " + show(src, 24) : ""));
    g->check(op.c_str());
    o->check(op.c_str());
    observe(s, s, a, op.c_str(), r);
    XV_CHECK(std::string(t.c_str()) == b, "content", "other string changed by " << op);
    if (a.size() == N || old.size() > 2 || a != old) c.nontrivial = true;
    if (r.chance(1, 3)) searches(s, a, c);
    if (r.chance(1, 4)) {
      XV_CHECK((s + t) == a + b && (t + s) == b + a && (s + std::string_view(src)) == a + src && (std::string_view(src) + s) == src + a && (s + 'q') == a + 'q' && ('q' + s) == 'q' + a, "concatenation", "operator+ of " << show(a));
    }
    if (a.size() == N) XV_COUNT("at capacity");
    XV_COUNT("operations");
  }
}
void anyCapacity(Case &c) {
  switch (c.index % 10) {
  case 0: history<0, 3>(c); break;
  case 1: history<1, 0>(c); break;
  case 2: history<2, 7>(c); break;
  case 3: history<3, 3>(c); break;
  case 4: history<7, 16>(c); break;
  case 5: history<8, 8>(c); break;
  case 6: history<16, 40>(c); break;
  case 7: history<40, 5>(c); break;
  case 8: history<5, 255>(c); break;
  default: history<255, 63>(c); break;
  }
}
} // namespace
XV_SCENARIO(C01, history, 24000, 600000) { anyCapacity(c); }

// every text over a tiny alphabet and every cut position, exhaustively
XV_SCENARIO(C01, small, 341, 5461) {
  std::string s;
  for (std::uint64_t i = c.index; i > 0; i = (i - 1) / 4) s += "ab\0c"[(i - 1) % 4];
  c.op(show(s)); c.nontrivial = true;
  Xsmp::String<3> x{std::string_view(s)};
  std::string a = cut(s, 3);
  xv::Rng r(c.index);
  observe(x, x, a, "construct", r);
  for (std::size_t p = 0; p <= a.size(); ++p)
    for (std::size_t n = 0; p + n <= a.size(); ++n) {
      Xsmp::String<3> y(x);
      y.assign(std::string_view(y.data() + p, n));
      observe(y, y, a.substr(p, n), "assign part of itself", r);
      Xsmp::String<3> w(x);
      w.append(std::string_view(w.data() + p, n));
      observe(w, w, cut(a + a.substr(p, n), 3), "append part of itself", r);
    }
  for (std::size_t n = 0; n <= a.size(); ++n) {
    Xsmp::String<3> y(x); y.remove_prefix(n); observe(y, y, a.substr(n), "remove_prefix", r);
    Xsmp::String<3> z(x); z.remove_suffix(n); observe(z, z, a.substr(0, a.size() - n), "remove_suffix", r);
  }
  for (int k = 0; k < 8; ++k) searches(x, a, c);
}

namespace {
template <std::size_t N> void bounds(Case &c) {
  auto &r = c.rng;
  static_assert(sizeof(Xsmp::String<N>) == N + 1, "storage is the capacity and a terminator");
  auto g = std::make_unique<Guarded<N>>();
  auto &s = g->s;
  c.op("capacity " + std::to_string(N));
  const std::size_t steps = 3 + r.below(12);
  for (std::size_t k = 0; k < steps; ++k) {
    // non-terminated source of the exact length, sometimes page sized
    std::string src = r.chance(1, 8) ? std::string(4096 + r.below(9000), 'L') : text(r, N, r.chance(1, 2));
    Exact e(src);
    ExactZ z(cut(src, src.size()));
    std::string op;
    switch (r.below(20)) {
    case 0: s.assign(e.view()); op = "assign(view)"; break;
    case 1: s.append(e.view()); op = "append(view)"; break;
    case 2: s.append(e.p.get(), e.n); op = "append(ptr,len)"; break;
    case 3: s.assign(e.p.get(), e.n); op = "assign(ptr,len)"; break;
    case 4: { std::size_t n = r.pick<std::size_t>({s.size() + 1, s.size() + 2, N + 1, N + 64, static_cast<std::size_t>(-1)}); s.remove_prefix(n); op = "remove_prefix(" + std::to_string(n) + ")"; XV_CHECK(s.empty(), "over-removal", "removing more than the length leaves " << show(s.c_str())); break; }
    case 5: { std::size_t n = r.pick<std::size_t>({s.size() + 1, s.size() + 2, N + 1, N + 64, static_cast<std::size_t>(-1)}); s.remove_suffix(n); op = "remove_suffix(" + std::to_string(n) + ")"; XV_CHECK(s.empty(), "over-removal", "removing more than the length leaves " << show(s.c_str())); break; }
    case 6: s.pop_back(); op = "pop_back"; break;
    case 7: s.append(std::string_view{}); s.assign(std::string_view{}); s += std::string_view{}; op = "null view"; XV_CHECK(s.empty(), "content", "assigning the empty view leaves text"); break;
    case 8: { auto part = s.substr(0, r.below(N + 2)); s.assign(part); op = "assign(own prefix)"; break; }
    case 9: { auto part = s.substr(r.below(s.size() + 1)); s.assign(part); op = "assign(own suffix)"; break; }
    case 10: { auto part = s.substr(r.below(s.size() + 1)); s.append(part); op = "append(own suffix)"; break; }
    case 11: s.append(s); op = "append(itself)"; break;
    case 12: { auto other = std::make_unique<Guarded<N * 3 + 2>>(); other->s.assign(e.view()); s.assign(other->s); s.append(other->s); other->check("copy out"); op = "larger capacity"; break; }
    case 13: { auto other = std::make_unique<Guarded<N / 2>>(); other->s.assign(e.view()); s.assign(other->s); s.append(other->s); other->s = s; other->check("copy in"); op = "smaller capacity"; break; }
    case 14: { auto other = std::make_unique<Guarded<N>>(); other->s.assign(e.view()); s.swap(other->s); other->check("swap"); op = "swap"; break; }
    case 15: s = z.c(); op = "= cstr"; break;
    case 16: s.append(z.c()); op = "append(cstr)"; break;
    case 17: { for (std::size_t i = 0; i < N + 3; ++i) s.push_back('p'); XV_EQ(s.size(), N, "content", "filled by push_back"); op = "push_back until full"; break; }
    case 18: { // fill to the last byte and search: nothing past the terminator may be read
      s.assign(std::string(N, 'a')); (void)s.find("b"); (void)s.rfind("b"); (void)s.find_first_not_of("a"); (void)s.find_last_not_of("a"); (void)(s == s); (void)s.compare(std::string_view("aab")); (void)std::hash<Xsmp::String<N>>{}(s); op = "search full"; break; }
    default: { auto u = std::make_unique<Xsmp::String<N>>(e.view()); XV_CHECK(u->size() <= N, "capacity-exceeded", "constructed"); auto v = std::make_unique<Xsmp::String<N>>(e.p.get(), e.n); s = *v; op = "construct"; break; }
    }
    c.op(op + " source length " + std::to_string(src.size()));
    if (src.size() >= N) c.nontrivial = true;
    g->check(op.c_str());
    if (src.size() > N) XV_COUNT("sources beyond capacity");
    XV_COUNT("operations");
  }
}
} // namespace
XV_SCENARIO(C02, bounds, 30000, 800000) {
  switch (c.index % 10) {
  case 0: bounds<0>(c); break;
  case 1: bounds<1>(c); break;
  case 2: bounds<2>(c); break;
  case 3: bounds<4>(c); break;
  case 4: bounds<7>(c); break;
  case 5: bounds<15>(c); break;
  case 6: bounds<16>(c); break;
  case 7: bounds<31>(c); break;
  case 8: bounds<128>(c); break;
  default: bounds<1023>(c); break;
  }
}
XV_SCENARIO(C02, history, 8000, 100000) { anyCapacity(c); }

namespace {
int sgn(int x) { return (x > 0) - (x < 0); }
int ref(std::string_view a, std::string_view b) {
  const std::size_t n = std::min(a.size(), b.size());
  for (std::size_t i = 0; i < n; ++i) {
    const auto x = static_cast<unsigned char>(a[i]), y = static_cast<unsigned char>(b[i]);
    if (x != y) return x < y ? -1 : 1;
  }
  return a.size() == b.size() ? 0 : a.size() < b.size() ? -1 : 1;
}
template <typename L, typename R> void six(const L &l, const R &r, int want, const std::string &what) {
  XV_EQ(l == r, want == 0, "comparison", what << " ==");
  XV_EQ(l != r, want != 0, "comparison", what << " !=");
  XV_EQ(l < r, want < 0, "comparison", what << " <");
  XV_EQ(l > r, want > 0, "comparison", what << " >");
  XV_EQ(l <= r, want <= 0, "comparison", what << " <=");
  XV_EQ(l >= r, want >= 0, "comparison", what << " >=");
}
template <std::size_t N, std::size_t M> void pair(const std::string &p, const std::string &q) {
  auto x = std::make_unique<Xsmp::String<N>>(std::string_view(p));
  auto y = std::make_unique<Xsmp::String<M>>(std::string_view(q));
  const std::string a = cut(p, N), b = cut(q, M);
  const std::string what = show(a) + "<" + std::to_string(N) + "> with " + show(b) + "<" + std::to_string(M) + ">";
  const int want = ref(a, b);
  six(*x, *y, want, what + " string/string");
  six(*y, *x, -want, what + " reversed string/string");
  Exact vb(b);
  six(*x, vb.view(), want, what + " string/view");
  six(vb.view(), *x, -want, what + " view/string");
  ExactZ zb(b);
  const char *cb = zb.c();
  six(*x, cb, want, what + " string/cstr");
  six(cb, *x, -want, what + " cstr/string");
  XV_EQ(sgn(x->compare(*y)), want, "comparison", what << " compare");
  XV_EQ(sgn(y->compare(*x)), -want, "comparison", what << " reversed compare");
  XV_EQ(sgn(x->compare(vb.view())), want, "comparison", what << " compare view");
  // views may hold NULs: compared with their full text
  Exact full(q);
  six(*x, full.view(), ref(a, q), what + " string/full view");
  six(full.view(), *x, -ref(a, q), what + " full view/string");
  XV_EQ(std::hash<Xsmp::String<N>>{}(*x), std::hash<std::string_view>{}(a), "hash", what << " hash of view");
  if (want == 0) XV_EQ(std::hash<Xsmp::String<N>>{}(*x), std::hash<Xsmp::String<M>>{}(*y), "hash", what << " hash across capacities");
  XV_COUNT("pairs compared");
  if (want == 0) XV_COUNT("equal pairs");
}
} // namespace
XV_SCENARIO(C03, pairs, 20000, 500000) {
  auto &r = c.rng;
  std::string p = text(r, r.pick({0, 1, 4, 9, 40}), true), q;
  switch (r.below(6)) {
  case 0: q = p; break;
  case 1: q = p.substr(0, r.below(p.size() + 1)); break;
  case 2: q = p; if (!q.empty()) q[r.below(q.size())] ^= static_cast<char>(1U << r.below(8)); break;
  case 3: q = p + text(r, 2, true); break;
  default: q = text(r, r.pick({0, 1, 4, 9, 40}), true); break;
  }
  c.op(show(p)); c.op(show(q)); c.nontrivial = p != q;
  pair<4, 4>(p, q); pair<0, 3>(p, q); pair<16, 4>(p, q); pair<64, 17>(p, q); pair<1, 64>(p, q); pair<300, 300>(p, q);
}
XV_SCENARIO(C03, small, 7225, 7225) { // all pairs of texts up to 3 characters over {a, 0x80, 0xff, 1}
  auto make = [](std::uint64_t i) { std::string s; for (; i > 0; i = (i - 1) / 4) s += "\x61\x80\xff\x01"[(i - 1) % 4]; return s; };
  auto p = make(c.index / 85), q = make(c.index % 85);
  c.op(show(p)); c.op(show(q)); c.nontrivial = true;
  pair<3, 3>(p, q); pair<2, 3>(p, q); pair<8, 2>(p, q);
}
