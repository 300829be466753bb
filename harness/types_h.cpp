// C10/C11 dynamically typed values, C12 UUIDs, C13 durations and dates, C14 object names
#include "anyval.h"
#include <Smp/AccessKind.h>
#include <Smp/AnySimple.h>
#include <Smp/ComponentStateKind.h>
#include <Smp/Publication/ParameterDirectionKind.h>
#include <Smp/Services/TimeKind.h>
#include <Smp/SimulatorStateKind.h>
#include <Smp/ViewKind.h>
#include <Smp/InvalidAnyType.h>
#include <Smp/InvalidObjectName.h>
#include <Smp/Uuid.h>
#include <Xsmp/DateTime.h>
#include <Xsmp/Duration.h>
#include <Xsmp/EntryPoint.h>
#include <Xsmp/Object.h>
#include <algorithm>
#include <cfloat>
#include <cmath>
#include <limits>
#include <memory>
#include <optional>
using xv::Case;
using xv::show;
namespace {
struct Any10 {
  AnySimple a;
  K kind = K::PTK_None;
  Held held;
};
template <typename T> void store(Case &c, Any10 &x, K kind, T v, const char *type) {
  Held h;
  const bool ok = storable(kind, v, h);
  const std::string what = std::string(type) + " " + text(v) + " stored as " + kindName(kind);
  bool threw = false;
  if (c.rng.chance(1, 8)) {
    try { AnySimple t(kind, v); x.a = t; } catch (const Smp::InvalidAnyType &) { threw = true; }
    if (threw) { XV_CHECK(!ok, "store", what << " was refused"); XV_COUNT("refused stores"); return; } // the target was not touched
  } else {
    try { x.a.SetValue(kind, v); } catch (const Smp::InvalidAnyType &) { threw = true; }
  }
  XV_COUNT("stores");
  XV_CHECK(threw != ok, "store", what << (ok ? " was refused" : " was accepted"));
  if (ok) { x.kind = kind; x.held = h; c.op(what); readAll(x.a, kind, h, what); return; }
  XV_COUNT("refused stores");
  // a refused store may drop a text, but nothing else changes and the value stays usable
  if (x.kind == K::PTK_String8) x.held.s.reset();
  c.op(what + " refused");
  readAll(x.a, x.kind, x.held, what + " (refused)");
}
K anyKind(xv::Rng &r) { return r.chance(1, 40) ? static_cast<K>(r.pick<int>({16, -1, 99, 1000})) : static_cast<K>(r.below(16)); }
} // namespace
XV_SCENARIO(C10, conversions, 1200, 120000) {
  auto &r = c.rng;
  Any10 x;
  c.nontrivial = true;
  for (int n = 0; n < 40; ++n) {
    const K k = anyKind(r);
    switch (r.below(14)) {
    case 0: store<bool>(c, x, k, r.chance(1, 2), "Bool"); break;
    case 1: store<char>(c, x, k, static_cast<char>(r.below(256)), "Char8"); break;
    case 2: store<std::int8_t>(c, x, k, intValue<std::int8_t>(r), "Int8"); break;
    case 3: store<std::uint8_t>(c, x, k, intValue<std::uint8_t>(r), "UInt8"); break;
    case 4: store<std::int16_t>(c, x, k, intValue<std::int16_t>(r), "Int16"); break;
    case 5: store<std::uint16_t>(c, x, k, intValue<std::uint16_t>(r), "UInt16"); break;
    case 6: store<std::int32_t>(c, x, k, intValue<std::int32_t>(r), "Int32"); break;
    case 7: store<std::uint32_t>(c, x, k, intValue<std::uint32_t>(r), "UInt32"); break;
    case 8: store<std::int64_t>(c, x, k, intValue<std::int64_t>(r), "Int64"); break;
    case 9: store<std::uint64_t>(c, x, k, intValue<std::uint64_t>(r), "UInt64"); break;
    case 10: store<float>(c, x, r.chance(1, 2) ? k : r.pick({K::PTK_Float32, K::PTK_Float64}), singleValue(r), "Float32"); break;
    case 11: store<double>(c, x, r.chance(1, 2) ? k : r.pick({K::PTK_Float32, K::PTK_Float64}), realValue(r), "Float64"); break;
    default: {
      const K kk = r.chance(2, 3) ? K::PTK_String8 : k;
      const bool null = r.chance(1, 6);
      auto t = std::make_unique<std::string>(randomText(r));
      bool threw = false;
      try { x.a.SetValue(kk, null ? nullptr : t->c_str()); } catch (const Smp::InvalidAnyType &) { threw = true; }
      const std::string what = std::string(null ? "null text" : "text of " + std::to_string(t->size())) + " stored as " + kindName(kk);
      XV_CHECK(threw == (kk != K::PTK_String8), "store", what << (threw ? " was refused" : " was accepted"));
      if (!threw) { x.kind = kk; x.held = Held(); x.held.what = Held::Text; if (!null) x.held.s = *t; }
      else if (x.kind == K::PTK_String8) x.held.s.reset();
      t.reset(); // the value must own its copy
      c.op(what);
      readAll(x.a, x.kind, x.held, what);
    }
    }
  }
}
// every edge value of every integer type, under every kind
XV_SCENARIO(C10, edges, 16, 16) {
  auto &r = c.rng;
  const K k = static_cast<K>(c.index % 16);
  c.op(std::string("every edge value stored as ") + kindName(k));
  c.nontrivial = true;
  auto run = [&](auto tag, const char *name) {
    using T = decltype(tag);
    for (I128 v : edges()) {
      if (v < static_cast<I128>(std::numeric_limits<T>::min()) || v > static_cast<I128>(std::numeric_limits<T>::max())) continue;
      Held h;
      const T t = static_cast<T>(v);
      const bool ok = storable(k, t, h);
      AnySimple a;
      bool threw = false;
      const std::string what = std::string(name) + " " + show128(v) + " stored as " + kindName(k);
      try { a.SetValue(k, t); } catch (const Smp::InvalidAnyType &) { threw = true; }
      XV_CHECK(threw != ok, "store", what << (ok ? " was refused" : " was accepted"));
      XV_COUNT("edge stores");
      if (!c.thorough && r.chance(2, 3)) continue;
      if (ok) readAll(a, k, h, what); else if (r.chance(1, 20)) readAll(a, K::PTK_None, Held(), what + " (refused)");
    }
  };
  run(std::int8_t{}, "Int8"); run(std::uint8_t{}, "UInt8"); run(std::int16_t{}, "Int16"); run(std::uint16_t{}, "UInt16");
  run(std::int32_t{}, "Int32"); run(std::uint32_t{}, "UInt32"); run(std::int64_t{}, "Int64"); run(std::uint64_t{}, "UInt64");
}
// ---------------------------------------------------------------- C11
namespace {
struct Val { // model of one dynamically typed value
  std::unique_ptr<AnySimple> a;
  K kind = K::PTK_None;
  I128 i = 0;
  double d = 0;
  std::optional<std::string> s;
};
bool sameContent(const Val &a, const Val &b) {
  if (a.kind != b.kind) return false;
  switch (a.kind) {
  case K::PTK_None: return true;
  case K::PTK_Float32: case K::PTK_Float64: return a.d == b.d; // the generated values are equal or clearly apart, or not a number
  case K::PTK_String8: return a.s == b.s;
  default: return a.i == b.i;
  }
}
void checkVal(const Val &v, std::size_t n, const std::string &op) {
  const AnySimple &a = *v.a;
  XV_CHECK(a.GetType() == v.kind, "content", "value " << n << " has kind " << kindName(a.GetType()) << ", expected " << kindName(v.kind) << " after " << op);
  bool ok = true;
  switch (v.kind) {
  case K::PTK_None: break;
  case K::PTK_Bool: ok = a.value.boolValue == (v.i != 0); break;
  case K::PTK_Char8: ok = a.value.char8Value == static_cast<char>(v.i); break;
  case K::PTK_Float32: ok = a.value.float32Value == static_cast<float>(v.d) || std::isnan(v.d); break;
  case K::PTK_Float64: ok = a.value.float64Value == v.d || std::isnan(v.d); break;
  case K::PTK_String8: ok = (a.value.string8Value != nullptr) == v.s.has_value() && (!v.s || *v.s == a.value.string8Value); break;
  case K::PTK_UInt64: ok = static_cast<std::uint64_t>(a) == static_cast<std::uint64_t>(v.i); break;
  default: ok = static_cast<std::int64_t>(a) == static_cast<std::int64_t>(v.i); break;
  }
  XV_CHECK(ok, "content", "value " << n << " of kind " << kindName(v.kind) << " changed its content after " << op);
}
void give(xv::Rng &r, Val &v, K k, bool construct, const std::vector<std::string> &texts) {
  Val n;
  n.kind = k;
  auto set = [&](auto x) {
    if (construct || !v.a) v.a = std::make_unique<AnySimple>(k, x); else v.a->SetValue(k, x);
  };
  switch (k) {
  case K::PTK_None: v.a = std::make_unique<AnySimple>(); break;
  case K::PTK_Bool: n.i = static_cast<int>(r.below(2)); set(n.i != 0); break;
  case K::PTK_Char8: n.i = r.pick<int>({0, 1, 'a', 127, -128, -1}); set(static_cast<char>(n.i)); break;
  case K::PTK_Float32: n.d = r.pick<double>({0, 1.5, -1.5, 1e30, INFINITY, -INFINITY, NAN}); set(static_cast<float>(n.d)); n.d = static_cast<float>(n.d); break;
  case K::PTK_Float64: n.d = r.pick<double>({0, 1.5, -1.5, 1e300, INFINITY, -INFINITY, NAN}); set(n.d); break;
  case K::PTK_String8: {
    if (r.chance(1, 6)) { set(static_cast<Smp::String8>(nullptr)); break; }
    auto t = std::make_unique<std::string>(texts[r.below(texts.size())]);
    n.s = *t; set(t->c_str()); t->assign(t->size(), '#'); break;
  }
  case K::PTK_UInt64: n.i = static_cast<I128>(r.pick<std::uint64_t>({0, 1, UINT64_MAX, 1ULL << 63U})); set(static_cast<std::uint64_t>(n.i)); break;
  default: { auto rg = intRange(k); n.i = r.pick<I128>({rg.first, 0, 1, rg.second}); set(static_cast<std::int64_t>(n.i)); break; }
  }
  n.a = std::move(v.a);
  v = std::move(n);
}
} // namespace
XV_SCENARIO(C11, pool, 16000, 700000) {
  auto &r = c.rng;
  std::vector<Val> pool(2 + r.below(5));
  const std::vector<std::string> texts{"", "a", "b", randomText(r), randomText(r) + "x", std::string(100, 'z')};
  std::vector<std::string> two{texts[4], texts[4] + "y"};
  const std::size_t steps = 6 + r.below(c.thorough ? 60 : 24);
  for (std::size_t n = 0; n < steps; ++n) {
    const std::size_t i = r.below(pool.size()), j = r.below(pool.size());
    Val &a = pool[i], &b = pool[j];
    const K k = r.chance(1, 2) ? K::PTK_String8 : static_cast<K>(r.below(16));
    std::string op;
    auto take = [](Val &to, const Val &from) { to.kind = from.kind; to.i = from.i; to.d = from.d; to.s = from.s; };
    if (!a.a) {
      switch (r.below(3)) {
      case 0: if (b.a) { a.a = std::make_unique<AnySimple>(*b.a); take(a, b); op = "copy construct"; break; } [[fallthrough]];
      case 1: if (b.a) { a.a = std::make_unique<AnySimple>(std::move(*b.a)); take(a, b); take(b, Val()); op = "move construct"; break; } [[fallthrough]];
      default: give(r, a, k, true, r.chance(1, 2) ? texts : two); op = std::string("construct ") + kindName(k);
      }
    } else {
      switch (r.below(10)) {
      case 0: case 1: if (b.a) { *a.a = *b.a; if (i != j) take(a, b); else XV_COUNT("self assignments"); op = i == j ? "copy assign itself" : "copy assign"; if (i != j && a.s) XV_CHECK(a.a->value.string8Value != b.a->value.string8Value, "shared-buffer", "a copy shares the text of its source"); } break;
      case 2: case 3: if (b.a) { *a.a = std::move(*b.a); if (i != j) { take(a, b); take(b, Val()); } else XV_COUNT("self assignments"); op = i == j ? "move assign itself" : "move assign"; } break;
      case 4: if (a.s) { const std::size_t p = r.below(a.s->size() + 1); a.a->SetValue(K::PTK_String8, a.a->value.string8Value + p); a.s->erase(0, p); op = "store own tail"; XV_COUNT("self assignments"); } break;
      case 5: if (a.s && r.chance(1, 2)) {
          const char *p = a.a->MoveString();
          const bool same = p && *a.s == p;
          delete[] p;
          XV_CHECK(same, "moved-text", "MoveString handed over another text");
          XV_CHECK(a.a->value.string8Value == nullptr, "moved-text", "MoveString left the text in place");
          a.kind = a.a->GetType(); a.s.reset(); a.i = 0; a.d = 0; op = "move the text out"; XV_COUNT("texts moved out");
        } else if (a.kind != K::PTK_String8) {
          bool threw = false;
          try { (void)a.a->MoveString(); } catch (const Smp::InvalidAnyType &) { threw = true; }
          XV_CHECK(threw, "moved-text", "MoveString of a value of kind " << kindName(a.kind) << " was accepted");
          op = "move the text out of " + std::string(kindName(a.kind));
        } break;
      case 6: { AnySimple t(*a.a); AnySimple u(std::move(t)); *a.a = std::move(u); op = "through temporaries"; break; }
      case 7: a = Val(); op = "destroy"; break;
      default: give(r, a, k, false, r.chance(1, 2) ? texts : two); op = std::string("store ") + kindName(k);
      }
    }
    if (op.empty()) continue;
    c.op(std::to_string(i) + "," + std::to_string(j) + " " + op);
    c.nontrivial = true;
    XV_COUNT("operations");
    for (std::size_t x = 0; x < pool.size(); ++x) if (pool[x].a) checkVal(pool[x], x, op);
    for (std::size_t x = 0; x < pool.size(); ++x)
      for (std::size_t y = 0; y < pool.size(); ++y) {
        if (!pool[x].a || !pool[y].a || (x != i && y != i)) continue;
        const Val &p = pool[x], &q = pool[y];
        const bool eq = *p.a == *q.a;
        XV_CHECK((*p.a != *q.a) == !eq, "equality", "inequality is not the negation of equality");
        if (p.kind == q.kind) {
          XV_COUNT("comparisons of one kind");
          XV_CHECK(eq == sameContent(p, q), "equality", "two values of kind " << kindName(p.kind) << (p.s && q.s ? " " + show(*p.s) + " and " + show(*q.s) : "") << " compare " << (eq ? "equal" : "different"));
        } else if (p.kind == K::PTK_None || q.kind == K::PTK_None || (p.kind == K::PTK_Char8 && q.kind != K::PTK_Bool) || (q.kind == K::PTK_Char8 && p.kind != K::PTK_Bool) ||
                   (p.kind == K::PTK_String8 && q.kind != K::PTK_Bool) || (q.kind == K::PTK_String8 && p.kind != K::PTK_Bool)) {
          XV_COUNT("comparisons across kinds");
          XV_CHECK(!eq, "equality", "values of kinds " << kindName(p.kind) << " and " << kindName(q.kind) << " compare equal");
        }
      }
  }
}
// ---------------------------------------------------------------- C12
namespace {
Smp::Uuid randomUuid(xv::Rng &r) {
  Smp::Uuid u;
  u.Data1 = static_cast<std::uint32_t>(r.next());
  for (auto &d : u.Data2) d = static_cast<std::uint16_t>(r.next());
  for (auto &d : u.Data3) d = static_cast<std::uint8_t>(r.next());
  if (r.chance(1, 3)) { u.Data1 >>= r.below(32); for (auto &d : u.Data2) d = static_cast<std::uint16_t>(d >> r.below(16)); for (auto &d : u.Data3) d = static_cast<std::uint8_t>(d >> r.below(8)); }
  return u;
}
std::string canonical(const Smp::Uuid &u) {
  char b[64];
  std::snprintf(b, sizeof b, "%08x-%04x-%04x-%04x-%02x%02x%02x%02x%02x%02x", u.Data1, u.Data2[0], u.Data2[1], u.Data2[2], u.Data3[0], u.Data3[1], u.Data3[2], u.Data3[3], u.Data3[4], u.Data3[5]);
  return b;
}
void flip(Smp::Uuid &u, unsigned bit) {
  if (bit < 32) u.Data1 ^= 1U << bit;
  else if (bit < 80) u.Data2[(bit - 32) / 16] = static_cast<std::uint16_t>(u.Data2[(bit - 32) / 16] ^ (1U << ((bit - 32) % 16)));
  else u.Data3[(bit - 80) / 8] = static_cast<std::uint8_t>(u.Data3[(bit - 80) / 8] ^ (1U << ((bit - 80) % 8)));
}
std::string print(const Smp::Uuid &u) { std::ostringstream o; o << u; return o.str(); }
void relations(const Smp::Uuid &a, const Smp::Uuid &b) {
  const std::string x = canonical(a), y = canonical(b);
  const bool eq = x == y;
  XV_COUNT("uuid pairs");
  XV_CHECK((a == b) == eq && (b == a) == eq, "equality", x << " and " << y << (eq ? " compare different" : " compare equal"));
  XV_CHECK((a != b) == !eq && (b != a) == !eq, "equality", "inequality of " << x << " and " << y);
  const bool lt = a < b, gt = b < a;
  XV_CHECK(eq ? !lt && !gt : lt != gt, "order", x << " and " << y << " are not ordered strictly");
  if (eq) XV_CHECK(std::hash<Smp::Uuid>()(a) == std::hash<Smp::Uuid>()(b), "hash", "equal UUIDs " << x << " hash differently");
}
} // namespace
XV_SCENARIO(C12, roundtrip, 4000, 200000) {
  auto &r = c.rng;
  const Smp::Uuid u = randomUuid(r);
  const std::string want = canonical(u), got = print(u);
  c.op(want);
  c.nontrivial = true;
  XV_EQ(got, want, "print", "printed form");
  std::string mixed = want;
  for (auto &ch : mixed) if (r.chance(1, 2)) ch = static_cast<char>(std::toupper(static_cast<unsigned char>(ch)));
  for (const std::string &s : {want, mixed}) {
    std::unique_ptr<char[]> exact(new char[s.size() + 1]);
    std::memcpy(exact.get(), s.c_str(), s.size() + 1);
    XV_COUNT("parsed");
    xv::quiet("parse", "parsing " + s, [&] { const Smp::Uuid p(exact.get()); XV_EQ(canonical(p), want, "parse", "parsing " << s); relations(p, u); XV_EQ(print(p), want, "print", "printing a parsed UUID"); });
  }
  const std::size_t h = std::hash<Smp::Uuid>()(u);
  for (unsigned b = 0; b < 128; ++b) {
    Smp::Uuid v = u;
    flip(v, b);
    relations(u, v);
    XV_CHECK(std::hash<Smp::Uuid>()(v) != h, "hash", "the hash does not depend on bit " << b);
  }
  const Smp::Uuid v = randomUuid(r), w = randomUuid(r);
  relations(u, v); relations(v, w); relations(u, w);
  if (u < v && v < w) XV_CHECK(u < w, "order", "the order is not transitive");
  if (w < v && v < u) XV_CHECK(w < u, "order", "the order is not transitive");
  // near pairs: two fields changed in opposite directions
  for (int n = 0; n < 60; ++n) {
    Smp::Uuid p = u, q = u;
    flip(p, static_cast<unsigned>(r.below(128))); flip(q, static_cast<unsigned>(r.below(128)));
    relations(p, q);
    Smp::Uuid s = u; flip(s, static_cast<unsigned>(r.below(128)));
    for (auto *t : {&p, &q, &s}) (void)t;
    if (p < q && q < s) XV_CHECK(p < s, "order", "the order is not transitive");
    if (s < q && q < p) XV_CHECK(s < p, "order", "the order is not transitive");
  }
}
XV_SCENARIO(C12, malformed, 6000, 300000) {
  auto &r = c.rng;
  std::string s = canonical(randomUuid(r));
  const std::size_t p = r.below(s.size());
  switch (r.below(7)) {
  case 0: s[p] = static_cast<char>(s[p] == '-' ? r.pick<int>({'0', 'a', ' ', '_'}) : r.pick<int>({'-', 'g', 'G', ' ', '/', ':', '@', '`', 'x', '+', 0xe9, 1})); break;
  case 1: s.erase(p); break;
  case 2: s.insert(p, 1, r.pick({'0', '-', 'f', ' '})); break;
  case 3: s.erase(p, 1); break;
  case 4: s = s + r.pick<const char *>({"0", " ", "-", "\n", "}"}); break;
  case 5: s = r.pick<const char *>({" ", "{", "0x", "urn:uuid:"}) + s; break;
  default: { const std::size_t q = r.below(s.size()); if (s[p] == '-' || s[q] == '-') std::swap(s[p], s[q]); break; }
  }
  bool good = s.size() == 36;
  for (std::size_t i = 0; good && i < 36; ++i)
    good = (i == 8 || i == 13 || i == 18 || i == 23) ? s[i] == '-' : (s[i] >= '0' && s[i] <= '9') || (s[i] >= 'a' && s[i] <= 'f') || (s[i] >= 'A' && s[i] <= 'F');
  c.op(s);
  c.nontrivial = !good;
  std::unique_ptr<char[]> exact(new char[s.size() + 1]); // an over-read is reported
  std::memcpy(exact.get(), s.c_str(), s.size() + 1);
  std::string error;
  Smp::Uuid u;
  try { u = Smp::Uuid(exact.get()); } catch (const Smp::Exception &e) { error = e.GetName(); }
  if (good) { XV_CHECK(error.empty() && canonical(u) == s, "parse", show(s) << " was refused or changed"); return; }
  XV_COUNT("malformed texts");
  XV_EQ(error, std::string("InvalidUUID"), "malformed", "malformed text " << show(s) << " was not rejected");
  if (c.index == 0) { error.clear(); try { Smp::Uuid n(static_cast<const char *>(nullptr)); } catch (const Smp::Exception &e) { error = e.GetName(); } XV_EQ(error, std::string("InvalidUUID"), "malformed", "a null text was not rejected"); }
}
// ---------------------------------------------------------------- C13
namespace {
constexpr std::int64_t NS = 1000000000LL, DAY = 86400 * NS;
std::int64_t floorDiv(std::int64_t a, std::int64_t b) { return a / b - (a % b < 0 ? 1 : 0); }
std::string hms(std::int64_t ns) { // ns >= 0
  char b[64];
  std::snprintf(b, sizeof b, "%02lld:%02lld:%02lld.%09lld", static_cast<long long>(ns / (3600 * NS)), static_cast<long long>(ns / (60 * NS) % 60), static_cast<long long>(ns / NS % 60), static_cast<long long>(ns % NS));
  return b;
}
void civil(std::int64_t days, std::int64_t &y, unsigned &m, unsigned &d) { // by stepping, independent of closed formulas
  y = 1970;
  auto leap = [](std::int64_t yy) { return (yy % 4 == 0 && yy % 100 != 0) || yy % 400 == 0; };
  while (days < 0) { --y; days += leap(y) ? 366 : 365; }
  while (days >= (leap(y) ? 366 : 365)) { days -= leap(y) ? 366 : 365; ++y; }
  const int len[] = {31, leap(y) ? 29 : 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
  m = 0;
  while (days >= len[m]) days -= len[m++];
  d = static_cast<unsigned>(days) + 1; ++m;
}
std::string dateText(std::int64_t smp) { // nanoseconds since 2000-01-01T12:00
  const std::int64_t unixDay = floorDiv(smp + DAY / 2, DAY) + 10957;
  const std::int64_t tod = smp + DAY / 2 - floorDiv(smp + DAY / 2, DAY) * DAY;
  std::int64_t y; unsigned m, d;
  civil(unixDay, y, m, d);
  char b[64];
  std::snprintf(b, sizeof b, "%04lld-%02u-%02u ", static_cast<long long>(y), m, d);
  return b + hms(tod);
}
std::int64_t spread(xv::Rng &r, std::int64_t max) { // many magnitudes and round numbers
  std::int64_t v = static_cast<std::int64_t>(r.next() >> (1 + r.below(62)));
  if (r.chance(1, 3)) { const std::int64_t u = r.pick<std::int64_t>({1, 1000, 1000000, NS, 60 * NS, 3600 * NS, DAY}); v = (v % (max / u + 1)) * u + (r.chance(1, 2) ? r.range(-1, 1) : 0); }
  v %= max + 1;
  return v < 0 ? -v : v;
}
} // namespace
XV_SCENARIO(C13, durations, 8000, 500000) {
  auto &r = c.rng;
  const std::int64_t v = spread(r, 100LL * 3600 * NS - 1);
  const Xsmp::Duration d{v};
  const std::string want = hms(v);
  c.op(want);
  c.nontrivial = true;
  XV_COUNT("durations");
  XV_EQ(d.format(), want, "print", "duration of " << v << " ns");
  XV_EQ(d.format(std::string("%T")), want, "print", "duration of " << v << " ns, format text");
  std::ostringstream a, b, e;
  a << d; d.to_stream(b); d.to_stream(e, std::string("%T"));
  XV_EQ(a.str(), want, "print", "duration of " << v << " ns to a stream");
  XV_EQ(b.str(), want, "print", "duration of " << v << " ns to a stream");
  XV_EQ(e.str(), want, "print", "duration of " << v << " ns to a stream");
  XV_EQ(static_cast<Smp::Duration>(Xsmp::Duration(std::string_view(want))), v, "parse", "parsing " << want);
  std::istringstream in(want + " " + want);
  XV_EQ(static_cast<Smp::Duration>(Xsmp::Duration(in)), v, "parse", "parsing " << want << " from a stream");
  // a text that is no duration gives a defined value ("%T" is not tried: the date library itself computes with an
  // uninitialised second there)
  std::string bad = r.pick<const char *>({"", "x", "12", "-", "aa:bb", ":::", "12:", "zz:00", "12:x"});
  XV_EQ(static_cast<Smp::Duration>(Xsmp::Duration(std::string_view(bad), "%H:%M")), 0, "parse-garbage", "parsing " << show(bad));
  XV_COUNT("unparsable texts");
  // decomposition and recomposition
  using D = Xsmp::Duration;
  XV_EQ(static_cast<Smp::Duration>(D::hours(v / (3600 * NS))) + D::minutes(v / (60 * NS) % 60) + D::seconds(v / NS % 60) + D::nanoseconds(v % NS), v, "compose", "recomposing " << want);
  XV_EQ(static_cast<Smp::Duration>(D::milliseconds(v / 1000000)) + D::microseconds(v / 1000 % 1000) + D::nanoseconds(v % 1000), v, "compose", "recomposing " << want);
  XV_EQ(static_cast<Smp::Duration>(D::weeks(v / (7 * DAY))) + D::days(v / DAY % 7) + D::nanoseconds(v % DAY), v, "compose", "recomposing " << want);
}
XV_SCENARIO(C13, lengths, 8000, 500000) { // any length, also negative: sign, hours and the rest of the magnitude
  auto &r = c.rng;
  std::int64_t v = r.chance(1, 4) ? r.pick<std::int64_t>({INT64_MIN, INT64_MIN + 1, INT64_MAX, INT64_MAX - 1, -1, 0, -NS, -3600 * NS, 100LL * 3600 * NS}) : spread(r, INT64_MAX - 1);
  if (v > 0 && r.chance(1, 2)) v = -v;
  const std::uint64_t m = v < 0 ? 0 - static_cast<std::uint64_t>(v) : static_cast<std::uint64_t>(v), s = m / NS;
  char b[64];
  std::snprintf(b, sizeof b, "%s%02llu:%02llu:%02llu.%09llu", v < 0 ? "-" : "", static_cast<unsigned long long>(s / 3600), static_cast<unsigned long long>(s / 60 % 60),
                static_cast<unsigned long long>(s % 60), static_cast<unsigned long long>(m % NS));
  c.op(b);
  c.nontrivial = true;
  std::ostringstream a, e;
  a << Xsmp::Duration{v} << '.';
  XV_EQ(a.str(), std::string(b) + '.', "print-any", "duration of " << v << " ns to a stream");
  e << Smp::AnySimple{Smp::PrimitiveTypeKind::PTK_Duration, v} << '.';
  XV_CHECK(e.str().find(b) != std::string::npos, "print-any", "value of kind Duration, " << v << " ns, to a stream: " << e.str() << " instead of " << b);
  XV_COUNT(v < 0 ? "negative lengths" : "lengths");
}
XV_SCENARIO(C13, dates, 8000, 500000) {
  auto &r = c.rng;
  // printed over the whole range of nanoseconds: 1707-09-22 to 2292-04-10; parsed and
  // converted where the system clock's nanoseconds represent the date: to 2262-04-11
  const std::int64_t lo = INT64_MIN, hi = INT64_MAX - DAY, clock = INT64_MAX - 946728000LL * NS;
  std::int64_t v = r.chance(1, 2) ? static_cast<std::int64_t>(r.next()) : (r.chance(1, 2) ? 1 : -1) * spread(r, INT64_MAX / 4);
  if (r.chance(1, 6)) v = (r.range(-106000, 80000) * DAY) + DAY / 2 + r.range(-2, 2);
  if (r.chance(1, 10)) v = r.pick<std::int64_t>({0, -DAY / 2, DAY / 2, -1, 1, 5097600 * NS, -946728000LL * NS, hi - 1, clock - 1, clock, clock + 1, -6000000000LL * NS});
  if (v > hi || v < lo + 400 * DAY) v = 0;
  const Xsmp::DateTime d{v};
  const std::string want = dateText(v);
  c.op(want);
  c.nontrivial = true;
  XV_COUNT("dates");
  XV_EQ(d.format(), want, "print", "date-time " << v);
  XV_EQ(d.format(std::string("%F %T")), want, "print", "date-time " << v);
  std::ostringstream a, b;
  a << d; d.to_stream(b);
  XV_EQ(a.str(), want, "print", "date-time " << v << " to a stream");
  XV_EQ(b.str(), want, "print", "date-time " << v << " to a stream");
  if (v > clock) XV_COUNT("dates beyond the clock");
  if (v > lo + 946728000LL * NS && v <= clock) { // (the parser counts from 1970)
    if (v < clock - DAY) { // (the parser adds one before it rounds)
      XV_EQ(static_cast<Smp::DateTime>(Xsmp::DateTime(std::string_view(want))), v, "parse", "parsing " << want);
      std::istringstream in(want);
      XV_EQ(static_cast<Smp::DateTime>(Xsmp::DateTime(in)), v, "parse", "parsing " << want << " from a stream");
    }
    const auto tp = static_cast<std::chrono::time_point<std::chrono::system_clock, std::chrono::nanoseconds>>(d);
    XV_EQ(tp.time_since_epoch().count(), v + 946728000LL * NS, "clock", "time point of " << want);
    XV_EQ(static_cast<Smp::DateTime>(Xsmp::DateTime(tp)), v, "clock", "date-time of a time point");
    Xsmp::DateTime e; e = tp;
    XV_EQ(static_cast<Smp::DateTime>(e), v, "clock", "assigning a time point");
    const auto sec = static_cast<std::chrono::time_point<std::chrono::system_clock, std::chrono::seconds>>(d);
    XV_EQ(sec.time_since_epoch().count(), (v + 946728000LL * NS) / NS, "clock", "whole seconds of " << want);
  }
}
XV_SCENARIO(C13, arithmetic, 8000, 500000) {
  auto &r = c.rng;
  const std::int64_t lim = INT64_MAX / 4;
  auto pick = [&] { return (r.chance(1, 2) ? 1 : -1) * spread(r, lim); };
  const std::int64_t x = pick(), y = r.chance(1, 6) ? x : pick(), m = r.range(-3, 3);
  c.op(std::to_string(x) + " " + std::to_string(y));
  c.nontrivial = true;
  using D = Xsmp::Duration;
  using T = Xsmp::DateTime;
  const std::chrono::nanoseconds yn(y);
  const std::chrono::milliseconds ym(y / 1000000);
  const std::int64_t ymn = ym.count() * 1000000;
#define SAME(what, expr, want) XV_EQ(static_cast<std::int64_t>(expr), static_cast<std::int64_t>(want), "arithmetic", what << " of " << x << " and " << y)
  XV_COUNT("arithmetic");
  auto mut = [&](auto f) { D d{x}; f(d); return static_cast<std::int64_t>(d); };
  SAME("unary minus", -D{x}, -x); SAME("unary plus", +D{x}, x);
  SAME("+", D{x} + D{y}, x + y); SAME("-", D{x} - D{y}, x - y);
  SAME("+=", mut([&](D &d) { d += D{y}; }), x + y); SAME("-=", mut([&](D &d) { d -= D{y}; }), x - y);
  SAME("+= int", mut([&](D &d) { d += y; }), x + y); SAME("-= int", mut([&](D &d) { d -= y; }), x - y);
  SAME("+= chrono", mut([&](D &d) { d += yn; }), x + y); SAME("-= chrono", mut([&](D &d) { d -= yn; }), x - y);
  SAME("+= milliseconds", mut([&](D &d) { d += ym; }), x + ymn); SAME("-= milliseconds", mut([&](D &d) { d -= ym; }), x - ymn);
  SAME("*=", mut([&](D &d) { d *= m; }), x * m);
  if (y) { SAME("/=", mut([&](D &d) { d /= y; }), x / y); SAME("%=", mut([&](D &d) { d %= y; }), x % y); }
  SAME("&=", mut([&](D &d) { d &= y; }), x & y); SAME("|=", mut([&](D &d) { d |= y; }), x | y); SAME("^=", mut([&](D &d) { d ^= y; }), x ^ y);
  const int sh = static_cast<int>(r.below(8));
  SAME(">>=", mut([&](D &d) { d >>= sh; }), x >> sh);
  if (x >= 0 && x < (INT64_MAX >> 8)) SAME("<<=", mut([&](D &d) { d <<= sh; }), x << sh);
  SAME("++", mut([&](D &d) { if (++d != x + 1) d = D{0}; }), x + 1); SAME("--", mut([&](D &d) { if (--d != x - 1) d = D{0}; }), x - 1);
  SAME("post ++", mut([&](D &d) { if (d++ != x) d = D{0}; }), x + 1); SAME("post --", mut([&](D &d) { if (d-- != x) d = D{0}; }), x - 1);
  SAME("assign chrono", mut([&](D &d) { d = yn; }), y); SAME("assign ms", mut([&](D &d) { d = ym; }), ymn); SAME("assign int", mut([&](D &d) { d = y; }), y);
  SAME("assign int16", mut([&](D &d) { d = static_cast<std::int16_t>(y); }), static_cast<std::int16_t>(y)); SAME("assign small unsigned", mut([&](D &d) { d = static_cast<std::uint32_t>(y); }), static_cast<std::uint32_t>(y));
  SAME("construct chrono", D{ym}, ymn); SAME("construct ns", D{yn}, y);
  D dx{x};
  SAME("to chrono", static_cast<std::chrono::nanoseconds>(dx).count(), x); SAME("to seconds", static_cast<std::chrono::seconds>(dx).count(), x / NS);
#define REL(op) \
  XV_CHECK((D{x} op D{y}) == (x op y) && (D{x} op y) == (x op y) && (D{x} op yn) == (x op y) && (D{x} op ym) == (x op ymn) && (yn op D{x}) == (y op x) && (ym op D{x}) == (ymn op x), \
           "comparison", x << " " #op " " << y); \
  XV_CHECK((T{x} op T{y}) == (x op y), "comparison", "date-times " << x << " " #op " " << y);
  REL(==) REL(!=) REL(<) REL(<=) REL(>) REL(>=)
  auto mutt = [&](auto f) { T d{x}; f(d); return static_cast<std::int64_t>(d); };
  SAME("date + duration", T{x} + y, x + y); SAME("duration + date", static_cast<Smp::Duration>(y) + T{x}, x + y); SAME("date - duration", T{x} - y, x - y);
  SAME("date + ms", T{x} + ym, x + ymn); SAME("ms + date", ym + T{x}, x + ymn); SAME("date - ms", T{x} - ym, x - ymn);
  SAME("date +=", mutt([&](T &d) { d += y; }), x + y); SAME("date -=", mutt([&](T &d) { d -= y; }), x - y);
  SAME("date += ms", mutt([&](T &d) { d += ym; }), x + ymn); SAME("date -= ms", mutt([&](T &d) { d -= ym; }), x - ymn);
  SAME("date ++", mutt([&](T &d) { if (++d != T{x + 1}) d = T{0}; }), x + 1); SAME("date --", mutt([&](T &d) { if (--d != T{x - 1}) d = T{0}; }), x - 1);
  SAME("date post ++", mutt([&](T &d) { if (d++ != T{x}) d = T{0}; }), x + 1); SAME("date post --", mutt([&](T &d) { if (d-- != T{x}) d = T{0}; }), x - 1);
  SAME("date = int", mutt([&](T &d) { d = static_cast<Smp::DateTime>(y); }), y); SAME("date = ms", mutt([&](T &d) { d = ym; }), ymn); SAME("date of ms", T{ym}, ymn);
  const auto now = std::chrono::system_clock::now().time_since_epoch().count() - 946728000LL * NS;
  const auto seen = static_cast<Smp::DateTime>(T::now());
  XV_CHECK(seen >= now && seen < now + 600 * NS, "clock", "now() is " << seen << ", the system clock shows " << now);
}
// ---------------------------------------------------------------- C45
namespace {
template <typename E> void enumeration(Case &c, const char *type, const std::vector<std::pair<E, const char *>> &literals) {
  for (int n = 0; n < 12; ++n) {
    const std::size_t l = c.rng.below(literals.size() + 1);
    int v = static_cast<int>(c.rng.pick<std::int64_t>({-1, 16, 42, 1000, INT32_MIN, INT32_MAX, static_cast<std::int32_t>(c.rng.next())}));
    std::string want;
    if (l < literals.size()) { v = static_cast<int>(literals[l].first); want = literals[l].second; }
    else {
      for (auto &x : literals) if (static_cast<int>(x.first) == v) want = x.second;
      if (want.empty()) { want = std::string("Unknown ::Smp::") + type + "(" + std::to_string(v) + ")"; XV_COUNT("undefined literals"); }
    }
    std::ostringstream o;
    o << static_cast<E>(v) << '.' << static_cast<E>(v);
    XV_COUNT("literals");
    c.op(want);
    XV_EQ(o.str(), want + "." + want, "literal", type << " " << v);
  }
}
std::string charText(char ch) {
  static const std::pair<char, const char *> esc[] = {{'\'', "\\'"}, {'?', "\\?"}, {'\\', "\\\\"}, {7, "\\a"}, {8, "\\b"}, {12, "\\f"}, {10, "\\n"}, {13, "\\r"}, {9, "\\t"}, {11, "\\v"}};
  for (auto &e : esc) if (e.first == ch) return std::string("'") + e.second + "'";
  if (ch >= 32 && ch < 127) return std::string("'") + ch + "'";
  char b[16];
  std::snprintf(b, sizeof b, "'\\%o'", static_cast<unsigned>(ch) & 0xFF);
  return b;
}
template <typename... A> std::string fmt(const char *f, A... a) { char b[400]; std::snprintf(b, sizeof b, f, a...); return b; }
} // namespace
XV_SCENARIO(C45, literals, 200, 4000) {
  using namespace Smp;
  c.nontrivial = true;
  enumeration<ViewKind>(c, "ViewKind", {{ViewKind::VK_None, "None"}, {ViewKind::VK_Debug, "Debug"}, {ViewKind::VK_Expert, "Expert"}, {ViewKind::VK_All, "All"}});
  enumeration<AccessKind>(c, "AccessKind", {{AccessKind::AK_ReadOnly, "ReadOnly"}, {AccessKind::AK_ReadWrite, "ReadWrite"}, {AccessKind::AK_WriteOnly, "WriteOnly"}});
  enumeration<ComponentStateKind>(c, "ComponentStateKind", {{ComponentStateKind::CSK_Created, "Created"}, {ComponentStateKind::CSK_Publishing, "Publishing"}, {ComponentStateKind::CSK_Configured, "Configured"}, {ComponentStateKind::CSK_Connected, "Connected"}, {ComponentStateKind::CSK_Disconnected, "Disconnected"}});
  using S = SimulatorStateKind;
  enumeration<S>(c, "SimulatorStateKind", {{S::SSK_Building, "Building"}, {S::SSK_Connecting, "Connecting"}, {S::SSK_Initialising, "Initialising"}, {S::SSK_Standby, "Standby"}, {S::SSK_Executing, "Executing"}, {S::SSK_Storing, "Storing"}, {S::SSK_Restoring, "Restoring"}, {S::SSK_Reconnecting, "Reconnecting"}, {S::SSK_Exiting, "Exiting"}, {S::SSK_Aborting, "Aborting"}});
  using T = Services::TimeKind;
  enumeration<T>(c, "Services::TimeKind", {{T::TK_SimulationTime, "SimulationTime"}, {T::TK_MissionTime, "MissionTime"}, {T::TK_EpochTime, "EpochTime"}, {T::TK_ZuluTime, "ZuluTime"}});
  using P = Publication::ParameterDirectionKind;
  enumeration<P>(c, "Publication::ParameterDirectionKind", {{P::PDK_In, "In"}, {P::PDK_Out, "Out"}, {P::PDK_InOut, "InOut"}, {P::PDK_Return, "Return"}});
  std::vector<std::pair<K, const char *>> kinds;
  for (int k = 0; k < 16; ++k) kinds.emplace_back(static_cast<K>(k), kindName(static_cast<K>(k)));
  enumeration<K>(c, "PrimitiveTypeKind", kinds);
}
XV_SCENARIO(C45, values, 4000, 200000) {
  auto &r = c.rng;
  c.nontrivial = true;
  std::ostringstream o; // several values on one stream
  std::string want;
  bool plain = true; // the stream has its default format
  if (r.chance(1, 3)) {
    plain = false;
    if (r.chance(1, 2)) o << std::hex;
    if (r.chance(1, 2)) o << std::uppercase;
    if (r.chance(1, 2)) o << std::left;
    if (r.chance(1, 2)) o << std::setfill('*');
    if (r.chance(1, 2)) o << std::boolalpha;
    XV_COUNT("formatted streams");
  }
  const auto flags = o.flags(); const char fill = o.fill();
  std::vector<std::string> texts;
  const std::uint64_t n = 1 + r.below(12);
  for (std::uint64_t k = 0; k < n; ++k) {
    std::string w, s;
    bool uuid = false, null = false;
    AnySimple a;
    const K kind = plain ? static_cast<K>(r.below(16)) : r.pick<K>({K::PTK_None, K::PTK_Char8, K::PTK_Bool, K::PTK_String8, K::PTK_DateTime, K::PTK_Duration});
    switch (r.chance(1, 6) ? static_cast<K>(-1) : kind) {
    case K::PTK_None: w = "None"; break;
    case K::PTK_Char8: { const char v = static_cast<char>(r.below(256)); a.SetValue(kind, v); w = charText(v); break; }
    case K::PTK_Bool: { const bool v = r.chance(1, 2); a.SetValue(kind, v); w = v ? "true" : "false"; break; }
    case K::PTK_Int8: { auto v = intValue<std::int8_t>(r); a.SetValue(kind, v); w = fmt("%di8", static_cast<int>(v)); break; }
    case K::PTK_UInt8: { auto v = intValue<std::uint8_t>(r); a.SetValue(kind, v); w = fmt("%uu8", static_cast<unsigned>(v)); break; }
    case K::PTK_Int16: { auto v = intValue<std::int16_t>(r); a.SetValue(kind, v); w = fmt("%di16", static_cast<int>(v)); break; }
    case K::PTK_UInt16: { auto v = intValue<std::uint16_t>(r); a.SetValue(kind, v); w = fmt("%uu16", static_cast<unsigned>(v)); break; }
    case K::PTK_Int32: { auto v = intValue<std::int32_t>(r); a.SetValue(kind, v); w = fmt("%di32", v); break; }
    case K::PTK_UInt32: { auto v = intValue<std::uint32_t>(r); a.SetValue(kind, v); w = fmt("%uu32", v); break; }
    case K::PTK_Int64: { auto v = intValue<std::int64_t>(r); a.SetValue(kind, v); w = fmt("%lldi64", static_cast<long long>(v)); break; }
    case K::PTK_UInt64: { auto v = intValue<std::uint64_t>(r); a.SetValue(kind, v); w = fmt("%lluu64", static_cast<unsigned long long>(v)); break; }
    case K::PTK_Float32: { auto v = singleValue(r); a.SetValue(kind, v); w = fmt("%gf32", static_cast<double>(v)); break; }
    case K::PTK_Float64: { auto v = realValue(r); a.SetValue(kind, v); w = fmt("%gf64", v); break; }
    case K::PTK_Duration: { const std::int64_t v = spread(r, 100LL * 3600 * NS - 1); a.SetValue(kind, v); w = "\"" + hms(v) + "\""; break; }
    case K::PTK_DateTime: { const std::int64_t v = (r.chance(1, 2) ? 1 : -1) * spread(r, INT64_MAX / 4); a.SetValue(kind, v); w = "\"" + dateText(v) + "\""; break; }
    case K::PTK_String8:
      if (r.chance(1, 5)) { a.SetValue(kind, static_cast<Smp::String8>(nullptr)); XV_COUNT("null texts"); null = true; break; }
      s = randomText(r); a.SetValue(kind, s.c_str()); w = "\"" + s + "\""; break;
    default: { const Smp::Uuid u = randomUuid(r); o << u; XV_COUNT("uuids"); w = canonical(u); uuid = true; break; }
    }
    const auto before = o.str().size();
    if (!uuid) { o << a; XV_COUNT("values"); }
    if (null) { // any text that is not that of a text
      w = o.str().substr(before);
      XV_CHECK(!w.empty() && w[0] != '"', "null", "a null text prints as " << show(w));
    }
    XV_CHECK(o.good(), "stream", "the stream fails after " << show(w));
    want += w;
    c.op(show(w));
    XV_EQ(o.str(), want, "value", "value of kind " << kindName(a.GetType()));
    XV_CHECK(o.flags() == flags && o.fill() == fill, "format", "printing " << show(w) << " changes the format of the stream");
  }
}
// ---------------------------------------------------------------- C14
namespace {
bool legalName(const std::string &s) {
  auto alpha = [](char ch) { return (ch >= 'a' && ch <= 'z') || (ch >= 'A' && ch <= 'Z'); };
  auto digit = [](char ch) { return ch >= '0' && ch <= '9'; };
  if (s.empty()) return false;
  if (alpha(s[0])) {
    for (char ch : s) if (!alpha(ch) && !digit(ch) && ch != '_') return false;
    return true;
  }
  if (s[0] != '[' || s.size() < 3 || s.back() != ']') return false;
  for (std::size_t i = 1; i + 1 < s.size(); ++i) if (!digit(s[i])) return false;
  return true;
}
void name(const std::string &s, Smp::IObject *parent) {
  std::unique_ptr<char[]> exact(new char[s.size() + 1]);
  std::memcpy(exact.get(), s.c_str(), s.size() + 1);
  std::unique_ptr<std::string> desc(new std::string("about " + s));
  std::unique_ptr<Xsmp::Object> o;
  std::string refused;
  bool threw = false;
  const Smp::IObject *sender = nullptr;
  try { o = std::make_unique<Xsmp::Object>(exact.get(), desc->c_str(), parent); }
  catch (const Smp::InvalidObjectName &e) { threw = true; refused = e.GetInvalidName(); sender = e.GetSender(); }
  const bool ok = legalName(s);
  XV_COUNT("names");
  XV_CHECK(threw != ok, "name", "the name " << show(s) << (ok ? " was refused" : " was accepted"));
  if (threw) { XV_COUNT("refused names"); XV_EQ(refused, s, "refused-name", "name carried by the error"); XV_CHECK(sender == parent, "refused-name", "the error does not carry its sender"); return; }
  std::memset(exact.get(), '#', s.size());
  const std::string d = *desc;
  desc.reset(); exact.reset();
  XV_EQ(std::string(o->GetName()), s, "object", "name of a created object");
  XV_EQ(std::string(o->GetDescription()), d, "object", "description of a created object");
  XV_CHECK(o->GetParent() == parent, "object", "parent of a created object");
}
} // namespace
XV_SCENARIO(C14, short, 11, 11) { // every text of up to 4 characters over an alphabet that covers each class
  static const char abc[] = {'a', 'Z', '0', '9', '_', '[', ']', ' ', '.', static_cast<char>(0xe9), '/'};
  Xsmp::Object parent("parent");
  c.op(std::string("texts starting with ") + show(std::string(1, abc[c.index % 11])));
  c.nontrivial = true;
  std::function<void(std::string)> rec = [&](std::string s) {
    name(s, &parent);
    if (s.size() < (c.thorough ? 5U : 4U)) for (char ch : abc) rec(s + ch);
  };
  rec(std::string(1, abc[c.index % 11]));
  if (c.index == 0) {
    name("", nullptr); name("", &parent);
    std::string refused;
    try { Xsmp::Object o(nullptr, "d", &parent); } catch (const Smp::InvalidObjectName &e) { refused = e.GetInvalidName(); }
    XV_EQ(refused, std::string("<null>"), "refused-name", "a null name");
  }
}
XV_SCENARIO(C14, random, 20000, 900000) {
  auto &r = c.rng;
  Xsmp::Object grand("g"), parent("p", "", &grand);
  std::string s;
  switch (r.below(4)) {
  case 0: s = std::string(1, static_cast<char>(r.pick<int>({'a', 'b', 'Q', 'z', 'A', 'Z'}))); break;
  case 1: s = "["; break;
  case 2: s = std::string(1, static_cast<char>(1 + r.below(255))); break;
  default: break;
  }
  const std::size_t n = r.pick<std::size_t>({0, 1, 2, 5, 12, 40, 300});
  const bool mostly = r.chance(3, 4);
  for (std::size_t i = 0; i < n; ++i)
    s += static_cast<char>(s.size() && s[0] == '[' && mostly ? '0' + r.below(10) : mostly ? r.pick<int>({'a', 'z', 'A', 'Z', '0', '9', '_', 'm', '5'}) : static_cast<int>(1 + r.below(255)));
  if (s.size() && s[0] == '[' && r.chance(2, 3)) s += "]";
  if (r.chance(1, 6) && !s.empty()) s[r.below(s.size())] = static_cast<char>(1 + r.below(255));
  if (r.chance(1, 10)) s += r.pick<const char *>({"[0]", "[0][1]", "]", "_", "[", ".b", " "});
  c.op(show(s));
  c.nontrivial = true;
  name(s, r.chance(1, 3) ? nullptr : &parent);
}
