// Oracle for conversions between typed values: what a value of any kind holds,
// what may be stored under each kind and what may be read back as each type.
#ifndef ANYVAL_H_
#define ANYVAL_H_
#include "xv.h"
#include <Smp/AnySimple.h>
#include <Smp/InvalidAnyType.h>
#include <algorithm>
#include <cfloat>
#include <cmath>
#include <limits>
#include <optional>
using K = Smp::PrimitiveTypeKind;
using Smp::AnySimple;
namespace {
__extension__ typedef __int128 I128;
bool isIntKind(K k) { return (k >= K::PTK_Int8 && k <= K::PTK_UInt64) || k == K::PTK_Duration || k == K::PTK_DateTime; }
std::pair<I128, I128> intRange(K k) {
  switch (k) {
  case K::PTK_Int8: return {-128, 127};
  case K::PTK_UInt8: return {0, 255};
  case K::PTK_Int16: return {-32768, 32767};
  case K::PTK_UInt16: return {0, 65535};
  case K::PTK_Int32: return {INT32_MIN, INT32_MAX};
  case K::PTK_UInt32: return {0, UINT32_MAX};
  case K::PTK_UInt64: return {0, UINT64_MAX};
  default: return {INT64_MIN, INT64_MAX};
  }
}
/// what a value holds, in a form independent of its representation
struct Held {
  enum { None, Int, Real, Bool, Char, Text } what = None;
  I128 i = 0;
  double d = 0;
  bool single = false; // the real value is a Float32
  bool time = false; // the integer is a duration or date-time: not readable as a real number
  std::optional<std::string> s;
};
const char *kindName(K k) {
  static const char *n[] = {"None", "Char8", "Bool", "Int8", "UInt8", "Int16", "UInt16", "Int32", "UInt32", "Int64", "UInt64", "Float32", "Float64", "Duration", "DateTime", "String8"};
  return static_cast<unsigned>(k) < 16 ? n[static_cast<int>(k)] : "undefined kind";
}
std::string show128(I128 v) {
  if (v == 0) return "0";
  std::string s; bool neg = v < 0;
  while (v != 0) { int d = static_cast<int>(v % 10); s += static_cast<char>('0' + (d < 0 ? -d : d)); v /= 10; }
  if (neg) s += '-';
  std::reverse(s.begin(), s.end());
  return s;
}
bool singleHolds(double v) { // a double may be rounded to the nearest single below the double's own resolution
  const float f = static_cast<float>(v);
  return std::isnan(v) || std::isinf(v) || (!std::isinf(f) && std::fabs(v - static_cast<double>(f)) <= DBL_EPSILON);
}
template <typename F> bool intFits(I128 v) { // does the float type represent the integer exactly?
  const F f = static_cast<F>(v);
  return static_cast<I128>(f) == v;
}
/// expectation for reading a held value as native type T; nullopt: must be refused
template <typename T> bool readable(const Held &h, T &out) {
  if constexpr (std::is_same_v<T, bool>) {
    switch (h.what) {
    case Held::Int: out = h.i != 0; return true;
    case Held::Char: out = h.i != 0; return true;
    case Held::Bool: out = h.i != 0; return true;
    case Held::Text: out = h.s.has_value(); return true;
    default: return false;
    }
  } else if constexpr (std::is_same_v<T, char>) {
    if (h.what != Held::Char) return false;
    out = static_cast<char>(h.i);
    return true;
  } else if constexpr (std::is_floating_point_v<T>) {
    if (h.what == Held::Int) { out = static_cast<T>(h.i); return !h.time && intFits<T>(h.i); }
    if (h.what == Held::Real) { out = static_cast<T>(h.d); return std::is_same_v<T, double> || h.single || singleHolds(h.d); }
    return false;
  } else {
    if (h.what != Held::Int || h.i < static_cast<I128>(std::numeric_limits<T>::min()) || h.i > static_cast<I128>(std::numeric_limits<T>::max())) return false;
    out = static_cast<T>(h.i);
    return true;
  }
}
template <typename T> std::string text(T v) {
  std::ostringstream o;
  if constexpr (std::is_same_v<T, char>) o << "char " << static_cast<int>(v);
  else if constexpr (sizeof(T) == 1) o << static_cast<int>(v);
  else o << std::setprecision(20) << v;
  return o.str();
}
template <typename T> void readAs(const AnySimple &a, const Held &h, const char *as, const std::string &origin) {
  T want{};
  const bool ok = readable<T>(h, want);
  bool threw = false;
  T got{};
  try { got = static_cast<T>(a); } catch (const Smp::InvalidAnyType &) { threw = true; }
  XV_COUNT("reads");
  if (!ok) XV_COUNT("refused reads");
  XV_CHECK(threw != ok, "read", origin << " read as " << as << (ok ? " was refused" : " was accepted: " + text(got)));
  if (ok) {
    bool same = got == want;
    if constexpr (std::is_floating_point_v<T>) same = same || (std::isnan(got) && std::isnan(want));
    XV_CHECK(same, "read", origin << " read as " << as << " gave " << text(got) << ", expected " << text(want));
  }
}
void readAll(const AnySimple &a, K kind, const Held &h, const std::string &origin) {
  XV_CHECK(a.GetType() == kind, "kind", origin << " has kind " << kindName(a.GetType()) << ", expected " << kindName(kind));
  readAs<bool>(a, h, "Bool", origin); readAs<char>(a, h, "Char8", origin);
  readAs<std::int8_t>(a, h, "Int8", origin); readAs<std::uint8_t>(a, h, "UInt8", origin);
  readAs<std::int16_t>(a, h, "Int16", origin); readAs<std::uint16_t>(a, h, "UInt16", origin);
  readAs<std::int32_t>(a, h, "Int32", origin); readAs<std::uint32_t>(a, h, "UInt32", origin);
  readAs<std::int64_t>(a, h, "Int64", origin); readAs<std::uint64_t>(a, h, "UInt64", origin);
  readAs<float>(a, h, "Float32", origin); readAs<double>(a, h, "Float64", origin);
  bool threw = false;
  Smp::String8 s = nullptr;
  try { s = static_cast<Smp::String8>(a); } catch (const Smp::InvalidAnyType &) { threw = true; }
  XV_CHECK(threw != (h.what == Held::Text), "read", origin << " read as String8 " << (threw ? "was refused" : "was accepted"));
  if (!threw) XV_CHECK((s != nullptr) == h.s.has_value() && (!s || *h.s == s), "read", origin << " read as String8 gave another text");
}
const std::vector<I128> &edges() {
  static const std::vector<I128> v = [] {
    std::vector<I128> o{0};
    for (int b = 0; b <= 64; ++b)
      for (int d = -2; d <= 2; ++d) { o.push_back((static_cast<I128>(1) << b) + d); o.push_back(-(static_cast<I128>(1) << b) + d); }
    for (int b : {25, 31, 40, 54, 60, 63}) { // just around what a float can represent
      const int f = b - 24, g = b - 53;
      if (f > 0) { o.push_back((static_cast<I128>(1) << b) + (static_cast<I128>(1) << f)); o.push_back((static_cast<I128>(1) << b) + (static_cast<I128>(1) << (f - 1 > 0 ? f - 1 : 0))); }
      if (g > 0) { o.push_back((static_cast<I128>(1) << b) + (static_cast<I128>(1) << g)); o.push_back((static_cast<I128>(1) << b) + (static_cast<I128>(1) << (g - 1 > 0 ? g - 1 : 0))); }
    }
    o.push_back((static_cast<I128>(0xffffff) << 40)); o.push_back((static_cast<I128>(0x1fffffffffffffLL) << 11)); o.push_back((static_cast<I128>(0x1fffffffffffffLL) << 10));
    return o;
  }();
  return v;
}
template <typename T> T intValue(xv::Rng &r) {
  if (r.chance(3, 4)) {
    for (int n = 0; n < 50; ++n) {
      const I128 v = edges()[r.below(edges().size())];
      if (v >= static_cast<I128>(std::numeric_limits<T>::min()) && v <= static_cast<I128>(std::numeric_limits<T>::max())) return static_cast<T>(v);
    }
  }
  return static_cast<T>(r.next() >> r.below(64));
}
double realValue(xv::Rng &r) {
  switch (r.below(8)) {
  case 0: return r.pick<double>({0.0, -0.0, 1.0, -1.0, 0.5, 0.1, 1e-16, 2e-16, 3e-16, 1e-300, 1e300, -1e300, 16777217.0, 9007199254740993.0, DBL_MAX, -DBL_MAX, DBL_MIN, DBL_EPSILON, static_cast<double>(FLT_MAX), 2.0 * FLT_MAX, FLT_MAX * 1.0000001, 5e-324, 1.0 / 3});
  case 1: return r.pick<double>({std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN()});
  case 2: return static_cast<double>(static_cast<float>(r.unit() * 1000));
  case 3: { std::uint64_t b = r.next(); double d; std::memcpy(&d, &b, 8); return d; }
  case 4: return static_cast<double>(static_cast<float>(r.unit())) + (r.chance(1, 2) ? 1 : -1) * r.unit() * 4 * DBL_EPSILON;
  case 5: return static_cast<double>(static_cast<std::int64_t>(r.next()) >> r.below(64));
  default: return std::ldexp(r.unit() - 0.5, static_cast<int>(r.range(-160, 160)));
  }
}
float singleValue(xv::Rng &r) {
  const double d = realValue(r);
  if (r.chance(1, 2)) { std::uint32_t b = static_cast<std::uint32_t>(r.next()); float f; std::memcpy(&f, &b, 4); return f; }
  if (std::isnan(d) || std::isinf(d)) return static_cast<float>(d);
  return std::fabs(d) > FLT_MAX ? FLT_MAX : static_cast<float>(d);
}
std::string randomText(xv::Rng &r) {
  std::string s(r.pick<std::size_t>({0, 1, 3, 15, 16, 31, 200}), 'a');
  for (auto &ch : s) ch = static_cast<char>(1 + r.below(255));
  return s;
}
/// stores v under kind, and tells what must be held afterwards (false: must be refused)
template <typename T> bool storable(K kind, T v, Held &h) {
  if constexpr (std::is_same_v<T, bool>) { h.what = Held::Bool; h.i = v; return kind == K::PTK_Bool; }
  else if constexpr (std::is_same_v<T, char>) { h.what = Held::Char; h.i = v; return kind == K::PTK_Char8; }
  else if constexpr (std::is_floating_point_v<T>) {
    h.what = Held::Real; h.d = v; h.single = kind == K::PTK_Float32;
    if (kind == K::PTK_Float64) return true;
    if (kind != K::PTK_Float32) return false;
    if (std::is_same_v<T, float>) return true;
    const bool ok = singleHolds(static_cast<double>(v));
    if (ok) h.d = static_cast<double>(static_cast<float>(v));
    return ok;
  } else {
    const I128 x = v;
    if (isIntKind(kind)) { h.what = Held::Int; h.i = x; h.time = kind == K::PTK_Duration || kind == K::PTK_DateTime; auto rg = intRange(kind); return x >= rg.first && x <= rg.second; }
    h.what = Held::Real;
    if (kind == K::PTK_Float64) { h.d = static_cast<double>(v); return intFits<double>(x); }
    if (kind == K::PTK_Float32) { h.single = true; h.d = static_cast<float>(v); return intFits<float>(x); }
    return false;
  }
}
} // namespace
#endif
