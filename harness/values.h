// Values of every kind for the field and operation harnesses: a random typed
// value with what it holds, a canonical text for comparing values bit by bit,
// what a field of a native type must take from a value, and in-memory stores.
#ifndef VALUES_H_
#define VALUES_H_
#include "anyval.h"
#include "smpx.h"
#include <Xsmp/String.h>
#include <array>
namespace {
struct Val {
  K kind = K::PTK_None;
  AnySimple any;
  Held h;
};
const std::vector<K> &valueKinds() {
  static const std::vector<K> k{K::PTK_Char8, K::PTK_Bool, K::PTK_Int8, K::PTK_UInt8, K::PTK_Int16, K::PTK_UInt16, K::PTK_Int32, K::PTK_UInt32, K::PTK_Int64, K::PTK_UInt64, K::PTK_Float32, K::PTK_Float64, K::PTK_Duration, K::PTK_DateTime, K::PTK_String8};
  return k;
}
template <typename T> Val valOf(K kind, T v) {
  Val r;
  r.kind = kind;
  storable<T>(kind, v, r.h);
  r.any = AnySimple(kind, v);
  return r;
}
Val textVal(const std::string &s) {
  Val r;
  r.kind = K::PTK_String8;
  r.h.what = Held::Text;
  r.h.s = s.c_str();
  r.any = AnySimple(K::PTK_String8, s.c_str());
  return r;
}
Val randomVal(xv::Rng &r, K kind) {
  switch (kind) {
  case K::PTK_Bool: return valOf<bool>(kind, r.chance(1, 2));
  case K::PTK_Char8: return valOf<char>(kind, static_cast<char>(r.below(256)));
  case K::PTK_Int8: return valOf(kind, intValue<std::int8_t>(r));
  case K::PTK_UInt8: return valOf(kind, intValue<std::uint8_t>(r));
  case K::PTK_Int16: return valOf(kind, intValue<std::int16_t>(r));
  case K::PTK_UInt16: return valOf(kind, intValue<std::uint16_t>(r));
  case K::PTK_Int32: return valOf(kind, intValue<std::int32_t>(r));
  case K::PTK_UInt32: return valOf(kind, intValue<std::uint32_t>(r));
  case K::PTK_UInt64: return valOf(kind, intValue<std::uint64_t>(r));
  case K::PTK_Float32: return valOf(kind, singleValue(r));
  case K::PTK_Float64: return valOf(kind, realValue(r));
  case K::PTK_String8: {
    if (r.chance(1, 12)) { Val v; v.kind = kind; v.h.what = Held::Text; v.any = AnySimple(kind, static_cast<Smp::String8>(nullptr)); return v; }
    return textVal(randomText(r));
  }
  default: return valOf(kind, intValue<std::int64_t>(r));
  }
}
/// small integers under any numeric kind: these convert often
Val smallVal(xv::Rng &r) {
  const K kind = r.pick(valueKinds());
  if (isIntKind(kind)) return valOf<std::int64_t>(kind, static_cast<std::int64_t>(r.below(100)));
  if (kind == K::PTK_Float32) return valOf<float>(kind, static_cast<float>(r.below(100)) / 4);
  if (kind == K::PTK_Float64) return valOf<double>(kind, static_cast<double>(r.below(100)) / 4);
  return randomVal(r, kind);
}
Val anyVal(xv::Rng &r, K likely) {
  switch (r.below(4)) {
  case 0: return randomVal(r, r.pick(valueKinds()));
  case 1: return smallVal(r);
  default: return randomVal(r, likely);
  }
}

/// a text identifying a value completely
template <typename T, typename = void> struct Native;
template <typename T> struct Native<T, std::enable_if_t<std::is_integral_v<T>>> {
  static std::string canon(T v) { return show128(static_cast<I128>(v)); }
  static bool take(const Held &h, T &out) { return readable<T>(h, out); }
  static T random(xv::Rng &r) { if constexpr (std::is_same_v<T, bool>) return r.chance(1, 2); else if constexpr (std::is_same_v<T, char>) return static_cast<char>(r.below(256)); else return intValue<T>(r); }
};
template <typename T> struct Native<T, std::enable_if_t<std::is_floating_point_v<T>>> {
  static std::string canon(T v) {
    if (std::isnan(v)) return "nan";
    std::ostringstream o;
    o << std::hexfloat << v;
    return o.str();
  }
  static bool take(const Held &h, T &out) { return readable<T>(h, out); }
  static T random(xv::Rng &r) { if constexpr (sizeof(T) == 4) return singleValue(r); else return realValue(r); }
};
template <typename T> struct Native<T, std::enable_if_t<std::is_enum_v<T>>> {
  using U = std::underlying_type_t<T>;
  static std::string canon(T v) { return show128(static_cast<I128>(static_cast<U>(v))); }
  static bool take(const Held &h, T &out) { U u{}; if (!readable<U>(h, u)) return false; out = static_cast<T>(u); return true; }
  static T random(xv::Rng &r) { return static_cast<T>(intValue<U>(r)); }
};
template <typename T> struct Native<T, std::enable_if_t<Xsmp::Helper::is_smp_string_v<T>>> {
  static constexpr std::size_t capacity = sizeof(T) - 1;
  static std::string canon(const T &v) { return std::string(&v.internalString[0], strnlen(&v.internalString[0], capacity + 1)); }
  static bool take(const Held &h, T &out) {
    if (h.what != Held::Text) return false;
    out = T{};
    const std::string s = h.s.value_or("").substr(0, capacity);
    std::memcpy(&out.internalString[0], s.c_str(), s.size() + 1);
    return true;
  }
  static T random(xv::Rng &r) { Held h; h.what = Held::Text; h.s = randomText(r); T v{}; take(h, v); return v; }
};
template <std::size_t N> struct Native<std::array<char, N>, void> {
  using T = std::array<char, N>;
  static std::string canon(const T &v) { return std::string(v.data(), strnlen(v.data(), N)); }
  static bool take(const Held &h, T &out) {
    if (h.what != Held::Text) return false;
    out = T{};
    const std::string s = h.s.value_or("").substr(0, N - 1);
    std::memcpy(out.data(), s.c_str(), s.size() + 1);
    return true;
  }
  static T random(xv::Rng &r) { Held h; h.what = Held::Text; h.s = randomText(r); T v{}; take(h, v); return v; }
};
/// canonical text of what a value of its kind holds
std::string canonAny(const AnySimple &a) {
  switch (a.GetType()) {
  case K::PTK_Bool: return Native<bool>::canon(static_cast<bool>(a));
  case K::PTK_Char8: return Native<char>::canon(static_cast<char>(a));
  case K::PTK_Int8: case K::PTK_Int16: case K::PTK_Int32: case K::PTK_Int64: case K::PTK_Duration: case K::PTK_DateTime: return show128(static_cast<std::int64_t>(a));
  case K::PTK_UInt8: case K::PTK_UInt16: case K::PTK_UInt32: case K::PTK_UInt64: return show128(static_cast<std::uint64_t>(a));
  case K::PTK_Float32: return Native<float>::canon(static_cast<float>(a));
  case K::PTK_Float64: return Native<double>::canon(static_cast<double>(a));
  case K::PTK_String8: { const auto *s = static_cast<Smp::String8>(a); return s ? std::string(s) : "<null>"; }
  default: return "<none>";
  }
}
/// a value of a kind holding exactly a native value
template <typename T> Val nativeVal(K kind, const T &v) {
  if constexpr (std::is_enum_v<T>) return valOf(kind, static_cast<std::underlying_type_t<T>>(v));
  else if constexpr (std::is_class_v<T>) { (void)kind; return textVal(Native<T>::canon(v)); }
  else return valOf(kind, v);
}
std::string showVal(const Val &v) { return std::string(kindName(v.kind)) + " " + xv::show(canonAny(v.any), 30); }

/// calls f with a native type for the kind (no text)
template <typename F> auto withNative(K kind, F &&f) {
  switch (kind) {
  case K::PTK_Bool: return f(bool{});
  case K::PTK_Char8: return f(char{});
  case K::PTK_Int8: return f(std::int8_t{});
  case K::PTK_UInt8: return f(std::uint8_t{});
  case K::PTK_Int16: return f(std::int16_t{});
  case K::PTK_UInt16: return f(std::uint16_t{});
  case K::PTK_Int32: return f(std::int32_t{});
  case K::PTK_UInt32: return f(std::uint32_t{});
  case K::PTK_UInt64: return f(std::uint64_t{});
  case K::PTK_Float32: return f(float{});
  case K::PTK_Float64: return f(double{});
  default: return f(std::int64_t{});
  }
}

/// stores kept in memory, which notice reading more than was written
struct MemStore final : Smp::IStorageWriter {
  std::vector<char> bytes;
  void Store(void *a, Smp::UInt64 n) override { bytes.insert(bytes.end(), static_cast<char *>(a), static_cast<char *>(a) + n); }
  Smp::String8 GetStateVectorFileName() const override { return "memory"; }
  Smp::String8 GetStateVectorFilePath() const override { return "."; }
};
struct MemLoad final : Smp::IStorageReader {
  std::vector<char> bytes;
  std::size_t at = 0;
  explicit MemLoad(std::vector<char> b) : bytes(std::move(b)) {}
  explicit MemLoad(const MemStore &s) : bytes(s.bytes) {}
  void Restore(void *a, Smp::UInt64 n) override {
    if (n > bytes.size() - at) throw std::length_error("read past the end of the store");
    if (n) std::memcpy(a, bytes.data() + at, n);
    at += n;
  }
  bool done() const { return at == bytes.size(); }
  Smp::String8 GetStateVectorFileName() const override { return "memory"; }
  Smp::String8 GetStateVectorFilePath() const override { return "."; }
};
/// memory for published fields, with canaries around it
struct Guarded {
  std::vector<unsigned char> raw;
  std::size_t size;
  static constexpr std::size_t pad = 32;
  explicit Guarded(std::size_t n) : raw(n + 2 * pad + 16, 0xA5), size(n) { std::memset(data(), 0, n); }
  char *data() { auto p = reinterpret_cast<std::uintptr_t>(raw.data()) + pad; return reinterpret_cast<char *>((p + 15) & ~std::uintptr_t{15}); }
  bool intact() {
    const auto *b = reinterpret_cast<unsigned char *>(data());
    for (const auto *p = raw.data(); p != raw.data() + raw.size(); ++p) if ((p < b || p >= b + size) && *p != 0xA5) return false;
    return true;
  }
};
} // namespace
#endif
