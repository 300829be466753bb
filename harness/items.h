// Simple and enumeration types registered at random, and what memory of such a
// type holds and takes.
#ifndef ITEMS_H_
#define ITEMS_H_
#include "values.h"
#include <Smp/Publication/IEnumerationType.h>
namespace {
using namespace smpx;
using ::Xsmp::Publication::TypeRegistry;
::Smp::Uuid freshUuid(xv::Case &c) { return {static_cast<::Smp::UInt32>(c.rng.next()), 0x1111, 0x2222, 0x3333, c.rng.next() & 0xffffffffffffULL}; }
::Smp::Uuid textUuid(xv::Case &c, TypeRegistry &types, std::size_t length) {
  const auto u = freshUuid(c);
  types.AddStringType("Text", "", u, static_cast<::Smp::Int64>(length));
  return u;
}
/// what a published memory of one item holds and takes
struct Item {
  K kind = K::PTK_None;
  std::size_t size = 0;
  std::size_t length = 0; // of a text
  std::set<std::int32_t> literals; // of an enumeration
  bool enumeration = false;
  ::Smp::Uuid uuid;
  std::string read(const char *p) const {
    if (kind == K::PTK_String8) return std::string(p, strnlen(p, length));
    return withNative(kind, [&](auto v) { std::memcpy(&v, p, sizeof v); return Native<decltype(v)>::canon(v); });
  }
  /// writes what the value converts to; false if it has to be refused
  bool write(char *p, const Val &v) const {
    if (kind == K::PTK_String8) {
      if (v.h.what != Held::Text) return false;
      const std::string s = v.h.s.value_or("").substr(0, length);
      std::memcpy(p, s.c_str(), s.size() + 1);
      return true;
    }
    return withNative(kind, [&](auto n) {
      if (!Native<decltype(n)>::take(v.h, n)) return false;
      if (enumeration && !literals.count(static_cast<std::int32_t>(v.h.i))) return false;
      if (enumeration && (v.h.i < INT32_MIN || v.h.i > INT32_MAX)) return false;
      std::memcpy(p, &n, sizeof n);
      return true;
    });
  }
  void randomize(xv::Rng &r, char *p) const {
    if (kind == K::PTK_String8) { const std::string s = randomText(r).substr(0, length); std::memcpy(p, s.c_str(), s.size() + 1); return; }
    withNative(kind, [&](auto v) { v = Native<decltype(v)>::random(r); std::memcpy(p, &v, sizeof v); return 0; });
  }
  Val value(xv::Rng &r) const {
    if (enumeration && r.chance(1, 2)) {
      std::vector<std::int32_t> l(literals.begin(), literals.end());
      std::int64_t v = l.empty() ? 0 : r.pick(l);
      if (r.chance(1, 3)) v += r.pick({-1, 1, 256, -256, 65536});
      if (r.chance(1, 3)) v += r.pick<std::int64_t>({0, 1LL << 32, -(1LL << 32)});
      return valOf<std::int64_t>(K::PTK_Int64, v);
    }
    return anyVal(r, kind);
  }
};
Item randomItem(xv::Case &c, TypeRegistry &types) {
  Item it;
  switch (c.rng.below(6)) {
  case 0: {
    it.kind = K::PTK_String8;
    it.length = c.rng.pick<std::size_t>({0, 1, 5, 16, 31});
    it.size = it.length + 1;
    it.uuid = textUuid(c, types, it.length);
    break;
  }
  case 1: case 2: {
    it.enumeration = true;
    it.size = c.rng.pick<std::size_t>({1, 2, 4, 8});
    it.kind = it.size == 1 ? K::PTK_Int8 : it.size == 2 ? K::PTK_Int16 : it.size == 4 ? K::PTK_Int32 : K::PTK_Int64;
    it.uuid = freshUuid(c);
    auto *e = types.AddEnumerationType("En", "", it.uuid, static_cast<::Smp::Int16>(it.size));
    for (auto n = c.rng.below(5); n > 0; --n) {
      const auto v = it.size == 1 ? intValue<std::int8_t>(c.rng) : it.size == 2 ? intValue<std::int16_t>(c.rng) : intValue<std::int32_t>(c.rng);
      if (it.literals.insert(v).second) e->AddLiteral(("l" + std::to_string(it.literals.size())).c_str(), "", v);
    }
    break;
  }
  default:
    do it.kind = c.rng.pick(valueKinds()); while (it.kind == K::PTK_String8);
    it.size = withNative(it.kind, [](auto v) { return sizeof v; });
    it.uuid = uuidOf(it.kind);
  }
  return it;
}
std::string typeOf(const Item &it) { return std::string(it.enumeration ? "enumeration " : "") + kindName(it.kind); }
} // namespace
#endif
