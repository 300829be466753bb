// Fields: simple, forcible, array and failure fields, owned by the model or
// published over its memory, driven by random histories and compared with
// plain values after every step.
#include "fieldops.h"
#include "items.h"
#include <Smp/IArrayField.h>
#include <Smp/IFailure.h>
#include <Smp/IForcibleField.h>
#include <Smp/ISimpleArrayField.h>
#include <Smp/ISimpleField.h>
#include <Smp/InvalidArrayIndex.h>
#include <Smp/InvalidArraySize.h>
#include <Smp/InvalidArrayValue.h>
#include <Smp/Publication/IArrayType.h>
#include <Smp/Publication/IEnumerationType.h>
#include <Xsmp/Array.h>
namespace {
using namespace smpx;
using ::Xsmp::Publication::TypeRegistry;
enum class E8 : std::int8_t { a = -128, b = 0, c = 127 };
enum class E16 : std::int16_t { a = -300, b = 0, c = 300 };
enum class E32 : std::int32_t { a = -70000, b = 1, c = 70000 };
enum class E64 : std::int64_t { a = -3, b = 2, c = 1 };

/// one field owned by a model, against a plain value
template <typename T, typename F> void ownField(xv::Case &c, ::Smp::Publication::ITypeRegistry &types, ::Smp::Uuid uuid, K kind) {
  Node parent("n");
  T plain = Native<T>::random(c.rng);
  F field(&types, uuid, "f", "text", &parent, ::Smp::ViewKind::VK_Debug, plain);
  const ::Smp::ISimpleField *constant = &field;
  auto verify = [&](const std::string &after) {
    const std::string want = Native<T>::canon(plain);
    const AnySimple got = field.GetValue();
    XV_CHECK(got.GetType() == kind, "kind", "a field of kind " << kindName(kind) << " reads as " << kindName(got.GetType()));
    XV_CHECK(canonAny(got) == want, "value", "after " << after << " the field reads " << xv::show(canonAny(got)) << ", expected " << xv::show(want));
    XV_CHECK(canonAny(constant->GetValue()) == want, "value", "after " << after << " the field reads otherwise when constant");
    const F &cf = field;
    XV_CHECK(Native<T>::canon(static_cast<const T &>(cf)) == want && Native<T>::canon(*cf) == want && Native<T>::canon(*field) == want && Native<T>::canon(*cf.operator->()) == want && Native<T>::canon(static_cast<typename F::reference>(field)) == want, "native", "after " << after << " the native value is " << xv::show(Native<T>::canon(*cf)) << ", expected " << xv::show(want));
    XV_COUNT("field values compared");
  };
  XV_CHECK(field.GetPrimitiveTypeKind() == kind && field.GetType() == types.GetType(uuid), "type", "wrong type");
  XV_CHECK(field.GetName() == std::string_view("f") && field.GetDescription() == std::string_view("text") && field.GetParent() == &parent && field.GetView() == ::Smp::ViewKind::VK_Debug, "attributes", "wrong name, description, parent or view");
  verify("construction");
  const auto steps = 4 + c.rng.below(12);
  for (std::uint64_t s = 0; s < steps; ++s) {
    const std::string kn = std::string("own ") + kindName(kind);
    switch (c.rng.below(4)) {
    case 0: {
      plain = Native<T>::random(c.rng);
      c.op(kn + " = " + xv::show(Native<T>::canon(plain), 30));
      field = plain;
      verify("an assignment");
      XV_COUNT("assignments");
      break;
    }
    case 1: {
      int op = 0;
      T operand{};
      if (!operation<T>(c, op, plain, operand)) break;
      c.op(kn + " operator " + std::to_string(op) + " " + xv::show(Native<T>::canon(operand), 30));
      const std::string before = Native<T>::canon(plain);
      apply(op, plain, operand);
      apply(op, field, operand);
      verify("operator " + std::to_string(op) + " with " + Native<T>::canon(operand) + " on " + before);
      XV_COUNT("operators");
      break;
    }
    default: {
      const Val v = anyVal(c.rng, kind);
      c.op(kn + " SetValue " + showVal(v));
      T want{};
      const bool ok = Native<T>::take(v.h, want);
      bool threw = false;
      try { field.SetValue(v.any); } catch (const ::Smp::Exception &) { threw = true; }
      XV_CHECK(threw != ok, "accept", "a field of kind " << kindName(kind) << (threw ? " refused " : " accepted ") << showVal(v));
      if (ok) plain = want;
      if (ok) XV_COUNT("accepted values"); else XV_COUNT("refused values");
      verify(std::string(ok ? "accepting " : "refusing ") + showVal(v));
      c.nontrivial = true;
    }
    }
  }
}
template <typename T> void ownVariants(xv::Case &c, ::Smp::Publication::ITypeRegistry &types, ::Smp::Uuid uuid, K kind) {
  switch (c.rng.below(5)) {
  case 0: return ownField<T, ::Xsmp::Field<T>>(c, types, uuid, kind);
  case 1: return ownField<T, typename ::Xsmp::Field<T>::forcible>(c, types, uuid, kind);
  case 2: return ownField<T, typename ::Xsmp::Field<T>::output>(c, types, uuid, kind);
  case 3: return ownField<T, typename ::Xsmp::Field<T>::failure::input>(c, types, uuid, kind);
  default: return ownField<T, typename ::Xsmp::Field<T>::transient::forcible::output::failure>(c, types, uuid, kind);
  }
}
template <typename E> ::Smp::Uuid enumUuid(xv::Case &c, TypeRegistry &types) {
  const auto u = freshUuid(c);
  auto *e = types.AddEnumerationType("En", "", u, sizeof(E));
  e->AddLiteral("a", "", static_cast<::Smp::Int32>(E::a));
  e->AddLiteral("b", "", static_cast<::Smp::Int32>(E::b));
  e->AddLiteral("c", "", static_cast<::Smp::Int32>(E::c));
  return u;
}
XV_SCENARIO(C21, own, 8000, 200000) {
  TypeRegistry types;
  switch (c.rng.below(22)) {
  case 0: return ownVariants<bool>(c, types, uuidOf(K::PTK_Bool), K::PTK_Bool);
  case 1: return ownVariants<char>(c, types, uuidOf(K::PTK_Char8), K::PTK_Char8);
  case 2: return ownVariants<std::int8_t>(c, types, uuidOf(K::PTK_Int8), K::PTK_Int8);
  case 3: return ownVariants<std::uint8_t>(c, types, uuidOf(K::PTK_UInt8), K::PTK_UInt8);
  case 4: return ownVariants<std::int16_t>(c, types, uuidOf(K::PTK_Int16), K::PTK_Int16);
  case 5: return ownVariants<std::uint16_t>(c, types, uuidOf(K::PTK_UInt16), K::PTK_UInt16);
  case 6: return ownVariants<std::int32_t>(c, types, uuidOf(K::PTK_Int32), K::PTK_Int32);
  case 7: return ownVariants<std::uint32_t>(c, types, uuidOf(K::PTK_UInt32), K::PTK_UInt32);
  case 8: return ownVariants<std::int64_t>(c, types, uuidOf(K::PTK_Int64), K::PTK_Int64);
  case 9: return ownVariants<std::uint64_t>(c, types, uuidOf(K::PTK_UInt64), K::PTK_UInt64);
  case 10: return ownVariants<float>(c, types, uuidOf(K::PTK_Float32), K::PTK_Float32);
  case 11: return ownVariants<double>(c, types, uuidOf(K::PTK_Float64), K::PTK_Float64);
  case 12: return ownVariants<std::int64_t>(c, types, uuidOf(K::PTK_Duration), K::PTK_Duration);
  case 13: return ownVariants<std::int64_t>(c, types, uuidOf(K::PTK_DateTime), K::PTK_DateTime);
  case 14: return ownVariants<E8>(c, types, enumUuid<E8>(c, types), K::PTK_Int8);
  case 15: return ownVariants<E16>(c, types, enumUuid<E16>(c, types), K::PTK_Int16);
  case 16: return ownVariants<E32>(c, types, enumUuid<E32>(c, types), K::PTK_Int32);
  case 17: return ownVariants<E64>(c, types, enumUuid<E64>(c, types), K::PTK_Int64);
  case 18: return ownVariants<::Xsmp::String<7>>(c, types, textUuid(c, types, 7), K::PTK_String8);
  case 19: return ownVariants<::Xsmp::String<0>>(c, types, textUuid(c, types, 0), K::PTK_String8);
  case 20: return ownVariants<::Xsmp::String<40>>(c, types, textUuid(c, types, 40), K::PTK_String8);
  default: return ownVariants<std::array<char, 9>>(c, types, textUuid(c, types, 8), K::PTK_String8);
  }
}
XV_SCENARIO(C21, published, 8000, 200000) {
  TypeRegistry types;
  Node n("n");
  ::Xsmp::Publication::Publication pub(&n, &types);
  struct Entry { Item it; std::unique_ptr<Guarded> mem, model; ::Smp::ISimpleField *f; };
  std::vector<Entry> es;
  const auto count = 1 + c.rng.below(3);
  for (std::uint64_t i = 0; i < count; ++i) {
    Entry e{randomItem(c, types), nullptr, nullptr, nullptr};
    e.mem = std::make_unique<Guarded>(e.it.size);
    e.it.randomize(c.rng, e.mem->data());
    e.model = std::make_unique<Guarded>(*e.mem);
    std::memcpy(e.model->data(), e.mem->data(), e.it.size);
    const std::string name = "f" + std::to_string(i);
    c.op("publish " + typeOf(e.it) + " of " + std::to_string(e.it.size));
    for (auto l : e.it.literals) c.op("literal " + std::to_string(l));
    pub.PublishField(name.c_str(), "", e.mem->data(), e.it.uuid, ::Smp::ViewKind::VK_All, c.rng.chance(1, 2), c.rng.chance(1, 2), c.rng.chance(1, 2));
    e.f = dynamic_cast<::Smp::ISimpleField *>(pub.GetField(name.c_str()));
    XV_CHECK(e.f, "published", "no simple field of " << typeOf(e.it));
    XV_CHECK(e.f->GetPrimitiveTypeKind() == e.it.kind, "kind", "published " << typeOf(e.it) << " has kind " << kindName(e.f->GetPrimitiveTypeKind()));
    es.push_back(std::move(e));
  }
  auto verify = [&](const std::string &after) {
    for (auto &e : es) {
      const std::string want = e.it.read(e.model->data()), mem = e.it.read(e.mem->data());
      XV_CHECK(mem == want, "memory", "after " << after << " the memory of a published " << typeOf(e.it) << " holds " << xv::show(mem) << ", expected " << xv::show(want));
      const AnySimple got = e.f->GetValue();
      XV_CHECK(got.GetType() == e.it.kind && canonAny(got) == want, "value", "after " << after << " a published " << typeOf(e.it) << " reads " << kindName(got.GetType()) << " " << xv::show(canonAny(got)) << ", expected " << xv::show(want));
      XV_CHECK(e.mem->intact(), "outside", "after " << after << " the memory beside a published " << typeOf(e.it) << " changed");
      XV_COUNT("field values compared");
    }
  };
  verify("publication");
  const auto steps = 4 + c.rng.below(16);
  for (std::uint64_t s = 0; s < steps; ++s) {
    auto &e = c.rng.pick(es);
    if (c.rng.chance(1, 4)) {
      e.it.randomize(c.rng, e.mem->data());
      std::memcpy(e.model->data(), e.mem->data(), e.it.size);
      c.op("native write");
      verify("a native write");
      continue;
    }
    const Val v = e.it.value(c.rng);
    c.op(typeOf(e.it) + " SetValue " + showVal(v));
    const bool ok = e.it.write(e.model->data(), v);
    bool threw = false;
    try { e.f->SetValue(v.any); } catch (const ::Smp::Exception &) { threw = true; }
    XV_CHECK(threw != ok, "accept", "a published " << typeOf(e.it) << (threw ? " refused " : " accepted ") << showVal(v));
    if (e.it.enumeration && !ok && v.h.what == Held::Int) XV_COUNT("refused literals");
    if (ok) XV_COUNT("accepted values"); else XV_COUNT("refused values");
    c.nontrivial = true;
    verify(std::string(ok ? "accepting " : "refusing ") + showVal(v));
  }
}

// ---------------------------------------------------------------- C24 arrays
std::uint64_t randomIndex(xv::Rng &r, std::uint64_t size) {
  switch (r.below(6)) {
  case 0: return size + r.below(3);
  case 1: return r.pick<std::uint64_t>({1ULL << 32U, (1ULL << 63U) - 1, 1ULL << 63U, ~0ULL, ~0ULL - size, (1ULL << 32U) + size});
  default: return size ? r.below(size) : 0;
  }
}
void checkIndexError(const ::Smp::InvalidArrayIndex &e, std::uint64_t index, std::uint64_t size) {
  XV_CHECK(e.GetInvalidIndex() == static_cast<std::int64_t>(index) && e.GetArraySize() == static_cast<std::int64_t>(size), "index error", "the error of index " << index << " in an array of " << size << " reports index " << e.GetInvalidIndex() << " and size " << e.GetArraySize());
}
/// how a simple array is seen by its user
struct SimpleArrayUnderTest {
  ::Smp::ISimpleArrayField *f;
  Item item;
  std::uint64_t size;
  bool exactKind; // values of other kinds may be refused
  std::function<std::string(std::size_t)> native;
};
void driveSimpleArray(xv::Case &c, SimpleArrayUnderTest &a, const std::function<bool(std::size_t, std::vector<std::string> &)> &nativeWrite, const std::function<bool()> &intact) {
  std::vector<std::string> model;
  for (std::size_t i = 0; i < a.size; ++i) model.push_back(a.native(i));
  // what item i has to hold after being given v: the text, or nothing if it has to be refused
  auto taken = [&](const Val &v) -> std::optional<std::string> { std::vector<char> b(a.item.size + 16, 0); if (!a.item.write(b.data(), v)) return std::nullopt; return a.item.read(b.data()); };
  auto verify = [&](const std::string &after) {
    XV_CHECK(a.f->GetSize() == a.size, "size", "size " << a.f->GetSize() << " of an array of " << a.size);
    for (std::size_t i = 0; i < a.size; ++i) {
      const AnySimple got = a.f->GetValue(i);
      XV_CHECK(got.GetType() == a.item.kind && canonAny(got) == model[i], "value", "after " << after << " item " << i << " of " << a.size << " " << typeOf(a.item) << " reads " << kindName(got.GetType()) << " " << xv::show(canonAny(got)) << ", expected " << xv::show(model[i]));
      XV_CHECK(a.native(i) == model[i], "native", "after " << after << " item " << i << " of " << a.size << " " << typeOf(a.item) << " holds " << xv::show(a.native(i)) << ", expected " << xv::show(model[i]));
    }
    XV_CHECK(intact(), "outside", "after " << after << " the memory beside an array of " << a.size << " " << typeOf(a.item) << " changed");
    XV_COUNT("array states compared");
  };
  verify("creation");
  const auto steps = 3 + c.rng.below(10);
  for (std::uint64_t s = 0; s < steps; ++s) {
    switch (c.rng.below(7)) {
    case 0: {
      const auto i = randomIndex(c.rng, a.size);
      c.op("GetValue " + std::to_string(i));
      if (i < a.size) { XV_CHECK(canonAny(a.f->GetValue(i)) == model[i], "value", "item " << i << " reads otherwise"); break; }
      try { a.f->GetValue(i); XV_FAIL("index", "item " << i << " of an array of " << a.size << " was read"); }
      catch (const ::Smp::InvalidArrayIndex &e) { checkIndexError(e, i, a.size); XV_COUNT("refused indices"); }
      break;
    }
    case 1: case 2: {
      const auto i = randomIndex(c.rng, a.size);
      const Val v = a.item.value(c.rng);
      c.op("SetValue " + std::to_string(i) + " " + showVal(v));
      const auto want = taken(v);
      const std::string what = "writing " + showVal(v) + " to item " + std::to_string(i) + " of " + std::to_string(a.size) + " " + typeOf(a.item);
      try {
        a.f->SetValue(i, v.any);
        XV_CHECK(i < a.size, "index", what << " was accepted");
        XV_CHECK(want, "accept", what << " was accepted");
        model[i] = *want;
        XV_COUNT("items written");
      } catch (const ::Smp::InvalidArrayIndex &e) {
        XV_CHECK(i >= a.size, "index", what << " was refused: " << e.what());
        checkIndexError(e, i, a.size);
        XV_COUNT("refused indices");
      } catch (const ::Smp::Exception &e) {
        XV_CHECK(i < a.size, "index", what << " reported another error: " << e.what());
        XV_CHECK(!want || (a.exactKind && v.kind != a.item.kind), "accept", what << " was refused: " << e.what());
        XV_COUNT("refused items");
      }
      verify(what);
      c.nontrivial = true;
      break;
    }
    case 3: {
      const std::uint64_t len = c.rng.chance(2, 3) ? a.size : randomIndex(c.rng, a.size);
      c.op("GetValues " + std::to_string(len));
      auto out = std::make_unique<AnySimple[]>(a.size);
      try {
        a.f->GetValues(len, out.get());
        XV_CHECK(len == a.size, "length", "reading " << len << " items of an array of " << a.size << " was accepted");
        for (std::size_t i = 0; i < a.size; ++i) XV_CHECK(out[i].GetType() == a.item.kind && canonAny(out[i]) == model[i], "bulk read", "a bulk read gave item " << i << " as " << kindName(out[i].GetType()) << " " << xv::show(canonAny(out[i])) << ", expected " << xv::show(model[i]));
        XV_COUNT("bulk reads");
      } catch (const ::Smp::InvalidArraySize &e) {
        XV_CHECK(len != a.size, "length", "reading all items of an array of " << a.size << " was refused");
        XV_CHECK(e.GetInvalidSize() == static_cast<std::int64_t>(len) && e.GetArraySize() == static_cast<std::int64_t>(a.size), "length error", "the error of length " << len << " for " << a.size << " reports " << e.GetInvalidSize() << " and " << e.GetArraySize());
        XV_COUNT("refused lengths");
      }
      break;
    }
    case 4: case 5: {
      const std::uint64_t len = c.rng.chance(5, 6) ? a.size : randomIndex(c.rng, a.size);
      std::vector<Val> vs;
      auto in = std::make_unique<AnySimple[]>(a.size);
      const bool good = c.rng.chance(1, 2);
      for (std::size_t i = 0; i < a.size; ++i) {
        Val v = randomVal(c.rng, a.item.kind);
        for (int n = 0; a.item.enumeration && n < 20 && !taken(v); ++n) v = a.item.value(c.rng);
        if (a.exactKind && v.kind != a.item.kind && taken(v) && a.item.kind != K::PTK_String8) v = valOf<std::int64_t>(a.item.kind, static_cast<std::int64_t>(v.h.i));
        if (!good && c.rng.chance(1, static_cast<unsigned>(1 + a.size / 2))) v = a.item.value(c.rng);
        in[i] = v.any;
        vs.push_back(v);
      }
      c.op("SetValues " + std::to_string(len) + (a.size ? " " + showVal(vs[0]) : ""));
      bool written = false;
      std::int64_t failedAt = -1;
      try {
        a.f->SetValues(len, in.get());
        XV_CHECK(len == a.size, "length", "writing " << len << " items to an array of " << a.size << " was accepted");
        written = true;
      } catch (const ::Smp::InvalidArraySize &e) {
        XV_CHECK(len != a.size, "length", "writing all items of an array of " << a.size << " was refused");
        XV_CHECK(e.GetInvalidSize() == static_cast<std::int64_t>(len) && e.GetArraySize() == static_cast<std::int64_t>(a.size), "length error", "the error of length " << len << " for " << a.size << " reports " << e.GetInvalidSize() << " and " << e.GetArraySize());
        XV_COUNT("refused lengths");
      } catch (const ::Smp::InvalidArrayValue &e) {
        XV_CHECK(len == a.size, "length", "a bulk write of wrong length reported a wrong value");
        failedAt = e.GetInvalidValueIndex();
        XV_CHECK(failedAt >= 0 && failedAt < static_cast<std::int64_t>(a.size), "bulk error", "a refused bulk write names item " << failedAt << " of " << a.size);
        const Val &v = vs[static_cast<std::size_t>(failedAt)];
        XV_CHECK(e.GetInvalidValue().GetType() == v.kind && canonAny(e.GetInvalidValue()) == canonAny(v.any), "bulk error", "a refused bulk write names item " << failedAt << " with value " << canonAny(e.GetInvalidValue()) << " instead of " << showVal(v));
        XV_CHECK(!taken(v) || v.kind != a.item.kind, "bulk accept", "a bulk write was refused for " << showVal(v) << " in an array of " << typeOf(a.item));
        XV_COUNT("refused bulk writes");
      }
      if (written || failedAt >= 0) {
        for (std::size_t i = 0; i < a.size; ++i) {
          const auto want = taken(vs[i]);
          if (written) {
            XV_CHECK(want, "bulk accept", "a bulk write took " << showVal(vs[i]) << " into an array of " << typeOf(a.item));
            model[i] = *want;
          } else if (static_cast<std::int64_t>(i) < failedAt) { // may have been written before the error
            const std::string now = canonAny(a.f->GetValue(i));
            XV_CHECK(now == model[i] || (want && now == *want), "bulk partial", "after a refused bulk write item " << i << " reads " << xv::show(now));
            model[i] = now;
          }
        }
        if (written) XV_COUNT("bulk writes");
        c.nontrivial = true;
      }
      verify("a bulk write");
      break;
    }
    default:
      c.op("native write");
      if (nativeWrite(a.size ? c.rng.below(a.size) : 0, model)) { verify("a native write"); XV_COUNT("native writes"); }
    }
  }
}
template <typename T, std::size_t N, bool Output> void ownSimpleArray(xv::Case &c, TypeRegistry &types, Item item) {
  using A = typename ::Xsmp::Array<T, N>::simple;
  using F = std::conditional_t<Output, typename ::Xsmp::Field<A>::output, typename ::Xsmp::Field<A>::transient>;
  const auto u = freshUuid(c);
  types.AddArrayType("Ar", "", u, item.uuid, static_cast<::Smp::Int64>(item.size), N, true);
  A init;
  for (auto &x : init) x = Native<T>::random(c.rng);
  Node parent("n");
  F f(&types, u, "f", "", &parent, ::Smp::ViewKind::VK_All, init);
  item.enumeration = false; // the literals of own fields are the compiler's business
  SimpleArrayUnderTest a{&f, item, N, true, [&](std::size_t i) { const F &cf = f; XV_CHECK(Native<T>::canon(cf[i]) == Native<T>::canon(cf.at(i)) && Native<T>::canon(*(cf.begin() + static_cast<std::ptrdiff_t>(i))) == Native<T>::canon(cf.data()[i]), "native", "native reads differ"); return Native<T>::canon(cf[i]); }};
  XV_CHECK(f.size() == N && !f.empty() && f.max_size() == N && f.cend() - f.cbegin() == static_cast<std::ptrdiff_t>(N), "native", "native size");
  driveSimpleArray(c, a, [&](std::size_t i, std::vector<std::string> &model) {
    T v = Native<T>::random(c.rng);
    const std::string t = Native<T>::canon(v);
    switch (c.rng.below(7)) {
    case 0: f.fill(v); for (auto &m : model) m = t; return true;
    case 1: f[i] = v; model[i] = t; return true;
    case 2: f.at(i) = v; model[i] = t; return true;
    case 3: { A o; for (std::size_t k = 0; k < N; ++k) { o[k] = Native<T>::random(c.rng); } auto before = model; for (std::size_t k = 0; k < N; ++k) model[k] = Native<T>::canon(o[k]); f.swap(o); for (std::size_t k = 0; k < N; ++k) XV_CHECK(Native<T>::canon(o[k]) == before[k], "native", "swap lost item " << k); return true; }
    case 4: f.front() = v; f.back() = v; model.front() = t; model.back() = t; return true;
    case 5: { bool threw = false; try { (void)f.at(N + c.rng.below(3)); } catch (const std::out_of_range &) { threw = true; } XV_CHECK(threw, "native", "at() beyond the end"); const F &cf = f; threw = false; try { (void)cf.at(~std::size_t{0}); } catch (const std::out_of_range &) { threw = true; } XV_CHECK(threw, "native", "at() beyond the end"); return true; }
    default: { std::size_t k = 0; for (auto it = f.begin(); it != f.end(); ++it, ++k) { T w = Native<T>::random(c.rng); *it = w; model[k] = Native<T>::canon(w); } XV_CHECK(k == N, "native", "iteration over " << k << " of " << N << " items"); return true; }
    }
  }, [] { return true; });
}
template <typename T, bool Output> void ownSimpleArrays(xv::Case &c, TypeRegistry &types, const Item &item) {
  switch (c.rng.below(3)) {
  case 0: return ownSimpleArray<T, 1, Output>(c, types, item);
  case 1: return ownSimpleArray<T, 3, Output>(c, types, item);
  default: return ownSimpleArray<T, 17, Output>(c, types, item);
  }
}
Item plainItem(K kind) { Item it; it.kind = kind; it.size = withNative(kind, [](auto v) { return sizeof v; }); it.uuid = uuidOf(kind); return it; }
Item textItem(xv::Case &c, TypeRegistry &types, std::size_t length) { Item it; it.kind = K::PTK_String8; it.length = length; it.size = length + 1; it.uuid = textUuid(c, types, length); return it; }
XV_SCENARIO(C24, own_simple, 6000, 120000) {
  TypeRegistry types;
  const bool o = c.rng.chance(1, 3);
  auto run = [&](auto v, const Item &it) { using T = decltype(v); if (o) ownSimpleArrays<T, true>(c, types, it); else ownSimpleArrays<T, false>(c, types, it); };
  switch (c.rng.below(11)) {
  case 0: return run(bool{}, plainItem(K::PTK_Bool));
  case 1: return run(char{}, plainItem(K::PTK_Char8));
  case 2: return run(std::int8_t{}, plainItem(K::PTK_Int8));
  case 3: return run(std::uint16_t{}, plainItem(K::PTK_UInt16));
  case 4: return run(std::int32_t{}, plainItem(K::PTK_Int32));
  case 5: return run(std::uint64_t{}, plainItem(K::PTK_UInt64));
  case 6: return run(float{}, plainItem(K::PTK_Float32));
  case 7: return run(double{}, plainItem(K::PTK_Float64));
  case 8: return run(std::int64_t{}, plainItem(K::PTK_DateTime));
  case 9: { Item it; it.kind = K::PTK_Int16; it.size = 2; it.uuid = enumUuid<E16>(c, types); return run(E16{}, it); }
  default: return run(::Xsmp::String<6>{}, textItem(c, types, 6));
  }
}
XV_SCENARIO(C24, published_simple, 8000, 200000) {
  TypeRegistry types;
  Node n("n");
  ::Xsmp::Publication::Publication pub(&n, &types);
  const bool anonymous = c.rng.chance(1, 3);
  Item item;
  if (anonymous) { do item = plainItem(c.rng.pick(valueKinds())); while (item.kind == K::PTK_String8); } else item = randomItem(c, types);
  const std::uint64_t size = c.rng.chance(1, 10) ? 0 : 1 + c.rng.below(20);
  const std::size_t stride = anonymous ? item.size : item.size; // items lie side by side
  Guarded mem(size * stride);
  for (std::size_t i = 0; i < size; ++i) item.randomize(c.rng, mem.data() + i * stride);
  const bool st = c.rng.chance(1, 2), in = c.rng.chance(1, 2), out = c.rng.chance(1, 2);
  c.op(std::string(anonymous ? "anonymous array of " : "array of ") + std::to_string(size) + " " + typeOf(item));
  if (anonymous) pub.PublishArray("f", "", static_cast<::Smp::Int64>(size), mem.data(), item.kind, ::Smp::ViewKind::VK_All, st, in, out);
  else {
    const auto u = freshUuid(c);
    types.AddArrayType("Ar", "", u, item.uuid, static_cast<::Smp::Int64>(stride), static_cast<::Smp::Int64>(size), true);
    pub.PublishField("f", "", mem.data(), u, ::Smp::ViewKind::VK_All, st, in, out);
  }
  auto *f = dynamic_cast<::Smp::ISimpleArrayField *>(pub.GetField("f"));
  XV_CHECK(f, "published", "no simple array field");
  XV_CHECK(f->IsState() == st && f->IsInput() == in && f->IsOutput() == out, "attributes", "wrong attributes");
  SimpleArrayUnderTest a{f, item, size, true, [&](std::size_t i) { return item.read(mem.data() + i * stride); }};
  driveSimpleArray(c, a, [&](std::size_t i, std::vector<std::string> &model) {
    if (!size) return false;
    item.randomize(c.rng, mem.data() + i * stride);
    model[i] = item.read(mem.data() + i * stride);
    return true;
  }, [&] { return mem.intact(); });
}
void checkItems(xv::Case &c, ::Smp::IArrayField *f, std::uint64_t size, const std::function<void(std::size_t, ::Smp::IField *)> &item) {
  XV_CHECK(f->GetSize() == size, "size", "size " << f->GetSize() << " of an array of " << size);
  for (std::size_t i = 0; i < size; ++i) {
    auto *it = f->GetItem(i);
    XV_CHECK(it && it == f->GetItem(i) && it->GetParent() == f && it->GetName() == "[" + std::to_string(i) + "]", "item", "item " << i << " of " << size << " is not the item of that index");
    item(i, it);
    XV_COUNT("items");
  }
  for (int n = 0; n < 4; ++n) {
    const auto i = randomIndex(c.rng, size);
    if (i < size) continue;
    try { f->GetItem(i); XV_FAIL("index", "item " << i << " of an array of " << size << " exists"); }
    catch (const ::Smp::InvalidArrayIndex &e) { checkIndexError(e, i, size); XV_COUNT("refused indices"); }
  }
}
template <typename T, std::size_t N, typename F> void ownArray(xv::Case &c, TypeRegistry &types, const Item &item) {
  using A = ::Xsmp::Array<T, N>;
  const auto u = freshUuid(c);
  types.AddArrayType("Ar", "", u, item.uuid, static_cast<::Smp::Int64>(item.size), N);
  A plain;
  for (auto &x : plain) x = Native<T>::random(c.rng);
  Node parent("n");
  F f(&types, u, "f", "", &parent, ::Smp::ViewKind::VK_All, plain);
  XV_CHECK(f.size() == N && f.max_size() == N && f.end() - f.begin() == static_cast<std::ptrdiff_t>(N), "native", "native size");
  for (std::uint64_t s = 0, steps = 3 + c.rng.below(8); s < steps; ++s) {
    checkItems(c, &f, N, [&](std::size_t i, ::Smp::IField *it) {
      auto *sf = dynamic_cast<::Smp::ISimpleField *>(it);
      XV_CHECK(sf && canonAny(sf->GetValue()) == Native<T>::canon(plain[i]), "value", "item " << i << " of " << N << " reads " << canonAny(sf->GetValue()) << ", expected " << Native<T>::canon(plain[i]));
      XV_CHECK(&f[i] == it && &f.at(i) == it && f.begin() + i == it && f.data() + i == it, "native", "native item " << i << " is another");
    });
    const A copy = f;
    XV_CHECK(std::equal(copy.begin(), copy.end(), plain.begin(), [](const T &l, const T &r) { return Native<T>::canon(l) == Native<T>::canon(r); }), "native", "the native copy differs");
    XV_COUNT("array states compared");
    const std::size_t i = c.rng.below(N);
    const T v = Native<T>::random(c.rng);
    switch (c.rng.below(4)) {
    case 0: c.op("f = array"); for (auto &x : plain) x = Native<T>::random(c.rng); f = plain; break;
    case 1: c.op("f[i] = v"); f[i] = v; plain[i] = v; break;
    case 2: {
      const Val w = anyVal(c.rng, item.kind);
      c.op("item SetValue " + showVal(w));
      T want{};
      const bool ok = Native<T>::take(w.h, want);
      bool threw = false;
      try { dynamic_cast<::Smp::ISimpleField *>(f.GetItem(i))->SetValue(w.any); } catch (const ::Smp::Exception &) { threw = true; }
      XV_CHECK(threw != ok, "accept", "an array item of kind " << kindName(item.kind) << (threw ? " refused " : " accepted ") << showVal(w));
      if (ok) plain[i] = want;
      c.nontrivial = true;
      break;
    }
    default: { bool threw = false; try { (void)f.at(N + c.rng.below(3)); } catch (const std::out_of_range &) { threw = true; } XV_CHECK(threw, "native", "at() beyond the end"); }
    }
  }
}
template <typename T, std::size_t N> void ownArrayVariants(xv::Case &c, TypeRegistry &types, const Item &item) {
  using F = ::Xsmp::Field<::Xsmp::Array<T, N>>;
  switch (c.rng.below(4)) {
  case 0: return ownArray<T, N, F>(c, types, item);
  case 1: return ownArray<T, N, typename F::output>(c, types, item);
  case 2: return ownArray<T, N, typename F::forcible>(c, types, item);
  default: return ownArray<T, N, typename F::input::transient>(c, types, item);
  }
}
XV_SCENARIO(C24, own_items, 800, 15000) {
  TypeRegistry types;
  switch (c.rng.below(6)) {
  case 0: return ownArrayVariants<std::int32_t, 1>(c, types, plainItem(K::PTK_Int32));
  case 1: return ownArrayVariants<double, 3>(c, types, plainItem(K::PTK_Float64));
  case 2: return ownArrayVariants<std::uint8_t, 17>(c, types, plainItem(K::PTK_UInt8));
  case 3: return ownArrayVariants<bool, 3>(c, types, plainItem(K::PTK_Bool));
  case 4: return ownArrayVariants<::Xsmp::String<5>, 3>(c, types, textItem(c, types, 5));
  default: { Item it; it.kind = K::PTK_Int32; it.size = 4; it.uuid = enumUuid<E32>(c, types); return ownArrayVariants<E32, 3>(c, types, it); }
  }
}
XV_SCENARIO(C24, published_items, 800, 15000) {
  TypeRegistry types;
  Node n("n");
  ::Xsmp::Publication::Publication pub(&n, &types);
  const Item item = randomItem(c, types);
  const std::uint64_t rows = c.rng.below(5), cols = c.rng.below(6);
  const auto row = freshUuid(c), matrix = freshUuid(c);
  const bool simpleRow = c.rng.chance(1, 2);
  types.AddArrayType("Row", "", row, item.uuid, static_cast<::Smp::Int64>(item.size), static_cast<::Smp::Int64>(cols), simpleRow);
  types.AddArrayType("Matrix", "", matrix, row, static_cast<::Smp::Int64>(item.size * cols), static_cast<::Smp::Int64>(rows), c.rng.chance(1, 4));
  Guarded mem(rows * cols * item.size);
  auto at = [&](std::size_t r, std::size_t k) { return mem.data() + (r * cols + k) * item.size; };
  for (std::size_t r = 0; r < rows; ++r) for (std::size_t k = 0; k < cols; ++k) item.randomize(c.rng, at(r, k));
  c.op("matrix of " + std::to_string(rows) + "x" + std::to_string(cols) + " " + typeOf(item));
  pub.PublishField("m", "", mem.data(), matrix, ::Smp::ViewKind::VK_All, true, c.rng.chance(1, 2), c.rng.chance(1, 2));
  auto *m = dynamic_cast<::Smp::IArrayField *>(pub.GetField("m"));
  XV_CHECK(m, "published", "no array field");
  std::vector<char> model(mem.data(), mem.data() + mem.size);
  for (std::uint64_t s = 0, steps = 2 + c.rng.below(6); s < steps; ++s) {
    checkItems(c, m, rows, [&](std::size_t r, ::Smp::IField *it) {
      auto seen = [&](std::size_t k, const AnySimple &got) {
        const std::string want = item.read(model.data() + (r * cols + k) * item.size);
        XV_CHECK(got.GetType() == item.kind && canonAny(got) == want, "value", "item " << r << "," << k << " of " << rows << "x" << cols << " " << typeOf(item) << " reads " << xv::show(canonAny(got)) << ", expected " << xv::show(want));
      };
      if (simpleRow) {
        auto *sf = dynamic_cast<::Smp::ISimpleArrayField *>(it);
        XV_CHECK(sf && sf->GetSize() == cols, "row", "wrong row");
        for (std::size_t k = 0; k < cols; ++k) seen(k, sf->GetValue(k));
      } else {
        auto *af = dynamic_cast<::Smp::IArrayField *>(it);
        XV_CHECK(af, "row", "wrong row");
        checkItems(c, af, cols, [&](std::size_t k, ::Smp::IField *cell) { auto *sf = dynamic_cast<::Smp::ISimpleField *>(cell); XV_CHECK(sf, "cell", "wrong cell"); seen(k, sf->GetValue()); });
      }
    });
    for (std::size_t i = 0; i < mem.size; i += item.size) XV_CHECK(item.read(mem.data() + i) == item.read(model.data() + i), "memory", "item " << i / item.size << " of the memory changed");
    XV_CHECK(mem.intact(), "outside", "the memory beside the matrix changed");
    XV_COUNT("array states compared");
    if (!rows || !cols) continue;
    const std::size_t r = c.rng.below(rows), k = c.rng.below(cols);
    const Val v = item.value(c.rng);
    c.op("write " + showVal(v));
    const bool ok = item.write(model.data() + (r * cols + k) * item.size, v);
    bool threw = false;
    try {
      if (simpleRow) dynamic_cast<::Smp::ISimpleArrayField *>(m->GetItem(r))->SetValue(k, v.any);
      else dynamic_cast<::Smp::ISimpleField *>(dynamic_cast<::Smp::IArrayField *>(m->GetItem(r))->GetItem(k))->SetValue(v.any);
    } catch (const ::Smp::Exception &) { threw = true; }
    if (!(simpleRow && v.kind != item.kind)) XV_CHECK(threw != ok, "accept", "an item of " << typeOf(item) << (threw ? " refused " : " accepted ") << showVal(v));
    else XV_CHECK(threw || ok, "accept", "an item of " << typeOf(item) << " accepted " << showVal(v));
    if (ok && threw) std::memcpy(model.data() + (r * cols + k) * item.size, at(r, k), item.size);
    c.nontrivial = true;
  }
}

// ------------------------------------------------------------- C22 forcing
template <typename T, typename F> void forcible(xv::Case &c, TypeRegistry &types, ::Smp::Uuid uuid, K kind) {
  Node parent("n");
  using In = typename ::Xsmp::Field<T>::input;
  using Out = typename ::Xsmp::Field<T>::output;
  constexpr bool output = std::is_base_of_v<::Smp::IDataflowField, F>;
  T plain = Native<T>::random(c.rng);
  F field(&types, uuid, "f", "", &parent, ::Smp::ViewKind::VK_All, plain);
  In sink(&types, uuid, "sink", "", &parent, ::Smp::ViewKind::VK_All);
  Out feed(&types, uuid, "feed", "", &parent, ::Smp::ViewKind::VK_All, plain);
  bool forced = false, fed = false, linked = false;
  T shown = plain;
  struct Saved { std::vector<char> bytes; bool forced; T value; };
  std::vector<Saved> saves;
  auto verify = [&](const std::string &after) {
    const std::string want = Native<T>::canon(shown);
    XV_CHECK(field.IsForced() == forced, "flag", "after " << after << " the field is " << (forced ? "not forced" : "forced"));
    XV_CHECK(canonAny(field.GetValue()) == want, "value", "after " << after << " the " << (forced ? "forced" : "released") << " field reads " << xv::show(canonAny(field.GetValue())) << ", expected " << xv::show(want));
    XV_CHECK(Native<T>::canon(*field) == want && Native<T>::canon(static_cast<const T &>(field)) == want, "native", "after " << after << " the " << (forced ? "forced" : "released") << " field holds " << xv::show(Native<T>::canon(*field)) << ", expected " << xv::show(want));
    if (forced) XV_COUNT("forced reads"); else XV_COUNT("released reads");
  };
  verify("construction");
  if constexpr (output) if (c.rng.chance(1, 2)) { field.Connect(&sink); linked = true; }
  if (field.IsInput() && c.rng.chance(1, 2)) { feed.Connect(&field); fed = true; shown = *feed; }
  verify("connection");
  for (std::uint64_t s = 0, steps = 5 + c.rng.below(20); s < steps; ++s) {
    const T v = Native<T>::random(c.rng);
    std::string what;
    switch (c.rng.below(12)) {
    case 0: case 1: {
      const Val w = c.rng.chance(1, 2) ? nativeVal(kind, v) : anyVal(c.rng, kind);
      what = "Force " + showVal(w);
      T want{};
      const bool ok = Native<T>::take(w.h, want);
      bool threw = false;
      try { field.Force(w.any); } catch (const ::Smp::Exception &) { threw = true; }
      XV_CHECK(threw != ok, "accept", what << (threw ? " was refused" : " was accepted"));
      if (ok) { if (forced) XV_COUNT("forced again"); forced = true; shown = want; } else { XV_COUNT("refused forces"); if (forced) XV_COUNT("refused forces of a forced field"); }
      break;
    }
    case 2: what = "Force native"; field.Force(v); forced = true; shown = v; break;
    case 3: what = "Freeze"; field.Freeze(); forced = true; break;
    case 4: case 5: what = "Unforce"; field.Unforce(); forced = false; break;
    case 6: what = "native write"; field = v; if (!forced) shown = v; else XV_COUNT("writes to a forced field"); break;
    case 7: {
      const Val w = anyVal(c.rng, kind);
      what = "SetValue " + showVal(w);
      T want{};
      const bool ok = Native<T>::take(w.h, want);
      bool threw = false;
      try { field.SetValue(w.any); } catch (const ::Smp::Exception &) { threw = true; }
      if (!forced) XV_CHECK(threw != ok, "accept", what << (threw ? " was refused" : " was accepted"));
      if (!forced && ok) shown = want;
      if (forced) XV_COUNT("writes to a forced field");
      break;
    }
    case 8: {
      int op = 0;
      T o{};
      if (!operation<T>(c, op, shown, o)) continue;
      what = "operator " + std::to_string(op);
      apply(op, field, o);
      if (!forced) apply(op, shown, o); else XV_COUNT("writes to a forced field");
      break;
    }
    case 9: if (!fed) continue; what = "incoming"; feed = v; if (!forced) shown = v; else XV_COUNT("deliveries to a forced field"); break;
    case 10: { if (!field.IsState()) continue; what = "save"; MemStore m; field.Store(&m); saves.push_back({m.bytes, forced, shown}); XV_COUNT("saves"); break; }
    default: {
      if (saves.empty()) continue;
      auto &sv = c.rng.pick(saves);
      what = "restore";
      MemLoad l(sv.bytes);
      field.Restore(&l);
      XV_CHECK(l.done(), "restore", "restoring left " << l.bytes.size() - l.at << " bytes");
      forced = sv.forced;
      shown = sv.value;
      XV_COUNT("restores");
      if (linked) { verify(what); if constexpr (output) field.Push(); }
    }
    }
    c.op(what);
    c.nontrivial = true;
    verify(what);
    if (linked) XV_CHECK(Native<T>::canon(*sink) == Native<T>::canon(shown), "pushed", "after " << what << " the connected field holds " << Native<T>::canon(*sink) << " while the " << (forced ? "forced" : "released") << " field shows " << Native<T>::canon(shown));
  }
}
template <typename T> void forcibleVariants(xv::Case &c, TypeRegistry &types, ::Smp::Uuid uuid, K kind) {
  using F = typename ::Xsmp::Field<T>::forcible;
  switch (c.rng.below(5)) {
  case 0: return forcible<T, F>(c, types, uuid, kind);
  case 1: return forcible<T, typename F::output>(c, types, uuid, kind);
  case 2: return forcible<T, typename F::input>(c, types, uuid, kind);
  case 3: return forcible<T, typename F::input::output::failure>(c, types, uuid, kind);
  default: return forcible<T, typename F::transient::output>(c, types, uuid, kind);
  }
}
XV_SCENARIO(C22, single, 8000, 200000) {
  TypeRegistry types;
  switch (c.rng.below(9)) {
  case 0: return forcibleVariants<bool>(c, types, uuidOf(K::PTK_Bool), K::PTK_Bool);
  case 1: return forcibleVariants<char>(c, types, uuidOf(K::PTK_Char8), K::PTK_Char8);
  case 2: return forcibleVariants<std::uint8_t>(c, types, uuidOf(K::PTK_UInt8), K::PTK_UInt8);
  case 3: return forcibleVariants<std::int32_t>(c, types, uuidOf(K::PTK_Int32), K::PTK_Int32);
  case 4: return forcibleVariants<std::int64_t>(c, types, uuidOf(K::PTK_Duration), K::PTK_Duration);
  case 5: return forcibleVariants<float>(c, types, uuidOf(K::PTK_Float32), K::PTK_Float32);
  case 6: return forcibleVariants<double>(c, types, uuidOf(K::PTK_Float64), K::PTK_Float64);
  case 7: return forcibleVariants<E16>(c, types, enumUuid<E16>(c, types), K::PTK_Int16);
  default: return forcibleVariants<::Xsmp::String<8>>(c, types, textUuid(c, types, 8), K::PTK_String8);
  }
}
XV_SCENARIO(C22, items, 500, 10000) {
  TypeRegistry types;
  using A = ::Xsmp::Array<std::int32_t, 4>;
  using F = ::Xsmp::Field<A>::forcible;
  const auto u = freshUuid(c);
  types.AddArrayType("Ar", "", u, uuidOf(K::PTK_Int32), 4, 4);
  Node parent("n");
  F f(&types, u, "f", "", &parent, ::Smp::ViewKind::VK_All);
  struct M { bool forced = false; std::int32_t v = 0; };
  std::array<M, 4> m;
  std::vector<std::pair<std::vector<char>, std::array<M, 4>>> saves;
  for (std::uint64_t s = 0, steps = 5 + c.rng.below(25); s < steps; ++s) {
    const std::size_t i = c.rng.below(4);
    auto *it = dynamic_cast<::Smp::IForcibleField *>(f.GetItem(i));
    XV_CHECK(it, "item", "an item of a forcible array is not forcible");
    const auto v = intValue<std::int32_t>(c.rng);
    switch (c.rng.below(8)) {
    case 0: c.op("force item"); it->Force({K::PTK_Int32, v}); m[i] = {true, v}; break;
    case 1: c.op("freeze item"); it->Freeze(); m[i].forced = true; break;
    case 2: c.op("unforce item"); it->Unforce(); m[i].forced = false; break;
    case 3: { c.op("assign array"); A a; for (std::size_t k = 0; k < 4; ++k) { a[k] = intValue<std::int32_t>(c.rng); if (!m[k].forced) m[k].v = a[k]; else XV_COUNT("writes to a forced field"); } f = a; break; }
    case 4: c.op("write item"); f[i] = v; if (!m[i].forced) m[i].v = v; else XV_COUNT("writes to a forced field"); break;
    case 5: c.op("set item"); it->SetValue({K::PTK_Int32, v}); if (!m[i].forced) m[i].v = v; else XV_COUNT("writes to a forced field"); break;
    case 6: { c.op("save"); MemStore st; f.Store(&st); saves.emplace_back(st.bytes, m); break; }
    default: { if (saves.empty()) break; c.op("restore"); auto &sv = c.rng.pick(saves); MemLoad l(sv.first); f.Restore(&l); XV_CHECK(l.done(), "restore", "restoring left bytes"); m = sv.second; XV_COUNT("restores"); }
    }
    for (std::size_t k = 0; k < 4; ++k) {
      auto *ik = dynamic_cast<::Smp::IForcibleField *>(f.GetItem(k));
      XV_CHECK(ik->IsForced() == m[k].forced, "flag", "item " << k << " is " << (m[k].forced ? "not forced" : "forced"));
      XV_CHECK(static_cast<std::int32_t>(ik->GetValue()) == m[k].v && *f[k] == m[k].v, "value", "item " << k << " reads " << *f[k] << ", expected " << m[k].v);
      if (m[k].forced) XV_COUNT("forced reads");
    }
    c.nontrivial = true;
  }
}

// ------------------------------------------------------------- C25 failures
XV_SCENARIO(C25, models, 6000, 200000) {
  TypeRegistry types;
  struct Fail { ::Smp::IFailure *f; std::string name; bool failed = false, state = true; int value = 0; ::Smp::IField *field = nullptr; };
  struct Mod { std::unique_ptr<Node> n; std::vector<Fail> fs; };
  std::vector<Mod> ms;
  for (std::uint64_t k = 0, count = 1 + c.rng.below(3); k < count; ++k) {
    Mod m;
    m.n = std::make_unique<Node>(("m" + std::to_string(k)).c_str());
    for (std::uint64_t i = 0, nf = c.rng.below(6); i < nf; ++i) {
      Fail f;
      f.name = "f" + std::to_string(i);
      auto make = [&](auto *tag, ::Smp::Uuid u) { using F = std::remove_pointer_t<decltype(tag)>; auto &x = m.n->own.make<F>(&types, u, f.name.c_str(), "", m.n.get(), ::Smp::ViewKind::VK_All); f.f = &x; f.field = &x; f.state = x.IsState(); };
      switch (c.rng.below(4)) {
      case 0: make(static_cast<::Xsmp::Field<bool>::failure *>(nullptr), uuidOf(K::PTK_Bool)); break;
      case 1: make(static_cast<::Xsmp::Field<double>::forcible::failure *>(nullptr), uuidOf(K::PTK_Float64)); break;
      case 2: make(static_cast<::Xsmp::Field<std::int32_t>::failure::transient *>(nullptr), uuidOf(K::PTK_Int32)); break;
      default: { const auto u = freshUuid(c); types.AddArrayType("Ar", "", u, uuidOf(K::PTK_Int16), 2, 3); make(static_cast<::Xsmp::Field<::Xsmp::Array<std::int16_t, 3>>::failure *>(nullptr), u); }
      }
      m.fs.push_back(f);
    }
    ms.push_back(std::move(m));
  }
  struct Saved { std::size_t m, f; std::vector<char> bytes; bool failed; };
  std::vector<Saved> saves;
  auto verify = [&](const std::string &after) {
    for (auto &m : ms) {
      bool any = false;
      for (auto &f : m.fs) {
        XV_CHECK(f.f->IsFailed() == f.failed, "failure", "after " << after << " " << m.n->GetName() << "." << f.name << (f.failed ? " is not failed" : " is failed"));
        any = any || f.failed;
        XV_CHECK(m.n->GetFailure(f.name.c_str()) == f.f, "lookup", "the model does not find its failure " << f.name);
      }
      XV_CHECK(m.n->IsFailed() == any, "model", "after " << after << " a model with " << m.fs.size() << " failures is " << (any ? "not failed" : "failed"));
      if (any) XV_COUNT("failed models"); else XV_COUNT("working models");
      XV_CHECK(m.n->GetFailures()->size() == m.fs.size(), "lookup", "the model lists " << m.n->GetFailures()->size() << " of " << m.fs.size() << " failures");
      for (std::size_t i = 0; i < m.fs.size(); ++i) XV_CHECK(m.n->GetFailures()->at(i) == m.fs[i].f, "lookup", "failure " << i << " is another");
      XV_CHECK(!m.n->GetFailure("f9") && !m.n->GetFailure(nullptr), "lookup", "a failure that does not exist was found");
    }
  };
  verify("construction");
  for (std::uint64_t s = 0, steps = 5 + c.rng.below(25); s < steps; ++s) {
    const std::size_t mi = c.rng.below(ms.size());
    auto &m = ms[mi];
    if (m.fs.empty()) continue;
    const std::size_t fi = c.rng.below(m.fs.size());
    auto &f = m.fs[fi];
    std::string what;
    switch (c.rng.below(6)) {
    case 0: case 1: what = "Fail"; if (f.failed) XV_COUNT("repeated"); f.f->Fail(); f.failed = true; break;
    case 2: what = "Unfail"; if (!f.failed) XV_COUNT("repeated"); f.f->Unfail(); f.failed = false; break;
    case 3: { what = "save"; MemStore st; f.f->Store(&st); XV_CHECK(f.state || st.bytes.empty(), "transient", "a failure that is no state is saved"); saves.push_back({mi, fi, st.bytes, f.failed}); XV_COUNT("saves"); break; }
    case 4: {
      if (saves.empty()) continue;
      auto &sv = c.rng.pick(saves);
      auto &t = ms[sv.m].fs[sv.f];
      what = "restore";
      MemLoad l(sv.bytes);
      t.f->Restore(&l);
      XV_CHECK(l.done(), "restore", "restoring left bytes");
      if (t.state) { t.failed = sv.failed; XV_COUNT("restores"); }
      break;
    }
    default: {
      what = "write";
      if (auto *sf = dynamic_cast<::Smp::ISimpleField *>(f.field)) sf->SetValue(randomVal(c.rng, sf->GetPrimitiveTypeKind()).any);
    }
    }
    c.op(what + " " + m.n->GetName() + "." + f.name);
    c.nontrivial = true;
    verify(what);
  }
}
} // namespace
