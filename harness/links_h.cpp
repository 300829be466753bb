// Data flow between fields: random graphs of own and published fields of many
// shapes, connected, written, pushed, forced and taken down in any order, every
// field compared with a model after each step.
#include "fieldops.h"
#include "smpx.h"
#include <Smp/FieldAlreadyConnected.h>
#include <Smp/IArrayField.h>
#include <Smp/IDataflowField.h>
#include <Smp/IForcibleField.h>
#include <Smp/ISimpleArrayField.h>
#include <Smp/ISimpleField.h>
#include <Smp/IStructureField.h>
#include <Smp/InvalidTarget.h>
#include <Smp/Publication/IEnumerationType.h>
#include <Smp/Publication/IStructureType.h>
#include <Xsmp/Array.h>
#include <Xsmp/String.h>
namespace {
using namespace smpx;
using ::Smp::AnySimple;
using ::Smp::ViewKind;
using Extension = ::Xsmp::detail::IDataflowFieldExtension;
constexpr ::Smp::Uuid id(unsigned n) { return {0xabcd0000U + n, 1, 2, 3, 4}; }
using Text = ::Xsmp::String<8>;
using Shorts = ::Xsmp::Array<::Smp::Int16, 3>;
using Bytes = ::Xsmp::Array<::Smp::UInt8, 4>::simple;
using Ints = ::Xsmp::Array<::Smp::Int32, 4>::simple;
using Matrix = ::Xsmp::Array<Shorts, 2>;
const ::Smp::Uuid textId = id(1), shortsId = id(2), bytesId = id(3), intsId = id(4), matrixId = id(5), pairId = id(6), swappedId = id(7), outerId = id(8), pairsId = id(9), enumId = id(10), twinId = id(11), bytes5Id = id(12), textsId = id(13), singleId = id(14), tripleId = id(15), shorts2Id = id(16);
const ::Smp::Uuid variantIds[] = {id(20), id(21), id(22), id(23), id(24), id(25), id(26), id(27), id(28), id(29), id(30), id(31)};
using Texts = ::Xsmp::Array<Text, 2>;

struct Pair {
  ::Smp::Int32 a;
  ::Smp::Float64 b;
  template <typename B> struct _Field : public B {
    _Field(::Smp::Publication::ITypeRegistry *r, ::Smp::Uuid t, ::Smp::String8 name, ::Smp::String8 description = "", ::Smp::IObject *parent = nullptr, ViewKind view = ViewKind::VK_None, const Pair &v = {})
        : B(r, t, name, description, parent, view), a{r, ::Smp::Uuids::Uuid_Int32, "a", "", this, view, v.a}, b{r, ::Smp::Uuids::Uuid_Float64, "b", "", this, view, v.b} {}
    template <typename V> void each(V v) { v(0, a); v(1, b); }
    typename B::template Field<::Smp::Int32> a;
    typename B::template Field<::Smp::Float64>::input b;
  };
};
/// the members the other way round: not equivalent to a pair
struct Swapped {
  ::Smp::Float64 b;
  ::Smp::Int32 a;
  template <typename B> struct _Field : public B {
    _Field(::Smp::Publication::ITypeRegistry *r, ::Smp::Uuid t, ::Smp::String8 name, ::Smp::String8 description = "", ::Smp::IObject *parent = nullptr, ViewKind view = ViewKind::VK_None, const Swapped &v = {})
        : B(r, t, name, description, parent, view), b{r, ::Smp::Uuids::Uuid_Float64, "b", "", this, view, v.b}, a{r, ::Smp::Uuids::Uuid_Int32, "a", "", this, view, v.a} {}
    template <typename V> void each(V v) { v(0, b); v(1, a); }
    typename B::template Field<::Smp::Float64> b;
    typename B::template Field<::Smp::Int32>::input a;
  };
};
struct Triple {
  Pair p;
  ::Smp::Int32 c;
};
struct Outer {
  Pair p;
  Shorts v;
  Bytes s;
  ::Smp::Int32 k;
  Text t;
  template <typename B> struct _Field : public B {
    _Field(::Smp::Publication::ITypeRegistry *r, ::Smp::Uuid u, ::Smp::String8 name, ::Smp::String8 description = "", ::Smp::IObject *parent = nullptr, ViewKind view = ViewKind::VK_None, const Outer &o = {})
        : B(r, u, name, description, parent, view), p{r, pairId, "p", "", this, view, o.p}, v{r, shortsId, "v", "", this, view, o.v}, s{r, bytesId, "s", "", this, view, o.s}, k{r, ::Smp::Uuids::Uuid_Int32, "k", "", this, view, o.k}, t{r, textId, "t", "", this, view, o.t} {}
    template <typename V> void each(V w) { w(0, p); w(1, v); w(2, s); w(3, k); w(4, t); }
    typename B::template Field<Pair> p;
    typename B::template Field<Shorts> v;
    typename B::template Field<Bytes>::input s;
    typename B::template Field<::Smp::Int32>::output k;
    typename B::template Field<Text> t;
  };
};
using Pairs = ::Xsmp::Array<Pair, 2>;

void declare(::Smp::Publication::ITypeRegistry *r) {
  r->AddStringType("Text", "", textId, 8);
  r->AddArrayType("Shorts", "", shortsId, ::Smp::Uuids::Uuid_Int16, sizeof(::Smp::Int16), 3);
  r->AddArrayType("Bytes", "", bytesId, ::Smp::Uuids::Uuid_UInt8, 1, 4, true);
  r->AddArrayType("Bytes5", "", bytes5Id, ::Smp::Uuids::Uuid_UInt8, 1, 5, true);
  r->AddArrayType("Ints", "", intsId, ::Smp::Uuids::Uuid_Int32, 4, 4, true);
  r->AddArrayType("Matrix", "", matrixId, shortsId, sizeof(Shorts), 2);
  r->AddArrayType("Texts", "", textsId, textId, sizeof(Text), 2);
  auto *e = r->AddEnumerationType("Enum", "", enumId, 4);
  for (int n = 0; n < 3; n++) e->AddLiteral(("l" + std::to_string(n)).c_str(), "", n);
  for (const auto &u : {pairId, twinId}) {
    auto *p = r->AddStructureType(u == pairId ? "Pair" : "Twin", "", u);
    p->AddField("a", "", u == pairId ? ::Smp::Uuids::Uuid_Int32 : enumId, offsetof(Pair, a));
    p->AddField("b", "", ::Smp::Uuids::Uuid_Float64, offsetof(Pair, b), ViewKind::VK_All, true, true);
  }
  auto *w = r->AddStructureType("Swapped", "", swappedId);
  w->AddField("b", "", ::Smp::Uuids::Uuid_Float64, offsetof(Swapped, b));
  w->AddField("a", "", ::Smp::Uuids::Uuid_Int32, offsetof(Swapped, a), ViewKind::VK_All, true, true);
  r->AddStructureType("Single", "", singleId)->AddField("a", "", ::Smp::Uuids::Uuid_Int32, 0);
  auto *t = r->AddStructureType("Triple", "", tripleId); // a pair and one more
  t->AddField("a", "", ::Smp::Uuids::Uuid_Int32, offsetof(Triple, p.a));
  t->AddField("b", "", ::Smp::Uuids::Uuid_Float64, offsetof(Triple, p.b), ViewKind::VK_All, true, true);
  t->AddField("c", "", ::Smp::Uuids::Uuid_Int32, offsetof(Triple, c));
  r->AddArrayType("Shorts2", "", shorts2Id, ::Smp::Uuids::Uuid_Int16, sizeof(::Smp::Int16), 2);
  r->AddArrayType("Pairs", "", pairsId, pairId, sizeof(Pair), 2);
  auto *o = r->AddStructureType("Outer", "", outerId);
  o->AddField("p", "", pairId, offsetof(Outer, p));
  o->AddField("v", "", shortsId, offsetof(Outer, v));
  o->AddField("s", "", bytesId, offsetof(Outer, s), ViewKind::VK_All, true, true);
  o->AddField("k", "", ::Smp::Uuids::Uuid_Int32, offsetof(Outer, k), ViewKind::VK_All, true, false, true);
  o->AddField("t", "", textId, offsetof(Outer, t));
  // one member of another type or shape, nothing else different
  for (std::size_t i = 0; i < std::size(variantIds); i++) {
    auto *x = r->AddStructureType(("Outer" + std::to_string(i)).c_str(), "", variantIds[i]);
    const auto &simple = ::Smp::Uuids::Uuid_Int32;
    x->AddField("p", "", i == 0 ? simple : i == 1 ? shorts2Id : i == 2 ? bytesId : i == 10 ? singleId : pairId, offsetof(Outer, p));
    x->AddField("v", "", i == 3 ? simple : i == 4 ? singleId : i == 5 ? bytesId : i == 11 ? shorts2Id : shortsId, offsetof(Outer, v));
    x->AddField("s", "", i == 6 ? ::Smp::Uuids::Uuid_UInt8 : bytesId, offsetof(Outer, s), ViewKind::VK_All, true, true);
    x->AddField("k", "", i == 7 ? ::Smp::Uuids::Uuid_Int16 : i == 8 ? singleId : simple, offsetof(Outer, k), ViewKind::VK_All, true, false, true);
    x->AddField("t", "", i == 9 ? simple : textId, offsetof(Outer, t));
  }
}

std::string text(const AnySimple &v) {
  std::ostringstream o;
  switch (v.GetType()) {
  case Kind::PTK_Float64: o << std::hexfloat << static_cast<::Smp::Float64>(v); break;
  case Kind::PTK_String8: o << '\'' << static_cast<::Smp::String8>(v) << '\''; break;
  case Kind::PTK_Int16: o << static_cast<::Smp::Int16>(v); break;
  case Kind::PTK_UInt8: o << static_cast<int>(static_cast<::Smp::UInt8>(v)); break;
  case Kind::PTK_Int32: o << static_cast<::Smp::Int32>(v); break;
  default: o << "kind " << static_cast<int>(v.GetType());
  }
  return o.str();
}
struct Refused {};

/// the model of a field and of everything below it
struct F {
  std::string path;
  ::Smp::IField *field = nullptr;
  enum Shape { Simple, SimpleArray, Array, Structure } shape = Simple;
  bool own = false, input = false, output = false;
  std::size_t order = 0, component = 0;
  std::vector<F *> items;
  std::vector<F *> targets;
  std::string signature;
  // of the leaves
  Kind kind = Kind::PTK_None;
  ::Smp::ISimpleField *simple = nullptr;
  ::Smp::ISimpleArrayField *array = nullptr;
  ::Smp::IForcibleField *forcible = nullptr;
  std::vector<AnySimple> values;
  std::vector<F *> links; // the fields an own leaf hands its value to
  std::function<void(std::size_t, const AnySimple &)> native;
  bool connectable = false, literals = false, forced = false;

  ::Smp::IDataflowField *dataflow() const { return dynamic_cast<::Smp::IDataflowField *>(field); }
  bool leaf() const { return shape == Simple || shape == SimpleArray; }
  AnySimple actual(std::size_t i) const { return simple ? simple->GetValue() : array->GetValue(i); }
};

/// the types of own fields of every annotation
template <typename T> T read(const AnySimple &v) { return ::Xsmp::AnySimpleConverter<T>::convert(v); }
template <typename Owner, typename X> void bind(F &f, X &field, Owner &o);
template <typename Owner, typename T, typename... A> void bindOwn(F &f, ::Xsmp::SimpleField<T, A...> &s, Owner &) {
  f.native = [&s](std::size_t, const AnySimple &v) { s = read<T>(v); };
  f.connectable = ::Xsmp::Annotation::any_of<::Xsmp::Annotation::connectable, A...>;
}
template <typename Owner, typename T, typename... A> void bindOwn(F &f, ::Xsmp::SimpleArrayField<T, A...> &s, Owner &) {
  f.native = [&s](std::size_t i, const AnySimple &v) {
    const auto w = read<typename T::value_type>(v);
    switch (w % 4) {
    case 0: s[i] = w; break;
    case 1: s.at(i) = w; break;
    case 2: if (i == 0) s.front() = w; else if (i + 1 == s.size()) s.back() = w; else s[i] = w; break;
    default: { auto it = s.begin(); for (std::size_t k = 0; k < i; k++) ++it; *it = w; }
    }
  };
  f.connectable = ::Xsmp::Annotation::any_of<::Xsmp::Annotation::connectable, A...>;
}
template <typename Owner, typename T, typename... A> void bindOwn(F &f, ::Xsmp::ArrayField<T, A...> &s, Owner &o) {
  for (std::size_t i = 0; i < s.size(); i++) bind(*f.items.at(i), s[i], o);
}
template <typename Owner, typename T, typename... A> void bindOwn(F &f, ::Xsmp::StructureField<T, A...> &s, Owner &o) {
  using S = typename T::template _Field<::Xsmp::StructureField<T, A...>>;
  static_cast<S &>(s).each([&](std::size_t i, auto &m) { bind(*f.items.at(i), m, o); });
}
template <typename Owner, typename X> void bind(F &f, X &field, Owner &o) { bindOwn(f, field, o); }

struct Graph {
  xv::Case &c;
  ::Xsmp::Simulator sim;
  std::deque<F> pool;
  std::vector<F *> tops;
  std::vector<F *> all;
  struct Comp { Node *node; std::size_t parent; bool alive = true; };
  std::vector<Comp> comps;
  std::size_t made = 0;
  xv::Rng &r;
  explicit Graph(xv::Case &cc) : c(cc), r(cc.rng) {}

  // ------------------------------------------------------------ building
  F &add(::Smp::IField *field, const std::string &path, bool own, bool in, bool out, std::size_t comp) {
    pool.emplace_back();
    F &f = pool.back();
    all.push_back(&f);
    f.field = field;
    f.path = path;
    f.own = own;
    f.input = in;
    f.output = out;
    f.order = made;
    f.component = comp;
    XV_CHECK(field->IsInput() == in && field->IsOutput() == out, "direction", path << " is " << (field->IsInput() ? "" : "no ") << "input and " << (field->IsOutput() ? "" : "no ") << "output, expected " << in << out);
    XV_CHECK(!out || f.dataflow(), "direction", path << " is an output without data flow");
    if ((f.simple = dynamic_cast<::Smp::ISimpleField *>(field))) {
      f.kind = f.simple->GetPrimitiveTypeKind();
      f.forcible = dynamic_cast<::Smp::IForcibleField *>(field);
      f.values.push_back(f.simple->GetValue());
      f.signature = "k" + std::to_string(static_cast<int>(f.kind));
      f.literals = !own && dynamic_cast<const ::Smp::Publication::IEnumerationType *>(field->GetType());
    } else if ((f.array = dynamic_cast<::Smp::ISimpleArrayField *>(field))) {
      f.shape = F::SimpleArray;
      for (std::size_t i = 0; i < f.array->GetSize(); i++) f.values.push_back(f.array->GetValue(i));
      f.kind = f.values.at(0).GetType();
      f.signature = "S" + std::to_string(f.values.size()) + "k" + std::to_string(static_cast<int>(f.kind));
    } else if (auto *a = dynamic_cast<::Smp::IArrayField *>(field)) {
      f.shape = F::Array;
      f.signature = "A(";
      for (std::size_t i = 0; i < a->GetSize(); i++) {
        auto &item = add(a->GetItem(i), path + "[" + std::to_string(i) + "]", own, in, out, comp);
        f.items.push_back(&item);
        f.signature += item.signature + ",";
      }
      f.signature += ")";
    } else {
      auto *s = dynamic_cast<::Smp::IStructureField *>(field);
      XV_CHECK(s, "shape", path << " has no shape");
      f.shape = F::Structure;
      f.signature = "T(";
      for (auto *m : *s->GetFields()) {
        const std::string name = m->GetName();
        // members of published structures have the directions of the structure besides their own
        auto &item = add(m, path + "." + name, own, (!own && in) || name == "s" || ((name == "a" || name == "b") && f.items.size() == 1), (!own && out) || name == "k", comp);
        f.items.push_back(&item);
        f.signature += item.signature + ",";
      }
      f.signature += ")";
    }
    return f;
  }
  template <typename T> void ownField(Node &n, ::Smp::IPublication *p, const std::string &name, std::size_t comp, const ::Smp::Uuid &type) {
    auto *reg = p->GetTypeRegistry();
    auto build = [&](auto *tag, bool in, bool out) {
      using X = std::remove_pointer_t<decltype(tag)>;
      auto &x = n.own.make<X>(reg, type, name.c_str(), "", &n, ViewKind::VK_None);
      p->PublishField(&x);
      auto &f = add(&x, comps[comp].node->GetName() + ("." + name), true, in, out, comp);
      bind(f, x, *this);
      tops.push_back(&f);
      c.op(std::string("own ") + (in ? "input " : "") + (out ? "output " : "") + f.path + " " + f.signature);
    };
    using B = ::Xsmp::Field<T>;
    switch (r.below(6)) {
    case 0: build(static_cast<typename B::input *>(nullptr), true, false); break;
    case 1: case 2: build(static_cast<typename B::output *>(nullptr), false, true); break;
    case 3: build(static_cast<typename B::input::output *>(nullptr), true, true); break;
    case 4:
      if constexpr (!::Xsmp::detail::is_simple_array_field<T>::value && !std::is_same_v<T, Outer>) { build(static_cast<typename B::input::forcible *>(nullptr), true, false); break; }
      else { build(static_cast<typename B::output::input *>(nullptr), true, true); break; }
    default: build(static_cast<B *>(nullptr), false, false);
    }
  }
  template <typename T> void published(Node &n, ::Smp::IPublication *p, const std::string &name, std::size_t comp, const ::Smp::Uuid &type) {
    const bool in = r.chance(2, 3), out = r.chance(2, 3);
    auto &m = n.own.make<T>();
    p->PublishField(name.c_str(), "", &m, type, ViewKind::VK_All, true, in, out);
    finish(p, name, in, out, comp);
  }
  void finish(::Smp::IPublication *p, const std::string &name, bool in, bool out, std::size_t comp) {
    auto &f = add(p->GetField(name.c_str()), comps[comp].node->GetName() + ("." + name), false, in, out, comp);
    tops.push_back(&f);
    c.op(std::string("published ") + (in ? "input " : "") + (out ? "output " : "") + f.path + " " + f.signature);
  }
  void publish(Node &n, ::Smp::IPublication *p, std::size_t comp, int palette) {
    const auto count = 1 + r.below(5);
    for (std::uint64_t k = 0; k < count; k++, made++) {
      const std::string name = "f" + std::to_string(k);
      const bool own = r.chance(1, 2);
      auto one = [&](auto *tag, const ::Smp::Uuid &type) {
        using T = std::remove_pointer_t<decltype(tag)>;
        if (own) ownField<T>(n, p, name, comp, type); else published<T>(n, p, name, comp, type);
      };
      // a few kinds of fields in each graph, for many compatible pairs
      const int kinds[][4] = {{0, 1, 7, 12}, {2, 3, 4, 11}, {5, 6, 6, 8}, {9, 9, 3, 0}, {10, 10, 2, 3}, {13, 5, 0, 6}, {9, 14, 14, 9}, {13, 10, 13, 10}};
      switch (r.chance(5, 6) ? kinds[palette][r.below(4)] : static_cast<int>(r.below(15))) {
      case 0: one(static_cast<::Smp::Int32 *>(nullptr), ::Smp::Uuids::Uuid_Int32); break;
      case 1: one(static_cast<::Smp::Float64 *>(nullptr), ::Smp::Uuids::Uuid_Float64); break;
      case 2: if (r.chance(1, 4)) published<std::array<::Smp::Int16, 2>>(n, p, name, comp, shorts2Id); else one(static_cast<Shorts *>(nullptr), shortsId); break;
      case 3: one(static_cast<Bytes *>(nullptr), bytesId); break;
      case 4: one(static_cast<Ints *>(nullptr), intsId); break;
      case 5: one(static_cast<Pair *>(nullptr), pairId); break;
      case 6: one(static_cast<Pair *>(nullptr), pairId); break;
      case 7: one(static_cast<Text *>(nullptr), textId); break;
      case 8: switch (r.below(3)) {
        case 0: one(static_cast<Swapped *>(nullptr), swappedId); break;
        case 1: published<::Smp::Int32>(n, p, name, comp, singleId); break;
        default: published<Triple>(n, p, name, comp, tripleId);
        } break;
      case 9: one(static_cast<Outer *>(nullptr), outerId); break;
      case 10: if (r.chance(1, 2)) one(static_cast<Matrix *>(nullptr), matrixId); else one(static_cast<Texts *>(nullptr), textsId); break;
      case 11: {
        const bool in = r.chance(2, 3), out = r.chance(2, 3);
        if (r.chance(1, 3)) {
          auto &m = n.own.make<std::array<::Smp::UInt8, 5>>();
          if (r.chance(1, 2)) p->PublishField(name.c_str(), "", &m, bytes5Id, ViewKind::VK_All, true, in, out);
          else p->PublishArray(name.c_str(), "", 4, &m, Kind::PTK_UInt8, ViewKind::VK_All, true, in, out);
        } else {
          auto &m = n.own.make<std::array<::Smp::Int32, 4>>();
          p->PublishArray(name.c_str(), "", 4, &m, Kind::PTK_Int32, ViewKind::VK_All, true, in, out);
        }
        finish(p, name, in, out, comp);
        break;
      }
      case 12: published<::Smp::Int32>(n, p, name, comp, enumId); break;
      case 14: published<Outer>(n, p, name, comp, variantIds[r.below(std::size(variantIds))]); break;
      default: if (r.chance(1, 2)) published<Pair>(n, p, name, comp, twinId); else one(static_cast<Pairs *>(nullptr), pairsId);
      }
    }
  }
  void build() {
    declare(sim.GetTypeRegistry());
    const auto n = 2 + r.below(4);
    const int palette = static_cast<int>(r.below(8));
    for (std::uint64_t k = 0; k < n; k++) {
      const std::size_t parent = k > 1 && r.chance(1, 3) ? r.below(k) : SIZE_MAX;
      const std::string name = "c" + std::to_string(k);
      Node *node = nullptr;
      if (parent != SIZE_MAX && comps[parent].parent == SIZE_MAX) node = &comps[parent].node->child<Node>(name.c_str());
      else { node = new Node(name.c_str(), "", &sim, &sim); sim.AddModel(node); }
      comps.push_back({node, node->GetParent() == &sim ? SIZE_MAX : parent});
      node->onPublish = [this, node, k, palette](::Smp::IPublication *p) { publish(*node, p, k, palette); };
    }
    sim.Publish();
  }
  // ------------------------------------------------------------ the model
  void set(F &f, std::size_t i, const AnySimple &v, bool native) {
    if (f.literals && (static_cast<::Smp::Int32>(v) < 0 || static_cast<::Smp::Int32>(v) > 2)) throw Refused{};
    if (f.forced) { XV_COUNT("values kept from forced fields"); return; }
    f.values[i] = v;
    if (!f.connectable || (f.shape == F::SimpleArray && !native)) return;
    for (auto *t : f.links) { XV_COUNT("values delivered"); set(*t, i, v, false); }
  }
  void copy(F &a, F &b) {
    if (a.leaf()) for (std::size_t i = 0; i < a.values.size(); i++) { XV_COUNT("values delivered"); set(b, i, AnySimple(a.values[i]), false); }
    for (std::size_t i = 0; i < a.items.size(); i++) copy(*a.items[i], *b.items[i]);
  }
  static bool has(const std::vector<F *> &v, const F *f) { return std::find(v.begin(), v.end(), f) != v.end(); }
  static void drop(std::vector<F *> &v, const F *f) { auto it = std::find(v.begin(), v.end(), f); if (it != v.end()) v.erase(it); }
  /// an own field or anything in it is already connected to the same of the target
  bool connected(const F &a, const F &b) const {
    if (!a.own) return has(a.targets, &b);
    if (a.leaf()) return has(a.links, &b);
    if (has(a.targets, &b)) return true;
    for (std::size_t i = 0; i < a.items.size(); i++) if (connected(*a.items[i], *b.items[i])) return true;
    return false;
  }
  bool valid(const F &a, const F &b) const { return a.output && b.input && &a != &b && a.signature == b.signature; }
  void connect(F &a, F &b) {
    if (!a.own) { copy(a, b); a.targets.push_back(&b); return; }
    if (a.leaf()) { copy(a, b); a.links.push_back(&b); return; }
    if (a.dataflow()) a.targets.push_back(&b);
    for (std::size_t i = 0; i < a.items.size(); i++) connect(*a.items[i], *b.items[i]);
  }
  void disconnect(F &a, const F &b) {
    if (!a.own) { drop(a.targets, &b); return; }
    if (a.leaf()) { drop(a.links, &b); return; }
    if (a.dataflow()) { if (!has(a.targets, &b)) return; drop(a.targets, &b); }
    for (std::size_t i = 0; i < a.items.size(); i++) disconnect(*a.items[i], *b.items[i]);
  }
  void push(F &a) {
    if (!a.own) { for (auto *t : a.targets) copy(a, *t); return; }
    if (a.leaf()) {
      if (!a.connectable) return;
      for (std::size_t i = 0; i < a.values.size(); i++) for (auto *t : a.links) { XV_COUNT("values delivered"); set(*t, i, AnySimple(a.values[i]), false); }
      return;
    }
    for (auto *i : a.items) push(*i);
  }
  bool alive(const F &f) const { return comps[f.component].alive; }
  bool within(std::size_t comp, std::size_t target) const { return comp == target || comps[comp].parent == target; }
  // ------------------------------------------------------------ comparison
  void verify(const std::string &after) {
    for (auto *f : all) {
      if (!alive(*f)) continue;
      for (std::size_t i = 0; i < f->values.size(); i++) {
        const auto got = text(f->actual(i)), want = text(f->values[i]);
        XV_CHECK(got == want, "value", "after " << after << ", " << f->path << " (item " << i << ") is " << got << ", expected " << want);
        XV_COUNT("values compared");
      }
      if (f->forcible) XV_CHECK(f->forcible->IsForced() == f->forced, "forced", "after " << after << ", " << f->path << " is " << (f->forced ? "no longer" : "suddenly") << " forced");
      if (auto *e = dynamic_cast<Extension *>(f->field)) {
        const auto *in = e->GetInputFields();
        const auto &want = f->own && f->leaf() ? f->links : f->targets;
        XV_CHECK(in, "targets", f->path << " has no list of targets");
        std::size_t n = 0;
        bool same = in->size() == want.size();
        for (auto *t : *in) { same = same && n < want.size() && t == want[n]->field && in->at(n) == t; n++; }
        XV_CHECK(same && n == want.size() && in->at(n) == nullptr, "targets", "after " << after << ", " << f->path << " has " << in->size() << " targets, expected " << want.size() << " or other ones");
        for (auto *t : want) {
          const auto *named = in->at(t->field->GetName());
          XV_CHECK(named && named->GetName() == std::string_view(t->field->GetName()), "targets", "target " << t->path << " of " << f->path << " is not found by name");
        }
        XV_COUNT("target lists compared");
      }
    }
  }
  void resync() {
    for (auto *f : all) if (alive(*f)) for (std::size_t i = 0; i < f->values.size(); i++) f->values[i] = f->actual(i);
  }
  /// does the same to the fields and to the model; true if nothing refused a value
  template <typename A, typename M> bool both(const std::string &what, A &&action, M &&model) {
    c.op(what);
    bool expected = false, threw = false;
    try { model(); } catch (const Refused &) { expected = true; }
    std::string error;
    try { action(); } catch (const ::Smp::Exception &e) { threw = true; error = e.what(); }
    XV_CHECK(threw == expected, "refusal", what << (threw ? " threw although every target takes the value: " + error : " succeeded although a target cannot take the value"));
    if (threw) { XV_COUNT("values refused by a target"); resync(); }
    return !threw;
  }
  AnySimple value(const F &f) {
    switch (f.kind) {
    case Kind::PTK_Int32: return {f.kind, static_cast<::Smp::Int32>(r.chance(1, 15) ? 77 : r.below(3))};
    case Kind::PTK_Float64: return {f.kind, static_cast<::Smp::Float64>(static_cast<double>(r.range(-1000, 1000)) / 8)};
    case Kind::PTK_Int16: return {f.kind, static_cast<::Smp::Int16>(r.next())};
    case Kind::PTK_UInt8: return {f.kind, static_cast<::Smp::UInt8>(r.next())};
    default: {
      std::string s(r.below(9), 'x');
      for (auto &ch : s) ch = static_cast<char>('a' + r.below(26));
      return {f.kind, s.c_str()};
    }
    }
  }
  void connectStep() {
    std::vector<F *> from;
    for (auto *f : all) if (alive(*f) && f->dataflow()) from.push_back(f);
    if (from.empty()) return;
    F &a = *r.pick(from);
    std::vector<F *> to, good;
    for (auto *f : all) {
      if (!alive(*f)) continue;
      // values flow onwards only
      const bool ok = valid(a, *f);
      if (ok && f->order <= a.order) continue;
      to.push_back(f);
      if (ok) good.push_back(f);
    }
    if (to.empty()) return;
    F &b = !good.empty() && r.chance(4, 5) ? *r.pick(good) : *r.pick(to);
    const std::string what = "connect " + a.path + " to " + b.path;
    if (!valid(a, b)) {
      c.op(what + ": invalid");
      xv::throws<::Smp::InvalidTarget>("invalid target", what, [&] { a.dataflow()->Connect(b.field); });
      XV_COUNT("invalid targets");
    } else if (connected(a, b)) {
      c.op(what + ": connected");
      xv::throws<::Smp::FieldAlreadyConnected>("connected", what, [&] { a.dataflow()->Connect(b.field); });
      XV_COUNT("targets already connected");
    } else {
      const auto before = links();
      if (!both(what, [&] { a.dataflow()->Connect(b.field); }, [&] { connect(a, b); })) restore(before);
      else { XV_COUNT("connections"); if (!a.leaf()) XV_COUNT("connections of structures and arrays"); c.nontrivial = true; }
    }
  }
  std::vector<std::pair<std::vector<F *>, std::vector<F *>>> links() const {
    std::vector<std::pair<std::vector<F *>, std::vector<F *>>> v;
    for (auto *f : all) v.emplace_back(f->targets, f->links);
    return v;
  }
  void restore(const std::vector<std::pair<std::vector<F *>, std::vector<F *>>> &v) {
    for (std::size_t i = 0; i < v.size(); i++) { all[i]->targets = v[i].first; all[i]->links = v[i].second; }
  }
  void step() {
    switch (r.below(20)) {
    case 0: case 1: case 2: case 3: case 4: connectStep(); break;
    case 5: case 6: { // disconnect
      std::vector<F *> from;
      for (auto *f : all) if (alive(*f) && f->dataflow()) from.push_back(f);
      if (from.empty()) break;
      F &a = *r.pick(from);
      const auto &targets = a.own && a.leaf() ? a.links : a.targets;
      F *b = !targets.empty() && r.chance(5, 6) ? r.pick(targets) : r.pick(all);
      if (!alive(*b)) break;
      c.op("disconnect " + a.path + " from " + b->path);
      if (has(targets, b)) XV_COUNT("disconnections");
      // fields of other shapes were never connected
      if (a.signature == b->signature) disconnect(a, *b);
      xv::quiet("disconnect", "disconnecting", [&] { dynamic_cast<Extension *>(a.field)->Disconnect(b->field); });
      break;
    }
    case 7: case 8: case 9: case 10: { // push
      std::vector<F *> from, linked;
      for (auto *f : all) if (alive(*f) && f->dataflow()) { from.push_back(f); if (!f->targets.empty() || !f->links.empty()) linked.push_back(f); }
      if (from.empty()) break;
      F &a = *(!linked.empty() && r.chance(4, 5) ? r.pick(linked) : r.pick(from));
      both("push " + a.path, [&] { a.dataflow()->Push(); }, [&] { push(a); });
      XV_COUNT("pushes");
      break;
    }
    case 11: case 12: { // force
      std::vector<F *> f;
      for (auto *x : all) if (alive(*x) && x->forcible) f.push_back(x);
      if (f.empty()) break;
      F &a = *r.pick(f);
      switch (r.below(3)) {
      case 0: {
        const auto v = value(a);
        both("force " + a.path + " to " + text(v), [&] { a.forcible->Force(v); }, [&] { a.forced = false; set(a, 0, v, false); a.forced = true; });
        break;
      }
      case 1: c.op("freeze " + a.path); a.forcible->Freeze(); a.forced = true; break;
      default: c.op("release " + a.path); a.forcible->Unforce(); a.forced = false;
      }
      XV_COUNT("forcings");
      break;
    }
    case 13: { // the components drop their links to another one
      if (!r.chance(1, 3)) break;
      const auto t = r.below(comps.size());
      if (!comps[t].alive) break;
      c.op(std::string("remove the links to ") + comps[t].node->GetName());
      for (std::size_t k = 0; k < comps.size(); k++) {
        if (!comps[k].alive || within(k, t)) continue;
        comps[k].node->RemoveLinks(comps[t].node);
        for (auto *f : all) {
          if (f->component != k) continue;
          for (const auto *list : {&f->targets, &f->links}) {
            const auto targets = *list;
            if (list == &f->links && !f->dataflow()) continue;
            for (auto *b : targets) if (within(b->component, t)) { disconnect(*f, *b); XV_COUNT("links removed"); }
          }
        }
      }
      verify("removing links");
      if (comps[t].parent == SIZE_MAX || r.chance(1, 2)) break;
      c.op(std::string("delete ") + comps[t].node->GetName());
      comps[t].alive = false;
      comps[comps[t].parent].node->children.DeleteComponent(comps[t].node);
      XV_COUNT("targets deleted");
      break;
    }
    default: { // write
      std::vector<F *> f, linked;
      for (auto *x : all) if (alive(*x) && x->leaf()) { f.push_back(x); if (!x->links.empty()) linked.push_back(x); }
      if (f.empty()) break;
      F &a = *(!linked.empty() && r.chance(3, 5) ? r.pick(linked) : r.pick(f));
      const auto i = r.below(a.values.size());
      const auto v = value(a);
      const bool native = a.native && r.chance(1, 2);
      both("write " + a.path + "[" + std::to_string(i) + "] = " + text(v) + (native ? " directly" : ""), [&] {
        if (native) a.native(i, v); else if (a.simple) a.simple->SetValue(v); else a.array->SetValue(i, v); }, [&] { set(a, i, v, native); });
      XV_COUNT("writes");
      if (!a.links.empty()) XV_COUNT("writes of connected fields");
    }
    }
    verify(c.log.empty() ? "building" : c.log.back());
  }
};
} // namespace

XV_SCENARIO(C23, graph, 4000, 80000) {
  Graph g(c);
  g.build();
  g.verify("building");
  const auto steps = 10 + c.rng.below(60);
  for (std::uint64_t k = 0; k < steps; k++) g.step();
}

/// the items of a connected array, changed in every native way: each change of
/// an item reaches the same item of the targets, and nothing else changes
namespace {
template <typename T> void elements(xv::Case &c, ::Smp::Uuid item) {
  constexpr std::size_t n = 5;
  using A = typename ::Xsmp::Array<T, n>::simple;
  const ::Smp::Uuid type = id(90);
  ::Xsmp::Simulator sim;
  auto *types = sim.GetTypeRegistry();
  types->AddArrayType("Items", "", type, item, sizeof(T), n, true);
  Node a{"a", "", &sim, &sim};
  typename ::Xsmp::Field<A>::output out{types, type, "out", "", &a};
  typename ::Xsmp::Field<A>::input first{types, type, "first", "", &a}, second{types, type, "second", "", &a};
  out.Connect(&first);
  out.Connect(&second);
  std::array<T, n> model{};
  const auto &read = out;
  for (auto steps = 5 + c.rng.below(40); steps > 0; --steps) {
    const auto i = c.rng.below(n);
    int op = 12;
    T operand = Native<T>::random(c.rng);
    if (c.rng.chance(2, 3)) { if (!operation<T>(c, op, model[i], operand)) op = 12; }
    if (op == 12) operand = Native<T>::random(c.rng);
    auto change = [&](auto &&x) { if (op == 12) x = operand; else apply(op, x, operand); };
    const auto way = c.rng.below(13);
    const auto to = static_cast<std::ptrdiff_t>(i);
    const auto back = static_cast<std::ptrdiff_t>(n - i);
    c.op("item " + std::to_string(i) + " of " + Native<T>::canon(model[i]) + " operator " + std::to_string(op) + " with " + Native<T>::canon(operand) + " in way " + std::to_string(way));
    switch (way) {
    case 0: change(out[i]); break;
    case 1: change(out.at(i)); break;
    case 2: if (i == 0) change(out.front()); else if (i + 1 == n) change(out.back()); else change(out[i]); break;
    case 3: { auto it = out.begin(); for (std::size_t k = 0; k < i; ++k) ++it; change(*it); break; }
    case 4: { auto it = out.begin(); for (std::size_t k = 0; k < i; ++k) { const auto was = it++; XV_CHECK(was.base() + 1 == it.base(), "iterator", "the iterator before a post-increment is not the one before it"); } change(*it); break; }
    case 5: { auto it = out.end(); for (std::size_t k = n; k > i; --k) --it; change(*it); break; }
    case 6: { auto it = out.end(); for (std::size_t k = n; k > i; --k) { const auto was = it--; XV_CHECK(was.base() == it.base() + 1, "iterator", "the iterator before a post-decrement is not the one after it"); } change(*it); break; }
    case 7: { auto it = out.begin(); it += to; change(*it); break; }
    case 8: change(*(out.begin() + to)); break;
    case 9: { auto it = out.end(); it -= back; change(*it); break; }
    case 10: change(*(out.end() - back)); break;
    case 11: { const auto from = static_cast<std::ptrdiff_t>(c.rng.below(n)); change((out.begin() + from)[to - from]); break; }
    default: { auto it = out.rbegin(); for (std::size_t k = n - 1; k > i; --k) ++it; change(*it); XV_CHECK(it != out.rend(), "iterator", "an item behind the last one, backwards"); }
    }
    if (op == 12) model[i] = operand; else apply(op, model[i], operand);
    XV_COUNT("items changed natively");
    std::size_t k = 0;
    for (auto x : read) { XV_CHECK(Native<T>::canon(x) == Native<T>::canon(model[k]), "items", "item " << k << " is " << Native<T>::canon(x) << ", expected " << Native<T>::canon(model[k])); ++k; }
    XV_EQ(k, n, "items", "items passed");
    k = 0;
    for (auto it = out.begin(); it != out.end(); ++it, ++k) { const T &x = *it; const T &y = *(*it); XV_CHECK(Native<T>::canon(x) == Native<T>::canon(model[k]) && Native<T>::canon(y) == Native<T>::canon(model[k]) && (*it).operator->() == &x && it == out.begin() + static_cast<std::ptrdiff_t>(k), "items", "item " << k << " is " << Native<T>::canon(x) << ", expected " << Native<T>::canon(model[k])); }
    for (auto *target : {&first, &second}) for (k = 0; k < n; ++k) XV_CHECK(Native<T>::canon(std::as_const(*target)[k]) == Native<T>::canon(model[k]), "delivered", "item " << k << " of a target is " << Native<T>::canon(std::as_const(*target)[k]) << ", expected " << Native<T>::canon(model[k]));
  }
  xv::throws<std::out_of_range>("items", "an item beyond the last", [&] { (void)out.at(n); });
  c.nontrivial = true;
}
} // namespace
XV_SCENARIO(C23, elements, 1500, 30000) {
  switch (c.rng.below(6)) {
  case 0: elements<::Smp::Int32>(c, ::Smp::Uuids::Uuid_Int32); break;
  case 1: elements<::Smp::UInt8>(c, ::Smp::Uuids::Uuid_UInt8); break;
  case 2: elements<::Smp::Int16>(c, ::Smp::Uuids::Uuid_Int16); break;
  case 3: elements<::Smp::UInt64>(c, ::Smp::Uuids::Uuid_UInt64); break;
  case 4: elements<::Smp::Float64>(c, ::Smp::Uuids::Uuid_Float64); break;
  default: elements<bool>(c, ::Smp::Uuids::Uuid_Bool); break;
  }
}
