// Publication of fields over a component's memory, the type registry, and the
// operations and properties invoked through requests, each driven by random
// histories and compared with a model after every step.
#include "items.h"
#include <Smp/IDataflowField.h>
#include <Smp/DuplicateName.h>
#include <Smp/IArrayField.h>
#include <Smp/ISimpleArrayField.h>
#include <Smp/ISimpleField.h>
#include <Smp/IStructureField.h>
#include <Smp/InvalidFieldName.h>
#include <Smp/InvalidFieldType.h>
#include <Smp/InvalidObjectName.h>
#include <Smp/InvalidOperationName.h>
#include <Smp/InvalidParameterCount.h>
#include <Smp/InvalidParameterIndex.h>
#include <Smp/InvalidParameterType.h>
#include <Smp/InvalidParameterValue.h>
#include <Smp/InvalidReturnValue.h>
#include <Smp/Publication/DuplicateLiteral.h>
#include <Smp/Publication/IArrayType.h>
#include <Smp/Publication/IClassType.h>
#include <Smp/Publication/IStructureType.h>
#include <Smp/Publication/InvalidPrimitiveType.h>
#include <Smp/Publication/TypeAlreadyRegistered.h>
#include <Smp/Publication/TypeNotRegistered.h>
#include <Smp/VoidOperation.h>
#include <Xsmp/Array.h>
#include <Xsmp/Publication/Type.h>
#include <Xsmp/Request.h>
namespace {
using namespace smpx;
using ::Smp::ViewKind;
using ::Xsmp::Publication::Publication;
using ::Xsmp::Publication::TypeRegistry;
ViewKind randomView(xv::Case &c) { return c.rng.pick({ViewKind::VK_None, ViewKind::VK_Debug, ViewKind::VK_Expert, ViewKind::VK_All}); }

/// the error's sender must be alive when the error is caught: its name is read
inline void sender(const ::Smp::Exception &e) {
  if (const auto *s = e.GetSender()) { XV_CHECK(std::strlen(s->GetName()) < 1000, "sender", "the sender of an error has no name"); XV_COUNT("senders of errors looked at"); }
}
template <typename T, typename F> void refused(const char *key, const std::string &what, F &&f) {
  bool ok = false;
  try { f(); }
  catch (const xv::Violation &) { throw; }
  catch (const T &e) {
    ok = true;
    sender(e);
  } catch (const std::exception &e) { XV_FAIL(key, what << ": threw the wrong error: " << e.what()); }
  XV_CHECK(ok, key, what << ": no error thrown");
}

// ---------------------------------------------------------------- fields
enum class Form { Leaf, SimpleArray, Array, Structure, AnonymousStructure, AnonymousArray, AnonymousSimpleArray };
struct Spec;
struct Member { std::string name, description; std::size_t offset; std::shared_ptr<Spec> spec; ViewKind view; bool state, input, output; };
struct Spec {
  Form form = Form::Leaf;
  Item item;               // of a leaf or a simple array
  ::Smp::Uuid uuid;
  std::size_t size = 0, align = 1, count = 0, stride = 0;
  std::shared_ptr<Spec> items; // of an array
  std::vector<Member> members; // of a structure
};
std::size_t up(std::size_t n, std::size_t a) { return (n + a - 1) / a * a; }
std::shared_ptr<Spec> randomSpec(xv::Case &c, TypeRegistry &types, int depth) {
  auto s = std::make_shared<Spec>();
  const auto pick = depth <= 0 ? 0 : c.rng.below(5);
  if (pick == 0) {
    s->item = randomItem(c, types);
    s->uuid = s->item.uuid;
    s->size = s->item.size;
    s->align = s->item.kind == K::PTK_String8 ? 1 : s->size;
  } else if (pick == 1) {
    s->form = Form::SimpleArray;
    s->item = randomItem(c, types);
    s->align = s->item.kind == K::PTK_String8 ? 1 : s->item.size;
    s->stride = s->item.size + (c.rng.chance(1, 3) ? s->align * c.rng.below(3) : 0);
    s->count = c.rng.pick<std::size_t>({0, 1, 2, 5, 12});
    s->size = s->stride * s->count;
    s->uuid = freshUuid(c);
    types.AddArrayType("Simple", "", s->uuid, s->item.uuid, static_cast<::Smp::Int64>(s->stride), static_cast<::Smp::Int64>(s->count), true);
  } else if (pick == 2) {
    s->form = Form::Array;
    s->items = randomSpec(c, types, depth - 1);
    s->align = s->items->align;
    s->stride = up(s->items->size, s->align) + (c.rng.chance(1, 4) ? s->align * c.rng.below(3) : 0);
    s->count = c.rng.pick<std::size_t>({0, 1, 2, 3, 11});
    s->size = s->stride * s->count;
    s->uuid = freshUuid(c);
    types.AddArrayType("Array", "", s->uuid, s->items->uuid, static_cast<::Smp::Int64>(s->stride), static_cast<::Smp::Int64>(s->count), s->items->form != Form::Leaf && c.rng.chance(1, 4));
  } else {
    s->form = Form::Structure;
    s->uuid = freshUuid(c);
    ::Smp::Publication::IStructureType *t = c.rng.chance(1, 2) ? types.AddStructureType("Structure", "", s->uuid) : types.AddClassType("Class", "", s->uuid, ::Smp::Uuids::Uuid_Void);
    const auto n = c.rng.below(5);
    std::size_t at = 0;
    for (std::uint64_t i = 0; i < n; ++i) {
      Member m{"m" + std::to_string(i), c.rng.chance(1, 2) ? "member" : "", 0, randomSpec(c, types, depth - 1), randomView(c), c.rng.chance(1, 2), c.rng.chance(1, 3), c.rng.chance(1, 3)};
      at = up(at + (c.rng.chance(1, 4) ? c.rng.below(9) : 0), m.spec->align);
      m.offset = at;
      at += m.spec->size;
      s->align = std::max(s->align, m.spec->align);
      s->members.push_back(m);
    }
    // declared in any order: the members keep the order of their declaration
    for (std::size_t i = s->members.size(); i > 1; --i) std::swap(s->members[i - 1], s->members[c.rng.below(i)]);
    for (auto &m : s->members) t->AddField(m.name.c_str(), m.description.c_str(), m.spec->uuid, static_cast<::Smp::Int64>(m.offset), m.view, m.state, m.input, m.output);
    s->size = up(at, s->align);
  }
  return s;
}
std::string formOf(const Spec &s) {
  switch (s.form) {
  case Form::Leaf: return typeOf(s.item);
  case Form::SimpleArray: return "simple array of " + std::to_string(s.count) + " " + typeOf(s.item) + " every " + std::to_string(s.stride);
  case Form::Array: return "array of " + std::to_string(s.count) + " (" + formOf(*s.items) + ") every " + std::to_string(s.stride);
  default: {
    std::string o = "structure {";
    for (auto &m : s.members) o += m.name + "@" + std::to_string(m.offset) + " " + formOf(*m.spec) + "; ";
    return o + "}";
  }
  }
}
/// what a published field has to be
struct Exp {
  std::string name, description, path;
  ViewKind view = ViewKind::VK_All;
  bool state = true, input = false, output = false;
  Form form = Form::Leaf;
  char *at = nullptr;
  Item item;
  std::size_t stride = 0, count = 0;
  std::vector<Exp> kids;
  ::Smp::IField *own = nullptr; // published as it is
};
Exp expand(const Spec &s, const std::string &name, const std::string &description, const std::string &path, char *at, ViewKind view, bool state, bool input, bool output) {
  Exp e;
  e.name = name; e.description = description; e.path = path; e.at = at; e.view = view; e.state = state; e.input = input; e.output = output;
  e.form = s.form; e.item = s.item; e.stride = s.stride; e.count = s.count;
  if (s.form == Form::Array)
    for (std::size_t i = 0; i < s.count; ++i) { const auto n = "[" + std::to_string(i) + "]"; e.kids.push_back(expand(*s.items, n, "", path + n, at + i * s.stride, view, state, input, output)); }
  for (auto &m : s.members) e.kids.push_back(expand(*m.spec, m.name, m.description, path + "." + m.name, at + m.offset, m.view, m.state, m.input || input, m.output || output));
  return e;
}
struct LeafAt { ::Smp::ISimpleField *field; ::Smp::ISimpleArrayField *array; std::size_t index; const Item *item; char *at; std::string path; };
struct Checker {
  xv::Case &c;
  const Publication &pub;
  std::vector<LeafAt> leaves;
  void field(::Smp::IField *f, const Exp &e, const ::Smp::IObject *parent, bool byPath) {
    XV_CHECK(f != nullptr, "missing", e.path << " is not there");
    const std::string who = "the published field " + e.path;
    XV_EQ(std::string(f->GetName()), e.name, "name", who);
    XV_EQ(std::string(f->GetDescription()), e.description, "description", who);
    XV_CHECK(f->GetView() == e.view, "view", who << " has view " << static_cast<int>(f->GetView()) << ", published with " << static_cast<int>(e.view));
    XV_EQ(f->IsState(), e.state, "state", who + " is a state");
    XV_EQ(f->IsInput(), e.input, "input", who + " is an input");
    XV_EQ(f->IsOutput(), e.output, "output", who + " is an output");
    XV_CHECK(f->GetParent() == parent, "parent", who << " has another parent");
    if (!e.own) XV_EQ(dynamic_cast<::Smp::IDataflowField *>(f) != nullptr, e.output, "dataflow", who + " can be connected to others");
    if (e.own) { XV_CHECK(f == e.own, "own field", who << " is another one"); }
    if (byPath) { XV_CHECK(pub.GetField(e.path.c_str()) == f, "path", "GetField(" << e.path << ") returns another field"); XV_COUNT("paths"); }
    auto *simple = dynamic_cast<::Smp::ISimpleField *>(f);
    auto *sa = dynamic_cast<::Smp::ISimpleArrayField *>(f);
    auto *array = dynamic_cast<::Smp::IArrayField *>(f);
    auto *structure = dynamic_cast<::Smp::IStructureField *>(f);
    XV_EQ((simple ? "simple " : "") + std::string(sa ? "simple array " : "") + (array ? "array " : "") + (structure ? "structure " : ""),
          std::string(e.form == Form::Leaf ? "simple " : e.form == Form::SimpleArray || e.form == Form::AnonymousSimpleArray ? "simple array " : e.form == Form::Array || e.form == Form::AnonymousArray ? "array " : "structure "), "form", who);
    XV_COUNT("fields compared");
    switch (e.form) {
    case Form::Leaf:
      XV_CHECK(simple->GetPrimitiveTypeKind() == e.item.kind, "kind", who << " has kind " << kindName(simple->GetPrimitiveTypeKind()));
      leaves.push_back({simple, nullptr, 0, &e.item, e.at, e.path});
      break;
    case Form::SimpleArray: case Form::AnonymousSimpleArray:
      XV_EQ(sa->GetSize(), e.count, "size", who);
      for (std::size_t i = 0; i < e.count; ++i) leaves.push_back({nullptr, sa, i, &e.item, e.at + i * e.stride, e.path + "[" + std::to_string(i) + "]"});
      break;
    case Form::Array: case Form::AnonymousArray:
      XV_EQ(array->GetSize(), e.kids.size(), "size", who);
      for (std::size_t i = 0; i < e.kids.size(); ++i) field(array->GetItem(i), e.kids[i], e.form == Form::Array ? f : parent, byPath && e.form == Form::Array);
      break;
    default:
      XV_EQ(structure->GetFields()->size(), e.kids.size(), "members", who);
      for (std::size_t i = 0; i < e.kids.size(); ++i) {
        field(structure->GetFields()->at(i), e.kids[i], f, byPath);
        XV_CHECK(structure->GetField(e.kids[i].name.c_str()) == structure->GetFields()->at(i), "member", who << " has another member " << e.kids[i].name);
      }
      XV_CHECK(!structure->GetField("nomember"), "member", who << " has an unknown member");
    }
  }
};
/// all the fields published so far, the memory below them, and the names in use
struct Fields {
  xv::Case &c;
  TypeRegistry types;
  Node component{"component"};
  Publication pub{&component, &types};
  Guarded mem{3000};
  std::size_t used = 0;
  std::vector<char> shadow = std::vector<char>(3000);
  std::vector<std::unique_ptr<Exp>> published;
  int serial = 0;
  explicit Fields(xv::Case &cc) : c(cc) { std::memset(mem.data(), 0, 3000); }
  std::string name() { return c.rng.pick<std::string>({"f", "value", "a_b", "Z"}) + std::to_string(serial++); }
  char *room(std::size_t size, std::size_t align) {
    // neighbours touch each other whenever their alignment allows
    const auto base = reinterpret_cast<std::uintptr_t>(mem.data());
    const auto at = up(base + used, align) - base;
    if (at + size > 3000) return nullptr;
    used = at + size;
    return mem.data() + at;
  }
  std::vector<LeafAt> compare() {
    Checker k{c, pub, {}};
    const auto *fields = pub.GetFields();
    XV_EQ(fields->size(), published.size(), "published fields", "number of published fields");
    for (std::size_t i = 0; i < published.size(); ++i) {
      k.field(fields->at(published[i]->name.c_str()), *published[i], &component, true);
      XV_CHECK(std::count(fields->begin(), fields->end(), fields->at(published[i]->name.c_str())) == 1, "lookup", published[i]->path << " is not once in the published fields");
    }
    return k.leaves;
  }
  void memory(const std::string &after) {
    for (std::size_t i = 0; i < shadow.size(); ++i) XV_CHECK(mem.data()[i] == shadow[i], "memory", after << " changed the byte " << i << " of the memory");
    XV_CHECK(mem.intact(), "memory", after << " changed memory beside the published one");
  }
  void randomize(const Exp &e) {
    if (e.form == Form::Leaf) { if (!e.own) e.item.randomize(c.rng, e.at); }
    else if (e.form == Form::SimpleArray || e.form == Form::AnonymousSimpleArray) for (std::size_t i = 0; i < e.count; ++i) e.item.randomize(c.rng, e.at + i * e.stride);
    for (auto &k : e.kids) randomize(k);
  }
  void sync() { std::copy(mem.data(), mem.data() + shadow.size(), shadow.begin()); }
  /// publishes something below a publication and says what it has to be
  std::unique_ptr<Exp> publish(::Smp::IPublication &to, const std::string &n, const std::string &path, int depth) {
    const auto description = c.rng.pick<std::string>({"", "some text"});
    const auto view = randomView(c);
    const bool state = c.rng.chance(1, 2), input = c.rng.chance(1, 3), output = c.rng.chance(1, 3);
    const bool plain = c.rng.chance(1, 10); // with the default attributes
    const auto v = plain ? ViewKind::VK_All : view;
    const bool st = plain || state, in = !plain && input, out = !plain && output;
    const auto pick = c.rng.below(depth > 0 ? 8 : 6);
    switch (pick) {
    case 0: { // the overloads for native types
      Item it;
      do it.kind = c.rng.pick(valueKinds()); while (it.kind == K::PTK_String8 || it.kind == K::PTK_Duration || it.kind == K::PTK_DateTime);
      return withNative(it.kind, [&](auto t) -> std::unique_ptr<Exp> {
        using T = decltype(t);
        if constexpr (std::is_class_v<T>) { return nullptr; }
        else {
          it.size = sizeof(T);
          char *at = room(sizeof(T), alignof(T));
          if (!at) return nullptr;
          c.op("publish " + path + " as native " + kindName(it.kind));
          if (plain) to.PublishField(n.c_str(), description.c_str(), reinterpret_cast<T *>(at));
          else to.PublishField(n.c_str(), description.c_str(), reinterpret_cast<T *>(at), v, st, in, out);
          auto e = std::make_unique<Exp>();
          e->name = n; e->description = description; e->path = path; e->view = v; e->state = st; e->input = in; e->output = out; e->at = at; e->item = it;
          return e;
        }
      });
    }
    case 1: { // an anonymous array of primitive values
      Item it;
      do it.kind = c.rng.pick(valueKinds()); while (it.kind == K::PTK_String8);
      it.size = withNative(it.kind, [](auto t) { return sizeof t; });
      const auto count = c.rng.pick<std::int64_t>({-3, 0, 1, 4, 17});
      const std::size_t n64 = count < 0 ? 0 : static_cast<std::size_t>(count);
      char *at = room(n64 * it.size, it.size);
      if (!at) return nullptr;
      c.op("publish " + path + " as " + std::to_string(count) + " " + kindName(it.kind));
      if (plain) to.PublishArray(n.c_str(), description.c_str(), count, at, it.kind);
      else to.PublishArray(n.c_str(), description.c_str(), count, at, it.kind, v, st, in, out);
      auto e = std::make_unique<Exp>();
      e->name = n; e->description = description; e->path = path; e->view = v; e->state = st; e->input = in; e->output = out; e->at = at; e->item = it; e->form = Form::AnonymousSimpleArray; e->count = n64; e->stride = it.size;
      return e;
    }
    case 6: case 7: { // a structure or an array published member by member
      const bool array = pick == 7;
      c.op(std::string("publish ") + path + " as " + (array ? "an array" : "a structure") + " member by member");
      auto *sub = array ? (plain ? to.PublishArray(n.c_str(), description.c_str()) : to.PublishArray(n.c_str(), description.c_str(), v, st)) : plain ? to.PublishStructure(n.c_str(), description.c_str()) : to.PublishStructure(n.c_str(), description.c_str(), v, st);
      XV_CHECK(sub != nullptr, "member by member", "no publication returned for " << path);
      XV_CHECK(sub->GetTypeRegistry() == &types, "member by member", "another type registry");
      auto e = std::make_unique<Exp>();
      e->name = n; e->description = description; e->path = path; e->view = v; e->state = st; e->form = array ? Form::AnonymousArray : Form::AnonymousStructure;
      const auto count = c.rng.below(5);
      for (std::uint64_t i = 0; i < count; ++i) {
        const auto kn = array ? "[" + std::to_string(i) + "]" : name();
        auto k = publish(*sub, kn, path + (array ? "" : ".") + kn, depth - 1);
        if (!k) break;
        e->kids.push_back(std::move(*k));
        if (c.rng.chance(1, 6)) {
          refused<::Smp::DuplicateName>("duplicate", "publishing " + kn + " again in " + path, [&] { sub->PublishStructure(kn.c_str(), ""); });
          XV_COUNT("refused duplicates");
        }
      }
      return e;
    }
    default: { // a registered type
      auto s = randomSpec(c, types, depth);
      char *at = room(s->size, s->align);
      if (!at) return nullptr;
      c.op("publish " + path + " as " + formOf(*s));
      if (c.rng.chance(1, 3)) types.GetType(s->uuid)->Publish(&to, n.c_str(), description.c_str(), at, v, st, in, out);
      else to.PublishField(n.c_str(), description.c_str(), at, s->uuid, v, st, in, out);
      return std::make_unique<Exp>(expand(*s, n, description, path, at, v, st, in, out));
    }
    }
  }
};
/// tries to publish something that has to be refused
void refusal(xv::Case &c, Fields &w) {
  auto &p = w.pub;
  char *at = w.mem.data();
  const auto n = w.name();
  const auto attributes = [&](auto f) { f(randomView(c), c.rng.chance(1, 2), c.rng.chance(1, 2), c.rng.chance(1, 2)); };
  const auto byUuid = [&](const std::string &name, ::Smp::Uuid u) { attributes([&](auto v, bool s, bool i, bool o) { p.PublishField(name.c_str(), "", at, u, v, s, i, o); }); };
  switch (c.rng.below(9)) {
  case 0: c.op("publish an unknown type"); refused<::Smp::Publication::TypeNotRegistered>("unknown type", "publishing a field of an unknown type", [&] { byUuid(n, freshUuid(c)); }); break;
  case 1: {
    const bool text = c.rng.chance(1, 2);
    c.op(text ? "publish String8" : "publish Void");
    try { byUuid(n, text ? ::Smp::Uuids::Uuid_String8 : ::Smp::Uuids::Uuid_Void); }
    catch (const ::Smp::Exception &e) { sender(e); XV_COUNT("refused types"); return; }
    XV_FAIL("type", "a field of type " << (text ? "String8" : "Void") << " was published");
  }
  case 2: {
    const auto kind = c.rng.pick({K::PTK_None, K::PTK_String8, static_cast<K>(77), static_cast<K>(-1)});
    c.op("publish an array of kind " + std::to_string(static_cast<int>(kind)));
    try { attributes([&](auto v, bool s, bool i, bool o) { p.PublishArray(n.c_str(), "", 2, at, kind, v, s, i, o); }); }
    catch (const ::Smp::Exception &e) { sender(e); XV_COUNT("refused types"); return; }
    XV_FAIL("type", "an array of kind " << static_cast<int>(kind) << " was published");
  }
  case 3: case 4: {
    if (w.published.empty()) return;
    const auto &taken = c.rng.pick(w.published)->name;
    const auto how = c.rng.below(6);
    c.op("publish " + taken + " again (" + std::to_string(how) + ")");
    refused<::Smp::DuplicateName>("duplicate", "publishing " + taken + " again", [&] {
      switch (how) {
      case 0: p.PublishField(taken.c_str(), "", reinterpret_cast<::Smp::UInt8 *>(at)); break;
      case 1: byUuid(taken, c.rng.pick({::Smp::Uuids::Uuid_Int8, ::Smp::Uuids::Uuid_Bool})); break;
      case 2: p.PublishArray(taken.c_str(), "", 1, at, K::PTK_UInt8, ViewKind::VK_All, true, false, c.rng.chance(1, 2)); break;
      case 3: p.PublishArray(taken.c_str(), ""); break;
      case 4: p.PublishStructure(taken.c_str(), ""); break;
      default: {
        ::Xsmp::Field<std::int8_t> f{&w.types, ::Smp::Uuids::Uuid_Int8, taken.c_str(), "", &w.component};
        p.PublishField(&f);
      }
      }
    });
    XV_COUNT("refused duplicates");
    break;
  }
  case 5: {
    const auto bad = c.rng.pick<std::string>({"", "1a", "a b", "_a", "a.b", "[", "[a]", "\xc3\xa9"});
    const auto how = c.rng.below(5);
    c.op("publish under the name " + xv::show(bad));
    refused<::Smp::InvalidObjectName>("name", "publishing under the name " + xv::show(bad), [&] {
      switch (how) {
      case 0: p.PublishField(bad.c_str(), "", reinterpret_cast<::Smp::UInt8 *>(at)); break;
      case 1: byUuid(bad, ::Smp::Uuids::Uuid_Int8); break;
      case 2: p.PublishArray(bad.c_str(), "", 1, at, K::PTK_UInt8); break;
      case 3: p.PublishArray(bad.c_str(), ""); break;
      default: p.PublishStructure(bad.c_str(), "");
      }
    });
    XV_COUNT("refused names");
    break;
  }
  case 6: {
    const auto bad = c.rng.pick<std::string>({"", "nofield", ".", "a.b", "[0]", "..", "/"}) ;
    refused<::Smp::InvalidFieldName>("field name", "asking for the field " + xv::show(bad), [&] { p.GetField(bad.c_str()); });
    refused<::Smp::InvalidFieldName>("field name", "asking for no field", [&] { p.GetField(nullptr); });
    if (!w.published.empty()) { const auto path = c.rng.pick(w.published)->path + c.rng.pick<std::string>({".nomember", "[99]", "x"}); refused<::Smp::InvalidFieldName>("field name", "asking for the field " + path, [&] { p.GetField(path.c_str()); }); }
    break;
  }
  case 7: { // a structure that cannot be published, maybe deep inside another type
    const auto u = freshUuid(c);
    auto *t = c.rng.chance(1, 2) ? w.types.AddStructureType("Bad", "", u) : w.types.AddClassType("Bad", "", u, ::Smp::Uuids::Uuid_Void);
    t->AddField("good", "", ::Smp::Uuids::Uuid_Int8, 0);
    const auto how = c.rng.below(6);
    if (how == 0) t->AddField("member", "", freshUuid(c), 1);
    else if (how == 1) t->AddField("good", "", ::Smp::Uuids::Uuid_Int8, 1);
    else if (how == 2) t->AddField("no name", "", ::Smp::Uuids::Uuid_Int8, 1);
    else if (how == 3) t->AddField("member", "", c.rng.pick({::Smp::Uuids::Uuid_String8, ::Smp::Uuids::Uuid_Void}), 1);
    else if (how == 4) t->AddField("self", "", u, 0);
    else { // two that contain each other, through an array
      const auto u2 = freshUuid(c), u3 = freshUuid(c);
      w.types.AddArrayType("Them", "", u3, u, 1, 1 + static_cast<::Smp::Int64>(c.rng.below(2)));
      w.types.AddStructureType("Other", "", u2)->AddField("them", "", u3, 0);
      t->AddField("other", "", u2, 0);
    }
    auto outer = u;
    for (auto d = c.rng.below(3); d > 0; --d) {
      const auto o = freshUuid(c);
      if (c.rng.chance(1, 2)) w.types.AddArrayType("Outer", "", o, outer, 2, 2);
      else w.types.AddStructureType("Outer", "", o)->AddField("inner", "", outer, 0);
      outer = o;
    }
    c.op("publish a bad structure (" + std::to_string(how) + ")");
    try { byUuid(n, outer); }
    catch (const ::Smp::Publication::TypeNotRegistered &e) { sender(e); XV_CHECK(how == 0, "bad structure", "a bad structure (" << how << ") was refused with " << e.what()); XV_COUNT("refused structures"); return; }
    catch (const ::Smp::DuplicateName &e) { sender(e); XV_CHECK(how == 1, "bad structure", "a bad structure (" << how << ") was refused with " << e.what()); XV_COUNT("refused structures"); return; }
    catch (const ::Smp::InvalidObjectName &e) { sender(e); XV_CHECK(how == 2, "bad structure", "a bad structure (" << how << ") was refused with " << e.what()); XV_COUNT("refused structures"); return; }
    catch (const ::Smp::Exception &e) { sender(e); XV_CHECK(how >= 3, "bad structure", "a bad structure (" << how << ") was refused with " << e.what()); XV_COUNT("refused structures"); return; }
    XV_FAIL("bad structure", "a bad structure (" << how << ") was published");
  }
  default: { // a refused member leaves the structure published member by member as it was
    const auto u = freshUuid(c);
    Exp e;
    e.name = e.path = n; e.form = Form::AnonymousStructure;
    c.op("publish bad members into " + n);
    auto *sub = p.PublishStructure(n.c_str(), "");
    refused<::Smp::Publication::TypeNotRegistered>("unknown type", "publishing a member of an unknown type", [&] { sub->PublishField("m", "", at, u); });
    refused<::Smp::InvalidObjectName>("name", "publishing a member without name", [&] { sub->PublishField("", "", at, ::Smp::Uuids::Uuid_Int8); });
    w.published.push_back(std::make_unique<Exp>(e));
  }
  }
}
XV_SCENARIO(C28, mirror, 6000, 300000) {
  Fields w(c);
  Pool own;
  const auto steps = 2 + c.rng.below(7);
  for (std::uint64_t s = 0; s < steps; ++s) {
    if (c.rng.chance(1, 3)) {
      const auto before = w.pub.GetFields()->size(), known = w.published.size();
      refusal(c, w);
      w.sync();
      if (w.published.size() == known) XV_EQ(w.pub.GetFields()->size(), before, "refusal", "number of published fields after a refusal");
      c.nontrivial = true;
      w.compare();
    } else if (c.rng.chance(1, 6)) {
      auto e = std::make_unique<Exp>();
      e->name = e->path = w.name();
      c.op("publish the component's own field " + e->name);
      e->item.kind = K::PTK_Int32;
      e->item.size = 4;
      e->view = randomView(c);
      auto &f = own.make<::Xsmp::Field<std::int32_t>::input>(&w.types, ::Smp::Uuids::Uuid_Int32, e->name.c_str(), "own", &w.component, e->view, 7);
      e->description = "own";
      e->input = true;
      e->own = &f;
      w.pub.PublishField(&f);
      w.published.push_back(std::move(e));
      XV_COUNT("own fields published");
    } else {
      const auto n = w.name();
      auto e = w.publish(w.pub, n, n, static_cast<int>(c.rng.below(4)));
      if (!e) break;
      w.randomize(*e);
      w.sync();
      w.published.push_back(std::move(e));
      w.compare();
    }
  }
  const auto leaves = w.compare();
  if (leaves.empty()) return;
  const auto writes = std::min<std::size_t>(4 + leaves.size(), 60);
  for (std::size_t i = 0; i < writes; ++i) {
    const auto &l = leaves[i < leaves.size() ? i : c.rng.below(leaves.size())];
    const auto read = [&] { return canonAny(l.field ? l.field->GetValue() : l.array->GetValue(l.index)); };
    if (!l.at) { l.field->SetValue(AnySimple(K::PTK_Int32, std::int32_t{5})); w.memory("writing an own field"); continue; }
    const auto off = static_cast<std::size_t>(l.at - w.mem.data());
    if (c.rng.chance(1, 3)) { // the component writes its memory
      l.item->randomize(c.rng, l.at);
      std::memcpy(w.shadow.data() + off, l.at, l.item->size);
    } else {
      const Val v = l.item->value(c.rng);
      std::vector<char> wide(l.item->size + 8);
      std::memcpy(wide.data(), l.at, l.item->size);
      const bool ok = l.item->write(wide.data(), v);
      bool threw = false;
      try { if (l.field) l.field->SetValue(v.any); else l.array->SetValue(l.index, v.any); } catch (const ::Smp::Exception &) { threw = true; }
      XV_CHECK(threw != ok, "accept", l.path << " (" << typeOf(*l.item) << ")" << (threw ? " refused " : " accepted ") << showVal(v));
      if (ok && (l.item->kind == K::PTK_String8 || l.item->kind == K::PTK_Float32 || l.item->kind == K::PTK_Float64)) { // what follows a text's end, and which NaN, is of no interest
        XV_EQ(l.item->read(l.at), l.item->read(wide.data()), "write", "writing " + showVal(v) + " to " + l.path);
        std::memcpy(w.shadow.data() + off, l.at, l.item->size);
      } else if (ok) std::memcpy(w.shadow.data() + off, wide.data(), l.item->size);
      w.memory("writing " + showVal(v) + " to " + l.path);
      XV_COUNT("writes");
    }
    XV_EQ(read(), l.item->read(w.shadow.data() + off), "read", "reading " + l.path);
    XV_COUNT("reads");
  }
  w.memory("everything");
  for (const auto &l : leaves) if (l.at) XV_EQ(canonAny(l.field ? l.field->GetValue() : l.array->GetValue(l.index)), l.item->read(l.at), "read", "reading " + l.path + " in the end");
  if (c.rng.chance(1, 3)) {
    w.pub.Unpublish();
    XV_EQ(w.pub.GetFields()->size(), std::size_t{0}, "unpublish", "fields after unpublishing");
    w.pub.PublishField("again", "", reinterpret_cast<::Smp::UInt8 *>(w.mem.data()));
    XV_COUNT("unpublished");
  }
  if (leaves.size() > 3) c.nontrivial = true;
}
} // namespace
// ---------------------------------------------------------------- type registry
namespace {
struct Registered {
  std::string name, description, unit;
  ::Smp::Publication::IType *type;
  K kind = K::PTK_None;
  enum class Form { Plain, Float, Integer, Enumeration, Array, Text, Structure, Class } form = Form::Plain;
  double dmin = 0, dmax = 0;
  bool minIn = false, maxIn = false, simple = false;
  std::int64_t imin = 0, imax = 0, itemSize = 0, count = 0, length = 0;
  ::Smp::Uuid item, base;
  std::map<std::int32_t, std::pair<std::string, std::string>> literals;
  std::vector<Member> members;
  std::vector<::Smp::Uuid> memberTypes;
};
bool same(double a, double b) { return std::memcmp(&a, &b, sizeof a) == 0; }
XV_SCENARIO(C29, registry, 3000, 200000) {
  Node owner("owner");
  TypeRegistry r(c.rng.chance(1, 2) ? static_cast<::Smp::IObject *>(&owner) : nullptr);
  ::Smp::Publication::ITypeRegistry &reg = r;
  std::map<::Smp::Uuid, Registered> model;
  std::vector<::Smp::Uuid> pool, builtin;
  for (int i = 0; i < 12; ++i) pool.push_back(freshUuid(c));
  pool[1] = pool[0]; pool[1].Data3[5] ^= 1; // differ in a single part
  pool[3] = pool[2]; pool[3].Data1 ^= 1;
  pool[4] = ::Smp::Uuid{};
  std::vector<K> kinds = valueKinds();
  kinds.push_back(K::PTK_None);
  for (auto k : kinds) {
    auto *t = reg.GetType(k);
    XV_CHECK(t != nullptr, "primitive", "no type of kind " << kindName(k));
    XV_CHECK(t == reg.GetType(uuidOf(k)), "primitive", "the kind " << kindName(k) << " and its UUID name different types");
    Registered m;
    m.type = t; m.kind = k; m.name = t->GetName(); m.description = t->GetDescription();
    const std::string want = k == K::PTK_None ? "Void" : std::string(kindName(k)).substr(std::string(kindName(k)).find('_') == std::string::npos ? 0 : 4);
    XV_EQ(m.name, want, "primitive", "name of the type of kind " + std::string(kindName(k)));
    model[uuidOf(k)] = m;
    pool.push_back(uuidOf(k));
  }
  for (const auto &u : {::Smp::Uuids::Uuid_EventId, ::Smp::Uuids::Uuid_LogMessageKind}) {
    auto *t = reg.GetType(u);
    XV_CHECK(t != nullptr, "primitive", "no type EventId or LogMessageKind");
    Registered m;
    m.type = t; m.name = t->GetName(); m.description = t->GetDescription(); m.form = Registered::Form::Integer; m.kind = t->GetPrimitiveTypeKind();
    m.imin = u == ::Smp::Uuids::Uuid_EventId ? INT64_MIN : 0;
    m.imax = u == ::Smp::Uuids::Uuid_EventId ? INT64_MAX : INT32_MAX;
    XV_EQ(m.name, std::string(u == ::Smp::Uuids::Uuid_EventId ? "EventId" : "LogMessageKind"), "predefined", "name of an integer type");
    XV_EQ(std::string(kindName(m.kind)), std::string(kindName(u == ::Smp::Uuids::Uuid_EventId ? K::PTK_Int64 : K::PTK_Int32)), "predefined", "kind of " + m.name);
    model[u] = m;
    pool.push_back(u);
  }
  const std::vector<std::tuple<::Smp::Uuid, const char *, std::vector<const char *>>> enumerations{
      {::Smp::Uuids::Uuid_PrimitiveTypeKind, "PrimitiveTypeKind", {"PTK_None", "PTK_Char8", "PTK_Bool", "PTK_Int8", "PTK_UInt8", "PTK_Int16", "PTK_UInt16", "PTK_Int32", "PTK_UInt32", "PTK_Int64", "PTK_UInt64", "PTK_Float32", "PTK_Float64", "PTK_Duration", "PTK_DateTime", "PTK_String8"}},
      {::Smp::Uuids::Uuid_TimeKind, "TimeKind", {"TK_SimulationTime", "TK_MissionTime", "TK_EpochTime", "TK_ZuluTime"}},
      {::Smp::Uuids::Uuid_ViewKind, "ViewKind", {"VK_None", "VK_Debug", "VK_Expert", "VK_All"}},
      {::Smp::Uuids::Uuid_ParameterDirectionKind, "ParameterDirectionKind", {"PDK_In", "PDK_Out", "PDK_InOut", "PDK_Return"}},
      {::Smp::Uuids::Uuid_ComponentStateKind, "ComponentStateKind", {"CSK_Created", "CSK_Publishing", "CSK_Configured", "CSK_Connected", "CSK_Disconnected"}},
      {::Smp::Uuids::Uuid_AccessKind, "AccessKind", {"AK_ReadWrite", "AK_ReadOnly", "AK_WriteOnly"}},
      {::Smp::Uuids::Uuid_SimulatorStateKind, "SimulatorStateKind", {"SSK_Building", "SSK_Connecting", "SSK_Initialising", "SSK_Standby", "SSK_Executing", "SSK_Storing", "SSK_Restoring", "SSK_Reconnecting", "SSK_Exiting", "SSK_Aborting"}}};
  for (const auto &[u, name, literals] : enumerations) {
    auto *t = dynamic_cast<::Xsmp::Publication::EnumerationType *>(reg.GetType(u));
    XV_CHECK(t != nullptr, "predefined", "the enumeration " << name << " is not registered");
    XV_EQ(std::string(t->GetName()), std::string(name), "predefined", "name of an enumeration");
    XV_EQ(t->GetLiterals().size(), literals.size(), "predefined", std::string("literals of ") + name);
    Registered m;
    m.type = t; m.name = name; m.description = t->GetDescription(); m.form = Registered::Form::Enumeration; m.kind = K::PTK_Int32;
    for (std::size_t i = 0; i < literals.size(); ++i) {
      const auto v = static_cast<std::int32_t>(i);
      const auto it = t->GetLiterals().find(v);
      XV_CHECK(it != t->GetLiterals().end() && std::string(it->second.name.c_str()) == literals[i], "predefined", "the value " << i << " of " << name << " is not " << literals[i]);
      m.literals[v] = {literals[i], it->second.description.c_str()};
    }
    model[u] = m;
    pool.push_back(u);
    XV_COUNT("predefined enumerations");
  }
  XV_CHECK(reg.GetType(static_cast<K>(99)) == nullptr && reg.GetType(static_cast<K>(-1)) == nullptr, "primitive", "a type of an undefined kind");
  auto verify = [&](const std::string &after) {
    for (const auto &u : pool) {
      auto *t = reg.GetType(u);
      const auto it = model.find(u);
      XV_CHECK((t != nullptr) == (it != model.end()), "registered", after << ": a type is " << (t ? "" : "not ") << "registered");
      if (!t) continue;
      const auto &m = it->second;
      const std::string who = after + ": the type " + m.name;
      XV_CHECK(t == m.type, "changed", who << " is another object");
      XV_EQ(std::string(t->GetName()), m.name, "name", who);
      XV_EQ(std::string(t->GetDescription()), m.description, "description", who);
      XV_CHECK(t->GetUuid() == u, "uuid", who << " has another UUID");
      XV_CHECK(t->GetParent() == dynamic_cast<::Smp::IObject *>(&r), "parent", who << " has another parent");
      XV_CHECK(t->GetPrimitiveTypeKind() == m.kind, "kind", who << " has kind " << kindName(t->GetPrimitiveTypeKind()));
      using RF = Registered::Form;
      namespace P = ::Xsmp::Publication;
      const auto *a = dynamic_cast<const P::ArrayType *>(t);
      const auto *e = dynamic_cast<const P::EnumerationType *>(t);
      const auto *f = dynamic_cast<const P::FloatType *>(t);
      const auto *n = dynamic_cast<const P::IntegerType *>(t);
      const auto *s = dynamic_cast<const P::StringType *>(t);
      const auto *st = dynamic_cast<const P::StructureType *>(t);
      const auto *cl = dynamic_cast<const P::ClassType *>(t);
      XV_CHECK(!!a == (m.form == RF::Array) && !!e == (m.form == RF::Enumeration) && !!f == (m.form == RF::Float) && !!n == (m.form == RF::Integer) && !!s == (m.form == RF::Text) && !!st == (m.form == RF::Structure || m.form == RF::Class) && !!cl == (m.form == RF::Class), "form", who << " is of another form");
      XV_CHECK(!!dynamic_cast<::Smp::Publication::IArrayType *>(t) == !!a && !!dynamic_cast<::Smp::Publication::IStructureType *>(t) == !!st && !!dynamic_cast<::Smp::Publication::IClassType *>(t) == !!cl && !!dynamic_cast<::Smp::Publication::IEnumerationType *>(t) == !!e, "form", who << " is of another form");
      if (a) {
        XV_EQ(a->GetSize(), static_cast<std::uint64_t>(m.count), "array", who + ": size");
        XV_EQ(a->GetItemSize(), static_cast<std::uint64_t>(m.itemSize), "array", who + ": item size");
        XV_CHECK(a->GetItemType() == model.at(m.item).type, "array", who << " has another item type");
        XV_EQ(a->IsSimpleArray(), m.simple, "array", who + ": simple");
      }
      if (e) {
        XV_EQ(e->GetLiterals().size(), m.literals.size(), "literals", who);
        for (const auto &[v, l] : m.literals) { auto i2 = e->GetLiterals().find(v); XV_CHECK(i2 != e->GetLiterals().end() && l.first == i2->second.name.c_str() && l.second == i2->second.description.c_str(), "literals", who << ": literal " << v); }
      }
      if (f) XV_CHECK(same(f->getMinimum(), m.dmin) && same(f->getMaximum(), m.dmax) && f->IsMinInclusive() == m.minIn && f->IsMaxInclusive() == m.maxIn && m.unit == f->getUnit(), "float", who << " has another range or unit");
      if (n && m.type) XV_CHECK(n->getMinimum() == m.imin && n->getMaximum() == m.imax && m.unit == n->getUnit(), "integer", who << " has another range or unit");
      if (s) XV_EQ(s->GetLength(), m.length, "text", who);
      if (st) {
        XV_EQ(st->GetFields().size(), m.members.size(), "structure", who + ": members");
        for (std::size_t i = 0; i < m.members.size(); ++i) {
          const auto &x = st->GetFields()[i];
          const auto &w = m.members[i];
          XV_CHECK(w.name == x.name.c_str() && w.description == x.description.c_str() && x.uuid == m.memberTypes[i] && x.offset == static_cast<std::int64_t>(w.offset) && x.view == w.view && x.state == w.state && x.input == w.input && x.output == w.output, "structure", who << ": member " << w.name << " differs");
        }
      }
      XV_COUNT("types compared");
    }
  };
  verify("in the beginning");
  const auto steps = 5 + c.rng.below(30);
  for (std::uint64_t s = 0; s < steps; ++s) {
    const auto u = pool[c.rng.below(c.rng.chance(3, 4) ? 12 : pool.size())];
    Registered m;
    const bool badName = c.rng.chance(1, 10);
    // the texts given do not outlive the registration
    m.name = badName ? c.rng.pick<std::string>({"", "1", "a b", "_x"}) : c.rng.pick<std::string>({"T", "Type_2", "A1", "x_1"}) ;
    m.description = c.rng.pick<std::string>({"", "a description", std::string(300, 'd')});
    m.unit = c.rng.pick<std::string>({"", "m/s"});
    const bool known = model.count(u) != 0;
    std::set<std::string> expected; // the errors, any of which may be reported
    if (badName) expected.insert("name");
    if (known) expected.insert("known");
    std::function<::Smp::Publication::IType *()> add;
    switch (c.rng.below(9)) {
    case 0: {
      m.form = Registered::Form::Float;
      m.kind = c.rng.chance(4, 5) ? c.rng.pick({K::PTK_Float32, K::PTK_Float64}) : c.rng.pick({K::PTK_Int32, K::PTK_None, K::PTK_String8, K::PTK_Duration, static_cast<K>(50)});
      if (m.kind != K::PTK_Float32 && m.kind != K::PTK_Float64) expected.insert("kind");
      m.dmin = c.rng.pick<double>({-1.5, 0.0, -INFINITY, 1e308, std::nan("")});
      m.dmax = c.rng.pick<double>({-1.5, 3.0, INFINITY});
      m.minIn = c.rng.chance(1, 2); m.maxIn = c.rng.chance(1, 2);
      add = [&] { return reg.AddFloatType(std::string(m.name).c_str(), std::string(m.description).c_str(), u, m.dmin, m.dmax, m.minIn, m.maxIn, std::string(m.unit).c_str(), m.kind); };
      break;
    }
    case 1: {
      m.form = Registered::Form::Integer;
      m.kind = c.rng.chance(4, 5) ? c.rng.pick({K::PTK_Int8, K::PTK_Int16, K::PTK_Int32, K::PTK_Int64, K::PTK_UInt8, K::PTK_UInt16, K::PTK_UInt32, K::PTK_UInt64}) : c.rng.pick({K::PTK_Float32, K::PTK_None, K::PTK_Bool, K::PTK_Char8, K::PTK_DateTime, static_cast<K>(-9)});
      if (m.kind == K::PTK_Float32 || m.kind == K::PTK_None || m.kind == K::PTK_Bool || m.kind == K::PTK_Char8 || m.kind == K::PTK_DateTime || static_cast<int>(m.kind) < 0) expected.insert("kind");
      m.imin = intValue<std::int64_t>(c.rng); m.imax = intValue<std::int64_t>(c.rng);
      add = [&] { return reg.AddIntegerType(std::string(m.name).c_str(), std::string(m.description).c_str(), u, m.imin, m.imax, std::string(m.unit).c_str(), m.kind); };
      break;
    }
    case 2: case 3: {
      m.form = Registered::Form::Enumeration;
      const std::int16_t size = c.rng.chance(4, 5) ? c.rng.pick<std::int16_t>({1, 2, 4, 8}) : c.rng.pick<std::int16_t>({0, 3, -1, 16, 257, 258, 260});
      m.kind = size == 1 ? K::PTK_Int8 : size == 2 ? K::PTK_Int16 : size == 4 ? K::PTK_Int32 : K::PTK_Int64;
      if (size != 1 && size != 2 && size != 4 && size != 8) expected.insert("kind");
      add = [&, size] { return reg.AddEnumerationType(std::string(m.name).c_str(), std::string(m.description).c_str(), u, size); };
      break;
    }
    case 4: case 5: {
      m.form = Registered::Form::Array;
      m.item = c.rng.pick(pool);
      m.itemSize = c.rng.pick<std::int64_t>({1, 8, 0, -4, INT64_MIN});
      m.count = c.rng.pick<std::int64_t>({0, 1, 7, -2, 1LL << 40});
      m.simple = c.rng.chance(1, 2);
      if (!model.count(m.item)) expected.insert("unknown");
      else if (m.item == ::Smp::Uuids::Uuid_String8 || m.item == ::Smp::Uuids::Uuid_Void) expected.insert("incompatible");
      add = [&, is = m.itemSize, n = m.count] { return reg.AddArrayType(std::string(m.name).c_str(), std::string(m.description).c_str(), u, m.item, is, n, m.simple); };
      break;
    }
    case 6: {
      m.form = Registered::Form::Text;
      m.kind = K::PTK_String8;
      m.length = c.rng.pick<std::int64_t>({0, 1, 80, -1, -1000, INT64_MAX});
      add = [&, n = m.length] { return reg.AddStringType(std::string(m.name).c_str(), std::string(m.description).c_str(), u, n); };
      break;
    }
    case 7: {
      m.form = Registered::Form::Structure;
      add = [&] { return reg.AddStructureType(std::string(m.name).c_str(), std::string(m.description).c_str(), u); };
      break;
    }
    default: {
      m.form = Registered::Form::Class;
      m.base = c.rng.chance(1, 3) ? ::Smp::Uuids::Uuid_Void : c.rng.chance(1, 6) ? u : c.rng.pick(pool);
      if (!(m.base == ::Smp::Uuids::Uuid_Void)) {
        const auto it = model.find(m.base);
        if (m.base == u) expected.insert("incompatible");
        if (it == model.end()) expected.insert("unknown");
        else if (it->second.form != Registered::Form::Class) expected.insert("incompatible");
      }
      add = [&] { return reg.AddClassType(std::string(m.name).c_str(), std::string(m.description).c_str(), u, m.base); };
    }
    }
    std::string list;
    for (const auto &x : expected) list += " " + x;
    c.op("register " + std::to_string(static_cast<int>(m.form)) + " " + xv::show(m.name) + (expected.empty() ? "" : ", expecting" + list));
    const std::string what = "registering " + m.name;
    if (expected.empty()) {
      xv::quiet("register", what, [&] { m.type = add(); });
      XV_CHECK(m.type != nullptr, "register", what << " returned nothing");
      m.itemSize = std::max<std::int64_t>(m.itemSize, 0); m.count = std::max<std::int64_t>(m.count, 0); m.length = std::max<std::int64_t>(m.length, 0);
      model[u] = m;
      XV_COUNT("types registered");
    } else {
      c.nontrivial = true;
      std::string got;
      try { add(); }
      catch (const ::Smp::Publication::TypeAlreadyRegistered &e) { got = "known"; sender(e); }
      catch (const ::Smp::Publication::InvalidPrimitiveType &e) { got = "kind"; sender(e); }
      catch (const ::Smp::InvalidObjectName &e) { got = "name"; sender(e); }
      catch (const ::Smp::Publication::TypeNotRegistered &e) { got = "unknown"; sender(e); }
      catch (const ::Smp::Exception &e) { got = "incompatible"; sender(e); }
      XV_CHECK(expected.count(got), "refusal", what << " for" << list << (got.empty() ? " was accepted" : " was refused as " + got));
      xv::count("registrations refused: " + got);
    }
    if (c.rng.chance(1, 2)) { // literals and members added later
      std::vector<std::pair<const ::Smp::Uuid, Registered> *> e, st;
      for (auto &x : model) { if (x.second.form == Registered::Form::Enumeration) e.push_back(&x); if (x.second.form == Registered::Form::Structure || x.second.form == Registered::Form::Class) st.push_back(&x); }
      if (!e.empty()) {
        auto &x = e[c.rng.below(e.size())]->second;
        const auto v = c.rng.pick<std::int32_t>({0, 1, 2, 3, -1, INT32_MIN, INT32_MAX});
        const auto n = "l" + std::to_string(c.rng.below(100));
        auto *en = dynamic_cast<::Smp::Publication::IEnumerationType *>(x.type);
        c.op("add literal " + std::to_string(v) + " to " + x.name);
        if (x.literals.count(v)) { refused<::Smp::Publication::DuplicateLiteral>("duplicate literal", "adding a literal twice", [&] { en->AddLiteral(std::string(n).c_str(), "other", v); }); XV_COUNT("refused literals"); }
        else { xv::quiet("literal", "adding a literal", [&] { en->AddLiteral(std::string(n).c_str(), "text", v); }); x.literals[v] = {n, "text"}; XV_COUNT("literals"); }
      }
      if (!st.empty()) {
        auto &x = st[c.rng.below(st.size())]->second;
        Member w{"m" + std::to_string(c.rng.below(1000)), "text", c.rng.below(1000), nullptr, randomView(c), c.rng.chance(1, 2), c.rng.chance(1, 2), c.rng.chance(1, 2)};
        const auto mu = c.rng.pick(pool);
        dynamic_cast<::Smp::Publication::IStructureType *>(x.type)->AddField(std::string(w.name).c_str(), std::string(w.description).c_str(), mu, static_cast<::Smp::Int64>(w.offset), w.view, w.state, w.input, w.output);
        x.members.push_back(w);
        x.memberTypes.push_back(mu);
        XV_COUNT("members");
      }
    }
    verify("after step " + std::to_string(s));
  }
}
} // namespace
// ---------------------------------------------------------------- operations and properties
namespace {
using Direction = ::Smp::Publication::ParameterDirectionKind;
/// a type of a parameter: what it accepts
struct PType {
  K kind = K::PTK_None;
  ::Smp::Uuid uuid;
  enum class Form { Plain, Integer, Float, Text, Enumeration } form = Form::Plain;
  std::int64_t imin = 0, imax = 0;
  double dmin = 0, dmax = 0;
  bool minIn = true, maxIn = true;
  std::size_t length = 0;
  std::set<std::int32_t> literals;
  /// "" if accepted, "kind" or "value" if refused, "?" if not judged
  std::string judge(const Val &v) const {
    if (v.kind != kind) return "kind";
    switch (form) {
    case Form::Integer: return v.h.i < imin || v.h.i > imax ? "value" : "";
    case Form::Float: {
      const double d = v.h.d;
      if (std::isnan(d)) return "?";
      return (minIn ? d < dmin : d <= dmin) || (maxIn ? d > dmax : d >= dmax) ? "value" : "";
    }
    case Form::Text: return v.h.s && v.h.s->size() > length ? "value" : "";
    case Form::Enumeration: return v.h.i < INT32_MIN || v.h.i > INT32_MAX || !literals.count(static_cast<std::int32_t>(v.h.i)) ? "value" : "";
    default: return "";
    }
  }
  Val value(xv::Rng &r) const {
    if (r.chance(1, 8)) return randomVal(r, r.pick(valueKinds()));
    if (form == Form::Integer && r.chance(2, 3)) {
      const auto edge = static_cast<I128>(r.chance(1, 2) ? imin : imax) + r.pick({-1, 0, 1});
      return withNative(kind, [&](auto t) -> Val {
        using T = decltype(t);
        if constexpr (std::is_integral_v<T>) if (edge >= static_cast<I128>(std::numeric_limits<T>::min()) && edge <= static_cast<I128>(std::numeric_limits<T>::max())) return valOf<T>(kind, static_cast<T>(edge));
        return randomVal(r, kind);
      });
    }
    if (form == Form::Float && r.chance(2, 3)) {
      const double e = r.chance(1, 2) ? dmin : dmax;
      const double d = r.chance(1, 2) ? e : r.chance(1, 2) ? (dmin + dmax) / 2 : std::nextafter(e, r.chance(1, 2) ? 1e300 : -1e300);
      return kind == K::PTK_Float32 ? valOf<float>(kind, static_cast<float>(d)) : valOf<double>(kind, d);
    }
    if (form == Form::Text && r.chance(2, 3)) return textVal(std::string(length + r.below(3) - (length ? 1 : 0), 'x'));
    if (form == Form::Enumeration && r.chance(2, 3)) {
      std::vector<std::int32_t> l(literals.begin(), literals.end());
      const std::int64_t v = (l.empty() ? 0 : r.pick(l)) + (kind == K::PTK_Int64 ? r.pick<std::int64_t>({0, 0, 1LL << 32, -(1LL << 32)}) : 0);
      return withNative(kind, [&](auto t) -> Val { using T = decltype(t); if constexpr (std::is_integral_v<T>) return valOf<T>(kind, static_cast<T>(v)); else return randomVal(r, kind); });
    }
    return randomVal(r, kind);
  }
};
PType randomPType(xv::Case &c, TypeRegistry &types) {
  PType p;
  switch (c.rng.below(8)) {
  case 0: {
    p.form = PType::Form::Integer;
    p.kind = c.rng.pick({K::PTK_Int8, K::PTK_UInt8, K::PTK_Int16, K::PTK_UInt16, K::PTK_Int32, K::PTK_UInt32, K::PTK_Int64, K::PTK_UInt64});
    p.imin = c.rng.pick<std::int64_t>({0, -5, 3, INT64_MIN, -100000});
    p.imax = c.rng.pick<std::int64_t>({0, 7, 100, INT64_MAX, 1LL << 33});
    p.uuid = freshUuid(c);
    types.AddIntegerType("Range", "", p.uuid, p.imin, p.imax, "", p.kind);
    break;
  }
  case 1: {
    p.form = PType::Form::Float;
    p.kind = c.rng.pick({K::PTK_Float32, K::PTK_Float64});
    p.dmin = c.rng.pick<double>({0, -1.5, -INFINITY}); p.dmax = c.rng.pick<double>({1, 2.25, INFINITY, 0.1});
    p.minIn = c.rng.chance(1, 2); p.maxIn = c.rng.chance(1, 2);
    p.uuid = freshUuid(c);
    types.AddFloatType("FRange", "", p.uuid, p.dmin, p.dmax, p.minIn, p.maxIn, "", p.kind);
    break;
  }
  case 2:
    p.form = PType::Form::Text;
    p.kind = K::PTK_String8;
    p.length = c.rng.pick<std::size_t>({0, 1, 9});
    p.uuid = textUuid(c, types, p.length);
    break;
  case 3: {
    Item it;
    do it = randomItem(c, types); while (!it.enumeration);
    p.form = PType::Form::Enumeration;
    p.kind = it.kind; p.uuid = it.uuid; p.literals = it.literals;
    break;
  }
  default: p.kind = c.rng.pick(valueKinds()); p.uuid = uuidOf(p.kind);
  }
  return p;
}
struct Target : Node {
  using Node::Node;
  std::function<void(::Smp::IRequest *)> onInvoke;
  void Invoke(::Smp::IRequest *r) override { if (onInvoke) onInvoke(r); else Node::Invoke(r); }
};
struct Par { std::string name; PType type; Direction direction; };
struct Op {
  std::string name;
  std::vector<Par> pars; // without the return value
  std::optional<Par> ret;
  bool unusable = false; // has a parameter no request can carry
};
/// a request of someone else
struct OtherRequest final : ::Smp::IRequest {
  std::string name;
  std::vector<std::pair<std::string, AnySimple>> values;
  ::Smp::String8 GetOperationName() const override { return name.empty() ? nullptr : name.c_str(); }
  ::Smp::Int32 GetParameterCount() const override { return static_cast<::Smp::Int32>(values.size()); }
  ::Smp::Int32 GetParameterIndex(::Smp::String8 n) const override { for (std::size_t i = 0; i < values.size(); ++i) if (values[i].first == n) return static_cast<::Smp::Int32>(i); return -1; }
  void SetParameterValue(::Smp::Int32 i, AnySimple v) override { values.at(static_cast<std::size_t>(i)).second = v; }
  AnySimple GetParameterValue(::Smp::Int32 i) const override { return values.at(static_cast<std::size_t>(i)).second; }
  void SetReturnValue(AnySimple) override {}
  AnySimple GetReturnValue() const override { return {}; }
};
const std::string unset = canonAny(AnySimple());
/// a request and what it has to hold
struct Held2 { ::Smp::IRequest *request; const Op *op; std::vector<std::string> values; std::vector<K> kinds; std::string ret = unset; };
XV_SCENARIO(C30, operations, 2500, 150000) {
  TypeRegistry types;
  Target target("target");
  Publication pub(&target, &types);
  std::deque<Op> ops;
  std::vector<::Smp::Publication::IPublishOperation *> published;
  const ::Smp::Uuid structure = freshUuid(c), array = freshUuid(c);
  types.AddStructureType("S", "", structure)->AddField("x", "", ::Smp::Uuids::Uuid_Int8, 0);
  types.AddArrayType("A", "", array, ::Smp::Uuids::Uuid_Int8, 1, 2, c.rng.chance(1, 2));
  auto define = [&](Op &o) {
    o.pars.clear(); o.ret.reset(); o.unusable = false;
    auto *p = pub.PublishOperation(o.name.c_str(), "text", ViewKind::VK_Expert);
    const auto n = c.rng.below(6);
    std::set<std::string> names;
    for (std::uint64_t i = 0; i < n; ++i) {
      Par a{"p" + std::to_string(c.rng.below(8)), randomPType(c, types), c.rng.pick({Direction::PDK_In, Direction::PDK_Out, Direction::PDK_InOut, Direction::PDK_Return})};
      const bool odd = c.rng.chance(1, 15);
      const auto u = odd ? c.rng.pick({structure, array, ::Smp::Uuids::Uuid_Void}) : a.type.uuid;
      if (c.rng.chance(1, 12)) { refused<::Smp::Publication::TypeNotRegistered>("parameter", "publishing a parameter of an unknown type", [&] { p->PublishParameter("pz", "", freshUuid(c), a.direction); }); XV_COUNT("refused parameters"); }
      bool thrown = false;
      std::string error;
      try { p->PublishParameter(a.name.c_str(), "par", u, a.direction); } catch (const ::Smp::DuplicateName &e) { thrown = true; error = "duplicate"; sender(e); } catch (const ::Smp::Exception &e) { thrown = true; sender(e); }
      const bool second = a.direction == Direction::PDK_Return && o.ret;
      XV_CHECK(thrown == (names.count(a.name) || second), "parameter", "publishing the parameter " << a.name << (thrown ? " was refused" : " was accepted"));
      if (thrown) { XV_CHECK(error.empty() || names.count(a.name), "parameter", "the parameter " << a.name << " was refused as a duplicate"); XV_COUNT("refused parameters"); continue; }
      names.insert(a.name);
      if (odd) { o.unusable = true; a.type = PType{}; a.type.uuid = u; }
      if (a.direction == Direction::PDK_Return) o.ret = a; else o.pars.push_back(a);
    }
    std::string text = "operation " + o.name + "(";
    for (auto &a : o.pars) text += std::string(a.direction == Direction::PDK_In ? "in " : a.direction == Direction::PDK_Out ? "out " : "inout ") + kindName(a.type.kind) + " " + a.name + ", ";
    c.op(text + ")" + (o.ret ? std::string(" returns ") + kindName(o.ret->type.kind) : ""));
    XV_COUNT("operations published");
  };
  const auto nops = 1 + c.rng.below(3);
  for (std::uint64_t i = 0; i < nops; ++i) { ops.push_back(Op{"op" + std::to_string(i), {}, {}, false}); define(ops.back()); }
  if (c.rng.chance(1, 4)) { ops.push_back(Op{"get_p", {}, {}, false}); define(ops.back()); pub.PublishProperty("p", "", ::Smp::Uuids::Uuid_Int8, ::Smp::AccessKind::AK_ReadWrite); }
  target.onPublish = [&](::Smp::IPublication *) {};
  target.Publish(&pub);
  auto describe = [&] {
    XV_EQ(target.GetOperations()->size(), ops.size(), "operations", "number of operations");
    for (auto &o : ops) {
      auto *p = target.GetOperations()->at(o.name.c_str());
      XV_CHECK(p && p->GetName() == o.name && p->GetParent() == &target && p->GetView() == ViewKind::VK_Expert && p->GetDescription() == std::string("text"), "operation", "the operation " << o.name << " differs");
      XV_EQ(p->GetParameters()->size(), o.pars.size(), "parameters", "number of parameters of " + o.name);
      auto same = [&](::Smp::IParameter *q, const Par &a) {
        XV_CHECK(q && q->GetName() == a.name && q->GetDirection() == a.direction && q->GetType() == types.GetType(a.type.uuid) && q->GetParent() == p && q->GetDescription() == std::string("par"), "parameters", "the parameter " << a.name << " of " << o.name << " differs");
        XV_CHECK(p->GetParameter(a.name.c_str()) == q, "parameters", "another parameter is found as " << a.name);
      };
      for (std::size_t i = 0; i < o.pars.size(); ++i) same(p->GetParameters()->at(i), o.pars[i]);
      XV_CHECK(!!p->GetReturnParameter() == !!o.ret, "parameters", o.name << " has " << (o.ret ? "no" : "a") << " return value");
      if (o.ret) same(p->GetReturnParameter(), *o.ret);
      XV_CHECK(!p->GetParameter("none") && !p->GetParameter(nullptr), "parameters", "an unknown parameter was found");
    }
  };
  describe();
  std::vector<Held2> requests;
  auto compare = [&](const Held2 &h, const std::string &after) {
    XV_CHECK(h.request->GetOperationName() == h.op->name, "request", "the request is for another operation");
    XV_EQ(static_cast<std::size_t>(h.request->GetParameterCount()), h.op->pars.size(), "request", "parameter count");
    for (std::size_t i = 0; i < h.values.size(); ++i) {
      XV_EQ(h.request->GetParameterIndex(h.op->pars[i].name.c_str()), static_cast<int>(i), "index", "index of " + h.op->pars[i].name);
      const auto v = h.request->GetParameterValue(static_cast<int>(i));
      XV_CHECK(v.GetType() == h.kinds[i], "values", "after " << after << " the parameter " << i << " has kind " << kindName(v.GetType()));
      XV_EQ(canonAny(v), h.values[i], "values", "after " + after + " parameter " + std::to_string(i));
    }
    XV_CHECK(h.request->GetParameterIndex("none") == -1 && h.request->GetParameterIndex(nullptr) == -1 && h.request->GetParameterIndex("") == -1, "index", "an unknown parameter has an index");
    if (h.op->ret) XV_EQ(canonAny(h.request->GetReturnValue()), h.ret, "return value", "after " + after);
    else refused<::Smp::VoidOperation>("void operation", "asking for the value of a void operation", [&] { (void)h.request->GetReturnValue(); });
    XV_COUNT("requests compared");
  };
  auto set = [&](Held2 &h, std::size_t i, const Val &v, const std::function<void()> &f) {
    const auto verdict = h.op->pars[i].type.judge(v);
    const std::string what = "setting parameter " + h.op->pars[i].name + " of kind " + kindName(h.op->pars[i].type.kind) + " to " + showVal(v);
    if (verdict == "?") return;
    if (verdict == "kind") { refused<::Smp::InvalidAnyType>("kind", what, f); XV_COUNT("refused kinds"); }
    else if (verdict == "value") { refused<::Smp::InvalidParameterValue>("value", what, f); XV_COUNT("refused values"); }
    else { xv::quiet("accept", what, f); h.values[i] = canonAny(v.any); h.kinds[i] = v.kind; XV_COUNT("accepted values"); }
  };
  auto setReturn = [&](Held2 &h, const Val &v) {
    auto f = [&] { h.request->SetReturnValue(v.any); };
    if (!h.op->ret) { refused<::Smp::VoidOperation>("void operation", "returning a value from a void operation", f); return; }
    const auto verdict = h.op->ret->type.judge(v);
    const std::string what = std::string("returning ") + showVal(v) + " as " + kindName(h.op->ret->type.kind);
    if (verdict == "?") return;
    if (verdict == "kind") { refused<::Smp::InvalidAnyType>("return kind", what, f); XV_COUNT("refused kinds"); }
    else if (verdict == "value") { refused<::Smp::InvalidReturnValue>("return value", what, f); XV_COUNT("refused values"); }
    else { xv::quiet("return accept", what, f); h.ret = canonAny(v.any); XV_COUNT("returned values"); }
  };
  const auto steps = 5 + c.rng.below(30);
  for (std::uint64_t s = 0; s < steps; ++s) {
    auto &o = ops[c.rng.below(ops.size())];
    auto *p = target.GetOperations()->at(o.name.c_str());
    const auto pick = c.rng.below(14);
    if (pick == 0 || requests.empty()) {
      auto *r = c.rng.chance(1, 2) ? target.CreateRequest(o.name.c_str()) : p->CreateRequest();
      c.op("request " + o.name);
      XV_CHECK(!r == o.unusable, "request", "a request for " << o.name << (r ? " was created although a parameter cannot be carried" : " was not created"));
      XV_CHECK(!target.CreateRequest("none") && !target.CreateRequest(nullptr) && !target.CreateRequest("") && !target.CreateRequest("get_none") && !target.CreateRequest("set_") && !target.CreateRequest((o.name + "x").c_str()), "request", "a request for an unknown operation was created");
      if (o.unusable) { XV_COUNT("unusable operations"); c.nontrivial = true; continue; }
      if (!r) continue;
      Held2 h{r, &o, std::vector<std::string>(o.pars.size(), unset), std::vector<K>(o.pars.size(), K::PTK_None)};
      compare(h, "creation");
      requests.push_back(h);
      continue;
    }
    const auto at = c.rng.below(requests.size());
    auto &h = requests[at];
    if (pick <= 6) {
      const int n = static_cast<int>(h.op->pars.size());
      if (n == 0 || c.rng.chance(1, 10)) {
        const int bad = c.rng.pick({-1, n, n + 1, INT32_MIN, INT32_MAX});
        refused<::Smp::InvalidParameterIndex>("bad index", "setting the parameter " + std::to_string(bad), [&] { h.request->SetParameterValue(bad, AnySimple(K::PTK_Int8, std::int8_t{1})); });
        refused<::Smp::InvalidParameterIndex>("bad index", "reading the parameter " + std::to_string(bad), [&] { (void)h.request->GetParameterValue(bad); });
        XV_COUNT("refused indices");
      } else {
        const auto i = c.rng.below(h.op->pars.size());
        const Val v = h.op->pars[i].type.value(c.rng);
        c.op("set " + h.op->pars[i].name + " of a request for " + h.op->name + " to " + showVal(v));
        if (c.rng.chance(1, 4)) set(h, i, v, [&] { Val copy = v; h.request->SetParameterValue(static_cast<int>(i), std::move(copy.any)); });
        else set(h, i, v, [&] { h.request->SetParameterValue(static_cast<int>(i), v.any); });
      }
      compare(h, "setting a parameter");
    } else if (pick == 7) {
      const Val v = h.op->ret ? h.op->ret->type.value(c.rng) : randomVal(c.rng, K::PTK_Int8);
      c.op("return " + showVal(v));
      setReturn(h, v);
      compare(h, "setting the return value");
    } else if (pick <= 11) {
      int calls = 0;
      const bool fail = c.rng.chance(1, 8);
      target.onInvoke = [&](::Smp::IRequest *r) {
        ++calls;
        XV_CHECK(r == h.request, "invoke", "invoked with another request");
        for (std::size_t i = 0; i < h.values.size(); ++i) {
          const auto &a = h.op->pars[i];
          if (h.kinds[i] != K::PTK_None && a.type.kind != K::PTK_String8 && a.type.form != PType::Form::Enumeration) { // the way generated code reads it
            withNative(a.type.kind, [&](auto t) {
              using T = decltype(t);
              XV_EQ(Native<T>::canon(::Xsmp::Request::get<T>(&target, r, a.name.c_str(), a.type.kind)), h.values[i], "argument", "argument " + a.name);
              refused<::Smp::InvalidParameterType>("argument", "reading an argument as another kind", [&] { (void)::Xsmp::Request::get<T>(&target, r, a.name.c_str(), a.type.kind == K::PTK_Int8 ? K::PTK_Int16 : K::PTK_Int8); });
              const T d = Native<T>::random(c.rng);
              XV_EQ(Native<T>::canon(::Xsmp::Request::get<T>(&target, r, "none", a.type.kind, d)), Native<T>::canon(d), "default", "default of a missing argument");
              refused<::Smp::Exception>("argument", "reading an unknown argument", [&] { (void)::Xsmp::Request::get<T>(&target, r, "none", a.type.kind); });
              return 0;
            });
            XV_COUNT("arguments read");
          }
          if (a.direction != Direction::PDK_In) {
            const Val v = a.type.value(c.rng);
            set(h, i, v, [&] { r->SetParameterValue(r->GetParameterIndex(a.name.c_str()), v.any); });
            if (a.type.form == PType::Form::Plain && a.type.kind != K::PTK_String8) withNative(a.type.kind, [&](auto t) {
              using T = decltype(t);
              const T x = Native<T>::random(c.rng);
              ::Xsmp::Request::set<T>(&target, r, a.name.c_str(), a.type.kind, x);
              h.values[i] = Native<T>::canon(x); h.kinds[i] = a.type.kind;
              return 0;
            });
            XV_COUNT("outputs written");
          }
        }
        if (h.op->ret) setReturn(h, h.op->ret->type.value(c.rng));
        if (fail) throw std::runtime_error("handler");
      };
      bool ready = true;
      for (std::size_t i = 0; i < h.values.size(); ++i) if (h.op->pars[i].direction != Direction::PDK_Out && h.kinds[i] == K::PTK_None) ready = false;
      auto *own = target.GetOperations()->at(h.op->name.c_str());
      c.op("invoke " + h.op->name + (ready ? "" : " too early") + (fail ? ", failing" : ""));
      bool direct = c.rng.chance(1, 4);
      if (!ready) {
        refused<::Smp::InvalidParameterType>("unset", "invoking without an argument", [&] { own->Invoke(h.request); });
        XV_EQ(calls, 0, "invoke", "calls of an operation invoked without an argument");
        XV_COUNT("invocations without an argument");
      } else {
        bool thrown = false;
        try { direct ? target.Invoke(h.request) : own->Invoke(h.request); } catch (const xv::Violation &) { throw; } catch (const std::runtime_error &e) { thrown = std::string(e.what()) == "handler"; }
        XV_EQ(thrown, fail, "invoke", "the operation's own error is passed on");
        XV_EQ(calls, 1, "invoke", "calls of an operation invoked once");
        XV_COUNT("invocations");
        c.nontrivial = true;
      }
      calls = 0;
      for (auto &other : ops) if (&other != h.op) {
        refused<::Smp::InvalidOperationName>("wrong operation", "invoking " + other.name + " with a request for " + h.op->name, [&] { target.GetOperations()->at(other.name.c_str())->Invoke(h.request); });
        XV_COUNT("wrong operations");
      }
      refused<::Smp::InvalidOperationName>("wrong operation", "invoking without request", [&] { own->Invoke(nullptr); });
      OtherRequest x;
      refused<::Smp::InvalidOperationName>("wrong operation", "invoking with a nameless request", [&] { own->Invoke(&x); });
      x.name = h.op->name;
      const auto n = h.op->pars.size() + c.rng.pick<std::size_t>({1, 2}) - (h.op->pars.empty() ? 0 : c.rng.pick<std::size_t>({0, 2}));
      for (std::size_t i = 0; i < n; ++i) x.values.emplace_back(i < h.op->pars.size() ? h.op->pars[i].name : "more" + std::to_string(i), AnySimple(K::PTK_Int8, std::int8_t{1}));
      if (n != h.op->pars.size()) { refused<::Smp::InvalidParameterCount>("count", "invoking with another number of parameters", [&] { own->Invoke(&x); }); XV_COUNT("wrong counts"); }
      XV_EQ(calls, 0, "invoke", "calls of an operation invoked wrongly");
      target.onInvoke = nullptr;
      refused<::Smp::InvalidOperationName>("no handler", "invoking a component without handler", [&] { target.Invoke(h.request); });
      compare(h, "an invocation");
    } else if (pick == 12) {
      c.op("delete a request");
      if (c.rng.chance(1, 2)) target.DeleteRequest(h.request); else target.GetOperations()->at(h.op->name.c_str())->DeleteRequest(h.request);
      requests.erase(requests.begin() + static_cast<std::ptrdiff_t>(at));
      target.DeleteRequest(nullptr);
      XV_COUNT("requests deleted");
    } else {
      bool used = false;
      for (auto &q : requests) used = used || q.op == &o;
      if (!used) { define(o); describe(); XV_COUNT("operations published again"); }
    }
  }
  for (auto &q : requests) { compare(q, "everything"); target.DeleteRequest(q.request); }
}
XV_SCENARIO(C30, properties, 2500, 150000) {
  TypeRegistry types;
  Target target("target");
  Publication pub(&target, &types);
  struct Prop { std::string name; PType type; ::Smp::AccessKind access; ViewKind view; Val held; bool structured = false; std::string description; };
  std::deque<Prop> props;
  const ::Smp::Uuid array = freshUuid(c);
  types.AddArrayType("A", "", array, ::Smp::Uuids::Uuid_Int8, 1, 2, true);
  auto publish = [&](Prop &p) {
    p.type = randomPType(c, types);
    p.access = c.rng.pick({::Smp::AccessKind::AK_ReadWrite, ::Smp::AccessKind::AK_ReadOnly, ::Smp::AccessKind::AK_WriteOnly});
    p.view = randomView(c);
    p.description = c.rng.pick<std::string>({"", "about"});
    do p.held = p.type.value(c.rng); while (p.held.kind != p.type.kind);
    c.op("property " + p.name + " of kind " + kindName(p.type.kind) + (p.access == ::Smp::AccessKind::AK_ReadOnly ? " read-only" : p.access == ::Smp::AccessKind::AK_WriteOnly ? " write-only" : ""));
    pub.PublishProperty(p.name.c_str(), p.description.c_str(), p.type.uuid, p.access, p.view);
    XV_COUNT("properties published");
  };
  const auto n = 1 + c.rng.below(4);
  for (std::uint64_t i = 0; i < n; ++i) { props.emplace_back(); props.back().name = c.rng.pick<std::string>({"p", "get_", "set_x"}) + std::to_string(i); publish(props.back()); }
  refused<::Smp::Publication::TypeNotRegistered>("type", "publishing a property of an unknown type", [&] { pub.PublishProperty("bad", "", freshUuid(c), ::Smp::AccessKind::AK_ReadWrite); });
  target.Publish(&pub);
  int gets = 0, sets = 0;
  bool returned = true;
  std::string returnVerdict;
  target.onInvoke = [&](::Smp::IRequest *r) {
    const std::string name = r->GetOperationName();
    for (auto &p : props) {
      if (name == "get_" + p.name) {
        ++gets;
        XV_EQ(r->GetParameterCount(), 0, "getter", "parameters of a getter");
        XV_EQ(r->GetParameterIndex(p.name.c_str()), -1, "getter", "index of a getter's parameter");
        const auto verdict = p.type.judge(p.held);
        returned = false;
        if (verdict == "?") r->SetReturnValue(p.held.any);
        else if (verdict == "kind") refused<::Smp::InvalidAnyType>("getter kind", "returning " + showVal(p.held), [&] { r->SetReturnValue(p.held.any); });
        else if (verdict == "value") { refused<::Smp::InvalidReturnValue>("getter value", "returning " + showVal(p.held), [&] { r->SetReturnValue(p.held.any); }); XV_COUNT("refused return values"); }
        else { xv::quiet("getter", "returning " + showVal(p.held), [&] { r->SetReturnValue(p.held.any); }); returned = true; }
        return;
      }
      if (name == "set_" + p.name) {
        ++sets;
        XV_EQ(r->GetParameterCount(), 1, "setter", "parameters of a setter");
        XV_EQ(r->GetParameterIndex(p.name.c_str()), 0, "setter", "index of a setter's parameter");
        const auto v = r->GetParameterValue(0);
        if (v.GetType() == K::PTK_None) return; // nothing was set
        p.held.any = v;
        refused<::Smp::VoidOperation>("setter", "returning a value from a setter", [&] { r->SetReturnValue(p.held.any); });
        return;
      }
    }
    XV_FAIL("property", "an unknown operation " << name << " was invoked");
  };
  const auto steps = 4 + c.rng.below(20);
  for (std::uint64_t s = 0; s < steps; ++s) {
    auto &p = props[c.rng.below(props.size())];
    auto *q = target.GetProperties()->at(p.name.c_str());
    XV_EQ(target.GetProperties()->size(), props.size(), "properties", "number of properties");
    XV_CHECK(q && q->GetName() == p.name && q->GetDescription() == p.description && q->GetAccess() == p.access && q->GetView() == p.view && q->GetType() == types.GetType(p.type.uuid) && q->GetParent() == &target, "property", "the property " << p.name << " differs");
    const bool readable = p.access != ::Smp::AccessKind::AK_WriteOnly, writable = p.access != ::Smp::AccessKind::AK_ReadOnly;
    gets = sets = 0;
    const bool request = c.rng.chance(1, 2);
    switch (c.rng.below(5)) {
    case 0: case 1: {
      Val v;
      do v = p.type.value(c.rng); while (p.type.judge(v) == "?");
      const auto verdict = p.type.judge(v);
      const auto before = canonAny(p.held.any);
      const auto beforeKind = p.held.kind;
      c.op(std::string("write ") + p.name + " " + showVal(v) + (request ? " by request" : ""));
      const std::string what = "writing " + showVal(v) + " to the property " + p.name + " of kind " + kindName(p.type.kind);
      auto *r = request ? target.CreateRequest(("set_" + p.name).c_str()) : nullptr;
      if (request) XV_CHECK(!!r == writable, "access", "a request to write " << p.name << (r ? " was created" : " was not created"));
      if (!writable) {
        if (!request) refused<::Smp::Exception>("access", what, [&] { q->SetValue(v.any); });
        XV_EQ(sets, 0, "access", "calls of the setter of a read-only property");
        XV_COUNT("refused accesses");
      } else {
        auto f = [&] {
          if (!request) { q->SetValue(v.any); return; }
          XV_EQ(std::string(r->GetOperationName()), "set_" + p.name, "setter", "name of the operation");
          refused<::Smp::InvalidParameterIndex>("setter", "a second parameter of a setter", [&] { r->SetParameterValue(1, v.any); });
          refused<::Smp::InvalidParameterIndex>("setter", "a negative parameter of a setter", [&] { (void)r->GetParameterValue(-1); });
          refused<::Smp::VoidOperation>("setter", "the return value of a setter", [&] { (void)r->GetReturnValue(); });
          r->SetParameterValue(0, v.any);
          XV_EQ(canonAny(r->GetParameterValue(0)), canonAny(v.any), "setter", "the parameter's value");
          target.Invoke(r);
        };
        try {
          if (verdict == "kind") { refused<::Smp::InvalidAnyType>("write kind", what, f); XV_COUNT("refused kinds"); }
          else if (verdict == "value") { refused<::Smp::InvalidParameterValue>("write value", what, f); XV_COUNT("refused values"); }
          else xv::quiet("write", what, f);
        } catch (...) { target.DeleteRequest(r); throw; }
        XV_EQ(sets, verdict.empty() ? 1 : 0, "write", "calls of the setter after " + what);
        XV_EQ(canonAny(p.held.any), verdict.empty() ? canonAny(v.any) : before, "write", what);
        if (verdict.empty()) { p.held = v; XV_COUNT("properties written"); } else p.held.kind = beforeKind;
      }
      target.DeleteRequest(r);
      break;
    }
    case 2: case 3: {
      c.op("read " + p.name + (request ? " by request" : ""));
      if (c.rng.chance(1, 3)) do p.held = p.type.value(c.rng); while (p.type.judge(p.held) == "?");
      auto *r = request ? target.CreateRequest(("get_" + p.name).c_str()) : nullptr;
      if (request) XV_CHECK(!!r == readable, "access", "a request to read " << p.name << (r ? " was created" : " was not created"));
      if (!readable) {
        if (!request) refused<::Smp::Exception>("access", "reading the write-only property " + p.name, [&] { (void)q->GetValue(); });
        XV_EQ(gets, 0, "access", "calls of the getter of a write-only property");
        XV_COUNT("refused accesses");
      } else {
        AnySimple got;
        try {
          if (request) {
            refused<::Smp::InvalidParameterIndex>("getter", "a parameter of a getter", [&] { r->SetParameterValue(0, got); });
            refused<::Smp::InvalidParameterIndex>("getter", "a parameter of a getter", [&] { (void)r->GetParameterValue(0); });
            target.Invoke(r);
            got = r->GetReturnValue();
          } else got = q->GetValue();
        } catch (...) { target.DeleteRequest(r); throw; }
        XV_EQ(gets, 1, "read", "calls of the getter");
        if (p.type.judge(p.held) != "?") XV_EQ(canonAny(got), returned ? canonAny(p.held.any) : unset, "read", "value of the property " + p.name);
        XV_COUNT("properties read");
      }
      target.DeleteRequest(r);
      break;
    }
    default: publish(p); XV_COUNT("properties published again");
    }
    c.nontrivial = true;
  }
}
enum class Light : std::int32_t { red = 1, green = 5 };
constexpr ::Smp::Uuid uShorts{0xabcd0001U, 1, 2, 3, 4}, uPlain{0xabcd0002U, 1, 2, 3, 4}, uWord{0xabcd0003U, 1, 2, 3, 4}, uPose{0xabcd0004U, 1, 2, 3, 4}, uPoses{0xabcd0005U, 1, 2, 3, 4};
/// a structure with members of all forms
struct Pose {
  using Shorts = ::Xsmp::Array<std::int16_t, 3>::simple;
  using Plain = ::Xsmp::Array<double, 2>;
  std::int32_t a;
  Shorts b;
  Plain c;
  ::Xsmp::String<7> d;
  template <typename B> struct _Field : public B {
    _Field(::Smp::Publication::ITypeRegistry *r, ::Smp::Uuid u, ::Smp::String8 name, ::Smp::String8 description = "", ::Smp::IObject *parent = nullptr, ViewKind view = ViewKind::VK_None, const Pose &o = {})
        : B(r, u, name, description, parent, view), a{r, ::Smp::Uuids::Uuid_Int32, "a", "", this, view, o.a}, b{r, uShorts, "b", "", this, view, o.b}, c{r, uPlain, "c", "", this, view, o.c}, d{r, uWord, "d", "", this, view, o.d} {}
    operator Pose() const { return {a, b, c, d}; }
    typename B::template Field<std::int32_t> a;
    typename B::template Field<Shorts> b;
    typename B::template Field<Plain> c;
    typename B::template Field<::Xsmp::String<7>> d;
  };
};
template <typename P, typename F> void members(P &p, const std::string &name, F &&f) { f(name + ".a", p.a); f(name + ".b", p.b); f(name + ".c", p.c); f(name + ".d", p.d); }
template <typename T> void flatten(const std::string &name, const T &v, std::vector<std::pair<std::string, std::string>> &o) {
  if constexpr (std::is_same_v<T, Pose>) members(v, name, [&](const std::string &n, const auto &x) { flatten(n, x, o); });
  else if constexpr (std::is_arithmetic_v<T> || std::is_enum_v<T> || Xsmp::Helper::is_smp_string_v<T>) o.emplace_back(name, Native<T>::canon(v));
  else for (std::size_t i = 0; i < v.size(); ++i) flatten(name + "[" + std::to_string(i) + "]", v[i], o);
}
template <typename T> void fill(xv::Rng &r, T &v) {
  if constexpr (std::is_same_v<T, Pose>) members(v, "", [&](const std::string &, auto &x) { fill(r, x); });
  else if constexpr (std::is_same_v<T, Light>) v = r.chance(1, 2) ? Light::red : Light::green;
  else if constexpr (std::is_arithmetic_v<T> || Xsmp::Helper::is_smp_string_v<T>) v = Native<T>::random(r);
  else for (auto &x : v) fill(r, x);
}
inline K kindOf(std::int32_t) { return K::PTK_Int32; }
inline K kindOf(std::int16_t) { return K::PTK_Int16; }
inline K kindOf(double) { return K::PTK_Float64; }
template <typename T> K kindOf(const T &) { return K::PTK_String8; }
template <typename T> AnySimple anyOf(K kind, const T &v) { return nativeVal<T>(kind, v).any; }
template <typename T, typename F> void each(const std::string &name, T &v, F &&f) {
  if constexpr (std::is_same_v<T, Pose>) members(v, name, [&](const std::string &n, auto &x) { each(n, x, f); });
  else if constexpr (std::is_arithmetic_v<T> || std::is_enum_v<T> || Xsmp::Helper::is_smp_string_v<T>) f(name, v);
  else for (std::size_t i = 0; i < v.size(); ++i) each(name + "[" + std::to_string(i) + "]", v[i], f);
}
template <typename T> void structured(xv::Case &c, Node &node, ::Smp::Uuid uuid, K kind, const char *what) {
  T v{}, d{};
  fill(c.rng, v);
  fill(c.rng, d);
  c.op(std::string("a ") + what);
  OtherRequest r;
  r.name = "op";
  each("par", v, [&](const std::string &n, auto &x) { r.values.emplace_back(n, anyOf(kind == K::PTK_None ? kindOf(x) : kind, x)); });
  for (std::size_t i = r.values.size(); i > 1; --i) std::swap(r.values[i - 1], r.values[c.rng.below(i)]);
  std::vector<std::pair<std::string, std::string>> want, got;
  flatten("", v, want);
  xv::quiet("structured", std::string("reading a ") + what, [&] { flatten("", static_cast<T>(::Xsmp::Request::get<T>(&node, &r, "par", uuid)), got); });
  XV_CHECK(got == want, "structured", "a " << what << " is read as another one");
  // written back
  T w{};
  fill(c.rng, w);
  ::Xsmp::Request::set<T>(&node, &r, "par", uuid, w);
  each("par", w, [&](const std::string &n, auto &x) { XV_EQ(canonAny(r.GetParameterValue(r.GetParameterIndex(n.c_str()))), Native<std::decay_t<decltype(x)>>::canon(x), "structured", std::string("item ") + n + " of a written " + what); });
  XV_COUNT("structured values");
  if (r.values.empty()) return;
  // with missing items
  const auto missing = r.values[c.rng.below(r.values.size())].first;
  r.values.erase(std::find_if(r.values.begin(), r.values.end(), [&](auto &x) { return x.first == missing; }));
  std::vector<std::pair<std::string, std::string>> want2, got2;
  T mixed = w;
  std::vector<std::pair<std::string, std::string>> defaults;
  flatten("par", d, defaults);
  flatten("par", mixed, want2);
  for (std::size_t i = 0; i < want2.size(); ++i) if (want2[i].first == missing) want2[i] = defaults[i];
  xv::quiet("structured", std::string("reading a ") + what + " with a missing item", [&] { flatten("par", static_cast<T>(::Xsmp::Request::get<T>(&node, &r, "par", uuid, d)), got2); });
  XV_CHECK(got2 == want2, "structured", "a " << what << " with a missing item is read as another one");
  refused<::Smp::Exception>("missing", std::string("reading a ") + what + " with a missing item", [&] { (void)::Xsmp::Request::get<T>(&node, &r, "par", uuid); });
  refused<::Smp::Exception>("missing", std::string("writing a ") + what + " with a missing item", [&] { ::Xsmp::Request::set<T>(&node, &r, "par", uuid, w); });
  XV_COUNT("structured values with missing items");
}
XV_SCENARIO(C30, structured, 250, 20000) {
  ::Xsmp::Simulator sim;
  Node node("node", "", nullptr, &sim);
  auto *t = sim.GetTypeRegistry();
  const auto ua = freshUuid(c), um = freshUuid(c), ut = freshUuid(c), uta = freshUuid(c), ue = freshUuid(c), uea = freshUuid(c), ud = freshUuid(c);
  t->AddArrayType("A", "", ua, uuidOf(K::PTK_Int16), 2, 3, c.rng.chance(1, 2));
  t->AddArrayType("M", "", um, ua, 6, 2);
  t->AddStringType("T", "", ut, 7);
  t->AddArrayType("TA", "", uta, ut, 8, 2);
  auto *e = t->AddEnumerationType("E", "", ue, 4);
  e->AddLiteral("red", "", 1);
  e->AddLiteral("green", "", 5);
  t->AddArrayType("EA", "", uea, ue, 4, 4);
  t->AddArrayType("D", "", ud, uuidOf(K::PTK_Float64), 8, 5);
  structured<::Xsmp::Array<std::int16_t, 3>>(c, node, ua, K::PTK_Int16, "array of Int16");
  structured<::Xsmp::Array<::Xsmp::Array<std::int16_t, 3>, 2>>(c, node, um, K::PTK_Int16, "matrix of Int16");
  structured<::Xsmp::Array<::Xsmp::String<7>, 2>>(c, node, uta, K::PTK_String8, "array of texts");
  structured<::Xsmp::Array<Light, 4>>(c, node, uea, K::PTK_Int32, "array of literals");
  structured<::Xsmp::Array<double, 5>>(c, node, ud, K::PTK_Float64, "array of Float64");
  t->AddArrayType("S3", "", uShorts, uuidOf(K::PTK_Int16), 2, 3, true);
  t->AddArrayType("D2", "", uPlain, uuidOf(K::PTK_Float64), 8, 2);
  t->AddStringType("W", "", uWord, 7);
  auto *p = t->AddStructureType("P", "", uPose);
  p->AddField("a", "", uuidOf(K::PTK_Int32), offsetof(Pose, a));
  p->AddField("b", "", uShorts, offsetof(Pose, b));
  p->AddField("c", "", uPlain, offsetof(Pose, c));
  p->AddField("d", "", uWord, offsetof(Pose, d));
  t->AddArrayType("PA", "", uPoses, uPose, sizeof(Pose), 2);
  structured<Pose::Shorts>(c, node, uShorts, K::PTK_Int16, "simple array of Int16");
  structured<Pose>(c, node, uPose, K::PTK_None, "structure");
  structured<::Xsmp::Array<Pose, 2>>(c, node, uPoses, K::PTK_None, "array of structures");
  structured<std::int32_t>(c, node, uuidOf(K::PTK_Int32), K::PTK_Int32, "Int32");
  structured<::Xsmp::String<7>>(c, node, ut, K::PTK_String8, "text");
  c.nontrivial = true;
}
} // namespace
