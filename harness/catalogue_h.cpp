// The generated libraries against their catalogues: the types, the components
// and what they publish, the memory behind it, and the packages for Python.
#include "sim.h"
#include "values.h"
#include <Smp/IDynamicInvocation.h>
#include <Smp/IFallibleModel.h>
#include <Smp/IForcibleField.h>
#include <Smp/InvalidEventSink.h>
#include <Smp/Publication/IType.h>
#include <Smp/Publication/ITypeRegistry.h>
#include <cctype>
#include <dirent.h>
#include <map>
#include <set>
#include <xsmp_tests.h>
#include <Xsmp/Tests/ModelWithArrayFields.h>
#include <Xsmp/Tests/ModelWithEvents.h>
#include <Xsmp/Tests/ModelWithOperations.h>
#include <Xsmp/Tests/ModelWithProperties.h>
#include <Xsmp/Tests/ModelWithSimpleArrayFields.h>
#include <Xsmp/Tests/ModelWithSimpleFields.h>
#define XV_INTS(X) X(Int8) X(Int16) X(Int32) X(Int64) X(UInt8) X(UInt16) X(UInt32) X(UInt64)
#define XV_ARRAYS(X) XV_INTS(X) X(Bool) X(Char8) X(Enum1) X(String1) X(Float32) X(Float64) X(Float1) X(Integer1)
#include <Xsmp/Tests/Types/BoolArray.h>
#include <Xsmp/Tests/Types/Char8Array.h>
#include <Xsmp/Tests/Types/Enum1Array.h>
#include <Xsmp/Tests/Types/Float1Array.h>
#include <Xsmp/Tests/Types/Float32Array.h>
#include <Xsmp/Tests/Types/Float64Array.h>
#include <Xsmp/Tests/Types/Int16Matrix.h>
#include <Xsmp/Tests/Types/Int32Matrix.h>
#include <Xsmp/Tests/Types/Int64Matrix.h>
#include <Xsmp/Tests/Types/Int8Matrix.h>
#include <Xsmp/Tests/Types/Integer1Array.h>
#include <Xsmp/Tests/Types/SimpleBoolArray.h>
#include <Xsmp/Tests/Types/SimpleChar8Array.h>
#include <Xsmp/Tests/Types/SimpleEnum1Array.h>
#include <Xsmp/Tests/Types/SimpleFloat1Array.h>
#include <Xsmp/Tests/Types/SimpleFloat32Array.h>
#include <Xsmp/Tests/Types/SimpleFloat64Array.h>
#include <Xsmp/Tests/Types/SimpleInt16Matrix.h>
#include <Xsmp/Tests/Types/SimpleInt32Matrix.h>
#include <Xsmp/Tests/Types/SimpleInt64Matrix.h>
#include <Xsmp/Tests/Types/SimpleInt8Matrix.h>
#include <Xsmp/Tests/Types/SimpleInteger1Array.h>
#include <Xsmp/Tests/Types/SimpleString1Array.h>
#include <Xsmp/Tests/Types/SimpleUInt16Matrix.h>
#include <Xsmp/Tests/Types/SimpleUInt32Matrix.h>
#include <Xsmp/Tests/Types/SimpleUInt64Matrix.h>
#include <Xsmp/Tests/Types/SimpleUInt8Matrix.h>
#include <Xsmp/Tests/Types/String1Array.h>
#include <Xsmp/Tests/Types/StructureWithCustomFields.h>
#include <Xsmp/Tests/Types/UInt16Matrix.h>
#include <Xsmp/Tests/Types/UInt32Matrix.h>
#include <Xsmp/Tests/Types/UInt64Matrix.h>
#include <Xsmp/Tests/Types/UInt8Matrix.h>
#include <Xsmp/Tests/Types/VectorMatrix.h>
using namespace smpx;
namespace {
namespace T = ::Xsmp::Tests::Types;
// ---------------------------------------------------------------- catalogues
struct Member { // of a structure or a component
  std::string what, name, type, link;
  bool input = false, output = false, transient = false, forcible = false, failure = false, isStatic = false, readable = true, writable = true;
  std::int64_t lower = 0, upper = 1;
  std::vector<std::array<std::string, 3>> params; // direction, type, name
};
struct Decl {
  std::string what, name, uuid, type;
  std::int64_t size = 0;
  bool simple = false;
  std::vector<std::pair<std::string, std::int64_t>> literals;
  std::vector<Member> members;
};
struct Catalogue {
  std::vector<Decl> decls;
  std::string text;
  std::size_t at = 0;
  std::string doc; // the last documentation comment
  const Decl *find(const std::string &name) const {
    const auto dot = name.rfind('.');
    const auto last = dot == std::string::npos ? name : name.substr(dot + 1);
    for (const auto &d : decls) if (d.name == last) return &d;
    return nullptr;
  }
  void blanks() {
    for (;;) {
      while (at < text.size() && std::isspace(static_cast<unsigned char>(text[at]))) at++;
      if (text.compare(at, 2, "//") == 0) { at = std::min(text.find('\n', at), text.size()); continue; }
      if (text.compare(at, 2, "/*") == 0) { const auto e = text.find("*/", at); doc = text.substr(at, e - at); at = e + 2; continue; }
      return;
    }
  }
  static bool word(char ch) { return std::isalnum(static_cast<unsigned char>(ch)) || ch == '_' || ch == '.'; }
  std::string peek() { const auto a = at; auto d = doc; auto t = next(); at = a; doc = d; return t; }
  std::string next() {
    blanks();
    if (at >= text.size()) return "";
    const auto b = at;
    if (word(text[at])) { while (at < text.size() && word(text[at])) at++; return text.substr(b, at - b); }
    if (text.compare(at, 2, "->") == 0) { at += 2; return "->"; }
    return text.substr(at++, 1);
  }
  bool accept(const std::string &t) { if (peek() != t) return false; next(); return true; }
  void expect(const std::string &t) { const auto got = next(); XV_CHECK(got == t, "catalogue", "catalogue not understood at " << at << ": '" << got << "' instead of '" << t << "'"); }
  std::string uuid() { const auto p = doc.find("@uuid"); std::istringstream s(p == std::string::npos ? "" : doc.substr(p + 5)); std::string u; s >> u; return u; }
  void bounds(Member &m) {
    m.lower = 1; m.upper = 1;
    if (accept("?")) { m.lower = 0; return; }
    if (accept("*")) { m.lower = 0; m.upper = -1; return; }
    if (!accept("[")) return;
    if (accept("*")) { m.lower = 0; m.upper = -1; }
    else { m.lower = m.upper = std::stoll(next()); }
    expect("]");
  }
  void members(Decl &d) {
    expect("{");
    while (!accept("}")) {
      Member m;
      while (accept("@")) { const auto a = next(); if (a == "Forcible") m.forcible = true; if (a == "Failure") m.failure = true; if (a == "Static") m.isStatic = true; }
      for (bool more = true; more;) {
        const auto t = next();
        more = false;
        if (t == "input" || t == "output" || t == "transient" || t == "readOnly" || t == "writeOnly" || t == "public" || t == "protected" || t == "private") {
          if (t == "input") m.input = true;
          if (t == "output") m.output = true;
          if (t == "transient") m.transient = true;
          if (t == "readOnly") m.writable = false;
          if (t == "writeOnly") m.readable = false;
          more = true;
        } else m.what = t;
      }
      if (m.what == "field") { m.type = next(); m.name = next(); }
      else if (m.what == "property") { m.type = next(); m.name = next(); if (accept("->")) m.link = next(); }
      else if (m.what == "container" || m.what == "reference") { m.type = next(); bounds(m); m.name = next(); }
      else if (m.what == "eventsink" || m.what == "eventsource") { m.type = next(); m.name = next(); }
      else if (m.what == "entrypoint") m.name = next();
      else if (m.what == "def") {
        m.type = next(); m.name = next();
        expect("(");
        while (!accept(")")) {
          std::array<std::string, 3> p{"in", "", ""};
          auto t = next();
          if (t == "in" || t == "out" || t == "inout") { p[0] = t; t = next(); }
          p[1] = t; p[2] = next();
          m.params.push_back(p);
          accept(",");
        }
      } else XV_FAIL("catalogue", "catalogue not understood at " << at << ": '" << m.what << "'");
      d.members.push_back(m);
    }
  }
  void block() {
    while (!peek().empty() && peek() != "}") {
      Decl d;
      while (accept("@")) if (next() == "SimpleArray") d.simple = true;
      while (peek() == "public" || peek() == "protected" || peek() == "private") next();
      d.what = next();
      d.uuid = uuid();
      if (d.what == "catalogue") { next(); continue; }
      d.name = next();
      if (d.what == "namespace") { expect("{"); block(); expect("}"); continue; }
      if (d.what == "enum") {
        expect("{");
        while (!accept("}")) { const auto n = next(); expect("="); const bool neg = accept("-"); const auto v = std::stoll(next()); d.literals.emplace_back(n, neg ? -v : v); accept(","); }
      } else if (d.what == "string") { expect("["); d.size = std::stoll(next()); expect("]"); }
      else if (d.what == "array") { expect("="); d.type = next(); expect("["); d.size = std::stoll(next()); expect("]"); }
      else if (d.what == "event") { if (accept("extends")) d.type = next(); }
      else if (d.what == "struct") members(d);
      else if (d.what == "model" || d.what == "service") {
        if (accept("implements") || accept("extends")) do next(); while (accept(","));
        members(d);
      } else if (d.what != "float" && d.what != "integer") XV_FAIL("catalogue", "catalogue not understood at " << at << ": '" << d.what << "'");
      decls.push_back(d);
    }
  }
};
const std::vector<std::string> &libraries() {
  static const std::vector<std::string> l{"xsmp_tests", "xsmp_logger", "xsmp_scheduler", "xsmp_time_keeper", "xsmp_event_manager", "xsmp_resolver", "xsmp_link_registry"};
  return l;
}
std::string repo() {
  const char *r = std::getenv("XV_REPO");
  XV_CHECK(r != nullptr, "environment", "XV_REPO is not set");
  return r;
}
const Catalogue &catalogue(const std::string &library) {
  static std::map<std::string, Catalogue> all;
  auto it = all.find(library);
  if (it != all.end()) return it->second;
  Catalogue c;
  std::ifstream f(repo() + "/smdl/Xsmp/" + (library == "xsmp_tests" ? "Tests/" : "Services/") + library + ".xsmpcat");
  std::ostringstream s;
  s << f.rdbuf();
  c.text = s.str();
  XV_CHECK(!c.text.empty(), "environment", "no catalogue of " << library);
  c.block();
  XV_CHECK(c.peek().empty() && !c.decls.empty(), "catalogue", "catalogue of " << library << " not understood");
  return all.emplace(library, c).first->second;
}
K primitive(const std::string &name) {
  for (auto k : valueKinds()) if (name == kindName(k)) return k;
  return K::PTK_None;
}
struct Simple { // a simple type: what its values are
  K kind = K::PTK_None;
  std::size_t capacity = 0;
  std::vector<std::int64_t> literals;
};
struct CatLeaf { std::string path; Simple s; };
struct Reading {
  const Catalogue &c;
  const Decl *decl(const std::string &type) const { return primitive(type) != K::PTK_None ? nullptr : c.find(type); }
  Simple simple(const std::string &type) const {
    Simple s;
    s.kind = primitive(type);
    if (s.kind != K::PTK_None) return s;
    const auto *d = c.find(type);
    if (!d) return s;
    if (d->what == "enum") { s.kind = K::PTK_Int32; for (const auto &l : d->literals) s.literals.push_back(l.second); }
    if (d->what == "string") { s.kind = K::PTK_String8; s.capacity = static_cast<std::size_t>(d->size); }
    if (d->what == "float") s.kind = K::PTK_Float64;
    if (d->what == "integer") s.kind = K::PTK_Int32;
    return s;
  }
  ::Smp::Uuid uuid(const std::string &type) const {
    const auto *d = decl(type);
    return d ? ::Smp::Uuid(d->uuid.c_str()) : uuidOf(primitive(type));
  }
  void leaves(const std::string &type, const std::string &path, std::vector<CatLeaf> &out) const {
    const auto *d = decl(type);
    if (d && d->what == "array") for (int i = 0; i < d->size; ++i) leaves(d->type, path + "[" + std::to_string(i) + "]", out);
    else if (d && d->what == "struct") for (const auto &m : d->members) leaves(m.type, path + "." + m.name, out);
    else out.push_back({path, simple(type)});
  }
};
/// a value the type accepts
Val valueFor(xv::Rng &r, const Simple &s) {
  if (!s.literals.empty()) return valOf<std::int32_t>(K::PTK_Int32, static_cast<std::int32_t>(s.literals[r.below(s.literals.size())]));
  if (s.kind == K::PTK_String8) return textVal(randomText(r));
  Val v = randomVal(r, s.kind);
  if (s.kind == K::PTK_Float64 && std::isnan(v.h.d)) v = valOf<double>(s.kind, -v.h.d > 0 ? 1.5 : -2.5);
  return v;
}
std::string stored(const Simple &s, const Val &v) { auto t = canonAny(v.any); return s.kind == K::PTK_String8 && s.capacity ? t.substr(0, s.capacity) : t; }

// ---------------------------------------------------------------- fields
struct FieldLeaf {
  std::string path;
  std::function<AnySimple()> get;
  std::function<void(AnySimple)> set;
  ::Smp::IField *field;
};
void fieldLeaves(::Smp::IField *f, const std::string &path, std::vector<FieldLeaf> &out) {
  XV_CHECK(f != nullptr, "shape", path << " has no field");
  if (auto *a = dynamic_cast<::Smp::ISimpleArrayField *>(f)) {
    for (std::uint64_t i = 0; i < a->GetSize(); ++i) out.push_back({path + "[" + std::to_string(i) + "]", [a, i] { return a->GetValue(i); }, [a, i](AnySimple v) { a->SetValue(i, v); }, f});
  } else if (auto *r = dynamic_cast<::Smp::IArrayField *>(f)) {
    for (std::uint64_t i = 0; i < r->GetSize(); ++i) fieldLeaves(r->GetItem(i), path + "[" + std::to_string(i) + "]", out);
  } else if (auto *s = dynamic_cast<::Smp::IStructureField *>(f)) {
    for (auto *m : *s->GetFields()) fieldLeaves(m, path + "." + m->GetName(), out);
  } else if (auto *v = dynamic_cast<::Smp::ISimpleField *>(f)) {
    out.push_back({path, [v] { return v->GetValue(); }, [v](AnySimple x) { v->SetValue(x); }, f});
  } else XV_FAIL("shape", path << " is a field of no kind");
}
/// the field has the shape of its declared type
void checkShape(const Reading &r, const std::string &type, ::Smp::IField *f, const std::string &path) {
  const auto *d = r.decl(type);
  XV_CHECK(f->GetType() && f->GetType()->GetUuid() == r.uuid(type), "type", path << " is not of type " << type);
  XV_COUNT("fields compared");
  auto *simpleArray = dynamic_cast<::Smp::ISimpleArrayField *>(f);
  auto *array = dynamic_cast<::Smp::IArrayField *>(f);
  auto *structure = dynamic_cast<::Smp::IStructureField *>(f);
  const std::string want = !d || (d->what != "array" && d->what != "struct") ? "simple" : d->what == "struct" ? "structure" : d->simple ? "simple array" : "array";
  const std::string got = simpleArray ? "simple array" : array ? "array" : structure ? "structure" : dynamic_cast<::Smp::ISimpleField *>(f) ? "simple" : "none";
  XV_EQ(got, want, "shape", path << " is a field of kind");
  if (simpleArray) XV_EQ(simpleArray->GetSize(), static_cast<std::uint64_t>(d->size), "shape", "size of " << path);
  if (array) {
    XV_EQ(array->GetSize(), static_cast<std::uint64_t>(d->size), "shape", "size of " << path);
    for (std::uint64_t i = 0; i < array->GetSize(); ++i) checkShape(r, d->type, array->GetItem(i), path + "[" + std::to_string(i) + "]");
  }
  if (structure) {
    std::string names, wanted;
    for (auto *m : *structure->GetFields()) names += std::string(m->GetName()) + " ";
    for (const auto &m : d->members) wanted += m.name + " ";
    XV_EQ(names, wanted, "shape", "fields of " << path);
    for (const auto &m : d->members) checkShape(r, m.type, structure->GetField(m.name.c_str()), path + "." + m.name);
  }
}
// ---------------------------------------------------------------- native types
#define XV_VECTOR(M) M(x) M(y) M(z)
#define XV_STANDARD(M) M(boolean) M(char8) M(enum1) M(string1) M(float1) M(integer1)
#define XV_KIND(M, S) M(boolean##S) M(char8##S) M(enum1##S) M(string1##S) M(float1##S) M(integer1##S) M(struct1##S)
#define XV_CUSTOM(M) XV_KIND(M, Input) XV_KIND(M, Transient) XV_KIND(M, Output) XV_KIND(M, Forcible) XV_KIND(M, Failure) XV_KIND(M, All)
using Leaves = std::map<std::string, std::string>;
template <typename V> struct IsArray : std::false_type {};
template <typename V, std::size_t N, typename... A> struct IsArray<::Xsmp::Array<V, N, A...>> : std::true_type {};
/// every simple value of an object of a generated type, by its path
template <typename V> void natives(const V &v, const std::string &path, Leaves &out) {
  if constexpr (IsArray<V>::value) { std::size_t i = 0; for (const auto &e : v) natives(e, path + "[" + std::to_string(i++) + "]", out); }
#define XV_MEMBER(m) natives(v.m, path + "." #m, out);
  else if constexpr (std::is_same_v<V, T::Vector>) { XV_VECTOR(XV_MEMBER) }
  else if constexpr (std::is_same_v<V, T::SimpleStructure>) { XV_STANDARD(XV_MEMBER) }
  else if constexpr (std::is_same_v<V, T::StructureWithCustomFields>) { XV_CUSTOM(XV_MEMBER) }
#undef XV_MEMBER
  else out[path] = Native<V>::canon(v);
}
template <typename V> void randomise(V &v, xv::Rng &r) {
  if constexpr (IsArray<V>::value) { for (auto &e : v) randomise(e, r); }
#define XV_MEMBER(m) randomise(v.m, r);
  else if constexpr (std::is_same_v<V, T::Vector>) { XV_VECTOR(XV_MEMBER) }
  else if constexpr (std::is_same_v<V, T::SimpleStructure>) { XV_STANDARD(XV_MEMBER) }
  else if constexpr (std::is_same_v<V, T::StructureWithCustomFields>) { XV_CUSTOM(XV_MEMBER) }
#undef XV_MEMBER
  else if constexpr (std::is_enum_v<V>) v = static_cast<V>(r.below(3));
  else v = Native<V>::random(r);
}
/// what the library's headers say of a type
struct Header {
  ::Smp::Uuid uuid;
  std::size_t size;
  std::function<void(const void *, const std::string &, Leaves &)> read;
  std::function<void(void *, xv::Rng &)> fill;
};
template <typename V> Header header(const ::Smp::Uuid &u) {
  return {u, sizeof(V), [](const void *p, const std::string &path, Leaves &out) { natives(*static_cast<const V *>(p), path, out); }, [](void *p, xv::Rng &r) { randomise(*static_cast<V *>(p), r); }};
}
const std::map<std::string, Header> &headers() {
  static const std::map<std::string, Header> h{
#define XV_ONE(n) {#n, header<T::n>(T::Uuid_##n)},
#define XV_MATRIX(n) XV_ONE(n##Matrix) XV_ONE(Simple##n##Matrix)
#define XV_ARRAY(n) XV_ONE(n##Array) XV_ONE(Simple##n##Array)
      XV_ONE(Enum1) XV_ONE(String1) XV_ONE(Float1) XV_ONE(Integer1) XV_ONE(Vector) XV_ONE(VectorArray) XV_ONE(VectorMatrix) XV_ONE(SimpleStructure) XV_ONE(StructureWithCustomFields) XV_ARRAYS(XV_ARRAY) XV_INTS(XV_MATRIX)};
  return h;
}
void load(::Xsmp::Simulator &sim, const std::string &library) { sim.LoadLibrary(library.c_str()); }
// ---------------------------------------------------------------- types
XV_SCENARIO(C53, types, 400, 4000) {
  Scratch::get();
  auto &r = c.rng;
  const auto &cat = catalogue("xsmp_tests");
  const Reading rd{cat};
  ::Xsmp::Simulator sim;
  if (r.chance(1, 3)) load(sim, "xsmp_services");
  load(sim, "xsmp_tests");
  if (r.chance(1, 4)) load(sim, "xsmp_tests");
  auto *registry = sim.GetTypeRegistry();
  std::vector<const Decl *> types;
  for (const auto &d : cat.decls) if (d.what != "model" && d.what != "service" && d.what != "event") types.push_back(&d);
  std::set<std::string> seen;
  for (const auto *d : types) {
    auto *t = registry->GetType(::Smp::Uuid(d->uuid.c_str()));
    XV_CHECK(t != nullptr, "registered", "type " << d->name << " is not in the registry");
    XV_EQ(std::string(t->GetName()), d->name, "registered", "name of the type of uuid " << d->uuid);
    XV_EQ(static_cast<int>(t->GetPrimitiveTypeKind()), static_cast<int>(rd.simple(d->name).kind), "registered", "primitive kind of " << d->name);
    XV_CHECK(seen.insert(d->uuid).second, "catalogue", "uuid of " << d->name << " used twice");
    const auto h = headers().find(d->name);
    if (h != headers().end()) { XV_CHECK(h->second.uuid == t->GetUuid(), "header", "the header gives type " << d->name << " another uuid than its catalogue"); XV_COUNT("uuids of headers"); }
    XV_COUNT("types compared");
  }
  Node node("node", "", &sim, &sim);
  struct Memory { const Decl *d; const Header *h; std::unique_ptr<Guarded> at; };
  std::vector<Memory> memory;
  for (std::uint64_t n = 2 + r.below(5); n > 0; --n) {
    const auto *d = r.chance(1, 5) ? cat.find(r.pick({"Vector", "SimpleStructure", "StructureWithCustomFields", "VectorMatrix"})) : types[r.below(types.size())];
    const auto h = headers().find(d->name);
    if (h == headers().end()) continue;
    memory.push_back({d, &h->second, std::make_unique<Guarded>(h->second.size)});
    c.op(d->name);
  }
  // every type: as a field over memory the header's type describes
  auto *operationType = types[r.below(types.size())];
  while (rd.simple(operationType->name).kind == K::PTK_None) operationType = types[r.below(types.size())];
  node.onPublish = [&](::Smp::IPublication *p) {
    int i = 0;
    for (auto &m : memory) registry->GetType(m.h->uuid)->Publish(p, ("m" + std::to_string(i++)).c_str(), "", m.at->data(), ::Smp::ViewKind::VK_All, true, false, false);
    auto *op = p->PublishOperation("op", "", ::Smp::ViewKind::VK_All);
    op->PublishParameter("p", "", ::Smp::Uuid(operationType->uuid.c_str()), ::Smp::Publication::ParameterDirectionKind::PDK_In);
  };
  for (auto &m : memory) m.h->fill(m.at->data(), r);
  ::Xsmp::Publication::Publication publication(&node, registry);
  node.Publish(&publication);
  std::vector<Leaves> model(memory.size());
  std::vector<std::vector<FieldLeaf>> leaves(memory.size());
  std::vector<std::vector<CatLeaf>> cats(memory.size());
  for (std::size_t i = 0; i < memory.size(); ++i) {
    const auto name = "m" + std::to_string(i);
    auto *f = publication.GetField(name.c_str());
    XV_CHECK(f, "shape", "no field of type " << memory[i].d->name);
    checkShape(rd, memory[i].d->name, f, memory[i].d->name);
    memory[i].h->read(memory[i].at->data(), "", model[i]);
    fieldLeaves(f, "", leaves[i]);
    rd.leaves(memory[i].d->name, "", cats[i]);
    XV_EQ(leaves[i].size(), cats[i].size(), "shape", "simple values of a " << memory[i].d->name);
    XV_EQ(model[i].size(), cats[i].size(), "shape", "simple values of an object of type " << memory[i].d->name);
  }
  const auto agree = [&](const std::string &when) {
    for (std::size_t i = 0; i < memory.size(); ++i) {
      Leaves now;
      memory[i].h->read(memory[i].at->data(), "", now);
      for (const auto &l : leaves[i]) {
        const auto n = now.find(l.path);
        XV_CHECK(n != now.end(), "shape", memory[i].d->name << l.path << " is in no object of that type");
        XV_EQ(xv::show(n->second), xv::show(model[i][l.path]), "memory", memory[i].d->name << l.path << " in the object " << when);
        XV_EQ(xv::show(canonAny(l.get())), xv::show(n->second), "memory", memory[i].d->name << l.path << " read through its field " << when);
      }
      XV_CHECK(memory[i].at->intact(), "memory", "memory around a " << memory[i].d->name << " changed " << when);
    }
    XV_COUNT("objects compared");
  };
  agree("after publication");
  for (std::uint64_t n = r.below(40); n > 0 && !memory.empty(); --n) {
    const auto i = r.below(memory.size());
    if (r.chance(1, 6)) { memory[i].h->fill(memory[i].at->data(), r); model[i].clear(); memory[i].h->read(memory[i].at->data(), "", model[i]); agree("after the object changed"); continue; }
    const auto j = r.below(leaves[i].size());
    const auto &leaf = leaves[i][j];
    const auto &cl = cats[i][j];
    XV_EQ(leaf.path, cl.path, "shape", "value " << j << " of a " << memory[i].d->name);
    XV_EQ(static_cast<int>(leaf.get().GetType()), static_cast<int>(cl.s.kind), "kind", memory[i].d->name << leaf.path << " is of kind");
    if (!cl.s.literals.empty() && r.chance(1, 3)) {
      const auto v = static_cast<std::int32_t>(r.range(-3, 6));
      if (std::find(cl.s.literals.begin(), cl.s.literals.end(), v) == cl.s.literals.end()) {
        bool refused = false;
        try { leaf.set(AnySimple(K::PTK_Int32, v)); } catch (const ::Smp::Exception &) { refused = true; }
        XV_CHECK(refused, "literals", memory[i].d->name << leaf.path << " accepted " << v << ", which is no literal");
        XV_COUNT("values that are no literal");
        agree("after a refused value");
        continue;
      }
    }
    const auto v = valueFor(r, cl.s);
    leaf.set(v.any);
    model[i][leaf.path] = stored(cl.s, v);
    XV_COUNT("values stored");
    if (r.chance(1, 2)) agree("after a value was stored");
  }
  agree("at the end");
  // every value of a simple type may be the value of a parameter of that type
  const auto s = rd.simple(operationType->name);
  auto *op = static_cast<::Smp::IOperation *>(nullptr);
  for (auto *o : *publication.GetOperations()) if (std::string("op") == o->GetName()) op = o;
  XV_CHECK(op, "shape", "no operation");
  auto *request = op->CreateRequest();
  for (int n = 0; n < 20; ++n) {
    auto v = valueFor(r, s);
    if (s.kind == K::PTK_Float64 && !std::isfinite(v.h.d)) continue;
    if (s.kind == K::PTK_String8 && canonAny(v.any).size() > s.capacity) continue;
    bool refused = false;
    try { request->SetParameterValue(0, v.any); } catch (const ::Smp::Exception &) { refused = true; }
    if (refused && operationType->what == "float" && v.h.d < DBL_MIN) { // a finding of its own, see known-findings.jsonl
      c.flag("range " + operationType->name + " below the smallest normal number", "a parameter of type " + operationType->name + " refused " + showVal(v));
      continue;
    }
    XV_CHECK(!refused, "range", "a parameter of type " << operationType->name << " refused " << showVal(v));
    XV_EQ(canonAny(request->GetParameterValue(0)), canonAny(v.any), "range", "a parameter of type " << operationType->name);
    XV_COUNT("parameters set");
  }
  op->DeleteRequest(request);
  c.nontrivial = !memory.empty();
}
// ---------------------------------------------------------------- fields of generated structures
template <typename F, typename V> void structureField(xv::Case &c, ::Xsmp::Simulator &sim, const ::Smp::Uuid &uuid, const std::string &type, const char *variant) {
  V value{};
  randomise(value, c.rng);
  F f(sim.GetTypeRegistry(), uuid, "f", "", &sim, ::Smp::ViewKind::VK_Debug, value);
  const Reading rd{catalogue("xsmp_tests")};
  checkShape(rd, type, &f, std::string(variant) + " " + type);
  Leaves model;
  natives(value, "", model);
  std::vector<FieldLeaf> leaves;
  std::vector<CatLeaf> cats;
  fieldLeaves(&f, "", leaves);
  rd.leaves(type, "", cats);
  XV_EQ(leaves.size(), cats.size(), "shape", "simple values of a " << variant << " field of type " << type);
  const auto agree = [&](const char *when) {
    V now{};
    now = f;
    Leaves n;
    natives(now, "", n);
    for (std::size_t i = 0; i < leaves.size(); ++i) {
      XV_EQ(leaves[i].path, cats[i].path, "shape", "value " << i << " of a " << type);
      XV_EQ(xv::show(canonAny(leaves[i].get())), xv::show(model[leaves[i].path]), "memory", type << leaves[i].path << " of a " << variant << " field " << when);
      XV_EQ(xv::show(n[leaves[i].path]), xv::show(model[leaves[i].path]), "memory", type << leaves[i].path << " of the value of a " << variant << " field " << when);
    }
    XV_COUNT("structure fields compared");
  };
  agree("after construction");
  for (std::uint64_t n = c.rng.below(12); n > 0; --n) {
    if (c.rng.chance(1, 4)) { V v{}; randomise(v, c.rng); f = v; model.clear(); natives(v, "", model); agree("after an assignment"); continue; }
    const auto i = c.rng.below(leaves.size());
    const auto v = valueFor(c.rng, cats[i].s);
    leaves[i].set(v.any);
    model[leaves[i].path] = stored(cats[i].s, v);
    agree("after a value was stored");
  }
}
template <typename V> void structureFields(xv::Case &c, ::Xsmp::Simulator &sim, const ::Smp::Uuid &uuid, const std::string &type) {
  using F = ::Xsmp::Field<V>;
  switch (c.rng.below(6)) {
  case 0: c.op("plain " + type); structureField<F, V>(c, sim, uuid, type, "plain"); break;
  case 1: c.op("output " + type); structureField<typename F::output, V>(c, sim, uuid, type, "output"); break;
  case 2: c.op("forcible " + type); structureField<typename F::forcible, V>(c, sim, uuid, type, "forcible"); break;
  case 3: c.op("failure " + type); structureField<typename F::failure, V>(c, sim, uuid, type, "failure"); break;
  case 4: c.op("input " + type); structureField<typename F::input, V>(c, sim, uuid, type, "input"); break;
  default: c.op("transient " + type); structureField<typename F::transient, V>(c, sim, uuid, type, "transient"); break;
  }
}
XV_SCENARIO(C53, structures, 300, 3000) {
  Scratch::get();
  ::Xsmp::Simulator sim;
  load(sim, "xsmp_tests");
  switch (c.rng.below(3)) {
  case 0: structureFields<T::Vector>(c, sim, T::Uuid_Vector, "Vector"); break;
  case 1: structureFields<T::SimpleStructure>(c, sim, T::Uuid_SimpleStructure, "SimpleStructure"); break;
  default: structureFields<T::StructureWithCustomFields>(c, sim, T::Uuid_StructureWithCustomFields, "StructureWithCustomFields"); break;
  }
  c.nontrivial = true;
}
// ---------------------------------------------------------------- components
template <typename C> std::string namesOf(const C *l) {
  std::string s;
  if (l) for (auto *o : *l) s += std::string(o->GetName()) + " ";
  return s;
}
std::string wanted(const Decl &d, const std::string &what, const std::function<bool(const Member &)> &when = [](const Member &) { return true; }) {
  std::string s;
  for (const auto &m : d.members) if (m.what == what && when(m)) s += m.name + " ";
  return s;
}
void checkComponent(const Reading &rd, const Decl &d, ::Smp::IComponent *o) {
  XV_EQ(namesOf(o->GetFields()), wanted(d, "field"), "fields", "fields of a " << d.name);
  auto *dynamic = dynamic_cast<::Smp::IDynamicInvocation *>(o);
  const auto usable = [&](const Member &m) { return rd.simple(m.type).kind != K::PTK_None; }; // others have no dynamic access
  if (dynamic) {
    XV_EQ(namesOf(dynamic->GetOperations()), wanted(d, "def"), "operations", "operations of a " << d.name);
    XV_EQ(namesOf(dynamic->GetProperties()), wanted(d, "property", usable), "properties", "properties of a " << d.name);
  } else XV_EQ(wanted(d, "def") + wanted(d, "property", usable), "", "operations", "operations and properties of a " << d.name << ", which is not dynamic");
  auto *composite = dynamic_cast<::Smp::IComposite *>(o);
  XV_EQ(namesOf(composite ? composite->GetContainers() : nullptr), wanted(d, "container"), "containers", "containers of a " << d.name);
  auto *aggregate = dynamic_cast<::Smp::IAggregate *>(o);
  XV_EQ(namesOf(aggregate ? aggregate->GetReferences() : nullptr), wanted(d, "reference"), "references", "references of a " << d.name);
  auto *consumer = dynamic_cast<::Smp::IEventConsumer *>(o);
  XV_EQ(namesOf(consumer ? consumer->GetEventSinks() : nullptr), wanted(d, "eventsink"), "events", "event sinks of a " << d.name);
  auto *provider = dynamic_cast<::Smp::IEventProvider *>(o);
  XV_EQ(namesOf(provider ? provider->GetEventSources() : nullptr), wanted(d, "eventsource"), "events", "event sources of a " << d.name);
  auto *points = dynamic_cast<::Smp::IEntryPointPublisher *>(o);
  XV_EQ(namesOf(points ? points->GetEntryPoints() : nullptr), wanted(d, "entrypoint"), "entry points", "entry points of a " << d.name);
  auto *fallible = dynamic_cast<::Smp::IFallibleModel *>(o);
  XV_EQ(namesOf(fallible ? fallible->GetFailures() : nullptr), wanted(d, "field", [&](const Member &m) { return m.failure; }), "failures", "failures of a " << d.name);
  for (const auto &m : d.members) {
    const auto who = d.name + "." + m.name;
    if (m.what == "field") {
      auto *f = o->GetField(m.name.c_str());
      XV_CHECK(f && f->GetName() == m.name, "fields", who << " is not found by its name");
      checkShape(rd, m.type, f, who);
      XV_EQ(f->IsState(), !m.transient, "flags", who << " belongs to the state:");
      XV_EQ(f->IsInput(), m.input, "flags", who << " is an input:");
      XV_EQ(f->IsOutput(), m.output, "flags", who << " is an output:");
      XV_EQ(static_cast<int>(f->GetView()), static_cast<int>(::Smp::ViewKind::VK_None), "flags", "view of " << who);
      XV_EQ(std::string(f->GetDescription()), "", "flags", "description of " << who);
      if (m.output) XV_CHECK(dynamic_cast<::Smp::IDataflowField *>(f), "flags", who << " is declared as an output but is no dataflow field");
      if (m.failure) XV_CHECK(dynamic_cast<::Smp::IFailure *>(f), "flags", who << " is declared as a failure but is none");
      else XV_CHECK(!dynamic_cast<::Smp::IFailure *>(f), "flags", who << " is a failure but is not declared as one");
      std::vector<FieldLeaf> leaves;
      fieldLeaves(f, who, leaves);
      for (const auto &l : leaves) if (!dynamic_cast<::Smp::ISimpleArrayField *>(l.field))
        XV_EQ(dynamic_cast<::Smp::IForcibleField *>(l.field) != nullptr, m.forcible, "flags", l.path << " can be forced:");
    } else if (m.what == "property" && usable(m)) {
      ::Smp::IProperty *p = nullptr;
      for (auto *x : *dynamic->GetProperties()) if (x->GetName() == m.name) p = x;
      XV_CHECK(p->GetType()->GetUuid() == rd.uuid(m.type), "properties", who << " is not of type " << m.type);
      const auto access = m.readable && m.writable ? ::Smp::AccessKind::AK_ReadWrite : m.readable ? ::Smp::AccessKind::AK_ReadOnly : ::Smp::AccessKind::AK_WriteOnly;
      XV_EQ(static_cast<int>(p->GetAccess()), static_cast<int>(access), "properties", "access to " << who);
    } else if (m.what == "def") {
      ::Smp::IOperation *p = nullptr;
      for (auto *x : *dynamic->GetOperations()) if (x->GetName() == m.name) p = x;
      auto *ret = p->GetReturnParameter();
      XV_EQ(ret != nullptr, m.type != "void", "operations", who << " returns something:");
      if (ret) XV_CHECK(ret->GetType()->GetUuid() == rd.uuid(m.type), "operations", who << " does not return a " << m.type);
      XV_EQ(p->GetParameters()->size(), m.params.size(), "operations", "parameters of " << who);
    } else if (m.what == "container") {
      auto *p = composite->GetContainer(m.name.c_str());
      XV_EQ(p->GetLower(), m.lower, "containers", "lower bound of " << who);
      XV_EQ(p->GetUpper(), m.upper, "containers", "upper bound of " << who);
    } else if (m.what == "eventsink" || m.what == "eventsource") {
      const auto *e = rd.c.find(m.type);
      XV_CHECK(e, "catalogue", "no event type " << m.type);
      if (m.what == "eventsink") XV_EQ(static_cast<int>(consumer->GetEventSink(m.name.c_str())->GetEventArgType()), static_cast<int>(primitive(e->type)), "events", "argument of " << who);
    }
    XV_COUNT("members compared");
  }
}
XV_SCENARIO(C53, components, 480, 5000) {
  Scratch::get();
  auto &r = c.rng;
  ::Xsmp::Simulator sim;
  std::vector<std::string> libs;
  if (r.chance(1, 2)) {
    load(sim, "xsmp_services");
    libs = libraries();
    load(sim, "xsmp_tests");
  } else {
    for (const auto &l : libraries()) if (l == "xsmp_tests" || r.chance(1, 2)) libs.push_back(l);
    for (std::size_t i = libs.size(); i > 1; --i) std::swap(libs[i - 1], libs[r.below(i)]);
    for (const auto &l : libs) load(sim, l);
  }
  // the factories are those of the catalogues
  std::map<std::string, const Decl *> declared;
  for (const auto &l : libs) for (const auto &d : catalogue(l).decls) if (d.what == "model" || d.what == "service") declared[d.name] = &d;
  std::size_t models = 0;
  for (const auto &d : declared) {
    if (d.second->what == "service") { // a service exists once its library was loaded
      auto *s = sim.GetService(d.first.c_str());
      XV_CHECK(s, "services", "no service " << d.first << " after its library was loaded");
      XV_CHECK(s->GetUuid() == ::Smp::Uuid(d.second->uuid.c_str()), "services", "service " << d.first << " has another uuid than in its catalogue");
      continue;
    }
    models++;
    auto *f = sim.GetFactory(::Smp::Uuid(d.second->uuid.c_str()));
    XV_CHECK(f, "factories", "no factory for " << d.first);
    XV_EQ(std::string(f->GetName()), d.first, "factories", "name of the factory of uuid " << d.second->uuid);
    XV_COUNT("factories compared");
  }
  XV_EQ(sim.GetFactories()->size(), models, "factories", "factories");
  auto *container = sim.GetContainer(::Smp::ISimulator::SMP_SimulatorModels);
  struct Instance { const Decl *d; ::Smp::IComponent *o; };
  std::vector<Instance> all;
  std::vector<const Decl *> kinds;
  for (const auto &d : declared) if (d.second->what == "model") kinds.push_back(d.second);
  const bool same = r.chance(1, 3);
  const auto *chosen = kinds[r.below(kinds.size())];
  for (std::uint64_t n = 1 + r.below(4); n > 0; --n) {
    const auto *d = same ? chosen : kinds[r.below(kinds.size())];
    const auto name = "i" + std::to_string(n);
    auto *o = sim.CreateInstance(::Smp::Uuid(d->uuid.c_str()), name.c_str(), "an instance", &sim);
    XV_CHECK(o, "factories", "no instance of " << d->name);
    XV_EQ(std::string(o->GetName()), name, "factories", "name of an instance of " << d->name);
    XV_EQ(std::string(o->GetDescription()), "an instance", "factories", "description of an instance of " << d->name);
    XV_CHECK(o->GetUuid() == ::Smp::Uuid(d->uuid.c_str()), "factories", "an instance of " << d->name << " has another uuid than in its catalogue");
#define XV_TYPED(t) if (d->name == #t) XV_CHECK(dynamic_cast<::Xsmp::Tests::t *>(o) && o->GetUuid() == ::Xsmp::Tests::Uuid_##t, "factories", "an instance of " #t " is of another class or uuid");
    XV_TYPED(ModelWithSimpleFields) XV_TYPED(ModelWithArrayFields) XV_TYPED(ModelWithSimpleArrayFields) XV_TYPED(ModelWithEvents) XV_TYPED(ModelWithOperations) XV_TYPED(ModelWithProperties)
    container->AddComponent(o);
    all.push_back({d, o});
    c.op(d->name);
    XV_COUNT("instances");
  }
  if (libs.size() == libraries().size()) { sim.Publish(); sim.Configure(); sim.Connect(); }
  else sim.Publish();
  for (const auto &d : declared) if (d.second->what == "service") all.push_back({d.second, sim.GetService(d.first.c_str())});
  for (const auto &i : all) {
    const Catalogue *from = nullptr;
    for (const auto &l : libs) if (const auto *x = catalogue(l).find(i.d->name); x == i.d) from = &catalogue(l);
    checkComponent(Reading{*from}, *i.d, i.o);
  }
  // what is stored in one field is in no other
  const Reading rd{catalogue("xsmp_tests")};
  struct Slot { std::string path; FieldLeaf leaf; Simple s; std::string *value; };
  std::vector<Slot> slots;
  std::deque<std::string> values;
  std::map<std::string, std::string *> shared;                   // static fields
  std::map<std::pair<std::size_t, std::string>, std::string *> own; // fields by instance
  for (std::size_t i = 0; i < all.size(); ++i) {
    if (all[i].d->what == "service") continue;
    for (const auto &m : all[i].d->members) {
      if (m.what != "field") continue;
      const auto path = std::to_string(i) + ":" + all[i].d->name + "." + m.name;
      std::vector<FieldLeaf> leaves;
      std::vector<CatLeaf> cats;
      fieldLeaves(all[i].o->GetField(m.name.c_str()), path, leaves);
      rd.leaves(m.type, path, cats);
      for (std::size_t n = 0; n < leaves.size(); ++n) {
        auto **v = m.isStatic ? &shared[m.name] : &own[{i, m.name}];
        const auto now = canonAny(leaves[n].get());
        if (m.isStatic ? *v == nullptr : true) { values.push_back(now); *v = &values.back(); }
        if (!m.isStatic && !m.failure) { // the values a field starts with
          const auto zero = cats[n].s.kind == K::PTK_String8 ? "" : cats[n].s.kind == K::PTK_Float64 ? "0x0p+0" : "0";
          XV_EQ(now, std::string(zero), "initial", "first value of " << leaves[n].path);
        }
        slots.push_back({leaves[n].path, leaves[n], cats[n].s, *v});
      }
    }
  }
  const auto agree = [&](const std::string &when) {
    for (const auto &s : slots) XV_EQ(xv::show(canonAny(s.leaf.get())), xv::show(*s.value), "memory", s.path << " " << when);
    xv::count("fields read", slots.size());
  };
  agree("at first");
  const auto properties = [&](std::size_t i) { auto *dyn = dynamic_cast<::Smp::IDynamicInvocation *>(all[i].o); return dyn ? dyn->GetProperties() : nullptr; };
  for (std::uint64_t n = 8 + r.below(25); n > 0; --n) {
    const auto i = r.below(all.size());
    if (all[i].d->name == "ModelWithProperties" && r.chance(2, 3)) {
      const auto &m = all[i].d->members[r.below(all[i].d->members.size())];
      if (m.what != "property" || m.link.empty()) continue;
      ::Smp::IProperty *p = nullptr;
      for (auto *x : *properties(i)) if (x->GetName() == m.name) p = x;
      const auto link = std::find_if(all[i].d->members.begin(), all[i].d->members.end(), [&](const Member &x) { return x.what == "field" && x.name == m.link; });
      auto *value = link->isStatic ? shared[m.link] : own[{i, m.link}];
      const auto s = rd.simple(m.type);
      if (m.readable) { XV_EQ(xv::show(canonAny(p->GetValue())), xv::show(*value), "properties", "property " << m.name << " of field " << m.link); XV_COUNT("properties read"); }
      const auto v = valueFor(r, s);
      if (s.kind == K::PTK_Float64 && !std::isfinite(v.h.d)) continue;
      if (s.kind == K::PTK_String8 && canonAny(v.any).size() > s.capacity) continue;
      bool refused = false;
      try { p->SetValue(v.any); } catch (const std::exception &) { refused = true; }
      if (m.writable) { XV_CHECK(!refused, "properties", "property " << m.name << " refused " << showVal(v)); *value = stored(s, v); XV_COUNT("properties written"); }
      else { XV_CHECK(refused, "properties", "read-only property " << m.name << " accepted a value"); XV_COUNT("read-only properties"); }
      agree("after property " + m.name + " was written");
      continue;
    }
    if (all[i].d->name == "ModelWithOperations" && r.chance(2, 3)) {
      const auto &m = all[i].d->members[r.below(all[i].d->members.size())];
      auto *dyn = dynamic_cast<::Smp::IDynamicInvocation *>(all[i].o);
      auto *request = dyn->CreateRequest(m.name.c_str());
      XV_CHECK(request, "operations", "no request for " << m.name);
      dyn->Invoke(request);
      const auto k = primitive(m.type);
      if (k != K::PTK_None) {
        const auto v = request->GetReturnValue();
        XV_EQ(static_cast<int>(v.GetType()), static_cast<int>(k), "operations", "kind of what " << m.name << " returned");
        XV_EQ(canonAny(v), std::string(k == K::PTK_String8 ? "<null>" : k == K::PTK_Float32 || k == K::PTK_Float64 ? "0x0p+0" : "0"), "operations", "what " << m.name << " returned");
      }
      dyn->DeleteRequest(request);
      XV_COUNT("operations invoked");
      continue;
    }
    if (slots.empty()) continue;
    auto &s = slots[r.below(slots.size())];
    const auto v = valueFor(r, s.s);
    s.leaf.set(v.any);
    *s.value = stored(s.s, v);
    XV_COUNT("values stored in components");
    if (r.chance(1, 3)) agree("after " + s.path + " was stored");
  }
  agree("at the end");
  // event sources take the sinks of their own type
  std::vector<const Instance *> withEvents;
  for (const auto &i : all) if (i.d->name == "ModelWithEvents" || i.d->name == "ModelWithSimpleFields") withEvents.push_back(&i);
  std::set<std::pair<::Smp::IEventSource *, ::Smp::IEventSink *>> subscribed;
  for (std::uint64_t n = withEvents.empty() ? 0 : 40; n > 0; --n) {
    const auto &a = *withEvents[r.below(withEvents.size())], &b = *withEvents[r.below(withEvents.size())];
    const auto &ma = a.d->members[r.below(a.d->members.size())], &mb = b.d->members[r.below(b.d->members.size())];
    if (ma.what != "eventsource" || mb.what != "eventsink") continue;
    const auto ka = primitive(rd.c.find(ma.type)->type), kb = primitive(rd.c.find(mb.type)->type);
    auto *source = dynamic_cast<::Smp::IEventProvider *>(a.o)->GetEventSource(ma.name.c_str());
    auto *sink = dynamic_cast<::Smp::IEventConsumer *>(b.o)->GetEventSink(mb.name.c_str());
    if (subscribed.count({source, sink})) continue;
    bool refused = false;
    try { source->Subscribe(sink); } catch (const ::Smp::InvalidEventSink &) { refused = true; }
    XV_EQ(refused, ka != kb, "events", ma.name << " refused " << mb.name << ":");
    if (!refused) {
      subscribed.insert({source, sink});
      XV_COUNT("subscriptions");
#define XV_EMIT(n, v) if (ma.name == #n "_eso") dynamic_cast<::Xsmp::Tests::ModelWithEvents *>(a.o)->n##_eso.Emit(v);
      if (a.d->name == "ModelWithEvents") {
        if (ma.name == "void_eso") dynamic_cast<::Xsmp::Tests::ModelWithEvents *>(a.o)->void_eso.Emit();
        XV_EMIT(bool, true) XV_EMIT(char8, 'c') XV_EMIT(dateTime, 5) XV_EMIT(duration, 6) XV_EMIT(float32, 1.5F) XV_EMIT(float64, 2.5) XV_EMIT(int16, 1) XV_EMIT(int32, 2) XV_EMIT(int64, 3) XV_EMIT(int8, 4) XV_EMIT(string8, "text") XV_EMIT(uint16, 5) XV_EMIT(uint32, 6) XV_EMIT(uint64, 7) XV_EMIT(uint8, 8)
        XV_COUNT("emissions");
      }
    } else XV_COUNT("sinks of another type");
  }
  // containers take what they are declared for
  for (const auto &i : all) for (const auto &m : i.d->members) if (m.what == "container" && m.type == "IModel") {
    auto *p = dynamic_cast<::Smp::IComposite *>(i.o)->GetContainer(m.name.c_str());
    auto *child = new Node("child", "", dynamic_cast<::Smp::IComposite *>(i.o), &sim);
    p->AddComponent(child);
    XV_CHECK(p->GetComponent("child") == child, "containers", i.d->name << "." << m.name << " does not hold a model added to it");
    Svc service("aservice");
    bool refused = false;
    try { p->AddComponent(&service); } catch (const ::Smp::Exception &) { refused = true; }
    XV_CHECK(refused, "containers", i.d->name << "." << m.name << " accepted a service");
    XV_COUNT("containers filled");
  }
  c.nontrivial = true;
}
// ---------------------------------------------------------------- packages for Python
XV_SCENARIO(C53, packages, 8, 16) {
  auto &scratch = Scratch::get();
  const auto &lib = libraries()[c.index % libraries().size()];
  c.op(lib);
  {
    std::ofstream f("listing.py");
    f << "import sys, types, importlib, pkgutil\n"
         "class Uuid(str): pass\n"
         "e = types.ModuleType('ecss_smp'); e.Smp = types.SimpleNamespace(Uuid=Uuid)\n"
         "sys.modules['ecss_smp'] = e\n"
         "root = importlib.import_module(sys.argv[1])\n"
         "def walk(o, path, out):\n"
         "    for n, v in sorted(vars(o).items()):\n"
         "        if n.startswith('__'): continue\n"
         "        if isinstance(v, types.ModuleType) and v.__name__.startswith(sys.argv[1]): walk(v, path + [n], out)\n"
         "        elif isinstance(v, type): out.append('.'.join(path + [n]) + ' ' + str(getattr(v, 'uuid', 'none')))\n"
         "        else: out.append('.'.join(path + [n]) + ' other')\n"
         "    return out\n"
         "print('\\n'.join(walk(root, [], [])))\nprint('end')\n";
  }
  const auto cmd = "env -u LD_PRELOAD -u LD_LIBRARY_PATH PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=" + repo() + "/python timeout 60 python3 listing.py " + lib + " > listing 2>&1";
  const int rc = std::system(cmd.c_str());
  std::ifstream f("listing");
  std::set<std::string> got, want;
  std::string text;
  for (std::string l; std::getline(f, l) && l != "end";) if (!l.empty()) { got.insert(l); text += l + "; "; }
  XV_CHECK(rc == 0, "package", "package " << lib << " cannot be imported: " << text.substr(0, 300));
  for (const auto &d : catalogue(lib).decls) if (d.what == "model" || d.what == "service") { want.insert("Xsmp." + std::string(lib == "xsmp_tests" ? "Tests." : "Services.") + d.name + " " + d.uuid); XV_COUNT("classes compared"); }
  for (const auto &w : want) XV_CHECK(got.count(w), "package", "package " << lib << " has no " << w << " but " << text);
  for (const auto &g : got) XV_CHECK(want.count(g), "package", "package " << lib << " has " << g << ", which is not in its catalogue");
  (void)scratch;
  c.nontrivial = true;
}
} // namespace
