// The Python bindings: an interpreter embedded in the harness works on objects
// the harness built, and every value, call, object and error that comes out is
// compared with what was put in. pybind11 itself is a stand-in (see DESIGN.md).
// pybind11 must be the first header to be included
#include <pybind11/pybind11.h>
// empty
#include <python/ecss_smp.h>
#include "items.h"
#include "sim.h"
#include <Smp/IForcibleField.h>
#include <Xsmp/Exception.h>
#include <Xsmp/Publication/Request.h>
#include <array>
#include <map>
#include <optional>
#if defined(__SANITIZE_ADDRESS__)
#define XV_MALLOC_HOOKS 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define XV_MALLOC_HOOKS 1
#endif
#endif
#if XV_MALLOC_HOOKS
#include <sanitizer/allocator_interface.h>
#endif
#include <thread>
extern "C" PyObject *PyInit_ecss_smp();
namespace {
using ::Xsmp::Publication::Publication;
using Direction = ::Smp::Publication::ParameterDirectionKind;
/// a reference to a Python object
struct Ref {
  PyObject *p = nullptr;
  Ref() = default;
  explicit Ref(PyObject *o) : p(o) {}
  Ref(const Ref &o) : p(o.p) { Py_XINCREF(p); }
  Ref(Ref &&o) noexcept : p(o.p) { o.p = nullptr; }
  Ref &operator=(Ref o) { std::swap(p, o.p); return *this; }
  ~Ref() { Py_XDECREF(p); }
};
std::string utf8(PyObject *o) {
  const char *s = o ? PyUnicode_AsUTF8(o) : nullptr;
  if (!s) { PyErr_Clear(); return "?"; }
  return s;
}
/// type and value of an object
std::string canonPy(PyObject *o) {
  Ref a(PyObject_ASCII(o));
  if (!a.p) { PyErr_Clear(); return std::string(Py_TYPE(o)->tp_name) + ": not printable"; }
  return std::string(Py_TYPE(o)->tp_name) + " " + utf8(a.p);
}
/// name of the pending error, which is cleared
std::string takeError() {
  PyObject *t = nullptr, *v = nullptr, *b = nullptr;
  PyErr_Fetch(&t, &v, &b);
  if (!t) return "";
  Ref type(t), value(v), trace(b);
  Ref m(PyObject_GetAttrString(t, "__module__")), q(PyObject_GetAttrString(t, "__qualname__"));
  auto module = utf8(m.p);
  return (module == "builtins" ? "" : module + ".") + utf8(q.p);
}
struct Out {
  Ref value;
  std::string error;
  std::string text() const { return error.empty() ? canonPy(value.p) : "error " + error; }
};
/// one session of the interpreter: its variables
struct Py {
  PyObject *vars;
  Py() {
    static const bool started = [] {
      PyImport_AppendInittab("ecss_smp", PyInit_ecss_smp);
      Py_InitializeEx(0);
      return true;
    }();
    (void)started;
    vars = PyDict_New();
    PyDict_SetItemString(vars, "__builtins__", PyEval_GetBuiltins());
    exec("import ecss_smp, gc");
  }
  Py(const Py &) = delete;
  ~Py() { PyDict_Clear(vars); PyGC_Collect(); Py_DECREF(vars); }
  Out run(const std::string &code, int how) {
    Out o;
    o.value = Ref(PyRun_String(code.c_str(), how, vars, vars));
    if (!o.value.p) o.error = takeError();
    XV_COUNT("Python statements run");
    return o;
  }
  Out eval(const std::string &code) { return run(code, Py_eval_input); }
  std::string exec(const std::string &code) { return run(code, Py_file_input).error; }
  void set(const char *name, PyObject *o) { PyDict_SetItemString(vars, name, o); }
  /// an object of the simulation; Python does not own it
  void set(const char *name, ::Smp::IObject *o) { set(name, py::cast(o, py::return_value_policy::reference).ptr()); }
  void forget(const char *name) { if (PyDict_DelItemString(vars, name) != 0) PyErr_Clear(); }
};
/// the object of the simulation a Python object stands for
::Smp::IObject *behind(const Out &o) {
  if (!o.error.empty() || o.value.p == Py_None) return nullptr;
  try { return py::handle(o.value.p).cast<::Smp::IObject *>(); } catch (const py::cast_error &) { return nullptr; }
}
/// the Python object a value has to be seen as; the error for a text that is none
Out pyOf(const AnySimple &a) {
  Out o;
  switch (a.GetType()) {
  case K::PTK_Bool: o.value = Ref(PyBool_FromLong(static_cast<bool>(a))); break;
  case K::PTK_Char8: { const char ch = static_cast<char>(a); o.value = Ref(PyUnicode_DecodeLatin1(&ch, 1, nullptr)); break; }
  case K::PTK_Float32: o.value = Ref(PyFloat_FromDouble(static_cast<double>(static_cast<float>(a)))); break;
  case K::PTK_Float64: o.value = Ref(PyFloat_FromDouble(static_cast<double>(a))); break;
  case K::PTK_String8: {
    const auto *s = static_cast<Smp::String8>(a);
    if (!s) { o.value = Ref(Py_None); Py_INCREF(Py_None); }
    else o.value = Ref(PyUnicode_DecodeUTF8(s, static_cast<Py_ssize_t>(std::strlen(s)), nullptr));
    break;
  }
  case K::PTK_None: o.value = Ref(Py_None); Py_INCREF(Py_None); break;
  default: o.value = Ref(PyLong_FromString(canonAny(a).c_str(), nullptr, 10));
  }
  if (!o.value.p) o.error = takeError();
  return o;
}
/// a value as Python has it
struct PV {
  enum { None, Bool, Int, Float, Str } what = None;
  I128 i = 0;
  double d = 0;
  std::u32string s;
  std::string code() const {
    switch (what) {
    case None: return "None";
    case Bool: return i ? "True" : "False";
    case Int: return "(" + show128(i) + ")";
    case Float: {
      if (std::isnan(d)) return "float('nan')";
      if (std::isinf(d)) return d < 0 ? "float('-inf')" : "float('inf')";
      char b[64];
      std::snprintf(b, sizeof b, "float.fromhex('%a')", d);
      return b;
    }
    default: {
      std::string r = "'";
      for (auto ch : s) { char b[16]; std::snprintf(b, sizeof b, "\\U%08x", static_cast<unsigned>(ch)); r += b; }
      return r + "'";
    }
    }
  }
  std::string text() const {
    std::string r;
    for (auto ch : s) {
      const auto u = static_cast<std::uint32_t>(ch);
      if (u < 0x80) r += static_cast<char>(u);
      else if (u < 0x800) { r += static_cast<char>(0xC0 | (u >> 6)); r += static_cast<char>(0x80 | (u & 0x3F)); }
      else if (u < 0x10000) { r += static_cast<char>(0xE0 | (u >> 12)); r += static_cast<char>(0x80 | ((u >> 6) & 0x3F)); r += static_cast<char>(0x80 | (u & 0x3F)); }
      else { r += static_cast<char>(0xF0 | (u >> 18)); r += static_cast<char>(0x80 | ((u >> 12) & 0x3F)); r += static_cast<char>(0x80 | ((u >> 6) & 0x3F)); r += static_cast<char>(0x80 | (u & 0x3F)); }
    }
    return r;
  }
  /// what it is as a value of a kind; nothing when it cannot be one
  std::optional<Val> as(K kind) const {
    switch (kind) {
    case K::PTK_Bool:
      if (what == Str) return {};
      return valOf<bool>(kind, what == Float ? d != 0 : what == None ? false : i != 0);
    case K::PTK_Char8:
      if (what != Str || s.size() != 1 || s[0] > 0xFF) return {};
      return valOf<char>(kind, static_cast<char>(static_cast<unsigned char>(s[0])));
    case K::PTK_String8:
      if (what != Str) return {};
      return textVal(text());
    case K::PTK_Float32: case K::PTK_Float64: {
      if (what != Int && what != Bool && what != Float) return {};
      const double v = what == Float ? d : static_cast<double>(i);
      if (kind == K::PTK_Float32) return valOf<float>(kind, static_cast<float>(v));
      return valOf<double>(kind, v);
    }
    case K::PTK_None: return Val{};
    default: {
      if (what != Int && what != Bool) return {};
      const auto [lo, hi] = intRange(kind);
      if (i < lo || i > hi) return {};
      if (kind == K::PTK_UInt64) return valOf<std::uint64_t>(kind, static_cast<std::uint64_t>(i));
      return valOf<std::int64_t>(kind, static_cast<std::int64_t>(i));
    }
    }
  }
};
PV ofInt(I128 i) { PV v; v.what = PV::Int; v.i = i; return v; }
PV ofStr(xv::Rng &r) {
  PV v;
  v.what = PV::Str;
  for (auto n = r.chance(1, 3) ? 1 : r.below(8); n > 0; --n)
    switch (r.below(5)) {
    case 0: v.s += static_cast<char32_t>(r.range(0x80, 0xFF)); break;
    case 1: v.s += r.chance(1, 2) ? static_cast<char32_t>(r.range(0x100, 0xD7FF)) : static_cast<char32_t>(r.range(0x10000, 0x10FFFF)); break;
    default: v.s += static_cast<char32_t>(r.range(1, 127));
    }
  return v;
}
/// mostly something the kind takes
PV randomPV(xv::Rng &r, K kind, const std::set<std::int32_t> *literals = nullptr) {
  PV v;
  if (r.chance(1, 5)) kind = r.pick(valueKinds());
  if (r.chance(1, 25)) return v;
  if (literals && !literals->empty() && r.chance(2, 3)) {
    const std::vector<std::int32_t> l(literals->begin(), literals->end());
    return ofInt(static_cast<I128>(r.pick(l)) + (r.chance(1, 4) ? r.pick<std::int64_t>({1, -1, 256, 65536, 1LL << 32}) : 0));
  }
  switch (kind) {
  case K::PTK_Bool: v.what = PV::Bool; v.i = r.chance(1, 2); return v;
  case K::PTK_Char8: {
    v = ofStr(r);
    if (!v.s.empty() && r.chance(3, 4)) v.s.resize(1);
    return v;
  }
  case K::PTK_String8: return ofStr(r);
  case K::PTK_Float32: v.what = PV::Float; v.d = static_cast<double>(singleValue(r)); return v;
  case K::PTK_Float64: {
    v.what = PV::Float;
    v.d = r.chance(1, 2) ? static_cast<double>(singleValue(r)) : static_cast<double>(r.range(-1000, 1000)) / 7;
    return v;
  }
  default: {
    const auto [lo, hi] = intRange(kind);
    switch (r.below(5)) {
    case 0: return ofInt((r.chance(1, 2) ? lo : hi) + static_cast<I128>(r.range(-2, 2)));
    case 1: return ofInt(static_cast<I128>(static_cast<std::int64_t>(r.next())));
    case 2: return ofInt(lo + static_cast<I128>(r.next()) % (hi - lo + 1));
    default: return ofInt(static_cast<I128>(r.range(-3, 130)));
    }
  }
  }
}
struct Target : Node {
  using Node::Node;
  std::function<void(::Smp::IRequest *)> onInvoke;
  void Invoke(::Smp::IRequest *r) override { if (onInvoke) onInvoke(r); else Node::Invoke(r); }
};
/// a place holding one value that Python reads and writes
struct Place {
  Item item;
  char *memory = nullptr;                // of a field or an array item
  AnySimple value;                       // of a property
  std::string field;                     // expression of the object; empty for an item of a simple array
  std::vector<std::string> get, set;     // expressions and statements, $ is the value
  bool property = false;
  ::Smp::AccessKind access = ::Smp::AccessKind::AK_ReadWrite; // of a property
  bool readable() const { return access != ::Smp::AccessKind::AK_WriteOnly; }
  bool writable() const { return access != ::Smp::AccessKind::AK_ReadOnly; }
  AnySimple now() const {
    if (property) return value;
    if (item.kind == K::PTK_String8) return AnySimple(K::PTK_String8, item.read(memory).c_str());
    return withNative(item.kind, [&](auto v) { std::memcpy(&v, memory, sizeof v); return AnySimple(item.kind, v); });
  }
};
std::string fill(std::string s, const std::string &v) { s.replace(s.find('$'), 1, v); return s; }
const std::vector<std::string> &operators() {
  static const std::vector<std::string> o{"+", "-", "*", "/", "&", "|", "^", "<", "<=", ">", ">=", "==", "!=", "<<", ">>"};
  return o;
}
Item plain(K k) {
  Item i;
  i.kind = k;
  i.uuid = uuidOf(k);
  return i;
}
} // namespace

// values of fields, array items, members of structures and properties
XV_SCENARIO_NOLEAK(C50, values, 700, 30000) {
  auto &r = c.rng;
  TypeRegistry types;
  Target target("t");
  Publication pub(&target, &types);
  std::vector<std::unique_ptr<char[]>> memory;
  std::vector<std::size_t> sizes;
  auto take = [&](std::size_t n) { memory.emplace_back(new char[n]()); sizes.push_back(n); return memory.back().get(); };
  std::deque<Place> places;
  std::string made;
  auto whole = [&](Place &p, const std::string &owner, const std::string &name) { // a field or property seen by its name
    p.field = owner + "." + name;
    p.get = {p.field + ".GetValue()", "(+" + p.field + ")", owner + "['" + name + "'].GetValue()"};
    p.set = {p.field + ".SetValue($)", p.field + " = $", owner + "['" + name + "'] = $"};
  };
  struct Arr { std::string e; std::size_t n; bool simple; };
  std::vector<Arr> arrays;
  const auto n = r.range(1, 5);
  for (int i = 0; i < n; ++i) {
    const std::string name = "f" + std::to_string(i);
    switch (r.below(7)) {
    case 0: case 1: { // a field
      const Item it = randomItem(c, types);
      auto *p = take(it.size);
      it.randomize(r, p);
      pub.PublishField(name.c_str(), "", p, it.uuid, ::Smp::ViewKind::VK_All, true, r.chance(1, 2), r.chance(1, 2));
      places.push_back({});
      places.back().item = it;
      places.back().memory = p;
      whole(places.back(), "t", name);
      made += name + " " + typeOf(it) + ", ";
      break;
    }
    case 2: case 3: { // an array
      const bool simple = r.chance(1, 2);
      Item it = randomItem(c, types);
      const auto count = r.pick<std::size_t>({1, 2, 3, 7});
      const auto u = freshUuid(c);
      types.AddArrayType("Arr", "", u, it.uuid, static_cast<::Smp::Int64>(it.size), static_cast<::Smp::Int64>(count), simple);
      auto *p = take(it.size * count);
      for (std::size_t k = 0; k < count; ++k) it.randomize(r, p + k * it.size);
      pub.PublishField(name.c_str(), "", p, u, ::Smp::ViewKind::VK_All, true, false, false);
      arrays.push_back({"t." + name, count, simple});
      for (std::size_t k = 0; k < count; ++k) {
        places.push_back({});
        auto &q = places.back();
        q.item = it;
        q.memory = p + k * it.size;
        const std::string at = "t." + name + "[" + std::to_string(k) + "]", back = "t." + name + "[" + std::to_string(static_cast<long>(k) - static_cast<long>(count)) + "]";
        if (simple) { q.get = {at, back}; q.set = {at + " = $"}; }
        else {
          q.field = at;
          q.get = {at + ".GetValue()", back + ".GetValue()", "t." + name + ".GetItem(" + std::to_string(k) + ").GetValue()"};
          q.set = {at + ".SetValue($)", back + ".SetValue($)"};
        }
      }
      made += name + (simple ? " simple" : "") + " array of " + std::to_string(count) + " " + typeOf(it) + ", ";
      break;
    }
    case 4: { // a structure
      const auto u = freshUuid(c);
      auto *s = types.AddStructureType("Str", "", u);
      const auto members = r.range(1, 3);
      std::vector<Item> items;
      std::vector<std::size_t> offsets;
      std::size_t size = 0;
      for (int k = 0; k < members; ++k) {
        items.push_back(randomItem(c, types));
        size = (size + 7) / 8 * 8;
        offsets.push_back(size);
        size += items.back().size;
        s->AddField(("m" + std::to_string(k)).c_str(), "", items.back().uuid, static_cast<::Smp::Int64>(offsets.back()));
      }
      auto *p = take(size);
      pub.PublishField(name.c_str(), "", p, u, ::Smp::ViewKind::VK_All, true, false, false);
      made += name + " structure (";
      for (int k = 0; k < members; ++k) {
        const auto at = static_cast<std::size_t>(k);
        items[at].randomize(r, p + offsets[at]);
        places.push_back({});
        places.back().item = items[at];
        places.back().memory = p + offsets[at];
        whole(places.back(), r.chance(1, 2) ? "t." + name : "t['" + name + "']", "m" + std::to_string(k));
        made += typeOf(items[at]) + " ";
      }
      made += "), ";
      break;
    }
    default: { // a property
      const K k = r.pick(valueKinds());
      const auto access = r.pick({::Smp::AccessKind::AK_ReadWrite, ::Smp::AccessKind::AK_ReadWrite, ::Smp::AccessKind::AK_ReadOnly, ::Smp::AccessKind::AK_WriteOnly});
      pub.PublishProperty(name.c_str(), "", uuidOf(k), access);
      places.push_back({});
      auto &p = places.back();
      p.access = access;
      p.property = true;
      p.item = plain(k);
      p.value = k == K::PTK_String8 ? textVal("start").any : randomVal(r, k).any;
      whole(p, "t", name);
      made += name + " property " + kindName(k) + ", ";
    }
    }
  }
  c.op("publish " + made);
  target.Publish(&pub);
  target.onInvoke = [&](::Smp::IRequest *q) {
    const std::string name = q->GetOperationName();
    for (auto &p : places)
      if (p.property) {
        if (name == "get_" + p.field.substr(2)) { q->SetReturnValue(p.value); return; }
        if (name == "set_" + p.field.substr(2)) { p.value = q->GetParameterValue(0); return; }
      }
  };
  Py python;
  python.set("t", static_cast<::Smp::IObject *>(&target));
  auto snapshot = [&] {
    std::string s;
    for (std::size_t i = 0; i < memory.size(); ++i) s.append(memory[i].get(), sizes[i]);
    for (auto &p : places) if (p.property) s += canonAny(p.value) + ",";
    return s;
  };
  auto compare = [&](Place &p) {
    const auto &g = r.pick(p.get);
    const auto got = python.eval(g), want = pyOf(p.now());
    if (!p.readable()) {
      XV_CHECK(!got.error.empty(), "read", "the value of " << g << ", which can only be written, is " << got.text());
      XV_COUNT("properties read or written that cannot be");
      return;
    }
    XV_EQ(got.text(), want.text(), "read", "value of " + g + " of kind " + kindName(p.item.kind));
    XV_COUNT("values read");
    if (!want.error.empty()) XV_COUNT("texts that are none");
  };
  for (auto &p : places) compare(p);
  const auto steps = r.range(5, 25);
  for (int s = 0; s < steps; ++s) {
    auto &p = r.pick(places);
    switch (r.below(6)) {
    case 0: case 1: { // a value of Python
      const PV v = randomPV(r, p.item.kind, p.item.enumeration ? &p.item.literals : nullptr);
      const auto statement = fill(r.pick(p.set), v.code());
      c.op(statement);
      const auto before = snapshot();
      const auto value = v.as(p.item.kind);
      std::string model;
      bool ok = value.has_value() && p.writable();
      if (value && !ok) XV_COUNT("properties read or written that cannot be");
      const auto oldNow = canonAny(p.now());
      const auto error = python.exec(statement);
      if (p.property) { if (ok) model = canonAny(value->any); }
      else if (ok) {
        // what the memory has to hold, computed on a copy
        std::vector<char> copy(p.memory, p.memory + p.item.size);
        const auto b = before; // the memory before, at the same place
        std::size_t off = 0;
        for (std::size_t i = 0; i < memory.size(); ++i) { if (p.memory >= memory[i].get() && p.memory < memory[i].get() + sizes[i]) { off += static_cast<std::size_t>(p.memory - memory[i].get()); break; } off += sizes[i]; }
        std::memcpy(copy.data(), b.data() + off, p.item.size);
        ok = p.item.write(copy.data(), *value);
        if (ok) model = p.item.read(copy.data());
      }
      XV_CHECK(error.empty() == ok, "accept", statement << " on a " << typeOf(p.item) << (error.empty() ? " was accepted" : " raised " + error));
      if (ok) {
        XV_EQ(p.property ? canonAny(p.value) : p.item.read(p.memory), model, "stored", "stored by " + statement + ", before " + oldNow);
        if (p.property) XV_CHECK(p.value.GetType() == p.item.kind, "stored", statement << " stored the kind " << kindName(p.value.GetType()));
        // nothing else changed
        auto after = snapshot();
        if (!p.property && p.item.kind != K::PTK_String8) { std::size_t off = 0; for (std::size_t i = 0; i < memory.size(); ++i) { if (p.memory >= memory[i].get() && p.memory < memory[i].get() + sizes[i]) { off += static_cast<std::size_t>(p.memory - memory[i].get()); break; } off += sizes[i]; } for (std::size_t k = 0; k < p.item.size; ++k) after[off + k] = before[off + k]; XV_CHECK(after == before, "stored", statement << " changed something else"); }
        XV_COUNT("values written");
      } else {
        XV_CHECK(snapshot() == before, "refused", statement << " was refused and changed something");
        XV_COUNT("refused values");
      }
      compare(p);
      c.nontrivial = true;
      break;
    }
    case 2: { // the value of another field
      std::vector<std::size_t> alike; // of the same kind, itself included
      for (std::size_t k = 0; k < places.size(); ++k) if (places[k].item.kind == p.item.kind) alike.push_back(k);
      auto &q = r.chance(1, 2) ? r.pick(places) : places[r.pick(alike)];
      if (q.field.empty() || q.property) break;
      const auto statement = fill(r.pick(p.set), q.field);
      c.op(statement);
      Val v;
      v.kind = p.item.kind;
      const auto source = q.now();
      bool ok = true;
      const bool same = &p == &q;
      if (q.item.kind == K::PTK_String8) {
        ok = p.item.kind == K::PTK_String8;
        if (ok) v = textVal(q.item.read(q.memory));
      } else withNative(q.item.kind, [&](auto x) { std::memcpy(&x, q.memory, sizeof x); ok = storable(p.item.kind, x, v.h); if (ok) v.any = AnySimple(p.item.kind, x); return 0; });
      const auto before = snapshot();
      std::string model;
      if (ok && !p.property) {
        std::vector<char> copy(p.memory, p.memory + p.item.size);
        ok = p.item.write(copy.data(), v);
        if (ok) model = p.item.read(copy.data());
      } else if (ok) model = canonAny(v.any);
      if (!p.writable()) ok = false;
      if (same && !p.property) { ok = true; model = p.item.read(p.memory); } // kept or stored again
      if (same && p.item.enumeration) break; // storing a value that is no literal again
      const auto error = python.exec(statement);
      XV_CHECK(error.empty() == ok, "accept field", statement << " on a " << typeOf(p.item) << " from a " << typeOf(q.item) << " holding " << xv::show(canonAny(source), 30) << (error.empty() ? " was accepted" : " raised " + error));
      if (ok) { XV_EQ(p.property ? canonAny(p.value) : p.item.read(p.memory), model, "stored", "stored by " + statement); XV_COUNT("fields assigned from fields"); }
      else { XV_CHECK(snapshot() == before, "refused", statement << " was refused and changed something"); XV_COUNT("refused values"); }
      compare(p);
      break;
    }
    case 3: { // an operator on the object as on its value
      if (p.field.empty() || !p.readable()) break;
      const auto want = pyOf(p.now());
      if (!want.error.empty()) break;
      python.set("v", want.value.p);
      std::string other, otherValue;
      auto &q = r.pick(places);
      const bool use = !q.field.empty() && q.readable() && r.chance(1, 2) && pyOf(q.now()).error.empty();
      if (use) { python.set("w", pyOf(q.now()).value.p); other = q.field; otherValue = "w"; }
      else other = otherValue = randomPV(r, p.item.kind).code();
      auto op = r.pick(operators());
      bool shift = op == "<<" || op == ">>";
      if (shift || op == "*") { // results of moderate size
        const PV small = ofInt(static_cast<I128>(r.range(-1, 70)));
        other = otherValue = small.code();
      }
      auto moderate = [&] { // as an amount to shift by
        const auto n = PyLong_Check(want.value.p) ? PyLong_AsLong(want.value.p) : 0;
        PyErr_Clear();
        return n >= -2 && n <= 300;
      };
      const bool reverse = r.chance(1, 2) && (!shift || moderate());
      if (op == "*" && p.item.kind == K::PTK_String8 && canonAny(p.now()).size() > 1000) break;
      const auto text = reverse ? other + " " + op + " " + p.field : p.field + " " + op + " " + other;
      c.op(text);
      const auto got = python.eval(text), expected = python.eval(reverse ? otherValue + " " + op + " v" : "v " + op + " " + otherValue);
      XV_EQ(got.text(), expected.text(), "operator", text + " where the values are " + want.text() + " and " + python.eval(otherValue).text());
      XV_COUNT("operators");
      if (!got.error.empty()) XV_COUNT("operators refused");
      break;
    }
    case 4: { // the unary operators and the truth
      if (p.field.empty() || !p.readable()) break;
      const auto want = pyOf(p.now());
      if (!want.error.empty()) break;
      python.set("v", want.value.p);
      const std::string op = r.pick<std::string>({"-$", "~$", "bool($)", "not $", "1 if $ else 2"});
      c.op(fill(op, p.field));
      XV_EQ(python.eval(fill(op, p.field)).text(), python.eval(fill(op, "v")).text(), "operator", fill(op, p.field) + " where the value is " + want.text());
      XV_COUNT("operators");
      break;
    }
    default: { // what is not there
      if (r.chance(1, 3)) {
        const auto before = snapshot();
        const auto &[statement, error] = r.pick<std::pair<std::string, std::string>>({{"t['nothing'] = 1", "KeyError"}, {"t.nothing = 1", "AttributeError"}, {"t['nothing']", "KeyError"}, {"t.nothing", "AttributeError"}, {"t.f0.nothing", "AttributeError"}, {"t.f0['nothing']", "KeyError"}});
        if (statement == "t.f0['nothing']" && places[0].field != "t.f0") break; // an array takes numbers
        XV_EQ(python.exec(statement), error, "nothing", "error of " + statement);
        XV_CHECK(snapshot() == before, "refused", statement << " changed something");
        XV_COUNT("names of nothing");
        break;
      }
      if (arrays.empty()) break;
      const auto &a = r.pick(arrays);
      XV_EQ(python.eval("len(" + a.e + ")").text(), "int " + std::to_string(a.n), "array", "length of " + a.e);
      if (a.simple) {
        const auto all = python.eval("[x for x in " + a.e + "]"), one = python.eval("[" + a.e + "[i] for i in range(" + std::to_string(a.n) + ")]");
        XV_EQ(all.text(), one.text(), "array", "iterating over " + a.e + " and taking its items one by one");
      } else XV_EQ(python.eval("[x is y for x, y in zip([x for x in " + a.e + "], [" + a.e + "[i] for i in range(" + std::to_string(a.n) + ")])].count(True)").text(), "int " + std::to_string(a.n), "array", "items seen iterating over " + a.e);
      const long size = static_cast<long>(a.n);
      const long i = r.pick<long>({size, size + 1, -size - 1, -size - 2, 1L << 40, INT64_MAX, INT64_MIN});
      XV_EQ(python.eval(a.e + "[" + std::to_string(i) + "]").error, "IndexError", "array", a.e + " of " + std::to_string(size) + " items, index " + std::to_string(i));
      if (a.simple) {
        const auto before = snapshot();
        XV_CHECK(!python.exec(a.e + "[" + std::to_string(i) + "] = 1").empty(), "array", "assigning to item " << i << " of " << size << " was accepted");
        XV_CHECK(snapshot() == before, "array", "assigning to item " << i << " of " << size << " changed something");
      }
      XV_COUNT("indices out of range");
      break;
    }
    }
  }
}

namespace {
/// the requests made by this thread and not deleted yet, seen as the blocks of their size
struct Requests {
  static inline thread_local bool watching = false;
  static inline thread_local std::array<const volatile void *, 64> blocks{};
  static inline thread_local long made = 0;
  static void allocated(const volatile void *p, std::size_t n) {
    if (!watching || n != sizeof(::Xsmp::Publication::Request)) return;
    ++made;
    for (auto &b : blocks) if (!b) { b = p; return; }
  }
  static void freed(const volatile void *p) {
    if (!watching || !p) return;
    for (auto &b : blocks) if (b == p) b = nullptr;
  }
  Requests() {
#if XV_MALLOC_HOOKS
    static const int installed = __sanitizer_install_malloc_and_free_hooks(allocated, freed);
    (void)installed;
#endif
    blocks.fill(nullptr);
    made = 0;
    watching = true;
  }
  ~Requests() { watching = false; }
  long left() const { long n = 0; for (auto *b : blocks) n += b != nullptr; return n; }
};
/// every error of the standard that can be raised without more than an object
struct Raise { const char *name; std::function<void(Node &)> f; };
const std::vector<Raise> &raises() {
  namespace E = ::Xsmp::Exception;
  static ::Xsmp::Publication::TypeRegistry types;
  static const std::vector<Raise> v{
      {"Smp.InvalidObjectName", [](Node &n) { E::throwInvalidObjectName(&n, "a b", "text"); }},
      {"Smp.ContainerFull", [](Node &n) { E::throwContainerFull(&n.children); }},
      {"Smp.DuplicateName", [](Node &n) { E::throwDuplicateName(&n, "x", &n); }},
      {"Smp.NotContained", [](Node &n) { E::throwNotContained(&n.children, &n); }},
      {"Smp.CannotDelete", [](Node &n) { E::throwCannotDelete(&n.children, &n); }},
      {"Smp.InvalidComponentState", [](Node &n) { E::throwInvalidComponentState(&n, ::Smp::ComponentStateKind::CSK_Created, ::Smp::ComponentStateKind::CSK_Connected); }},
      {"Smp.InvalidObjectType", [](Node &n) { E::throwInvalidObjectType<Leaf>(&n, &n); }},
      {"Smp.NotReferenced", [](Node &n) { ::Xsmp::Reference<::Smp::IComponent> r("r", "", static_cast<::Smp::IObject *>(&n), 0, -1); E::throwNotReferenced(&r, &n); }},
      {"Smp.ReferenceFull", [](Node &n) { ::Xsmp::Reference<::Smp::IComponent> r("r", "", static_cast<::Smp::IObject *>(&n), 0, -1); E::throwReferenceFull(&r, 3); }},
      {"Smp.CannotRemove", [](Node &n) { ::Xsmp::Reference<::Smp::IComponent> r("r", "", static_cast<::Smp::IObject *>(&n), 0, -1); E::throwCannotRemove(&r, &n, 3); }},
      {"Smp.InvalidOperationName", [](Node &n) { E::throwInvalidOperationName(&n, "op"); }},
      {"Smp.InvalidParameterType", [](Node &n) { E::throwInvalidParameterType(&n, "op", "p", K::PTK_Bool, K::PTK_Int8); }},
      {"Smp.InvalidArrayIndex", [](Node &n) { E::throwInvalidArrayIndex(static_cast<::Smp::IObject *>(&n), 3, 5); }},
      {"Smp.Services.InvalidEventName", [](Node &n) { E::throwInvalidEventName(&n, ""); }},
      {"Smp.Services.InvalidEventId", [](Node &n) { E::throwInvalidEventId(&n, 77); }},
      {"Smp.Services.InvalidCycleTime", [](Node &n) { E::throwInvalidCycleTime(&n, -1); }},
      {"Smp.Services.InvalidEventTime", [](Node &n) { E::throwInvalidEventTime(&n, 1, 2); }},
      {"Smp.InvalidFieldName", [](Node &n) { E::throwInvalidFieldName(&n, "x"); }},
      {"Smp.Publication.TypeNotRegistered", [](Node &n) { E::throwTypeNotRegistered(&n, nodeUuid); }},
      {"Smp.InvalidParameterIndex", [](Node &n) { E::throwInvalidParameterIndex(&n, 3, 2); }},
      {"Smp.VoidOperation", [](Node &n) { E::throwVoidOperation(&n); }},
      {"Smp.InvalidAnyType", [](Node &n) { E::throwInvalidAnyType(&n, K::PTK_Bool, K::PTK_Int8); }},
      {"Smp.InvalidReturnValue", [](Node &n) { E::throwInvalidReturnValue(&n, AnySimple(K::PTK_Bool, true)); }},
      {"Smp.InvalidParameterValue", [](Node &n) { E::throwInvalidParameterValue(&n, "p", AnySimple(K::PTK_Bool, true)); }},
      {"Smp.InvalidFieldType", [](Node &n) { E::throwInvalidFieldType(&n, K::PTK_Bool); }},
      {"Smp.LibraryNotFound", [](Node &n) { E::throwLibraryNotFound(&n, "lib", "text"); }},
      {"Smp.InvalidLibrary", [](Node &n) { E::throwInvalidLibrary(&n, "lib", "text"); }},
      {"Smp.Services.InvalidSimulationTime", [](Node &n) { E::throwInvalidSimulationTime(&n, 1, 2, 3); }},
      {"Smp.Publication.InvalidPrimitiveType", [](Node &n) { E::throwInvalidPrimitiveType(&n, "t", K::PTK_Bool); }},
      {"Smp.InvalidSimulatorState", [](Node &n) { E::throwInvalidSimulatorState(&n, ::Smp::SimulatorStateKind::SSK_Standby); }},
      {"Smp.Publication.DuplicateLiteral", [](Node &n) { E::throwDuplicateLiteral(&n, "l", 3); }},
      {"Smp.CannotStore", [](Node &n) { E::throwCannotStore(&n, "text"); }},
      {"Smp.CannotRestore", [](Node &n) { E::throwCannotRestore(&n, "text"); }},
      {"Smp.Services.EntryPointAlreadySubscribed", [](Node &n) { ::Xsmp::EntryPoint e("e", "", static_cast<::Smp::IObject *>(&n), [] {}); E::throwEntryPointAlreadySubscribed(&n, &e, "ev"); }},
      {"Smp.Services.EntryPointNotSubscribed", [](Node &n) { ::Xsmp::EntryPoint e("e", "", static_cast<::Smp::IObject *>(&n), [] {}); E::throwEntryPointNotSubscribed(&n, &e, "ev"); }},
      {"Smp.Publication.TypeAlreadyRegistered", [](Node &n) { E::throwTypeAlreadyRegistered(&n, "new", types.GetType(K::PTK_Int8)); }},
  };
  return v;
}
/// a Python expression of its own for a list of names and values, sorted by name
std::string sorted(const std::vector<std::pair<std::string, std::string>> &v) {
  std::string s = "sorted([";
  for (auto &[n, e] : v) s += "('" + n + "', " + e + "), ";
  return s + "])";
}
} // namespace

// calls of operations, entry points and event sinks; errors
XV_SCENARIO_NOLEAK(C50, calls, 600, 25000) {
  auto &r = c.rng;
  TypeRegistry types;
  Target target("t"), second("u");
  Publication pub(&target, &types);
  struct Par { std::string name; K kind; Direction direction; };
  struct Op { std::string name; std::vector<Par> pars; std::optional<Par> ret; };
  std::vector<Op> ops;
  static const std::set<std::string> keywords{"in", "from", "class", "return", "lambda", "None", "pass", "async"};
  for (int i = 0, n = r.range(1, 3); i < n; ++i) {
    Op o;
    o.name = "op" + std::to_string(i);
    auto *p = pub.PublishOperation(o.name.c_str(), "");
    std::vector<std::string> names{"a", "b", "c", "value", "in", "from", "class", "lambda", "None", "pass", "async", "x1"};
    std::string made = o.name + "(";
    auto take = [&] { const auto k = r.below(names.size()); auto s = names[k]; names.erase(names.begin() + static_cast<long>(k)); return s; };
    for (int k = 0, m = r.range(0, 4); k < m; ++k) {
      Par a{take(), r.pick(valueKinds()), r.pick({Direction::PDK_In, Direction::PDK_In, Direction::PDK_Out, Direction::PDK_InOut})};
      p->PublishParameter(a.name.c_str(), "", uuidOf(a.kind), a.direction);
      made += a.name + " " + kindName(a.kind) + ", ";
      o.pars.push_back(a);
    }
    if (r.chance(1, 2)) {
      o.ret = Par{r.chance(1, 2) ? "return" : take(), r.pick(valueKinds()), Direction::PDK_Return};
      p->PublishParameter(o.ret->name.c_str(), "", uuidOf(o.ret->kind), Direction::PDK_Return);
      made += ") returns " + o.ret->name + " " + kindName(o.ret->kind);
    }
    c.op(made);
    ops.push_back(o);
  }
  // entry points
  int executed = 0;
  const Raise *raise = nullptr;
  std::string text;
  auto act = [&] {
    ++executed;
    if (raise) { try { raise->f(target); } catch (const ::Smp::Exception &e) { text = e.what(); throw; } }
  };
  target.own.make<::Xsmp::EntryPoint>("ep", "", static_cast<::Xsmp::EntryPointPublisher *>(&target), act);
  // events
  struct Sink { std::string name; K kind; ::Smp::IEventSink *p = nullptr; std::vector<std::pair<::Smp::IObject *, std::string>> seen; };
  std::deque<Sink> sinks;
  struct Source { std::string name; K kind; ::Smp::IEventSource *p; std::set<Sink *> subscribed; std::function<void()> emit; };
  std::deque<Source> sources;
  auto sink = [&](auto *tag, K k) {
    using T = std::remove_pointer_t<decltype(tag)>;
    sinks.push_back({"snk" + std::to_string(sinks.size()), k});
    auto *s = &sinks.back();
    s->p = &target.own.make<::Xsmp::EventSink<T>>(s->name.c_str(), "", static_cast<::Xsmp::EventConsumer *>(&target), [s](::Smp::IObject *sender, T v) { s->seen.emplace_back(sender, Native<T>::canon(v)); }, k);
  };
  auto source = [&](auto *tag, K k) {
    using T = std::remove_pointer_t<decltype(tag)>;
    const auto name = "src" + std::to_string(sources.size());
    auto &e = target.own.make<::Xsmp::EventSource<T>>(name.c_str(), "", static_cast<::Xsmp::EventProvider *>(&target), k);
    sources.push_back({name, k, &e, {}, [&e] { e.Emit(T(1)); }});
  };
  for (int i = 0; i < 3; ++i) switch (r.below(5)) {
    case 0: sink(static_cast<std::int32_t *>(nullptr), K::PTK_Int32); source(static_cast<std::int32_t *>(nullptr), K::PTK_Int32); break;
    case 1: sink(static_cast<double *>(nullptr), K::PTK_Float64); source(static_cast<double *>(nullptr), K::PTK_Float64); break;
    case 2: sink(static_cast<bool *>(nullptr), K::PTK_Bool); source(static_cast<bool *>(nullptr), K::PTK_Bool); break;
    case 3: sink(static_cast<std::uint8_t *>(nullptr), K::PTK_UInt8); source(static_cast<std::uint8_t *>(nullptr), K::PTK_UInt8); break;
    default: {
      sinks.push_back({"snk" + std::to_string(sinks.size()), K::PTK_None});
      auto *s = &sinks.back();
      s->p = &target.own.make<::Xsmp::EventSink<void>>(s->name.c_str(), "", static_cast<::Xsmp::EventConsumer *>(&target), [s](::Smp::IObject *sender) { s->seen.emplace_back(sender, ""); });
      const auto name = "src" + std::to_string(sources.size());
      auto &e = target.own.make<::Xsmp::EventSource<void>>(name.c_str(), "", static_cast<::Xsmp::EventProvider *>(&target));
      sources.push_back({name, K::PTK_None, &e, {}, [&e] { e.Emit(); }});
    }
    }
  target.Publish(&pub);
  Py python;
  python.set("t", static_cast<::Smp::IObject *>(&target));
  python.set("u", static_cast<::Smp::IObject *>(&second));
  const auto steps = r.range(5, 20);
  for (int s = 0; s < steps; ++s) {
    raise = r.chance(1, 5) ? &r.pick(raises()) : nullptr;
    text.clear();
    switch (r.below(4)) {
    case 0: case 1: { // an operation
      auto &o = r.pick(ops);
      std::string call = r.chance(1, 2) ? "t." + o.name + "(" : "t['" + o.name + "'](";
      bool structure = true, values = true;
      std::map<std::string, std::string> given;
      const auto n = o.pars.size();
      const auto positional = r.below(n + 1) + (r.chance(1, 12) ? 1 + r.below(2) : 0);
      if (positional > n) structure = false;
      auto argument = [&](K k, const std::string &name) {
        const PV v = randomPV(r, k);
        if (auto x = v.as(k)) given[name] = canonAny(x->any);
        else values = false;
        return v.code();
      };
      for (std::size_t i = 0; i < positional; ++i) call += argument(i < n ? o.pars[i].kind : K::PTK_Int8, i < n ? o.pars[i].name : "") + ", ";
      std::string named;
      bool complete = true;
      for (std::size_t i = positional; i < n; ++i) if (o.pars[i].direction != Direction::PDK_Out && r.chance(1, 12)) complete = false;
        else if (o.pars[i].direction != Direction::PDK_Out || r.chance(1, 2)) named += "'" + o.pars[i].name + "': " + argument(o.pars[i].kind, o.pars[i].name) + ", ";
      if (r.chance(1, 12)) { named += "'nothing': 1, "; structure = false; }
      if (positional > 0 && positional <= n && r.chance(1, 12)) { named += "'" + o.pars[r.below(positional)].name + "': 1, "; structure = false; }
      if (!named.empty()) call += "**{" + named + "}";
      call += ")";
      const bool wrong = !structure || !values || !complete;
      c.op(call + (raise ? std::string(" raising ") + raise->name : ""));
      int invoked = 0;
      std::vector<std::pair<std::string, std::string>> results;
      python.set("e", Py_None);
      std::map<std::string, AnySimple> back;
      target.onInvoke = [&](::Smp::IRequest *q) {
        ++invoked;
        if (q->GetOperationName() != o.name) c.flag("operation", "another operation is invoked");
        for (auto &[name, value] : given) {
          const auto got = canonAny(q->GetParameterValue(q->GetParameterIndex(name.c_str())));
          if (got != value) c.flag("argument", "argument " + name + " of " + call + " is " + got + ", expected " + value);
        }
        auto fresh = [&](K k) { return k == K::PTK_String8 ? textVal(ofStr(r).text()).any : randomVal(r, k).any; };
        for (auto &a : o.pars)
          if (a.direction != Direction::PDK_In) {
            back[a.name] = fresh(a.kind);
            q->SetParameterValue(q->GetParameterIndex(a.name.c_str()), back[a.name]);
          }
        if (o.ret) { back[o.ret->name] = fresh(o.ret->kind); q->SetReturnValue(back[o.ret->name]); }
        if (raise) { try { raise->f(target); } catch (const ::Smp::Exception &e) { text = e.what(); throw; } }
      };
      const Requests requests;
      const auto got = python.eval("(lambda r: r if r is None else sorted(vars(r).items()))(" + call + ")");
      XV_EQ(requests.left(), 0L, "request", "requests not deleted after " + call);
      if (requests.made) XV_COUNT("requests made");
      XV_EQ(invoked, wrong ? 0 : 1, "invoked", "invocations by " + call + " giving " + got.text());
      if (wrong) {
        XV_CHECK(!got.error.empty(), "refused", call << " was accepted");
        if (values) XV_EQ(got.error, structure ? "ecss_smp.Smp.InvalidParameterType" : "TypeError", "refused", "error of " + call);
        XV_COUNT("refused calls");
      } else if (raise) { XV_EQ(got.error, std::string("ecss_smp.") + raise->name, "raised", "error of " + call); XV_COUNT("errors raised"); }
      else {
        int k = 0;
        for (auto &[name, value] : back) {
          const auto v = "e" + std::to_string(k++);
          python.set(v.c_str(), pyOf(value).value.p);
          results.emplace_back(keywords.count(name) ? "_" + name : name, v);
        }
        XV_EQ(got.text(), python.eval(results.empty() ? "None" : sorted(results)).text(), "result", "result of " + call);
        XV_COUNT("calls");
        if (!results.empty()) XV_COUNT("calls with results");
        c.nontrivial = true;
      }
      break;
    }
    case 2: { // an entry point
      const auto call = r.pick<std::string>({"t.ep()", "t.ep.Execute()", "t['ep']()"});
      c.op(call + (raise ? std::string(" raising ") + raise->name : ""));
      const int before = executed;
      if (raise) {
        const auto got = python.eval("(lambda: None)()"); // (nothing of an earlier error is left)
        python.exec("kind = None\ntry:\n    " + call + "\nexcept ecss_smp.Smp.Exception as x:\n    kind = (type(x) is ecss_smp." + raise->name + ", isinstance(x, RuntimeError), str(x))\n    x = None\n");
        const Ref want(PyUnicode_DecodeUTF8(text.data(), static_cast<Py_ssize_t>(text.size()), "replace"));
        python.set("want", want.p);
        XV_EQ(python.eval("kind").text(), python.eval("(True, True, want)").text(), "raised", std::string("the error ") + raise->name + " of " + call);
        XV_COUNT("errors raised");
      } else XV_EQ(python.eval(call).text(), "NoneType None", "entry point", call);
      XV_EQ(executed - before, 1, "entry point", "executions by " + call);
      break;
    }
    default: { // events
      auto &k = r.pick(sinks);
      auto &e = r.pick(sources);
      switch (r.below(4)) {
      case 0: case 1: {
        const PV v = randomPV(r, k.kind == K::PTK_None ? K::PTK_Int32 : k.kind);
        const auto value = v.as(k.kind);
        const auto how = r.below(4);
        const auto call = "t." + k.name + (how & 1 ? "" : ".Notify") + (how < 2 ? "(u, " + v.code() + ")" : how == 2 ? "(arg=" + v.code() + ")" : "(sender=u, arg=" + v.code() + ")");
        c.op(call);
        k.seen.clear();
        const auto error = python.exec(call);
        XV_CHECK(error.empty() == value.has_value(), "notify", call << " for a " << kindName(k.kind) << (error.empty() ? " was accepted" : " raised " + error));
        XV_EQ(k.seen.size(), std::size_t(value ? 1 : 0), "notify", "notifications by " + call);
        if (value) {
          XV_CHECK(k.seen[0].first == (how == 2 ? nullptr : static_cast<::Smp::IObject *>(&second)), "notify", call << " names another sender");
          if (k.kind != K::PTK_None) XV_EQ(k.seen[0].second, canonAny(value->any), "notify", "argument of " + call);
          XV_COUNT("notifications");
        } else XV_COUNT("refused notifications");
        break;
      }
      default: {
        const bool add = r.chance(2, 3);
        const auto how = r.below(4);
        const std::string src = "t." + e.name, snk = "t." + k.name, method = add ? "Subscribe" : "Unsubscribe", sign = add ? " += " : " -= ";
        const auto statement = how == 0 ? src + sign + snk : how == 1 ? snk + sign + src : how == 2 ? src + "." + method + "(" + snk + ")" : snk + "." + method + "(" + src + ")";
        c.op(statement);
        const auto error = python.exec(statement);
        std::string want;
        if (add) { if (e.kind != k.kind) want = "ecss_smp.Smp.InvalidEventSink"; else if (!e.subscribed.insert(&k).second) want = "ecss_smp.Smp.EventSinkAlreadySubscribed"; }
        else if (!e.subscribed.erase(&k)) want = "ecss_smp.Smp.EventSinkNotSubscribed";
        XV_EQ(error, want, "subscribe", "error of " + statement);
        for (auto &x : sinks) x.seen.clear();
        e.emit();
        for (auto &x : sinks) XV_EQ(x.seen.size(), std::size_t(e.subscribed.count(&x)), "subscribe", "notifications of " + x.name + " by " + e.name + " after " + statement);
        XV_COUNT("subscriptions");
      }
      }
    }
    }
  }
}

// the objects found from Python are the objects of the tree
XV_SCENARIO_NOLEAK(C50, tree, 400, 15000) {
  auto &r = c.rng;
  TypeRegistry types;
  auto root = std::make_unique<Node>("root");
  struct Info { NodeOf<::Xsmp::Model> *n; std::string path; std::vector<std::size_t> kids; std::map<std::string, ::Smp::IObject *> members; std::vector<::Smp::IComponent *> refs; ::Xsmp::Reference<::Smp::IComponent> *ref = nullptr; std::size_t parent = 0; bool gone = false; Info(NodeOf<::Xsmp::Model> *node, std::string at) : n(node), path(std::move(at)) {} };
  std::deque<Info> all;
  const int base = Node::liveCount();
  int live = base;
  int serial = 0;
  auto members = [&](Info &i) {
    auto &n = *i.n;
    for (int k = r.range(0, 2); k > 0; --k) { const auto s = "ep" + std::to_string(k); i.members[s] = &n.own.make<::Xsmp::EntryPoint>(s.c_str(), "", static_cast<::Xsmp::EntryPointPublisher *>(&n), [] {}); }
    if (r.chance(1, 2)) i.members["src"] = &n.own.make<::Xsmp::EventSource<void>>("src", "", static_cast<::Xsmp::EventProvider *>(&n));
    if (r.chance(1, 2)) i.members["snk"] = &n.own.make<::Xsmp::EventSink<void>>("snk", "", static_cast<::Xsmp::EventConsumer *>(&n), [](::Smp::IObject *) {});
    if (r.chance(2, 3)) { i.ref = &n.own.make<::Xsmp::Reference<::Smp::IComponent>>("links", "", static_cast<::Xsmp::Aggregate *>(&n), 0, -1); i.members["_links"] = i.ref; }
    i.members["_children"] = &n.children;
  };
  all.emplace_back(root.get(), "root");
  members(all[0]);
  auto add = [&](std::size_t at) {
    const auto name = "c" + std::to_string(serial++);
    auto &n = all[at].n->child(name.c_str());
    all.emplace_back(&n, all[at].path + "." + name);
    all.back().parent = at;
    members(all.back());
    all[at].kids.push_back(all.size() - 1);
    ++live;
    return all.size() - 1;
  };
  for (int i = r.range(1, 8); i > 0; --i) add(r.below(all.size()));
  std::size_t fields = 0;
  int memory[3] = {1, 2, 3};
  Publication pub(root.get(), &types);
  for (int i = r.range(0, 3); i > 0; --i) pub.PublishField(("f" + std::to_string(++fields)).c_str(), "", &memory[i - 1], ::Smp::ViewKind::VK_All);
  root->Publish(&pub);
  for (auto *f : *pub.GetFields()) all[0].members[f->GetName()] = f;
  Py python;
  python.set("root", static_cast<::Smp::IObject *>(root.get()));
  auto existing = [&]() -> Info & { for (;;) { auto &i = all[r.below(all.size())]; if (!i.gone) return i; } };
  auto path = [&](const Info &i) { // the same object by attributes or items
    std::string p = "root";
    std::vector<std::string> names;
    for (const Info *k = &i; k->n != root.get(); k = &all[k->parent]) names.insert(names.begin(), k->n->GetName());
    const Info *at = &all[0];
    for (auto &n : names) {
      std::size_t index = 0;
      while (all[at->kids[index]].n->GetName() != n) ++index;
      switch (r.below(6)) {
      case 0: p += "['" + n + "']"; break;
      case 1: p += "._children['" + n + "']"; break;
      case 2: p += "._children[" + std::to_string(r.chance(1, 2) ? static_cast<long>(index) : static_cast<long>(index) - static_cast<long>(at->kids.size())) + "]"; break;
      case 3: p += ".GetContainer('children').GetComponent('" + n + "')"; break;
      default: p += "." + n;
      }
      at = &all[at->kids[index]];
    }
    return p;
  };
  auto same = [&](const std::string &e, ::Smp::IObject *want) {
    c.op(e);
    const auto got = python.eval(e);
    XV_CHECK(got.error.empty() && behind(got) == want, "object", e << " is " << got.text() << ", expected " << (want ? want->GetName() : "nothing"));
    XV_COUNT("objects found");
  };
  auto fails = [&](const std::string &e, const std::string &error, bool statement = false) {
    c.op(e);
    XV_EQ(statement ? python.exec(e) : python.eval(e).error, error, "missing", "error of " + e);
    XV_COUNT("objects missing");
  };
  std::function<void(std::size_t)> gone = [&](std::size_t at) { all[at].gone = true; --live; for (auto k : all[at].kids) gone(k); };
  const auto steps = r.range(10, 40);
  for (int s = 0; s < steps; ++s) {
    auto &i = existing();
    const auto p = path(i);
    switch (r.below(9)) {
    case 0: same(p, i.n); break;
    case 1: { auto it = std::next(i.members.begin(), static_cast<long>(r.below(i.members.size()))); same(r.chance(1, 2) ? p + "." + it->first : p + "['" + it->first + "']", it->second); break; }
    case 2: same(p + (i.n == root.get() ? ".GetContainer('children').GetParent()" : ".GetParent()"), i.n == root.get() ? static_cast<::Smp::IObject *>(root.get()) : static_cast<::Smp::IObject *>(all[i.parent].n)); break;
    case 3: { // identity
      const auto q = path(i);
      c.op(p + " is " + q);
      XV_EQ(python.eval(p + " is " + q).text(), "bool True", "identity", p + " and " + q);
      XV_EQ(python.eval(p + ".GetName()").text(), std::string("str '") + i.n->GetName() + "'", "name", p);
      break;
    }
    case 4: // what is not there
      switch (r.below(5)) {
      case 0: fails(p + ".nothing", "AttributeError"); break;
      case 1: fails(p + "['nothing']", "KeyError"); break;
      case 2: fails(p + "._children['nothing']", "KeyError"); break;
      case 3: { const long n = static_cast<long>(i.kids.size()); fails(p + "._children[" + std::to_string(r.pick<long>({n, n + 1, -n - 1, -n - 5, INT64_MIN, INT64_MAX})) + "]", "IndexError"); break; }
      default: same(p + r.pick<std::string>({".GetContainer('nothing')", "._children.GetComponent('nothing')", ".GetReference('nothing')"}), nullptr);
      }
      break;
    case 5: { // the whole container
      std::string want = "[";
      for (auto k : i.kids) want += std::string("'") + all[k].n->GetName() + "', ";
      c.op("list " + p);
      XV_EQ(python.eval("[x.GetName() for x in " + p + "._children]").text(), python.eval(want + "]").text(), "container", "components of " + p);
      XV_EQ(python.eval("(len(" + p + "._children), " + p + "._children.GetCount())").text(), python.eval("(" + std::to_string(i.kids.size()) + ", " + std::to_string(i.kids.size()) + ")").text(), "container", "number of components of " + p);
      XV_COUNT("containers listed");
      break;
    }
    case 6: { // references
      if (!i.ref) break;
      const auto e = p + "._links";
      auto &target = existing();
      const auto t = path(target);
      const auto found = std::find(i.refs.begin(), i.refs.end(), target.n);
      if (r.chance(1, 3) && !i.refs.empty()) {
        const auto at = r.below(i.refs.size());
        const auto statement = "del " + e + "[" + (r.chance(1, 2) ? std::to_string(at) : std::to_string(static_cast<long>(at) - static_cast<long>(i.refs.size()))) + "]";
        c.op(statement);
        XV_EQ(python.exec(statement), "", "reference", statement);
        i.refs.erase(i.refs.begin() + static_cast<long>(at));
      } else if (r.chance(1, 3)) {
        const auto statement = r.chance(1, 2) ? "x = " + e + "\nx -= " + t + "\nx = None" : e + ".RemoveComponent(" + t + ")";
        c.op(statement);
        XV_EQ(python.exec(statement), found == i.refs.end() ? "ecss_smp.Smp.NotReferenced" : "", "reference", statement);
        if (found != i.refs.end()) i.refs.erase(found);
        python.exec("x = None");
      } else if (found == i.refs.end()) {
        const auto statement = r.chance(1, 2) ? p + "._links += " + t : e + ".AddComponent(" + t + ")";
        c.op(statement);
        XV_EQ(python.exec(statement), "", "reference", statement);
        i.refs.push_back(target.n);
      }
      XV_EQ(python.eval("len(" + e + ")").text(), "int " + std::to_string(i.refs.size()), "reference", "size of " + e);
      for (std::size_t k = 0; k < i.refs.size(); ++k) {
        XV_CHECK(i.ref->GetComponents()->at(k) == i.refs[k], "reference", "the component " << k << " of " << e << " is another");
        same(e + "[" + std::to_string(k) + "]", i.refs[k]);
        same(e + "[" + std::to_string(static_cast<long>(k) - static_cast<long>(i.refs.size())) + "]", i.refs[k]);
      }
      if (!i.refs.empty()) { auto *x = r.pick(i.refs); same(e + (r.chance(1, 2) ? std::string(".GetComponent('") + x->GetName() + "')" : std::string("['") + x->GetName() + "']"), x); }
      fails(e + "['nothing']", "KeyError");
      XV_COUNT("references changed");
      c.nontrivial = true;
      break;
    }
    case 7: { // a new component
      const auto name = "c" + std::to_string(serial++);
      auto *n = new Node(name.c_str(), "", i.n, nullptr);
      python.set("fresh", static_cast<::Smp::IObject *>(n));
      const auto statement = r.chance(1, 2) ? p + "._children += fresh" : p + "._children.AddComponent(fresh)";
      c.op(statement);
      XV_EQ(python.exec(statement), "", "container", statement);
      python.forget("fresh");
      const auto at = static_cast<std::size_t>(&i - &all[0] >= 0 ? std::find_if(all.begin(), all.end(), [&](const Info &k) { return &k == &i; }) - all.begin() : 0);
      all.emplace_back(n, p + "." + name);
      all.back().parent = at;
      members(all.back());
      all[at].kids.push_back(all.size() - 1);
      ++live;
      XV_COUNT("components added");
      break;
    }
    default: { // a component deleted
      if (i.kids.empty()) break;
      const auto k = r.below(i.kids.size());
      const auto victim = i.kids[k];
      std::set<::Smp::IComponent *> doomed;
      std::function<void(std::size_t)> collect = [&](std::size_t at) { doomed.insert(all[at].n); for (auto x : all[at].kids) collect(x); };
      collect(victim);
      bool referenced = false;
      for (auto &x : all) if (!x.gone) for (auto *y : x.refs) referenced |= doomed.count(y) > 0;
      if (referenced) break;
      const std::string name = all[victim].n->GetName();
      const auto statement = r.chance(1, 3) ? "del " + p + "._children['" + name + "']" : r.chance(1, 2) ? "del " + p + "._children[" + std::to_string(r.chance(1, 2) ? static_cast<long>(k) : static_cast<long>(k) - static_cast<long>(i.kids.size())) + "]" : p + "._children.DeleteComponent(" + p + "." + name + ")";
      c.op(statement);
      XV_EQ(python.exec(statement), "", "container", statement);
      gone(victim);
      i.kids.erase(i.kids.begin() + static_cast<long>(k));
      fails(p + "." + name, "AttributeError");
      fails("del " + p + "._children['" + name + "']", "KeyError", true);
      XV_COUNT("components deleted");
      c.nontrivial = true;
    }
    }
    XV_EQ(Node::liveCount().load(), live, "alive", "components alive");
  }
}

namespace {
/// a simulator whose runs are in a thread of their own
struct Elsewhere : ::Smp::ISimulator {
  ::Xsmp::Simulator s{"Sim"};
  std::thread runner;
  std::atomic<bool> over{false};
  void join() { if (runner.joinable()) runner.join(); }
  void Run() override {
    join();
    over = false;
    runner = std::thread([this] { s.Run(); over = true; });
    while (!over && GetState() != ::Smp::SimulatorStateKind::SSK_Executing) std::this_thread::yield();
  }
  ~Elsewhere() override { join(); }
  ::Smp::String8 GetName() const override { return s.GetName(); }
  ::Smp::String8 GetDescription() const override { return s.GetDescription(); }
  ::Smp::IObject *GetParent() const override { return nullptr; }
  const ::Smp::ContainerCollection *GetContainers() const override { return s.GetContainers(); }
  ::Smp::IContainer *GetContainer(::Smp::String8 n) const override { return s.GetContainer(n); }
  void Initialise() override { s.Initialise(); }
  void Publish() override { s.Publish(); }
  void Configure() override { s.Configure(); }
  void Connect() override { s.Connect(); }
  void Hold(::Smp::Bool i) override { s.Hold(i); }
  void Store(::Smp::String8 f) override { s.Store(f); }
  void Restore(::Smp::String8 f) override { s.Restore(f); }
  void Reconnect(::Smp::IComponent *r) override { s.Reconnect(r); }
  void Exit() override { s.Exit(); }
  void Abort() override { s.Abort(); }
  ::Smp::SimulatorStateKind GetState() const override { return s.GetState(); }
  void AddInitEntryPoint(::Smp::IEntryPoint *e) override { s.AddInitEntryPoint(e); }
  void AddModel(::Smp::IModel *m) override { s.AddModel(m); }
  void AddService(::Smp::IService *v) override { s.AddService(v); }
  ::Smp::IService *GetService(::Smp::String8 n) const override { return s.GetService(n); }
  ::Smp::Services::ILogger *GetLogger() const override { return s.GetLogger(); }
  ::Smp::Services::ITimeKeeper *GetTimeKeeper() const override { return s.GetTimeKeeper(); }
  ::Smp::Services::IScheduler *GetScheduler() const override { return s.GetScheduler(); }
  ::Smp::Services::IEventManager *GetEventManager() const override { return s.GetEventManager(); }
  ::Smp::Services::IResolver *GetResolver() const override { return s.GetResolver(); }
  ::Smp::Services::ILinkRegistry *GetLinkRegistry() const override { return s.GetLinkRegistry(); }
  void RegisterFactory(::Smp::IFactory *f) override { s.RegisterFactory(f); }
  ::Smp::IComponent *CreateInstance(::Smp::Uuid u, ::Smp::String8 n, ::Smp::String8 d, ::Smp::IComposite *p) override { return s.CreateInstance(u, n, d, p); }
  ::Smp::IFactory *GetFactory(::Smp::Uuid u) const override { return s.GetFactory(u); }
  const ::Smp::FactoryCollection *GetFactories() const override { return s.GetFactories(); }
  ::Smp::Publication::ITypeRegistry *GetTypeRegistry() const override { return s.GetTypeRegistry(); }
  void LoadLibrary(::Smp::String8 l) override { s.LoadLibrary(l); }
};
/// a simulator made by Python and the pointer behind it
struct PySim {
  Scratch &scratch = Scratch::get();
  Py python;
  std::unique_ptr<Elsewhere> elsewhere;
  ::Smp::ISimulator *sim = nullptr;
  explicit PySim(xv::Case &c, bool connect = true, bool thread = false) {
    if (thread) {
      c.op("sim is one that runs elsewhere");
      elsewhere = std::make_unique<Elsewhere>();
      sim = elsewhere.get();
      python.set("sim", static_cast<::Smp::IObject *>(sim));
      XV_EQ(python.exec("sim.LoadLibrary('xsmp_services')\nsim.Publish()\nsim.Configure()\nsim.Connect()"), "", "connect", "connecting");
      return;
    }
    c.op("sim = createSimulator");
    XV_EQ(python.exec("sim = ecss_smp.Smp.createSimulator('xsmp_simulator', 'createSimulator', 'Sim', 'made by Python')\nsim.LoadLibrary('xsmp_services')\n"), "", "create", "creating a simulator");
    sim = dynamic_cast<::Smp::ISimulator *>(behind(python.eval("sim")));
    XV_CHECK(sim != nullptr, "create", "the simulator is " << python.eval("sim").text());
    XV_CHECK(sim->GetName() == std::string("Sim") && sim->GetDescription() == std::string("made by Python"), "create", "name and description");
    if (connect) XV_EQ(python.exec("sim.Publish()\nsim.Configure()\nsim.Connect()"), "", "connect", "connecting");
  }
  PySim(const PySim &) = delete;
  ~PySim() { python.exec("del sim\ngc.collect()"); }
};
} // namespace

// what Python got from a simulator stays the simulator's
XV_SCENARIO_NOLEAK(C51, lifetimes, 160, 6000) {
  auto &r = c.rng;
  const int base = Node::liveCount();
  auto &destroyed = py::detail::internals().destroyed;
  // libraries that cannot be used
  if (r.chance(1, 4)) {
    Scratch::get();
    Py python;
    const auto f = r.pick<std::string>({"'no_such_library', 'createSimulator'", "'xsmp_simulator', 'noSuchFunction'", "'', 'createSimulator'"});
    const auto call = "ecss_smp.Smp.createSimulator(" + f + ")";
    c.op(call);
    const auto error = python.eval(call).error;
    if (f[1] == 'n') XV_EQ(error, "ecss_smp.Smp.LibraryNotFound", "library", call);
    else if (f[1] == 'x') XV_EQ(error, "ecss_smp.Smp.InvalidLibrary", "library", call);
    else XV_CHECK(!error.empty(), "library", call << " was accepted");
    XV_COUNT("libraries refused");
  }
  const auto before = destroyed;
  {
    PySim world(c, false);
    auto &python = world.python;
    auto *sim = world.sim;
    struct Info { std::string path; NodeOf<::Xsmp::Model> *n; std::vector<std::string> kids; };
    std::deque<Info> all;
    int live = base;
    int serial = 0;
    int memory[4] = {1, 2, 3, 4};
    auto model = [&](::Smp::IComposite *parent) {
      auto *n = new Node(("m" + std::to_string(serial++)).c_str(), "", parent, sim);
      ++live;
      n->own.make<::Xsmp::EntryPoint>("ep", "", static_cast<::Xsmp::EntryPointPublisher *>(n), [] {});
      n->own.make<::Xsmp::EventSource<void>>("src", "", static_cast<::Xsmp::EventProvider *>(n));
      n->own.make<::Xsmp::EventSink<void>>("snk", "", static_cast<::Xsmp::EventConsumer *>(n), [](::Smp::IObject *) {});
      n->own.make<::Xsmp::Reference<::Smp::IComponent>>("links", "", static_cast<::Xsmp::Aggregate *>(n), 0, -1);
      n->onPublish = [&memory](::Smp::IPublication *p) {
        p->PublishField("f", "", &memory[0], ::Smp::ViewKind::VK_All);
        auto *o = p->PublishOperation("op", "");
        o->PublishParameter("a", "", ::Smp::Uuids::Uuid_Int32, Direction::PDK_In);
      };
      return n;
    };
    for (int i = r.range(1, 3); i > 0; --i) {
      auto *n = model(sim);
      python.set("fresh", static_cast<::Smp::IObject *>(n));
      const auto statement = r.pick<std::string>({"sim.AddModel(fresh)", "sim._Models += fresh", "sim.GetContainer('Models').AddComponent(fresh)"});
      c.op(statement + " # " + n->GetName());
      XV_EQ(python.exec(statement), "", "add", statement);
      python.forget("fresh");
      all.push_back({n->GetName(), n, {}});
    }
    for (int i = r.range(0, 4); i > 0; --i) {
      auto &p = all[r.below(all.size())];
      auto *n = model(p.n);
      p.n->children.AddComponent(n);
      p.kids.push_back(n->GetName());
      const auto path = p.path + "." + n->GetName();
      all.push_back({path, n, {}});
    }
    auto states = [&](const char *what, ::Smp::ComponentStateKind want) {
      XV_EQ(python.exec(what), "", "connect", what);
      for (auto &i : all) XV_EQ(static_cast<int>(i.n->GetState()), static_cast<int>(want), "state", "state of " + i.path + " after " + what);
    };
    states("sim.Publish()", ::Smp::ComponentStateKind::CSK_Publishing);
    states("sim.Configure()", ::Smp::ComponentStateKind::CSK_Configured);
    states("sim.Connect()", ::Smp::ComponentStateKind::CSK_Connected);
    auto *links = sim->GetLinkRegistry();
    std::map<std::pair<std::size_t, std::size_t>, int> model_links;
    auto slashed = [](std::string s) { std::replace(s.begin(), s.end(), '.', '/'); return "/" + s; };
    int kept = 0;
    const auto steps = r.range(10, 40);
    for (int s = 0; s < steps; ++s) {
      const auto at = r.below(all.size()), to = r.below(all.size());
      auto &i = all[at];
      const auto p = "sim." + i.path;
      ::Smp::IObject *want = nullptr;
      std::string e;
      bool object = true;
      switch (r.below(22)) {
      case 0: e = "sim.GetResolver().ResolveAbsolute('" + slashed(i.path) + "')"; want = i.n; break;
      case 1: e = "sim.GetResolver().ResolveAbsolute('" + slashed(i.path) + "/nothing')"; break;
      case 2: {
        if (i.kids.empty()) continue;
        const auto &kid = r.pick(i.kids);
        e = r.pick<std::string>({"sim.GetResolver().ResolveRelative('" + kid + "', " + p + ")", p + ".GetContainer('children').GetComponent('" + kid + "')", p + "._children.GetComponent('" + kid + "')"});
        want = i.n->children.GetComponent(kid.c_str());
        break;
      }
      case 3: e = r.pick<std::string>({"sim.GetLogger()", "sim._Services.GetComponent('XsmpLogger')"}); want = sim->GetLogger(); break;
      case 4: e = "sim.GetTimeKeeper()"; want = sim->GetTimeKeeper(); break;
      case 5: e = "sim.GetScheduler()"; want = sim->GetScheduler(); break;
      case 6: e = "sim.GetEventManager()"; want = sim->GetEventManager(); break;
      case 7: e = "sim.GetResolver()"; want = sim->GetResolver(); break;
      case 8: e = "sim.GetLinkRegistry()"; want = links; break;
      case 9: e = r.pick<std::string>({"sim.GetContainer('Models')", "sim._Models"}); want = sim->GetContainer("Models"); break;
      case 10: e = p + r.pick<std::string>({".GetParent()", ".ep.GetParent().GetParent()", ".f.GetParent().GetParent()"}); want = i.n->GetParent(); break;
      case 11: e = p + r.pick<std::string>({".GetField('f')", ".f", "['f']"}); want = i.n->GetField("f"); break;
      case 12: e = p + r.pick<std::string>({".GetEntryPoint('ep')", ".ep", "['ep']"}); want = i.n->GetEntryPoint("ep"); break;
      case 13: e = p + r.pick<std::string>({".GetEventSource('src')", ".src"}); want = i.n->GetEventSource("src"); break;
      case 14: e = p + r.pick<std::string>({".GetEventSink('snk')", ".snk"}); want = i.n->GetEventSink("snk"); break;
      case 15: e = p + r.pick<std::string>({".GetReference('links')", "._links", "['_links']"}); want = i.n->GetReference("links"); break;
      case 16: e = p + r.pick<std::string>({".f.GetType()", ".op.GetParameter('a').GetType()"}); want = sim->GetTypeRegistry()->GetType(K::PTK_Int32); break;
      case 17: e = p + r.pick<std::string>({".op", "['op']", ".op.GetParameter('a').GetParent()"}); want = dynamic_cast<::Smp::IDynamicInvocation *>(i.n)->GetOperations()->at(std::size_t{0}); break;
      case 18: e = p + r.pick<std::string>({".op.GetReturnParameter()", ".GetEntryPoint('nothing')", ".GetContainer('nothing')", ".GetReference('nothing')", ".GetEventSink('nothing')"}); break;
      case 19: e = r.pick<std::string>({"sim.GetTypeRegistry()", "sim.GetFactories()", "sim.GetTypeRegistry().GetType(ecss_smp.Smp.PrimitiveTypeKind.PTK_Int32)", "[x for x in sim.GetFactories()]", "[x for x in sim._Services]"}); object = false; break;
      case 20: { // a link through Python
        const bool add = r.chance(2, 3);
        auto &n = model_links[{at, to}];
        e = std::string("sim.GetLinkRegistry().") + (add ? "AddLink" : "RemoveLink") + "(" + p + ", sim." + all[to].path + ")";
        c.op(e);
        const auto got = python.eval(e);
        XV_CHECK(got.error.empty(), "links", e << " raised " << got.error);
        if (add) ++n; else if (n) --n;
        XV_EQ(python.eval("sim.GetLinkRegistry().GetLinkCount(" + p + ", sim." + all[to].path + ")").text(), "int " + std::to_string(n), "links", "links after " + e);
        continue;
      }
      default: {
        std::set<::Smp::IObject *> sources;
        for (auto &[k, n] : model_links) if (k.second == at && n > 0) sources.insert(all[k.first].n);
        e = "sim.GetLinkRegistry().GetLinkSources(" + p + ")";
        c.op(e);
        XV_EQ(python.exec("sources = " + e), "", "links", "listing the sources of " + p);
        XV_EQ(python.eval("len(sources)").text(), "int " + std::to_string(sources.size()), "links", "number of " + e + " = " + canonPy(PyDict_GetItemString(python.vars, "sources")));
        for (std::size_t k = 0; k < sources.size(); ++k) XV_CHECK(sources.count(behind(python.eval("sources[" + std::to_string(k) + "]"))), "links", "a source of " << p << " is another component");
        python.forget("sources");
        XV_COUNT("links listed");
        continue;
      }
      }
      c.op(e);
      {
        const auto got = python.eval(e);
        XV_CHECK(got.error.empty(), "lookup", e << " raised " << got.error);
        if (object) XV_CHECK(behind(got) == want, "lookup", e << " is " << got.text() << ", expected " << (want ? want->GetName() : "nothing"));
        if (want != static_cast<::Smp::IObject *>(sim) && r.chance(1, 6)) { python.set(("kept" + std::to_string(kept++)).c_str(), got.value.p); XV_COUNT("wrappers kept"); }
      }
      if (r.chance(1, 3)) PyGC_Collect();
      XV_EQ(destroyed, before, "owned", "objects deleted by Python after " + e);
      XV_EQ(Node::liveCount().load(), live, "owned", "models alive after " + e);
      XV_COUNT("wrappers dropped");
    }
    // the simulator goes with its last wrapper, and everything in it
    const bool first = r.chance(1, 2);
    c.op(first ? "del sim" : "del all but sim");
    if (!first) for (int k = 0; k < kept; ++k) python.forget(("kept" + std::to_string(k)).c_str());
    XV_EQ(Node::liveCount().load(), live, "owned", "models alive at the end");
    if (r.chance(1, 2)) { python.exec("again = sim." + all[0].path + ".GetParent()\ndel sim"); XV_EQ(Node::liveCount().load(), live, "owned", "models alive while the simulator has a wrapper"); python.exec("del again"); }
    else python.exec("del sim");
    PyGC_Collect();
    XV_EQ(destroyed, before + 1, "owned", "objects deleted by Python with the simulator");
    XV_EQ(Node::liveCount().load(), base, "owned", "models alive after the simulator");
    XV_COUNT("simulators deleted");
    c.nontrivial = true;
  }
  XV_EQ(destroyed, before + 1, "owned", "objects deleted by Python in the end");
}

// a run from Python takes the time asked for
XV_SCENARIO_NOLEAK(C51, run, 160, 6000) {
  auto &r = c.rng;
  static const bool handled = [] { Py python; return python.exec("import signal\nsignal.signal(signal.SIGINT, signal.default_int_handler)").empty(); }();
  XV_CHECK(handled, "signals", "no handler of interrupts");
  const bool thread = r.chance(1, 2);
  PySim world(c, true, thread);
  auto join = [&] { if (world.elsewhere) world.elsewhere->join(); };
  auto &python = world.python;
  auto *sim = world.sim;
  auto *clock = sim->GetTimeKeeper();
  auto *scheduler = sim->GetScheduler();
  auto *manager = sim->GetEventManager();
  Node model("m", "", sim, sim);
  // the waiting is skipped: up to the next event, not past the end of the run
  std::atomic<::Smp::Duration> end{-1};
  ::Xsmp::EntryPoint jump("jump", "", static_cast<::Smp::IObject *>(&model), [&] {
    const auto now = clock->GetSimulationTime();
    const auto limit = end.load();
    if (limit < 0 || now >= limit) return;
    const auto next = std::min<::Smp::Duration>(limit, scheduler->GetNextScheduledEventTime());
    if (next > now) clock->SetSimulationTime(next);
  });
  manager->Subscribe(::Smp::Services::IEventManager::SMP_PreSimTimeChangeId, &jump);
  // an event that holds
  ::Xsmp::EntryPoint hold("hold", "", static_cast<::Smp::IObject *>(&model), [&] { end = clock->GetSimulationTime(); sim->Hold(false); });
  std::atomic<int> ticks{0}, interruptAt{-1};
  ::Xsmp::EntryPoint tick("tick", "", static_cast<::Smp::IObject *>(&model), [&] { if (++ticks == interruptAt) PyErr_SetInterrupt(); });
  struct Event { ::Smp::Duration time, cycle; long left; std::unique_ptr<::Xsmp::EntryPoint> entry; std::unique_ptr<std::atomic<int>> seen; int expected = 0; std::string id; };
  std::deque<Event> events;
  std::vector<std::pair<::Smp::Duration, std::string>> holds;
  ::Smp::Duration now = clock->GetSimulationTime();
  static const std::vector<std::pair<std::string, double>> units{{"nanoseconds", 1.}, {"microseconds", 1e3}, {"milliseconds", 1e6}, {"seconds", 1e9}, {"minutes", 60e9}, {"hours", 3600e9}, {"days", 86400e9}, {"weeks", 604800e9}};
  auto duration = [&] { return static_cast<::Smp::Duration>(r.pick<std::uint64_t>({r.below(10), r.below(1000), r.below(2000) * 1000000, 1000000 * (1000 + r.below(9000)), r.below(5) * 1000000000, r.below(10000000000), r.below(100000000000000)})); };
  auto arguments = [&](::Smp::Duration d) {
    std::string s;
    auto rest = d;
    auto order = units;
    std::map<std::string, bool> used;
    for (int k = r.range(0, 2); k > 0 && rest > 0; --k) { // whole numbers of some units
      auto &u = r.pick(units);
      const auto n = static_cast<::Smp::Duration>(static_cast<double>(rest) / u.second);
      if (n < 1 || used[u.first] || u.second < 2) continue;
      const auto m = static_cast<::Smp::Duration>(1 + r.below(static_cast<std::uint64_t>(n)));
      used[u.first] = true;
      rest -= m * static_cast<::Smp::Duration>(u.second);
      s += (s.empty() ? "" : ", ") + u.first + "=" + std::to_string(m);
    }
    for (;;) { // the rest in another
      auto &u = r.pick(units);
      if (used[u.first]) continue;
      char b[64];
      std::snprintf(b, sizeof b, "%.17g", static_cast<double>(rest) / u.second);
      return s + (s.empty() ? "" : ", ") + u.first + "=" + b;
    }
  };
  auto standby = [&](const std::string &after) { XV_EQ(python.eval("sim.GetState() == ecss_smp.Smp.SimulatorStateKind.SSK_Standby").text(), "bool True", "state", "standby after " + after); };
  auto clear = [&] {
    for (auto &e : events) if (e.left >= 0) { XV_EQ(python.exec("sim.GetScheduler().RemoveEvent(" + e.id + ")"), "", "remove", "removing an event"); e.left = -1; }
    for (auto &h : holds) XV_EQ(python.exec("sim.GetScheduler().RemoveEvent(" + h.second + ")"), "", "remove", "removing an event");
    holds.clear();
  };
  const auto steps = r.range(4, 14);
  for (int s = 0; s < steps; ++s) switch (r.below(10)) {
    case 0: case 1: { // an event
      if (events.size() > 6) break;
      events.emplace_back();
      auto &e = events.back();
      const auto in = duration();
      e.time = now + in;
      e.left = r.chance(1, 2) ? 0 : static_cast<long>(r.below(20));
      e.cycle = e.left ? duration() + 1 : 0;
      e.seen = std::make_unique<std::atomic<int>>(0);
      e.entry = std::make_unique<::Xsmp::EntryPoint>("event", "", static_cast<::Smp::IObject *>(&model), [p = e.seen.get()] { ++*p; });
      python.set("entry", static_cast<::Smp::IObject *>(e.entry.get()));
      const auto call = "sim.GetScheduler().AddSimulationTimeEvent(entry, " + std::to_string(in) + (e.left ? ", " + std::to_string(e.cycle) + ", " + std::to_string(e.left) : "") + ")";
      c.op(call);
      const auto id = python.eval(call);
      XV_CHECK(id.error.empty(), "schedule", call << " raised " << id.error);
      e.id = std::to_string(PyLong_AsLongLong(id.value.p));
      python.forget("entry");
      break;
    }
    case 2: case 3: { // an event that holds the next run
      if (holds.size() > 2) break;
      const auto in = duration();
      c.op("hold in " + std::to_string(in));
      holds.emplace_back(now + in, std::to_string(scheduler->AddSimulationTimeEvent(&hold, in, 0, 0)));
      break;
    }
    case 4: { // a run that is interrupted
      if (!thread) break;
      c.op("interrupt a run");
      clear();
      for (auto &e : events) { e.expected = e.seen->load(); e.time = -1; }
      ticks = 0;
      interruptAt = r.range(1, 4);
      end = -1;
      const auto id = std::to_string(scheduler->AddSimulationTimeEvent(&tick, 0, 1000000, -1));
      const auto call = "sim.Run(" + r.pick<std::string>({"hours=1", "seconds=3", "weeks=1000", "days=1, hours=2"}) + ")";
      XV_EQ(python.exec(call), "KeyboardInterrupt", "interrupt", "error of " + call);
      standby("an interrupt");
      join();
      XV_CHECK(ticks >= interruptAt, "interrupt", "interrupted before the interrupt");
      XV_EQ(python.exec("sim.GetScheduler().RemoveEvent(" + id + ")"), "", "remove", "removing an event");
      now = clock->GetSimulationTime();
      XV_COUNT("runs interrupted");
      break;
    }
    case 5: { // without an end
      if (!thread) break;
      c.op("run and hold");
      clear();
      for (auto &e : events) e.expected = e.seen->load();
      end = -1;
      XV_EQ(python.exec("sim.Run()"), "", "run", "running");
      if (r.chance(1, 2)) std::this_thread::sleep_for(std::chrono::microseconds(r.below(2000)));
      XV_EQ(python.exec("sim.Hold(True)"), "", "run", "holding");
      for (int k = 0; k < 100000 && sim->GetState() == ::Smp::SimulatorStateKind::SSK_Executing; ++k) std::this_thread::sleep_for(std::chrono::microseconds(100));
      standby("a hold");
      join();
      now = clock->GetSimulationTime();
      XV_COUNT("runs held from Python");
      break;
    }
    case 6: { // what is no duration
      const auto d = r.pick<std::string>({"seconds=-1", "nanoseconds=-1", "hours=1, minutes=-61"});
      c.op("sim.Run(" + d + ")");
      XV_EQ(python.exec("sim.Run(" + d + ")"), "ecss_smp.Smp.Services.InvalidEventTime", "refused", "error of a run of " + d);
      standby("a refused run");
      XV_EQ(clock->GetSimulationTime(), now, "refused", "time after a refused run");
      XV_COUNT("runs refused");
      break;
    }
    default: {
      const auto d = duration();
      const auto call = "sim.Run(" + arguments(d) + ")";
      auto until = now + d;
      for (auto &h : holds) until = std::min(until, h.first);
      std::string text = call;
      if (until < now + d) { text += " held after " + std::to_string(until - now); XV_COUNT("runs held earlier"); c.nontrivial = true; }
      c.op(text);
      end = now + d;
      XV_EQ(python.exec(call), "", "run", call);
      standby(text);
      join();
      XV_EQ(clock->GetSimulationTime() - now, until - now, "time", "duration of " + text + " in nanoseconds");
      XV_EQ(python.eval("sim.GetTimeKeeper().GetSimulationTime()").text(), "int " + std::to_string(until), "time", "simulation time after " + text);
      now = until;
      holds.erase(std::remove_if(holds.begin(), holds.end(), [&](auto &h) { return h.first <= now; }), holds.end());
      for (auto &e : events) {
        while (e.left >= 0 && e.time <= now) { ++e.expected; e.time += e.cycle; --e.left; }
        XV_EQ(e.seen->load(), e.expected, "events", "executions of an event after " + text);
      }
      ::Smp::Duration next = INT64_MAX;
      for (auto &e : events) if (e.left >= 0) next = std::min(next, e.time);
      for (auto &h : holds) next = std::min(next, h.first);
      XV_EQ(scheduler->GetNextScheduledEventTime(), next, "left", "next event after " + text);
      XV_COUNT("runs");
    }
    }
  end = -1;
  clear();
  manager->Unsubscribe(::Smp::Services::IEventManager::SMP_PreSimTimeChangeId, &jump);
}

namespace {
/// one of two simulators that are told the same
struct Twin {
  ::Smp::ISimulator *sim;
  std::vector<Node *> models;
  std::vector<::Xsmp::EntryPoint *> entries;
  std::vector<int> order; // the entry points executed
  explicit Twin(::Smp::ISimulator *s) : sim(s) {
    for (int i = 0; i < 3; ++i) {
      auto *n = new Node(("m" + std::to_string(i)).c_str(), "", s, s);
      s->AddModel(n);
      models.push_back(n);
    }
    for (int i = 0; i < 4; ++i) entries.push_back(&models[0]->own.make<::Xsmp::EntryPoint>(("e" + std::to_string(i)).c_str(), "", static_cast<::Xsmp::EntryPointPublisher *>(models[0]), [this, i] { order.push_back(i); }));
  }
  std::string state() const {
    auto *t = sim->GetTimeKeeper();
    std::string s = std::string(stateName(sim->GetState())) + " time " + std::to_string(t->GetSimulationTime()) + " mission " + std::to_string(t->GetMissionTime()) + " start " + std::to_string(t->GetMissionStartTime()) + " epoch " + std::to_string(t->GetEpochTime()) + " next " + std::to_string(sim->GetScheduler()->GetNextScheduledEventTime()) + " current " + std::to_string(sim->GetScheduler()->GetCurrentEventId()) + " links";
    for (auto *a : models) for (auto *b : models) s += " " + std::to_string(sim->GetLinkRegistry()->GetLinkCount(a, b));
    s += " executed";
    for (auto i : order) s += " " + std::to_string(i);
    return s;
  }
};
/// what C++ gives, written as Python sees it
std::string told(const std::function<std::string()> &f) {
  try { return f(); }
  catch (const ::Smp::Exception &e) { // those without a type of their own are plain
    const std::string n = e.GetName();
    for (auto &x : raises()) { const std::string y = x.name; if (y.substr(y.rfind('.') + 1) == n) return "error " + n; }
    return "error Exception";
  }
}
std::string asInt(std::int64_t v) { return "int " + std::to_string(v); }
std::string asBool(bool v) { return v ? "bool True" : "bool False"; }
std::string asName(const ::Smp::IObject *o) { return o ? std::string("str '") + o->GetName() + "'" : "NoneType None"; }
const std::string NONE = "NoneType None";
} // namespace

// the services used from Python do what they do from C++
XV_SCENARIO_NOLEAK(C50, services, 200, 8000) {
  auto &r = c.rng;
  PySim world(c, false);
  auto &python = world.python;
  World other(false);
  other.sim.Publish();
  Twin left(world.sim), right(&other.sim);
  XV_EQ(python.exec("sim.Publish()\nsim.Configure()\nsim.Connect()"), "", "connect", "connecting");
  other.sim.Configure();
  other.sim.Connect();
  for (std::size_t i = 0; i < left.entries.size(); ++i) python.set(("e" + std::to_string(i)).c_str(), static_cast<::Smp::IObject *>(left.entries[i]));
  XV_EQ(python.exec("U = ecss_smp.Smp.Uuid\nK = ecss_smp.Smp.PrimitiveTypeKind\nname = lambda o: o if o is None else o.GetName()\nem = sim.GetEventManager()\ntk = sim.GetTimeKeeper()\nsc = sim.GetScheduler()\nlr = sim.GetLinkRegistry()\nlog = sim.GetLogger()\ntr = sim.GetTypeRegistry()\n"), "", "connect", "looking up the services");
  auto *sim = &other.sim;
  auto *em = sim->GetEventManager();
  auto *tk = sim->GetTimeKeeper();
  auto *sc = sim->GetScheduler();
  auto *lr = sim->GetLinkRegistry();
  auto *log = sim->GetLogger();
  auto *tr = sim->GetTypeRegistry();
  std::vector<std::int64_t> events{0}, globals{-1, 999};
  std::vector<std::string> uuids{"12345678-1234-1234-1234-123456789012", "d55fcff6-6b4f-4c3e-9d0a-a0b1c2d3e406"};
  auto same = [&](const std::string &e, const std::function<std::string()> &f) {
    c.op(e);
    const auto want = told(f);
    const auto got = python.eval(e);
    auto text = got.text();
    if (!got.error.empty()) { const auto dot = got.error.rfind('.'); text = "error " + (dot == std::string::npos ? got.error : got.error.substr(dot + 1)); XV_COUNT("errors of services"); }
    XV_EQ(text, want, "service", e);
    XV_COUNT("calls of services");
    return want;
  };
  auto num = [](std::int64_t v) { return std::to_string(v); };
  auto integer = [&](const std::string &s) { return s.rfind("int ", 0) == 0 ? std::stoll(s.substr(4)) : -7; };
  auto when = [&] { return static_cast<::Smp::Duration>(r.pick<std::int64_t>({static_cast<std::int64_t>(r.below(5)), static_cast<std::int64_t>(r.below(2000)), static_cast<std::int64_t>(r.below(1000000)), 1000000000000, -1, std::int64_t{1} << 50})); };
  auto uuid = [&] { return r.chance(1, 4) || uuids.size() > 12 ? r.pick(uuids) : [&] { char b[64]; std::snprintf(b, sizeof b, "%08x-0000-4000-8000-%012x", static_cast<unsigned>(r.next()), static_cast<unsigned>(r.next())); uuids.emplace_back(b); return uuids.back(); }(); };
  const auto steps = r.range(15, 60);
  for (int s = 0; s < steps; ++s) {
    const auto k = r.below(4);
    const auto ep = "e" + std::to_string(k);
    auto *entry = right.entries[k];
    const auto a = r.below(3), b = r.below(3);
    const auto ab = "(sim.m" + std::to_string(a) + ", sim.m" + std::to_string(b) + ")";
    const auto ev = r.pick(events);
    const auto gl = r.pick(globals);
    switch (r.below(32)) {
    case 0: case 1: { const auto n = r.pick<std::string>({"a", "b", "c", "", "x y", "SMP_EnterStandby", "SMP_PreSimTimeChange"}); const auto id = integer(same("em.QueryEventId('" + n + "')", [&] { return asInt(em->QueryEventId(n.c_str())); })); if (n.size() == 1) globals.push_back(id); break; }
    case 2: case 3: same("em.Subscribe(" + num(gl) + ", " + ep + ")", [&] { em->Subscribe(gl, entry); return NONE; }); break;
    case 4: same("em.Unsubscribe(" + num(gl) + ", " + ep + ")", [&] { em->Unsubscribe(gl, entry); return NONE; }); break;
    case 5: case 6: { const auto how = r.below(2); same("em.Emit(" + num(gl) + (how ? ", True)" : ")"), [&] { em->Emit(gl); return NONE; }); break; }
    case 7: { const auto t = when(); same("tk.SetMissionTime(" + num(t) + ")", [&] { tk->SetMissionTime(t); return NONE; }); break; }
    case 8: { const auto t = when(); same("tk.SetEpochTime(" + num(t) + ")", [&] { tk->SetEpochTime(t); return NONE; }); break; }
    case 9: { const auto t = when(); same("tk.SetMissionStartTime(" + num(t) + ")", [&] { tk->SetMissionStartTime(t); return NONE; }); break; }
    case 10: { const auto t = when(); same("tk.SetSimulationTime(" + num(t) + ")", [&] { tk->SetSimulationTime(t); return NONE; }); break; }
    case 11: switch (r.below(6)) {
      case 0: same("tk.GetSimulationTime()", [&] { return asInt(tk->GetSimulationTime()); }); break;
      case 1: same("tk.GetMissionTime()", [&] { return asInt(tk->GetMissionTime()); }); break;
      case 2: same("tk.GetMissionStartTime()", [&] { return asInt(tk->GetMissionStartTime()); }); break;
      case 3: same("tk.GetEpochTime()", [&] { return asInt(tk->GetEpochTime()); }); break;
      case 4: same("sc.GetNextScheduledEventTime()", [&] { return asInt(sc->GetNextScheduledEventTime()); }); break;
      default: same("sc.GetCurrentEventId()", [&] { return asInt(sc->GetCurrentEventId()); });
      }
      break;
    case 12: events.push_back(integer(same("sc.AddImmediateEvent(" + ep + ")", [&] { return asInt(sc->AddImmediateEvent(entry)); }))); break;
    case 13: case 14: case 15: case 16: {
      const auto kind = r.below(4);
      auto t = when();
      if (kind == 3) t = 4000000000000000000 + r.range(0, 1000); // far in the future
      if (kind == 2) t += tk->GetEpochTime() > 1000000000000000 ? 0 : 0;
      const auto cycle = static_cast<::Smp::Duration>(r.pick<std::int64_t>({1000, 10000, 1000000, 0, -1}));
      const auto repeat = static_cast<::Smp::Int64>(r.pick<std::int64_t>({0, 0, 1, 3, -1}));
      const auto how = r.below(3);
      static const char *const names[] = {"Simulation", "Mission", "Epoch", "Zulu"};
      const auto e = std::string("sc.Add") + names[kind] + "TimeEvent(" + ep + ", " + num(t) + (how == 0 ? "" : how == 1 ? ", " + num(cycle) + ", " + num(repeat) : ", repeat=" + num(repeat) + ", cycle_time=" + num(cycle)) + ")";
      const auto cy = how ? cycle : 0;
      const auto re = how ? repeat : 0;
      const auto id = integer(same(e, [&] {
        switch (kind) {
        case 0: return asInt(sc->AddSimulationTimeEvent(entry, t, cy, re));
        case 1: return asInt(sc->AddMissionTimeEvent(entry, t, cy, re));
        case 2: return asInt(sc->AddEpochTimeEvent(entry, t, cy, re));
        default: return asInt(sc->AddZuluTimeEvent(entry, t, cy, re));
        }
      }));
      if (id >= 0) events.push_back(id);
      break;
    }
    case 17: { const auto t = when(); same("sc.SetEventSimulationTime(" + num(ev) + ", " + num(t) + ")", [&] { sc->SetEventSimulationTime(ev, t); return NONE; }); break; }
    case 18: { const auto t = when(); same("sc.SetEventMissionTime(" + num(ev) + ", " + num(t) + ")", [&] { sc->SetEventMissionTime(ev, t); return NONE; }); break; }
    case 19: { const auto t = when(); same("sc.SetEventEpochTime(" + num(ev) + ", " + num(t) + ")", [&] { sc->SetEventEpochTime(ev, t); return NONE; }); break; }
    case 20: { const auto t = 4000000000000000000 + r.range(0, 1000); same("sc.SetEventZuluTime(" + num(ev) + ", " + num(t) + ")", [&] { sc->SetEventZuluTime(ev, t); return NONE; }); break; }
    case 21: { const auto t = static_cast<::Smp::Duration>(r.pick<std::int64_t>({1000, 5000, 0, -1})); same("sc.SetEventCycleTime(" + num(ev) + ", " + num(t) + ")", [&] { sc->SetEventCycleTime(ev, t); return NONE; }); break; }
    case 22: { const auto t = static_cast<::Smp::Int64>(r.pick<std::int64_t>({0, 1, 4})); same("sc.SetEventRepeat(" + num(ev) + ", " + num(t) + ")", [&] { sc->SetEventRepeat(ev, t); return NONE; }); break; }
    case 23: same("sc.RemoveEvent(" + num(ev) + ")", [&] { sc->RemoveEvent(ev); return NONE; }); break;
    case 24: same("lr.AddLink" + ab, [&] { lr->AddLink(right.models[a], right.models[b]); return NONE; }); break;
    case 25: switch (r.below(5)) {
      case 0: same("lr.RemoveLink" + ab, [&] { return asBool(lr->RemoveLink(right.models[a], right.models[b])); }); break;
      case 1: same("lr.GetLinkCount" + ab, [&] { return asInt(lr->GetLinkCount(right.models[a], right.models[b])); }); break;
      case 2: same("lr.CanRemove(sim.m" + std::to_string(a) + ")", [&] { return asBool(lr->CanRemove(right.models[a])); }); break;
      case 3: same("lr.RemoveLinks(sim.m" + std::to_string(a) + ")", [&] { lr->RemoveLinks(right.models[a]); return NONE; }); break;
      default: same("str([x.GetName() for x in lr.GetLinkSources(sim.m" + std::to_string(a) + ")])", [&] { std::string l; for (auto *x : *lr->GetLinkSources(right.models[a])) l += std::string(l.empty() ? "" : ", ") + "\\'" + x->GetName() + "\\'"; std::string plain; for (auto *x : *lr->GetLinkSources(right.models[a])) plain += std::string(plain.empty() ? "" : ", ") + "'" + x->GetName() + "'"; return plain.empty() ? std::string("str '[]'") : "str \"[" + plain + "]\""; });
      }
      break;
    case 26: { const auto n = r.pick<std::string>({"Information", "Event", "Warning", "Error", "Debug", "Mine", "Yours", "Mine"}); same("log.QueryLogMessageKind('" + n + "')", [&] { return asInt(log->QueryLogMessageKind(n.c_str())); }); break; }
    case 27: { // types
      const auto u = uuid(), v = uuid();
      const auto pu = "U('" + u + "')", pv = "U('" + v + "')";
      const ::Smp::Uuid cu(u.c_str()), cv(v.c_str());
      const auto n = "T" + std::to_string(s);
      switch (r.below(7)) {
      case 0: { const auto kind = r.pick<std::pair<std::string, K>>({{"K.PTK_Float32", K::PTK_Float32}, {"K.PTK_Float64", K::PTK_Float64}, {"K.PTK_Int8", K::PTK_Int8}}); same("name(tr.AddFloatType('" + n + "', 'd', " + pu + ", -1.5, 2.5, True, False, 'm', " + kind.first + "))", [&] { return asName(tr->AddFloatType(n.c_str(), "d", cu, -1.5, 2.5, true, false, "m", kind.second)); }); break; }
      case 1: { const auto kind = r.pick<std::pair<std::string, K>>({{"K.PTK_Int8", K::PTK_Int8}, {"K.PTK_UInt64", K::PTK_UInt64}, {"K.PTK_Float64", K::PTK_Float64}}); same("name(tr.AddIntegerType('" + n + "', 'd', " + pu + ", -5, 9, 's', " + kind.first + "))", [&] { return asName(tr->AddIntegerType(n.c_str(), "d", cu, -5, 9, "s", kind.second)); }); break; }
      case 2: { const auto size = static_cast<::Smp::Int16>(r.pick<int>({1, 2, 4, 8})); same("(lambda t: (t.AddLiteral('one', '', 1), t.AddLiteral('two', '', 2), t.GetName())[2])(tr.AddEnumerationType('" + n + "', 'd', " + pu + ", " + num(size) + "))", [&] { auto *t = tr->AddEnumerationType(n.c_str(), "d", cu, size); t->AddLiteral("one", "", 1); t->AddLiteral("two", "", 2); return asName(t); }); break; }
      case 3: { const bool simple = r.chance(1, 2); const int count = r.range(0, 5); same("(lambda t: str((t.GetName(), t.GetSize(), name(t.GetItemType()))))(tr.AddArrayType('" + n + "', 'd', " + pu + ", " + pv + ", 4, " + num(count) + (simple ? ", True" : "") + "))", [&] { auto *t = tr->AddArrayType(n.c_str(), "d", cu, cv, 4, count, simple); auto *i = t->GetItemType(); return std::string("str \"('") + t->GetName() + "', " + std::to_string(t->GetSize()) + ", " + (i ? std::string("'") + i->GetName() + "'" : std::string("None")) + ")\""; }); break; }
      case 4: { const int length = r.range(0, 9); same("name(tr.AddStringType('" + n + "', 'd', " + pu + ", " + num(length) + "))", [&] { return asName(tr->AddStringType(n.c_str(), "d", cu, length)); }); break; }
      case 5: { same("(lambda t: (t.AddField('f', '', " + pv + ", 8), t.GetName())[1])(tr.AddStructureType('" + n + "', 'd', " + pu + "))", [&] { auto *t = tr->AddStructureType(n.c_str(), "d", cu); t->AddField("f", "", cv, 8); return asName(t); }); break; }
      default: same("name(tr.AddClassType('" + n + "', 'd', " + pu + ", " + pv + "))", [&] { return asName(tr->AddClassType(n.c_str(), "d", cu, cv)); });
      }
      for (auto &x : uuids) {
        auto *p = left.sim->GetTypeRegistry()->GetType(::Smp::Uuid(x.c_str())), *q = tr->GetType(::Smp::Uuid(x.c_str()));
        XV_EQ(asName(p), asName(q), "types", "the type " + x);
        if (p && q) {
          XV_CHECK(p->GetPrimitiveTypeKind() == q->GetPrimitiveTypeKind(), "types", "primitive type of " << x);
          XV_EQ(std::string(p->GetDescription()), std::string(q->GetDescription()), "types", "description of " + x);
        }
      }
      XV_COUNT("types added");
      break;
    }
    case 28: { const auto u = r.pick(uuids); same("name(tr.GetType(U('" + u + "')))", [&] { return asName(tr->GetType(::Smp::Uuid(u.c_str()))); }); break; }
    case 29: { // the simulator
      switch (r.below(7)) {
      case 0: { const auto e = "(sim.AddInitEntryPoint(" + ep + "), sim.Initialise())[1]"; same(e, [&] { sim->AddInitEntryPoint(entry); sim->Initialise(); return NONE; }); break; }
      case 1: same("name(sim.CreateInstance(U('" + r.pick(uuids) + "'), 'x', 'd', sim))", [&] { return NONE; }); break;
      case 2: same("name(sim.GetFactory(U('" + r.pick(uuids) + "')))", [&] { return NONE; }); break;
      case 3: same("sim.LoadLibrary('no_such_library')", [&] { sim->LoadLibrary("no_such_library"); return NONE; }); break;
      case 4: same("(sim.Store('left'), sim.Restore('left'))[1]", [&] { sim->Store("right"); sim->Restore("right"); return NONE; }); break;
      case 5: same("sim.Restore('nothing')", [&] { sim->Restore("nothing"); return NONE; }); break;
      default: same("sim.Reconnect(sim.m" + std::to_string(a) + ")", [&] { sim->Reconnect(right.models[a]); return NONE; });
      }
      break;
    }
    default: { // some time
      const auto d = static_cast<::Smp::Duration>(r.pick<std::int64_t>({0, static_cast<std::int64_t>(r.below(5)), static_cast<std::int64_t>(r.below(3000)), static_cast<std::int64_t>(r.below(300000))}));
      same("sim.Run(nanoseconds=" + num(d) + ")", [&] { sim->Run(d); return NONE; });
      XV_COUNT("runs of both");
    }
    }
    XV_EQ(left.state(), right.state(), "state", "state of the simulator used from Python");
  }
  c.nontrivial = true;
  python.exec("del em, tk, sc, lr, log, tr\ngc.collect()");
}

namespace {
const char *const CHECK_HINTS = R"PY(
import ast
def load(path):
    with open(path, encoding='utf-8', newline='') as f:
        text = f.read()
    names = {}
    exec(compile(text, 'hints.py', 'exec'), names)
    nodes = [n for n in ast.parse(text).body if isinstance(n, ast.ClassDef)]
    return names['Simulator'], nodes[0]
def known(name):
    o = ecss_smp.Smp
    for n in name.split('.'):
        o = getattr(o, n)
    return o
def compare(at, cls, node, obj, spec, out):
    attrs, ops, kids, bases = spec
    has = dict(cls.__dict__.get('__annotations__', {}))
    if set(has) != set(attrs) | set(kids):
        out.append(at + ' has the attributes ' + str(sorted(has)) + ' instead of ' + str(sorted(set(attrs) | set(kids))))
        return
    found = {n for n, v in cls.__dict__.items() if callable(v) and n[0] != '_'}
    if found != set(ops):
        out.append(at + ' has the operations ' + str(sorted(found)) + ' instead of ' + str(sorted(ops)))
    for b in cls.__mro__[1:]:
        if b is not object and not isinstance(obj, b):
            out.append(at + ' is said to be a ' + b.__name__)
    for b in bases:
        if not issubclass(cls, known(b)):
            out.append(at + ' is not said to be a ' + b)
    for n, i in attrs.items():
        if has[n] is not known(i):
            out.append(at + '.' + n + ' is said to be a ' + str(has[n]) + ' instead of a ' + i)
        if not isinstance(getattr(obj, n), known(i)):
            out.append(at + '.' + n + ' is no ' + i)
    for n in ops:
        if not isinstance(getattr(obj, n), ecss_smp.Smp.IOperation):
            out.append(at + '.' + n + ' is no operation')
    classes = {n.name: n for n in node.body if isinstance(n, ast.ClassDef)}
    docs, last = {}, None
    for n in node.body:
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant) and last:
            docs[last] = n.value.value
        last = n.target.id if isinstance(n, ast.AnnAssign) else None
    for n, (inner, text) in kids.items():
        if docs.get(n, '') != text:
            out.append(at + '.' + n + ' is described as ' + ascii(docs.get(n, '')) + ' instead of ' + ascii(text))
        child = getattr(obj, n)
        if child.GetName() != n:
            out.append(at + '.' + n + ' is ' + child.GetName())
        compare(at + '.' + n, has[n], classes['__' + n], child, inner, out)
def hints(path, sim, spec):
    try:
        cls, node = load(path)
    except SyntaxError as e:
        return ['the hints are no Python: ' + str(e) + ': ' + ascii(e.text)]
    out = []
    compare('sim', cls, node, sim, spec, out)
    return out
)PY";
/// the words Python keeps for itself
const std::set<std::string> &pythonKeywords() {
  static const std::set<std::string> k{"False", "None", "True", "and", "as", "assert", "async", "await", "break", "class", "continue", "def", "del", "elif", "else", "except", "finally", "for", "from", "global", "if", "import", "in", "is", "lambda", "nonlocal", "not", "or", "pass", "raise", "return", "try", "while", "with", "yield"};
  return k;
}
/// a text as an expression of Python
std::string literal(const std::string &s) {
  std::string r = "b'";
  for (const char ch : s) { char b[8]; std::snprintf(b, sizeof b, "\\x%02x", static_cast<unsigned>(static_cast<unsigned char>(ch))); r += b; }
  return r + "'.decode('utf-8')";
}
/// what the hints have to say of an object
std::string specOf(const ::Smp::IObject *o) {
  std::string attrs, ops, kids, bases;
  std::uint64_t count = 0;
  auto usable = [](const ::Smp::IObject *x) { return pythonKeywords().count(x->GetName()) == 0; };
  auto attr = [&](const ::Smp::IObject *x, const char *type, bool underscore = false) { if (underscore || usable(x)) { attrs += std::string("'") + (underscore ? "_" : "") + x->GetName() + "': '" + type + "', "; ++count; } };
  auto kid = [&](const ::Smp::IObject *x) { if (usable(x)) { kids += std::string("'") + x->GetName() + "': (" + specOf(x) + ", " + literal(x->GetDescription()) + "), "; ++count; } };
  auto is = [&](auto *p, const char *name) {
    const bool yes = dynamic_cast<decltype(p)>(o) != nullptr;
    if (yes) bases += std::string("'") + name + "', ";
    return yes;
  };
  is(static_cast<const ::Smp::IModel *>(nullptr), "IModel");
  is(static_cast<const ::Smp::IService *>(nullptr), "IService");
  is(static_cast<const ::Smp::Services::ILogger *>(nullptr), "Services.ILogger");
  is(static_cast<const ::Smp::Services::ITimeKeeper *>(nullptr), "Services.ITimeKeeper");
  is(static_cast<const ::Smp::Services::IScheduler *>(nullptr), "Services.IScheduler");
  is(static_cast<const ::Smp::Services::IResolver *>(nullptr), "Services.IResolver");
  is(static_cast<const ::Smp::Services::IEventManager *>(nullptr), "Services.IEventManager");
  is(static_cast<const ::Smp::Services::ILinkRegistry *>(nullptr), "Services.ILinkRegistry");
  is(static_cast<const ::Smp::ISimulator *>(nullptr), "ISimulator");
  is(static_cast<const ::Smp::ISimpleField *>(nullptr), "ISimpleField");
  is(static_cast<const ::Smp::IForcibleField *>(nullptr), "IForcibleField");
  is(static_cast<const ::Smp::IArrayField *>(nullptr), "IArrayField");
  is(static_cast<const ::Smp::ISimpleArrayField *>(nullptr), "ISimpleArrayField");
  is(static_cast<const ::Smp::IDataflowField *>(nullptr), "IDataflowField");
  is(static_cast<const ::Smp::IFailure *>(nullptr), "IFailure");
  if (is(static_cast<const ::Smp::IAggregate *>(nullptr), "IAggregate"))
    if (auto *v = dynamic_cast<const ::Smp::IAggregate *>(o)->GetReferences()) for (auto *x : *v) attr(x, "IReference", true);
  if (is(static_cast<const ::Smp::IDynamicInvocation *>(nullptr), "IDynamicInvocation")) {
    auto *d = dynamic_cast<const ::Smp::IDynamicInvocation *>(o);
    if (auto *v = d->GetOperations()) for (auto *x : *v) if (usable(x)) { ops += std::string("'") + x->GetName() + "', "; ++count; }
    if (auto *v = d->GetProperties()) for (auto *x : *v) attr(x, "IProperty");
  }
  if (is(static_cast<const ::Smp::IEventConsumer *>(nullptr), "IEventConsumer"))
    if (auto *v = dynamic_cast<const ::Smp::IEventConsumer *>(o)->GetEventSinks()) for (auto *x : *v) attr(x, "IEventSink");
  if (is(static_cast<const ::Smp::IEventProvider *>(nullptr), "IEventProvider"))
    if (auto *v = dynamic_cast<const ::Smp::IEventProvider *>(o)->GetEventSources()) for (auto *x : *v) attr(x, "IEventSource");
  if (is(static_cast<const ::Smp::IEntryPointPublisher *>(nullptr), "IEntryPointPublisher"))
    if (auto *v = dynamic_cast<const ::Smp::IEntryPointPublisher *>(o)->GetEntryPoints()) for (auto *x : *v) attr(x, "IEntryPoint");
  if (is(static_cast<const ::Smp::IComposite *>(nullptr), "IComposite"))
    if (auto *v = dynamic_cast<const ::Smp::IComposite *>(o)->GetContainers()) for (auto *x : *v) {
      attr(x, "IContainer", true);
      for (auto *y : *x->GetComponents()) kid(y);
    }
  if (auto *p = dynamic_cast<const ::Smp::IComponent *>(o)) if (auto *v = p->GetFields()) for (auto *x : *v) kid(x);
  if (is(static_cast<const ::Smp::IStructureField *>(nullptr), "IStructureField")) for (auto *x : *dynamic_cast<const ::Smp::IStructureField *>(o)->GetFields()) kid(x);
  xv::count("objects in the hints", count);
  return "({" + attrs + "}, {" + (ops.empty() ? "*()" : ops) + "}, {" + kids + "}, [" + bases + "])";
}
} // namespace

// the type hints describe the simulation as it is
XV_SCENARIO_NOLEAK(C52, hints, 240, 8000) {
  auto &r = c.rng;
  PySim world(c, false);
  auto &python = world.python;
  auto *sim = world.sim;
  XV_EQ(python.exec(CHECK_HINTS), "", "connect", "the checker of the hints");
  int serial = 0;
  std::set<std::string> used;
  auto name = [&]() -> std::string {
    if (r.chance(1, 40)) {
      const std::vector<std::string> k(pythonKeywords().begin(), pythonKeywords().end());
      const auto &n = r.pick(k);
      if (used.insert(n).second) { XV_COUNT("names that are keywords"); return n; }
    }
    static const std::vector<std::string> first{"a", "m", "Field", "pass_", "x_y", "defs", "T", "Simulator", "In", "None_"};
    return r.pick(first) + std::to_string(serial++);
  };
  auto description = [&]() -> std::string {
    std::string s;
    static const std::vector<std::string> piece{"\"", "\"\"\"", "'", "\\", "\\n", "\\x", "\\N{", "\n", "\r", "\t", " ", "#", "text", "\xc3\xa9", "{}", "%d", "'''", "\\u12"};
    if (r.chance(1, 2)) return "";
    for (auto n = 1 + r.below(6); n > 0; --n) s += r.chance(1, 2) ? std::string("words ") : r.pick(piece);
    if (s.find_first_of("\"\\") != std::string::npos) XV_COUNT("descriptions with quotes or backslashes");
    return s;
  };
  auto *types = sim->GetTypeRegistry();
  std::vector<std::unique_ptr<char[]>> memory;
  auto take = [&](std::size_t n) { memory.emplace_back(new char[n + 64]()); return memory.back().get(); };
  std::function<::Smp::Uuid(int)> type = [&](int depth) -> ::Smp::Uuid { // a type of at most 4096 bytes
    switch (r.below(depth > 2 ? 2 : 5)) {
    case 0: case 1: return uuidOf(r.pick<K>({K::PTK_Bool, K::PTK_Int8, K::PTK_UInt64, K::PTK_Float64, K::PTK_Char8, K::PTK_Duration, K::PTK_DateTime}));
    case 2: {
      const auto u = freshUuid(c);
      types->AddStringType(name().c_str(), "", u, r.range(1, 20));
      return u;
    }
    case 3: {
      const auto u = freshUuid(c);
      auto *s = types->AddStructureType(name().c_str(), "", u);
      for (int k = r.range(1, 3), i = 0; i < k; ++i) s->AddField(name().c_str(), description().c_str(), type(depth + 1), i * (1024 >> (2 * depth)));
      return u;
    }
    default: {
      const auto u = freshUuid(c);
      const bool simple = r.chance(1, 2);
      types->AddArrayType(name().c_str(), "", u, simple ? uuidOf(K::PTK_Int32) : type(depth + 1), simple ? 4 : 1024 >> (2 * depth), r.range(1, 3), simple);
      return u;
    }
    }
  };
  auto members = [&](auto &n) {
    for (auto k = r.below(3); k > 0; --k) n.own.template make<::Xsmp::EntryPoint>(name().c_str(), description().c_str(), static_cast<::Xsmp::EntryPointPublisher *>(&n), [] {});
    for (auto k = r.below(3); k > 0; --k) n.own.template make<::Xsmp::EventSource<void>>(name().c_str(), description().c_str(), static_cast<::Xsmp::EventProvider *>(&n));
    for (auto k = r.below(3); k > 0; --k) n.own.template make<::Xsmp::EventSink<void>>(name().c_str(), description().c_str(), static_cast<::Xsmp::EventConsumer *>(&n), [](::Smp::IObject *) {});
    for (auto k = r.below(3); k > 0; --k) n.own.template make<::Xsmp::Reference<::Smp::IComponent>>(name().c_str(), description().c_str(), static_cast<::Xsmp::Aggregate *>(&n), 0, -1);
    n.onPublish = [&](::Smp::IPublication *p) {
      for (auto k = r.below(4); k > 0; --k) p->PublishField(name().c_str(), description().c_str(), take(4096), type(0), ::Smp::ViewKind::VK_All, r.chance(1, 2), r.chance(1, 3), r.chance(1, 3));
      for (auto k = r.below(3); k > 0; --k) p->PublishOperation(name().c_str(), description().c_str());
      for (auto k = r.below(3); k > 0; --k) p->PublishProperty(name().c_str(), description().c_str(), uuidOf(K::PTK_Int32), ::Smp::AccessKind::AK_ReadWrite);
    };
  };
  std::vector<NodeOf<::Xsmp::Model> *> models;
  bool created = false;
  auto add = [&] {
    if (r.chance(1, 4)) {
      auto *s = new Svc(name().c_str(), description().c_str(), sim, sim);
      members(*s);
      sim->AddService(s);
      c.op(std::string("a service ") + s->GetName());
      XV_COUNT("services added");
    } else if (models.empty() || r.chance(1, 2)) {
      auto *n = new Node(name().c_str(), description().c_str(), sim, sim);
      members(*n);
      sim->AddModel(n);
      models.push_back(n);
      c.op(std::string("a model ") + n->GetName());
    } else {
      auto *parent = r.pick(models);
      auto *n = new Node(name().c_str(), description().c_str(), parent, sim);
      members(*n);
      parent->children.AddComponent(n);
      models.push_back(n);
      c.op(std::string("a model ") + n->GetName() + " in " + parent->GetName());
    }
    created = true;
  };
  for (auto k = r.below(6); k > 0; --k) add();
  auto check = [&] {
    if (created) XV_COUNT("hints with components that publish nothing yet");
    const auto spec = specOf(sim);
    c.op("sim.generate_python_type_hints");
    XV_EQ(python.exec("sim.generate_python_type_hints('hints.py')"), "", "hints", "writing the hints");
    const auto got = python.eval("hints('hints.py', sim, " + spec + ")");
    XV_EQ(got.text(), "list []", "hints", "what is wrong in the type hints");
    XV_COUNT("hints compared");
    c.nontrivial = true;
  };
  if (r.chance(1, 3)) check();
  XV_EQ(python.exec("sim.Publish()"), "", "connect", "publishing");
  created = false;
  if (r.chance(1, 3)) check();
  XV_EQ(python.exec("sim.Configure()\nsim.Connect()"), "", "connect", "connecting");
  check();
  for (auto k = r.below(3); k > 0; --k) {
    add();
    if (r.chance(1, 2)) check();
  }
  check();
}
