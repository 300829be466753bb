// C44: every error reports exactly the facts it was raised with.
#include "smpx.h"
#include <Smp/CannotDelete.h>
#include <Smp/CannotRemove.h>
#include <Smp/CannotRestore.h>
#include <Smp/CannotStore.h>
#include <Smp/ContainerFull.h>
#include <Smp/DuplicateName.h>
#include <Smp/DuplicateUuid.h>
#include <Smp/EventSinkAlreadySubscribed.h>
#include <Smp/EventSinkNotSubscribed.h>
#include <Smp/FieldAlreadyConnected.h>
#include <Smp/InvalidAnyType.h>
#include <Smp/InvalidArrayIndex.h>
#include <Smp/InvalidArraySize.h>
#include <Smp/InvalidArrayValue.h>
#include <Smp/InvalidComponentState.h>
#include <Smp/InvalidEventSink.h>
#include <Smp/InvalidFieldName.h>
#include <Smp/InvalidFieldType.h>
#include <Smp/InvalidFieldValue.h>
#include <Smp/InvalidLibrary.h>
#include <Smp/InvalidObjectName.h>
#include <Smp/InvalidObjectType.h>
#include <Smp/InvalidOperationName.h>
#include <Smp/InvalidParameterCount.h>
#include <Smp/InvalidParameterIndex.h>
#include <Smp/InvalidParameterType.h>
#include <Smp/InvalidParameterValue.h>
#include <Smp/InvalidReturnValue.h>
#include <Smp/InvalidSimulatorState.h>
#include <Smp/InvalidTarget.h>
#include <Smp/LibraryNotFound.h>
#include <Smp/NotContained.h>
#include <Smp/NotReferenced.h>
#include <Smp/Publication/DuplicateLiteral.h>
#include <Smp/Publication/InvalidPrimitiveType.h>
#include <Smp/Publication/TypeAlreadyRegistered.h>
#include <Smp/Publication/TypeNotRegistered.h>
#include <Smp/ReferenceFull.h>
#include <Smp/Services/EntryPointAlreadySubscribed.h>
#include <Smp/Services/EntryPointNotSubscribed.h>
#include <Smp/Services/InvalidCycleTime.h>
#include <Smp/Services/InvalidEventId.h>
#include <Smp/Services/InvalidEventName.h>
#include <Smp/Services/InvalidEventTime.h>
#include <Smp/Services/InvalidSimulationTime.h>
#include <Smp/VoidOperation.h>
#include <Xsmp/Exception.h>
#include <Xsmp/Factory.h>
#include <thread>
namespace E = ::Xsmp::Exception;
using namespace smpx;
namespace {
/// a text that only lives while the error is raised
struct Text {
  std::string s;
  bool null;
  std::string want() const { return null ? "<null>" : s; }
};
struct Lent {
  char *p;
  std::size_t n;
  explicit Lent(const Text &t) : p(nullptr), n(t.s.size()) { if (!t.null) { p = new char[n + 1]; std::memcpy(p, t.s.c_str(), n + 1); } }
  Lent(const Lent &) = delete;
  ~Lent() { if (p) { std::memset(p, '#', n); delete[] p; } }
  operator const char *() const { return p; }
  /// not NUL-terminated: exactly the text
  struct View { char *p; std::size_t n; View(const std::string &s) : p(new char[s.size()]), n(s.size()) { std::memcpy(p, s.data(), n); } ~View() { std::memset(p, '#', n); delete[] p; } operator std::string_view() const { return {p, n}; } };
};
Text text(xv::Case &c, bool mayBeNull) {
  if (mayBeNull && c.rng.chance(1, 8)) return {"", true};
  static const char chars[] = "abcXYZ019_ []./%'\"\\\n\t\x80\xff";
  std::string s;
  for (auto n = c.rng.chance(1, 30) ? c.rng.range(300, 5000) : c.rng.range(0, 20); n > 0; --n) s += chars[c.rng.below(sizeof chars - 1)];
  return {s, false};
}
::Smp::AnySimple value(xv::Case &c) {
  switch (c.rng.below(5)) {
  case 0: return {Kind::PTK_Int32, static_cast<::Smp::Int32>(c.rng.next())};
  case 1: return {Kind::PTK_Float64, c.rng.unit()};
  case 2: return {Kind::PTK_Bool, c.rng.chance(1, 2)};
  case 3: return {Kind::PTK_String8, Lent(text(c, false)).operator const char *()};
  default: return {Kind::PTK_UInt64, c.rng.next()};
  }
}
struct World {
  ::Xsmp::Simulator sim;
  Node &root;
  Node &other;
  ::Xsmp::Publication::TypeRegistry &types;
  ::Xsmp::Publication::Publication pub;
  ::Xsmp::Container<::Smp::IComponent> box;
  ::Xsmp::Reference<::Smp::IComponent> ref;
  ::Xsmp::EventSource<void> source;
  ::Xsmp::EventSink<void> sink;
  ::Xsmp::EntryPoint entry;
  ::Xsmp::Field<::Smp::Int32>::output out;
  ::Xsmp::Field<::Smp::Int32>::input in;
  std::unique_ptr<::Smp::IFactory> factory;
  ::Smp::IOperation *operation = nullptr;
  ::Smp::ISimpleArrayField *array = nullptr;
  ::Smp::IArrayField *fieldArray = nullptr;
  double doubles[8] = {};
  std::vector<std::unique_ptr<Leaf>> leaves;
  static Node &add(::Xsmp::Simulator &s, const char *n) { auto *p = new Node(n, "", &s); s.AddModel(p); return *p; }
  explicit World(xv::Case &c)
      : root(add(sim, "root")), other(add(sim, "other")), types(dynamic_cast<::Xsmp::Publication::TypeRegistry &>(*sim.GetTypeRegistry())), pub(&root, &types),
        box("box", "", static_cast<::Smp::IObject *>(&root), static_cast<::Smp::Int64>(c.rng.below(9)), 20),
        ref("ref", "", static_cast<::Smp::IObject *>(&root), static_cast<::Smp::Int64>(c.rng.below(9)), 20), source("source", "", static_cast<::Smp::IObject *>(&root)),
        sink("sink", "", static_cast<::Smp::IObject *>(&other), [](::Smp::IObject *) {}), entry("entry", "", static_cast<::Smp::IObject *>(&root), [] {}),
        out(&types, ::Smp::Uuids::Uuid_Int32, "out", "", &root), in(&types, ::Smp::Uuids::Uuid_Int32, "in", "", &other),
        factory(::Xsmp::Factory::Create<Node>("theFactory", "", &sim, nodeUuid)) {
    types.AddArrayType("At", "", {7, 7, 7, 7, 7}, ::Smp::Uuids::Uuid_Float64, sizeof(double), 8, true);
    types.AddArrayType("At2", "", {7, 7, 7, 7, 8}, ::Smp::Uuids::Uuid_Float64, sizeof(double), 8, false);
    pub.PublishField("arr", "", doubles, {7, 7, 7, 7, 7}, ::Smp::ViewKind::VK_All, true, false, false);
    pub.PublishField("farr", "", doubles, {7, 7, 7, 7, 8}, ::Smp::ViewKind::VK_All, true, false, false);
    array = dynamic_cast<::Smp::ISimpleArrayField *>(pub.GetField("arr"));
    fieldArray = dynamic_cast<::Smp::IArrayField *>(pub.GetField("farr"));
    auto *op = pub.PublishOperation("oper", "", ::Smp::ViewKind::VK_All);
    for (int i = static_cast<int>(c.rng.below(4)); i > 0; --i) op->PublishParameter(("p" + std::to_string(i)).c_str(), "", ::Smp::Uuids::Uuid_Int32, ::Smp::Publication::ParameterDirectionKind::PDK_In);
    if (c.rng.chance(1, 2)) op->PublishParameter("result", "", ::Smp::Uuids::Uuid_Int32, ::Smp::Publication::ParameterDirectionKind::PDK_Return);
    operation = pub.GetOperations()->at("oper");
    for (auto n = c.rng.below(5); n > 0; --n) {
      auto *leaf = new Leaf(("leaf" + std::to_string(n)).c_str(), "", &root);
      box.AddComponent(leaf);
      ref.AddComponent(leaf);
    }
  }
};
/// one raised error, kept alive beyond the call that raised it, and what it must report
struct Raised {
  std::string kind, description;
  std::exception_ptr e;
  std::function<void(const ::Smp::Exception &)> facts;
  const ::Smp::IObject *sender;
  std::vector<std::string> contains;
  const char *message = nullptr; // the text seen first, with its address
  std::string seen;
};
std::map<std::string, std::string> &descriptions() { static auto *m = new std::map<std::string, std::string>; return *m; }

void verify(Raised &r) {
  bool asSmp = false;
  try {
    std::rethrow_exception(r.e);
  } catch (const ::Smp::Exception &x) {
    asSmp = true;
    XV_EQ(std::string(x.GetName()), r.kind, "name", r.kind << ": error name");
    const std::string d = x.GetDescription(), m = x.GetMessage(), w = x.what();
    XV_CHECK(!d.empty() || r.kind == "Custom", "description", r.kind << ": empty description");
    if (r.kind == "Custom" || !r.description.empty()) XV_EQ(xv::show(d), xv::show(r.description), "description", r.kind << ": description");
    else {
      auto &known = descriptions()[r.kind];
      if (known.empty()) known = d;
      XV_EQ(xv::show(d), xv::show(known), "description", r.kind << ": description of two errors of this kind");
    }
    XV_EQ(x.GetSender(), r.sender, "sender", r.kind << ": sender");
    for (const auto &t : r.contains) XV_CHECK(m.find(t) != std::string::npos, "message", r.kind << ": message " << xv::show(m, 300) << " does not contain " << xv::show(t, 300));
    XV_CHECK(w.find(std::string(x.GetName())) != std::string::npos && w.find(d) != std::string::npos && w.find(m) != std::string::npos, "what", r.kind << ": what() " << xv::show(w, 300) << " lacks name, description or message " << xv::show(m, 300));
    if (r.message) XV_EQ(xv::show(m, 300), xv::show(r.seen, 300), "stable", r.kind << ": message changed while the error lived");
    r.seen = m;
    r.message = "";
    r.facts(x);
    XV_COUNT("errors inspected");
  } catch (const xv::Violation &) { throw; }
  catch (const std::exception &x) { XV_FAIL("type", r.kind << ": raised " << x.what() << ", which is no Smp error"); }
  XV_CHECK(asSmp, "type", r.kind << ": not caught as Smp error");
}
std::string num(::Smp::Int64 v) { return std::to_string(v); }

struct Maker {
  xv::Case &c;
  World &w;
  std::vector<Raised> out;
  template <typename T, typename F, typename G> void raise(const std::string &kind, const ::Smp::IObject *sender, std::vector<std::string> contains, F &&f, G &&facts) {
    c.op(kind);
    Raised r;
    r.kind = kind;
    r.sender = sender;
    r.contains = std::move(contains);
    r.facts = [kind, facts](const ::Smp::Exception &x) {
      const auto *t = dynamic_cast<const T *>(&x);
      XV_CHECK(t, "type", kind << ": the error is not of its documented type");
      facts(*t);
    };
    try { f(); XV_FAIL("raise", kind << ": nothing raised"); }
    catch (const xv::Violation &) { throw; }
    catch (const T &) { r.e = std::current_exception(); }
    catch (const std::exception &x) { XV_FAIL("type", kind << ": raised another error: " << x.what()); }
    out.push_back(std::move(r));
    XV_COUNT("errors raised");
  }
  ::Smp::IComponent *component() { return c.rng.chance(1, 5) ? nullptr : c.rng.chance(1, 2) ? static_cast<::Smp::IComponent *>(&w.root) : &w.other; }
  Kind kind() { return static_cast<Kind>(c.rng.below(16)); }
  const ::Smp::IObject *sender() { return c.rng.chance(1, 6) ? nullptr : c.rng.pick({static_cast<const ::Smp::IObject *>(&w.root), static_cast<const ::Smp::IObject *>(&w.other), static_cast<const ::Smp::IObject *>(&w.sim), static_cast<const ::Smp::IObject *>(&w.box)}); }
  ::Smp::Int64 big() { return c.rng.chance(1, 3) ? static_cast<::Smp::Int64>(c.rng.next()) : c.rng.range(-20, 20); }
  ::Smp::Int32 i32() { return c.rng.chance(1, 3) ? static_cast<::Smp::Int32>(c.rng.next()) : static_cast<::Smp::Int32>(c.rng.range(-20, 20)); }
#define SAME(x, want, what) XV_EQ(x, want, "fact", what)
#define SAMETEXT(x, want, what) XV_EQ(xv::show(x, 6000), xv::show(want, 6000), "fact", what)
  void one(unsigned which) {
    namespace S = ::Smp;
    const auto *from = sender();
    switch (which) {
    case 0: { auto t = text(c, true); auto d = text(c, false);
      raise<S::InvalidObjectName>("InvalidObjectName", from, {t.want(), d.s}, [&] { E::throwInvalidObjectName(from, Lent(t), Lent::View(d.s)); }, [=](auto &e) { SAMETEXT(e.GetInvalidName(), t.want(), "InvalidObjectName::GetInvalidName"); }); break; }
    case 1: { auto n = w.box.GetCount();
      raise<S::ContainerFull>("ContainerFull", &w.box, {"box", num(n)}, [&] { E::throwContainerFull(&w.box); }, [=](auto &e) { SAMETEXT(e.GetContainerName(), "box", "ContainerFull::GetContainerName"); SAME(e.GetContainerSize(), n, "ContainerFull::GetContainerSize"); }); break; }
    case 2: { auto t = text(c, true);
      raise<S::DuplicateName>("DuplicateName", from, {t.want(), ::Xsmp::Helper::GetPath(&w.other)}, [&] { E::throwDuplicateName(from, Lent(t), &w.other); }, [=](auto &e) { SAMETEXT(e.GetDuplicateName(), t.want(), "DuplicateName::GetDuplicateName"); }); break; }
    case 3: { auto *p = component();
      raise<S::NotContained>("NotContained", &w.box, {"box", ::Xsmp::Helper::GetPath(p)}, [&] { E::throwNotContained(&w.box, p); }, [=](auto &e) { SAMETEXT(e.GetContainerName(), "box", "NotContained::GetContainerName"); SAME(e.GetComponent(), p, "NotContained::GetComponent"); }); break; }
    case 4: { auto *p = component(); auto low = w.box.GetLower();
      raise<S::CannotDelete>("CannotDelete", &w.box, {"box", ::Xsmp::Helper::GetPath(p), num(low)}, [&] { E::throwCannotDelete(&w.box, p); }, [=](auto &e) { SAMETEXT(e.GetContainerName(), "box", "CannotDelete::GetContainerName"); SAME(e.GetComponent(), p, "CannotDelete::GetComponent"); SAME(e.GetLowerLimit(), low, "CannotDelete::GetLowerLimit"); }); break; }
    case 5: { auto a = static_cast<S::ComponentStateKind>(c.rng.below(5)), b = static_cast<S::ComponentStateKind>(c.rng.below(5));
      raise<S::InvalidComponentState>("InvalidComponentState", &w.root, {"root"}, [&] { E::throwInvalidComponentState(&w.root, a, b); }, [=](auto &e) { SAME(static_cast<int>(e.GetInvalidState()), static_cast<int>(a), "GetInvalidState"); SAME(static_cast<int>(e.GetExpectedState()), static_cast<int>(b), "GetExpectedState"); }); break; }
    case 6: { S::IObject *p = component();
      raise<S::InvalidObjectType>("InvalidObjectType", from, {::Xsmp::Helper::GetPath(p)}, [&] { E::throwInvalidObjectType<S::IService>(from, p); }, [=](auto &e) { SAME(e.GetInvalidObject(), p, "GetInvalidObject"); }); break; }
    case 7: { auto *p = component();
      raise<S::NotReferenced>("NotReferenced", &w.ref, {"ref", ::Xsmp::Helper::GetPath(p)}, [&] { E::throwNotReferenced(&w.ref, p); }, [=](auto &e) { SAMETEXT(e.GetReferenceName(), "ref", "GetReferenceName"); SAME(e.GetComponent(), p, "GetComponent"); }); break; }
    case 8: { auto n = big();
      raise<S::ReferenceFull>("ReferenceFull", &w.ref, {"ref", num(n)}, [&] { E::throwReferenceFull(&w.ref, n); }, [=](auto &e) { SAMETEXT(e.GetReferenceName(), "ref", "GetReferenceName"); SAME(e.GetReferenceSize(), n, "GetReferenceSize"); }); break; }
    case 9: { auto *p = component(); auto n = big();
      raise<S::CannotRemove>("CannotRemove", &w.ref, {"ref", ::Xsmp::Helper::GetPath(p), num(n)}, [&] { E::throwCannotRemove(&w.ref, p, n); }, [=](auto &e) { SAMETEXT(e.GetReferenceName(), "ref", "GetReferenceName"); SAME(e.GetComponent(), p, "GetComponent"); SAME(e.GetLowerLimit(), n, "GetLowerLimit"); }); break; }
    case 10: case 11: case 12: {
      const S::IEventSource *so = &w.source;
      const S::IEventSink *si = &w.sink;
      std::vector<std::string> has{::Xsmp::Helper::GetPath(so), ::Xsmp::Helper::GetPath(si)};
      if (which == 10) raise<S::InvalidEventSink>("InvalidEventSink", from, has, [&] { E::throwInvalidEventSink(from, so, si); }, [=](auto &e) { SAME(e.GetEventSource(), so, "GetEventSource"); SAME(e.GetEventSink(), si, "GetEventSink"); });
      else if (which == 11) raise<S::EventSinkAlreadySubscribed>("EventSinkAlreadySubscribed", from, has, [&] { E::throwEventSinkAlreadySubscribed(from, so, si); }, [=](auto &e) { SAME(e.GetEventSource(), so, "GetEventSource"); SAME(e.GetEventSink(), si, "GetEventSink"); });
      else raise<S::EventSinkNotSubscribed>("EventSinkNotSubscribed", from, has, [&] { E::throwEventSinkNotSubscribed(from, so, si); }, [=](auto &e) { SAME(e.GetEventSource(), so, "GetEventSource"); SAME(e.GetEventSink(), si, "GetEventSink"); });
      break; }
    case 13: { auto t = text(c, true);
      raise<S::InvalidOperationName>("InvalidOperationName", from, {t.want()}, [&] { E::throwInvalidOperationName(from, Lent(t)); }, [=](auto &e) { SAMETEXT(e.GetOperationName(), t.want(), "GetOperationName"); }); break; }
    case 14: { auto n = i32(); auto right = static_cast<S::Int32>(w.operation->GetParameters()->size());
      raise<S::InvalidParameterCount>("InvalidParameterCount", w.operation, {"oper", num(n), num(right)}, [&] { E::throwInvalidParameterCount(w.operation, n); }, [=](auto &e) { SAMETEXT(e.GetOperationName(), "oper", "GetOperationName"); SAME(e.GetOperationParameters(), right, "GetOperationParameters"); SAME(e.GetRequestParameters(), n, "GetRequestParameters"); }); break; }
    case 15: { auto t = text(c, false), u = text(c, false); auto a = kind(), b = kind();
      raise<S::InvalidParameterType>("InvalidParameterType", from, {t.s, u.s}, [&] { E::throwInvalidParameterType(from, Lent::View(t.s), Lent::View(u.s), a, b); },
                                     [=](auto &e) { SAMETEXT(e.GetOperationName(), t.s, "GetOperationName"); SAMETEXT(e.GetParameterName(), u.s, "GetParameterName"); SAME(static_cast<int>(e.GetInvalidType()), static_cast<int>(a), "GetInvalidType"); SAME(static_cast<int>(e.GetExpectedType()), static_cast<int>(b), "GetExpectedType"); }); break; }
    case 16: case 17: case 18: { S::UInt64 i = c.rng.chance(1, 3) ? c.rng.next() >> 1U : c.rng.below(20), n = which == 16 ? c.rng.next() >> 1U : 8;
      const S::IObject *who = which == 16 ? from : which == 17 ? static_cast<const S::IObject *>(w.array) : w.fieldArray;
      raise<S::InvalidArrayIndex>("InvalidArrayIndex", who, {num(static_cast<S::Int64>(i)), num(static_cast<S::Int64>(n))}, [&] { if (which == 16) E::throwInvalidArrayIndex(from, n, i); else if (which == 17) E::throwInvalidArrayIndex(w.array, i); else E::throwInvalidArrayIndex(w.fieldArray, i); },
                                  [=](auto &e) { SAME(e.GetInvalidIndex(), static_cast<S::Int64>(i), "GetInvalidIndex"); SAME(e.GetArraySize(), static_cast<S::Int64>(n), "GetArraySize"); }); break; }
    case 19: { auto v = value(c);
      raise<S::InvalidFieldValue>("InvalidFieldValue", &w.out, {"out"}, [&] { E::throwInvalidFieldValue(&w.out, S::AnySimple(v)); }, [=](auto &e) { XV_CHECK(e.GetInvalidFieldValue() == v, "fact", "GetInvalidFieldValue differs"); }); break; }
    case 20: { auto v = value(c); S::UInt64 i = c.rng.next() >> 1U;
      raise<S::InvalidArrayValue>("InvalidArrayValue", w.array, {"arr", num(static_cast<S::Int64>(i))}, [&] { E::throwInvalidArrayValue(w.array, i, S::AnySimple(v)); }, [=](auto &e) { XV_CHECK(e.GetInvalidValue() == v, "fact", "GetInvalidValue differs"); SAME(e.GetInvalidValueIndex(), static_cast<S::Int64>(i), "GetInvalidValueIndex"); }); break; }
    case 21: { S::UInt64 i = c.rng.next() >> 1U;
      raise<S::InvalidArraySize>("InvalidArraySize", w.array, {num(static_cast<S::Int64>(i)), "8"}, [&] { E::throwInvalidArraySize(w.array, i); }, [=](auto &e) { SAME(e.GetArraySize(), 8, "GetArraySize"); SAME(e.GetInvalidSize(), static_cast<S::Int64>(i), "GetInvalidSize"); }); break; }
    case 22: { auto t = text(c, true);
      raise<S::Services::InvalidEventName>("InvalidEventName", from, {t.want()}, [&] { E::throwInvalidEventName(from, Lent(t)); }, [](auto &) {}); break; }
    case 23: { auto i = big();
      raise<S::Services::InvalidEventId>("InvalidEventId", from, {num(i)}, [&] { E::throwInvalidEventId(from, i); }, [=](auto &e) { SAME(e.GetInvalidEventId(), i, "GetInvalidEventId"); }); break; }
    case 24: raise<S::Services::InvalidCycleTime>("InvalidCycleTime", from, {}, [&] { E::throwInvalidCycleTime(from, -1); }, [](auto &) {}); break;
    case 25: raise<S::Services::InvalidEventTime>("InvalidEventTime", from, {}, [&] { E::throwInvalidEventTime(from, 1, 2); }, [](auto &) {}); break;
    case 26: case 27: { auto t = text(c, false); const S::IEntryPoint *ep = &w.entry;
      std::vector<std::string> has{::Xsmp::Helper::GetPath(ep), t.s};
      if (which == 26) raise<S::Services::EntryPointNotSubscribed>("EntryPointNotSubscribed", from, has, [&] { E::throwEntryPointNotSubscribed(from, ep, Lent::View(t.s)); }, [=](auto &e) { SAME(e.GetEntryPoint(), ep, "GetEntryPoint"); SAMETEXT(e.GetEventName(), t.s, "GetEventName"); });
      else raise<S::Services::EntryPointAlreadySubscribed>("EntryPointAlreadySubscribed", from, has, [&] { E::throwEntryPointAlreadySubscribed(from, ep, Lent::View(t.s)); }, [=](auto &e) { SAME(e.GetEntryPoint(), ep, "GetEntryPoint"); SAMETEXT(e.GetEventName(), t.s, "GetEventName"); });
      break; }
    case 28: { auto t = text(c, true);
      raise<S::InvalidFieldName>("InvalidFieldName", from, {t.want(), ::Xsmp::Helper::GetPath(from)}, [&] { E::throwInvalidFieldName(from, Lent(t)); }, [=](auto &e) { SAMETEXT(e.GetFieldName(), t.want(), "GetFieldName"); }); break; }
    case 29: { S::Uuid u{static_cast<S::UInt32>(c.rng.next()), static_cast<S::UInt16>(c.rng.next()), static_cast<S::UInt16>(c.rng.next()), static_cast<S::UInt16>(c.rng.next()), c.rng.next() & 0xffffffffffffULL};
      raise<S::Publication::TypeNotRegistered>("TypeNotRegistered", from, {}, [&] { E::throwTypeNotRegistered(from, u); }, [=](auto &e) { XV_CHECK(e.GetUuid() == u, "fact", "GetUuid differs"); }); break; }
    case 30: { auto i = i32(), n = i32();
      raise<S::InvalidParameterIndex>("InvalidParameterIndex", w.operation, {"oper", num(i), num(n)}, [&] { E::throwInvalidParameterIndex(w.operation, i, n); }, [=](auto &e) { SAMETEXT(e.GetOperationName(), "oper", "GetOperationName"); SAME(e.GetParameterIndex(), i, "GetParameterIndex"); SAME(e.GetParameterCount(), n, "GetParameterCount"); }); break; }
    case 31: raise<S::VoidOperation>("VoidOperation", w.operation, {"oper"}, [&] { E::throwVoidOperation(w.operation); }, [=](auto &e) { SAMETEXT(e.GetOperationName(), "oper", "GetOperationName"); }); break;
    case 32: { auto a = kind(), b = kind();
      raise<S::InvalidAnyType>("InvalidAnyType", from, {}, [&] { E::throwInvalidAnyType(from, a, b); }, [=](auto &e) { SAME(static_cast<int>(e.GetExpectedType()), static_cast<int>(a), "GetExpectedType"); SAME(static_cast<int>(e.GetInvalidType()), static_cast<int>(b), "GetInvalidType"); }); break; }
    case 33: { auto v = value(c);
      raise<S::InvalidReturnValue>("InvalidReturnValue", w.operation, {"oper"}, [&] { E::throwInvalidReturnValue(w.operation, S::AnySimple(v)); }, [=](auto &e) { SAMETEXT(e.GetOperationName(), "oper", "GetOperationName"); XV_CHECK(e.GetValue() == v, "fact", "GetValue differs"); }); break; }
    case 34: { auto v = value(c); auto t = text(c, false);
      raise<S::InvalidParameterValue>("InvalidParameterValue", from, {t.s}, [&] { E::throwInvalidParameterValue(from, Lent::View(t.s), S::AnySimple(v)); }, [=](auto &e) { SAMETEXT(e.GetParameterName(), t.s, "GetParameterName"); XV_CHECK(e.GetValue() == v, "fact", "GetValue differs"); }); break; }
    case 35: { auto k = kind(); const S::Publication::IType *t = c.rng.chance(1, 3) ? nullptr : w.array->GetType();
      std::vector<std::string> has;
      auto form = c.rng.below(3);
      if (form == 2 && t) has.push_back("At");
      raise<S::InvalidFieldType>("InvalidFieldType", from, has, [&] { if (form == 0) E::throwInvalidFieldType(from, S::Uuids::Uuid_Bool); else if (form == 1) E::throwInvalidFieldType(from, k); else E::throwInvalidFieldType(from, t); }, [](auto &) {}); break; }
    case 36: { auto t = text(c, true);
      raise<S::DuplicateUuid>("DuplicateUuid", from, {t.want(), "theFactory"}, [&] { E::throwDuplicateUuid(from, w.factory.get(), Lent(t)); }, [=](auto &e) { SAMETEXT(e.GetOldName(), "theFactory", "GetOldName"); SAMETEXT(e.GetNewName(), t.want(), "GetNewName"); }); break; }
    case 37: case 38: { auto t = text(c, true), u = text(c, false);
      if (which == 37) raise<S::LibraryNotFound>("LibraryNotFound", from, {u.s}, [&] { E::throwLibraryNotFound(from, Lent(t), Lent::View(u.s)); }, [=](auto &e) { SAMETEXT(e.GetLibraryName(), t.want(), "GetLibraryName"); });
      else raise<S::InvalidLibrary>("InvalidLibrary", from, {u.s}, [&] { E::throwInvalidLibrary(from, Lent(t), Lent::View(u.s)); }, [=](auto &e) { SAMETEXT(e.GetLibraryName(), t.want(), "GetLibraryName"); });
      break; }
    case 39: { auto a = big(), b = big(), d = big();
      raise<S::Services::InvalidSimulationTime>("InvalidSimulationTime", from, {}, [&] { E::throwInvalidSimulationTime(from, a, b, d); }, [=](auto &e) { SAME(e.GetCurrentTime(), a, "GetCurrentTime"); SAME(e.GetProvidedTime(), b, "GetProvidedTime"); SAME(e.GetMaximumTime(), d, "GetMaximumTime"); }); break; }
    case 40: { auto t = text(c, true); const S::Publication::IType *ty = w.array->GetType();
      raise<S::Publication::TypeAlreadyRegistered>("TypeAlreadyRegistered", from, {t.want()}, [&] { E::throwTypeAlreadyRegistered(from, Lent(t), ty); }, [=](auto &e) { SAMETEXT(e.GetTypeName(), t.want(), "GetTypeName"); SAME(e.GetType(), ty, "GetType"); }); break; }
    case 41: { auto t = text(c, true); auto k = kind();
      raise<S::Publication::InvalidPrimitiveType>("InvalidPrimitiveType", from, {t.want()}, [&] { E::throwInvalidPrimitiveType(from, Lent(t), k); }, [=](auto &e) { SAMETEXT(e.GetTypeName(), t.want(), "GetTypeName"); SAME(static_cast<int>(e.GetType()), static_cast<int>(k), "GetType"); }); break; }
    case 42: { auto s = static_cast<S::SimulatorStateKind>(c.rng.below(10));
      raise<S::InvalidSimulatorState>("InvalidSimulatorState", from, {}, [&] { E::throwInvalidSimulatorState(from, s); }, [=](auto &e) { SAME(static_cast<int>(e.GetInvalidState()), static_cast<int>(s), "GetInvalidState"); }); break; }
    case 43: { auto t = text(c, true); auto i = i32();
      raise<S::Publication::DuplicateLiteral>("DuplicateLiteral", from, {t.want(), num(i)}, [&] { E::throwDuplicateLiteral(from, Lent(t), i); }, [=](auto &e) { SAMETEXT(e.GetLiteralName(), t.want(), "GetLiteralName"); SAME(e.GetLiteralValue(), i, "GetLiteralValue"); }); break; }
    case 44: case 45: { auto t = text(c, false);
      if (which == 44) raise<S::CannotStore>("CannotStore", from, {t.s}, [&] { E::throwCannotStore(from, Lent::View(t.s)); }, [=](auto &e) { SAMETEXT(e.GetMessage(), t.s, "CannotStore message"); });
      else raise<S::CannotRestore>("CannotRestore", from, {t.s}, [&] { E::throwCannotRestore(from, Lent::View(t.s)); }, [=](auto &e) { SAMETEXT(e.GetMessage(), t.s, "CannotRestore message"); });
      break; }
    case 46: case 47: { const S::IDataflowField *a = &w.out; const S::IField *b = &w.in;
      std::vector<std::string> has{::Xsmp::Helper::GetPath(a), ::Xsmp::Helper::GetPath(b)};
      if (which == 46) raise<S::FieldAlreadyConnected>("FieldAlreadyConnected", from, has, [&] { E::throwFieldAlreadyConnected(from, a, b); }, [=](auto &e) { SAME(e.GetSource(), a, "GetSource"); SAME(e.GetTarget(), b, "GetTarget"); });
      else raise<S::InvalidTarget>("InvalidTarget", from, has, [&] { E::throwInvalidTarget(from, a, b); }, [=](auto &e) { SAME(e.GetSource(), a, "GetSource"); SAME(e.GetTarget(), b, "GetTarget"); });
      break; }
    case 48: { auto t = text(c, false), d = text(c, false); auto i = big();
      raise<S::Exception>("Custom", from, {}, [&] { E::throwException(from, "Custom", Lent::View(d.s).operator std::string_view(), "a", Lent(t).operator const char *(), i, 'z'); }, [=](auto &e) { SAMETEXT(e.GetMessage(), "a" + t.s + num(i) + "z", "message"); });
      out.back().description = d.s;
      break; }
    default: break;
    }
  }
};
const unsigned kinds = 50;
} // namespace
XV_SCENARIO_NOLEAK(C44, facts, 400, 8000) {
  World w(c);
  Maker m{c, w, {}};
  for (unsigned i = 0; i < 60; ++i) {
    unsigned k = c.index % 2 ? static_cast<unsigned>(c.rng.below(kinds)) : (i % kinds);
    if (k == 49) { // refused by a sink without argument
      auto v = value(c);
      auto kd = v.GetType();
      m.raise<::Smp::InvalidAnyType>("InvalidAnyType", nullptr, {}, [&] { w.sink.Notify(nullptr, v); }, [=](auto &e) { SAME(static_cast<int>(e.GetExpectedType()), static_cast<int>(Kind::PTK_None), "GetExpectedType of a refused event argument"); SAME(static_cast<int>(e.GetInvalidType()), static_cast<int>(kd), "GetInvalidType of a refused event argument"); });
      continue;
    }
    m.one(k);
    if (c.rng.chance(1, 3)) verify(m.out.back());
  }
  c.nontrivial = m.out.size() > 10;
  // the errors outlive their calls, in any order and in another thread
  for (unsigned i = 0; i < 60; ++i) verify(m.out[c.rng.below(m.out.size())]);
  std::string failed;
  std::thread t([&] {
    try { for (unsigned i = 0; i < m.out.size(); ++i) { auto &r = m.out[i]; verify(r); if (i % 2) r.e = nullptr; } }
    catch (const xv::Violation &v) { failed = v.key + ": " + v.detail; }
  });
  t.join();
  XV_COUNT("threads inspecting");
  XV_CHECK(failed.empty(), "thread", "seen in another thread: " << failed);
  for (unsigned i = 0; i < m.out.size(); i += 2) verify(m.out[i]);
}
