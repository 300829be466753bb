// Saving and restoring whole simulations: generated component trees with every
// kind of state, driven by events whose behaviour depends on that state only,
// saved, restored, continued, and restored into a twin built alike.
#include "sim.h"
#include <Smp/CannotStore.h>
#include <Smp/IArrayField.h>
#include <Smp/IFailure.h>
#include <Smp/IForcibleField.h>
#include <Smp/IPersist.h>
#include <Smp/ISimpleArrayField.h>
#include <Smp/ISimpleField.h>
#include <Smp/IStructureField.h>
#include <Smp/Publication/IEnumerationType.h>
#include <Smp/Publication/IStructureType.h>
#include <Smp/Services/TimeKind.h>
#include <Xsmp/Array.h>
#include <Xsmp/Persist.h>
#include <Xsmp/Persist/SmpIObject.h>
#include <Xsmp/Persist/StdMap.h>
#include <Xsmp/Persist/StdString.h>
#include <Xsmp/Persist/StdVector.h>
#include <Xsmp/String.h>
namespace {
using namespace smpx;
using ::Smp::AnySimple;
using ::Smp::ViewKind;
using ::Smp::Services::EventId;
using ::Smp::Services::TimeKind;
constexpr ::Smp::Uuid id(unsigned n) { return {0xdcba0000U + n, 1, 2, 3, 4}; }
using Text = ::Xsmp::String<12>;
using Shorts = ::Xsmp::Array<::Smp::Int16, 3>;
using Bytes = ::Xsmp::Array<::Smp::UInt8, 5>::simple;
const ::Smp::Uuid textId = id(1), shortsId = id(2), bytesId = id(3), recordId = id(4), recordsId = id(5), enumId = id(6), mixedId = id(7), mixedsId = id(8), textsId = id(9);
struct Record {
  ::Smp::Int32 a;
  Shorts v;
  ::Smp::Bool flag;
  Text t;
  Bytes s;
  template <typename B> struct _Field : public B {
    _Field(::Smp::Publication::ITypeRegistry *r, ::Smp::Uuid u, ::Smp::String8 name, ::Smp::String8 description = "", ::Smp::IObject *parent = nullptr, ViewKind view = ViewKind::VK_None, const Record &o = {})
        : B(r, u, name, description, parent, view), a{r, ::Smp::Uuids::Uuid_Int32, "a", "", this, view, o.a}, v{r, shortsId, "v", "", this, view, o.v}, flag{r, ::Smp::Uuids::Uuid_Bool, "flag", "", this, view, o.flag}, t{r, textId, "t", "", this, view, o.t}, s{r, bytesId, "s", "", this, view, o.s} {}
    typename B::template Field<::Smp::Int32> a;
    typename B::template Field<Shorts>::transient v;
    typename B::template Field<::Smp::Bool>::transient flag;
    typename B::template Field<Text> t;
    typename B::template Field<Bytes> s;
  };
};
using Records = ::Xsmp::Array<Record, 2>;
/// published only: members in and out of the state, with a gap
struct Mixed {
  ::Smp::UInt8 a;
  ::Smp::Float64 b;
  ::Smp::Int16 c[3];
  ::Smp::UInt8 d[3];
  Text t;
  ::Smp::Int32 e;
};
void declare(::Smp::Publication::ITypeRegistry *r) {
  r->AddStringType("Text", "", textId, 12);
  r->AddArrayType("Shorts", "", shortsId, ::Smp::Uuids::Uuid_Int16, 2, 3);
  r->AddArrayType("Bytes", "", bytesId, ::Smp::Uuids::Uuid_UInt8, 1, 5, true);
  r->AddArrayType("Bytes3", "", id(10), ::Smp::Uuids::Uuid_UInt8, 1, 3, true);
  auto *e = r->AddEnumerationType("Enum", "", enumId, 4);
  for (int n = 0; n < 3; n++) e->AddLiteral(("l" + std::to_string(n)).c_str(), "", n);
  auto *p = r->AddStructureType("Record", "", recordId);
  p->AddField("a", "", ::Smp::Uuids::Uuid_Int32, offsetof(Record, a));
  p->AddField("v", "", shortsId, offsetof(Record, v), ViewKind::VK_All, false);
  p->AddField("flag", "", ::Smp::Uuids::Uuid_Bool, offsetof(Record, flag), ViewKind::VK_All, false);
  p->AddField("t", "", textId, offsetof(Record, t));
  p->AddField("s", "", bytesId, offsetof(Record, s));
  r->AddArrayType("Records", "", recordsId, recordId, sizeof(Record), 2);
  auto *m = r->AddStructureType("Mixed", "", mixedId);
  m->AddField("a", "", ::Smp::Uuids::Uuid_UInt8, offsetof(Mixed, a));
  m->AddField("b", "", ::Smp::Uuids::Uuid_Float64, offsetof(Mixed, b), ViewKind::VK_All, false);
  m->AddField("c", "", shortsId, offsetof(Mixed, c));
  m->AddField("d", "", id(10), offsetof(Mixed, d), ViewKind::VK_All, false);
  m->AddField("t", "", textId, offsetof(Mixed, t));
  m->AddField("e", "", enumId, offsetof(Mixed, e));
  r->AddArrayType("Mixeds", "", mixedsId, mixedId, sizeof(Mixed), 2);
  r->AddArrayType("Texts", "", textsId, textId, sizeof(Text), 2);
}
std::string text(const AnySimple &v) {
  std::ostringstream o;
  switch (v.GetType()) {
  case Kind::PTK_Float64: o << std::hexfloat << static_cast<::Smp::Float64>(v); break;
  case Kind::PTK_Float32: o << std::hexfloat << static_cast<::Smp::Float32>(v); break;
  case Kind::PTK_String8: o << xv::show(static_cast<::Smp::String8>(v)); break;
  case Kind::PTK_Bool: o << static_cast<bool>(v); break;
  case Kind::PTK_Char8: o << static_cast<int>(static_cast<::Smp::Char8>(v)); break;
  case Kind::PTK_UInt64: o << static_cast<::Smp::UInt64>(v); break;
  default: o << static_cast<::Smp::Int64>(v);
  }
  return o.str();
}
AnySimple draw(xv::Rng &r, Kind k, bool literal) {
  switch (k) {
  case Kind::PTK_Bool: return {k, r.chance(1, 2)};
  case Kind::PTK_Char8: return {k, static_cast<::Smp::Char8>(r.next())};
  case Kind::PTK_Int8: return {k, static_cast<::Smp::Int8>(r.next())};
  case Kind::PTK_UInt8: return {k, static_cast<::Smp::UInt8>(r.next())};
  case Kind::PTK_Int16: return {k, static_cast<::Smp::Int16>(r.next())};
  case Kind::PTK_UInt16: return {k, static_cast<::Smp::UInt16>(r.next())};
  case Kind::PTK_Int32: return {k, static_cast<::Smp::Int32>(literal ? r.below(3) : r.next())};
  case Kind::PTK_UInt32: return {k, static_cast<::Smp::UInt32>(r.next())};
  case Kind::PTK_UInt64: return {k, static_cast<::Smp::UInt64>(r.next())};
  case Kind::PTK_Float32: return {k, static_cast<::Smp::Float32>(r.range(-9999, 9999)) / 16};
  case Kind::PTK_Float64: return {k, static_cast<::Smp::Float64>(static_cast<double>(r.range(-99999999, 99999999)) / 1024)};
  case Kind::PTK_String8: {
    std::string s(r.below(13), ' ');
    for (auto &ch : s) ch = static_cast<char>('!' + r.below(90));
    return {k, s.c_str()};
  }
  default: return {k, static_cast<::Smp::Int64>(r.next())};
  }
}

/// a component with state of its own kind
class Keeper : public Node, public virtual ::Smp::IPersist {
public:
  using Node::Node;
  std::vector<::Smp::Int64> list;
  std::map<std::string, double> table;
  const ::Smp::IEntryPoint *entry = nullptr;
  void Restore(::Smp::IStorageReader *r) override { ::Xsmp::Persist::Restore(GetSimulator(), this, r, list, table, entry); }
  void Store(::Smp::IStorageWriter *w) override { ::Xsmp::Persist::Store(GetSimulator(), this, w, list, table, entry); }
};

struct Cell { std::string path; bool state; std::string value; };

/// a simulation that behaves as its state tells
struct Model {
  xv::Case &c;
  World w{false};
  std::vector<Keeper *> keepers;
  std::vector<std::pair<const ::Smp::IComponent *, std::string>> owners;
  struct Leaf { std::string path; bool state, literal; ::Smp::ISimpleField *simple; ::Smp::ISimpleArrayField *array; ::Smp::IForcibleField *forcible; };
  std::vector<Leaf> leaves;
  std::vector<std::pair<std::string, ::Smp::IFailure *>> failures;
  std::vector<::Xsmp::EntryPoint *> entries, handlers;
  ::Xsmp::Field<::Smp::UInt64> *dice = nullptr;
  ::Xsmp::Field<::Smp::UInt64> *posted = nullptr; // how many events were posted by the components
  ::Xsmp::Field<::Smp::UInt64> *mine = nullptr;   // the first identifiers given to them: other ones end the runs
  ::Smp::UInt64 failing = 0;
  std::vector<std::string> log;
  unsigned budget = 0;
  bool observing = false;
  bool changed = false;
  explicit Model(xv::Case &cc, std::uint64_t seed) : c(cc) {
    xv::Rng r(seed);
    declare(w.sim.GetTypeRegistry());
    std::vector<Node *> nodes;
    const auto n = 1 + r.below(5);
    for (std::uint64_t k = 0; k < n; k++) {
      const std::string name = "n" + std::to_string(k);
      Node *node = nullptr;
      if (k > 0 && r.chance(2, 3)) {
        auto *parent = r.pick(nodes);
        if (r.chance(1, 3)) { auto &q = parent->child<Keeper>(name.c_str()); keepers.push_back(&q); node = &q; }
        else node = &parent->child<Node>(name.c_str());
      } else if (r.chance(1, 3)) {
        auto *q = new Keeper(name.c_str(), "", &w.sim, &w.sim);
        keepers.push_back(q);
        node = q;
        w.sim.AddModel(q);
      } else {
        node = new Node(name.c_str(), "", &w.sim, &w.sim);
        w.sim.AddModel(node);
      }
      nodes.push_back(node);
      const auto what = r.next();
      node->onPublish = [this, node, what, first = k == 0](::Smp::IPublication *p) { publish(*node, p, what, first); };
    }
    if (r.chance(1, 2)) {
      auto *s = new Svc("svc", "", &w.sim, &w.sim);
      w.sim.AddService(s);
      s->onPublish = [this, s, what = r.next()](::Smp::IPublication *p) { publish(*s, p, what, false); };
    }
    w.sim.Publish();
    w.sim.Configure();
    w.sim.Connect();
    collect(&w.sim, "");
    for (auto *k : keepers) randomize(*k, r);
    dice->operator=(r.next());
    for (auto k = 1 + r.below(4); k > 0; k--) post(r);
    for (auto k = r.below(4); k > 0; k--) subscribe(r);
  }
  /// has the simulation not been run yet or is it in standby?
  bool usable() const { return w.sim.GetState() == ::Smp::SimulatorStateKind::SSK_Standby; }

  // ------------------------------------------------------------ building
  template <typename N> void publish(N &n, ::Smp::IPublication *p, std::uint64_t seed, bool first) {
    xv::Rng r(seed);
    auto *reg = p->GetTypeRegistry();
    auto field = [&](auto *tag, const std::string &name, const ::Smp::Uuid &u) {
      using X = std::remove_pointer_t<decltype(tag)>;
      auto &x = n.own.template make<X>(reg, u, name.c_str(), "", static_cast<::Smp::IComponent *>(&n), ViewKind::VK_None);
      p->PublishField(&x);
      return &x;
    };
    using I64 = ::Xsmp::Field<::Smp::UInt64>;
    if (first) {
      dice = field(static_cast<I64 *>(nullptr), "dice", ::Smp::Uuids::Uuid_UInt64);
      posted = field(static_cast<I64 *>(nullptr), "posted", ::Smp::Uuids::Uuid_UInt64);
      mine = field(static_cast<I64 *>(nullptr), "mine", ::Smp::Uuids::Uuid_UInt64);
    }
    const auto count = r.below(8);
    for (std::uint64_t k = 0; k < count; k++) {
      const std::string name = "f" + std::to_string(k);
      const char *s = name.c_str();
      const bool state = r.chance(2, 3), in = r.chance(1, 3), out = r.chance(1, 3);
      auto over = [&](auto *tag, const ::Smp::Uuid &u) {
        using T = std::remove_pointer_t<decltype(tag)>;
        auto &m = n.own.template make<T>();
        p->PublishField(s, "", &m, u, ViewKind::VK_All, state, in, out);
      };
      switch (r.below(23)) {
      case 0: field(static_cast<::Xsmp::Field<::Smp::Int32> *>(nullptr), name, ::Smp::Uuids::Uuid_Int32); break;
      case 1: field(static_cast<typename ::Xsmp::Field<::Smp::Float64>::transient *>(nullptr), name, ::Smp::Uuids::Uuid_Float64); break;
      case 2: field(static_cast<typename ::Xsmp::Field<::Smp::Int16>::forcible *>(nullptr), name, ::Smp::Uuids::Uuid_Int16); break;
      case 3: field(static_cast<::Xsmp::Field<Text> *>(nullptr), name, textId); break;
      case 4: field(static_cast<typename ::Xsmp::Field<Shorts>::forcible *>(nullptr), name, shortsId); break;
      case 5: field(static_cast<typename ::Xsmp::Field<Shorts>::transient *>(nullptr), name, shortsId); break;
      case 6: field(static_cast<::Xsmp::Field<Bytes> *>(nullptr), name, bytesId); break;
      case 7: field(static_cast<typename ::Xsmp::Field<Bytes>::transient *>(nullptr), name, bytesId); break;
      case 8: field(static_cast<typename ::Xsmp::Field<Record>::failure *>(nullptr), name, recordId); break;
      case 9: field(static_cast<::Xsmp::Field<Records> *>(nullptr), name, recordsId); break;
      case 10: field(static_cast<typename ::Xsmp::Field<::Smp::Bool>::failure *>(nullptr), name, ::Smp::Uuids::Uuid_Bool); break;
      case 11: field(static_cast<typename ::Xsmp::Field<::Smp::Duration>::forcible::failure *>(nullptr), name, ::Smp::Uuids::Uuid_Duration); break;
      case 12: over(static_cast<::Smp::Int64 *>(nullptr), ::Smp::Uuids::Uuid_Int64); break;
      case 13: over(static_cast<::Smp::Int32 *>(nullptr), enumId); break;
      case 14: over(static_cast<Text *>(nullptr), textId); break;
      case 15: over(static_cast<Shorts *>(nullptr), shortsId); break;
      case 16: over(static_cast<Bytes *>(nullptr), bytesId); break;
      case 17: over(static_cast<Mixed *>(nullptr), mixedId); break;
      case 18: over(static_cast<std::array<Mixed, 2> *>(nullptr), mixedsId); break;
      case 19: {
        auto &m = n.own.template make<std::array<::Smp::Float32, 4>>();
        p->PublishArray(s, "", 4, &m, Kind::PTK_Float32, ViewKind::VK_All, state, in, out);
        break;
      }
      case 20: {
        auto *q = p->PublishStructure(s, "", ViewKind::VK_All, state);
        q->PublishField("x", "", &n.own.template make<::Smp::UInt32>(), ViewKind::VK_All, r.chance(2, 3));
        q->PublishField("y", "", &n.own.template make<::Smp::Bool>(), ViewKind::VK_All, r.chance(2, 3));
        q->PublishField("z", "", &n.own.template make<Mixed>(), mixedId, ViewKind::VK_All, r.chance(2, 3));
        break;
      }
      case 21: {
        auto *q = p->PublishArray(s, "", ViewKind::VK_All, state);
        for (auto i = r.below(4), k2 = decltype(i)(0); k2 < i; k2++) {
          const auto item = "[" + std::to_string(k2) + "]";
          if (r.chance(1, 2)) q->PublishField(item.c_str(), "", &n.own.template make<Mixed>(), mixedId, ViewKind::VK_All, r.chance(2, 3));
          else q->PublishField(item.c_str(), "", &n.own.template make<::Smp::Int16>(), ViewKind::VK_All, r.chance(2, 3));
        }
        break;
      }
      default: over(static_cast<::Xsmp::Array<Text, 2> *>(nullptr), textsId);
      }
    }
    const auto events = 1 + r.below(2);
    for (std::uint64_t k = 0; k < events; k++) {
      const std::string at = std::string(n.GetName()) + ".event" + std::to_string(k);
      entries.push_back(&n.own.template make<::Xsmp::EntryPoint>(("event" + std::to_string(k)).c_str(), "", static_cast<::Xsmp::EntryPointPublisher *>(&n), [this, at] { fire(at); }));
    }
    const std::string at = std::string(n.GetName()) + ".handler";
    handlers.push_back(&n.own.template make<::Xsmp::EntryPoint>("handler", "", static_cast<::Xsmp::EntryPointPublisher *>(&n), [this, at] { log.push_back(at); }));
  }
  void collect(::Smp::IField *f, const std::string &path, bool state) {
    state = state && f->IsState();
    if (auto *x = dynamic_cast<::Smp::IFailure *>(f)) { if (state) failures.emplace_back(path, x); }
    auto *simple = dynamic_cast<::Smp::ISimpleField *>(f);
    auto *array = dynamic_cast<::Smp::ISimpleArrayField *>(f);
    if (simple || array) {
      const bool literal = dynamic_cast<const ::Smp::Publication::IEnumerationType *>(f->GetType()) != nullptr;
      leaves.push_back({path, state, literal, simple, array, dynamic_cast<::Smp::IForcibleField *>(f)});
    } else if (auto *a = dynamic_cast<::Smp::IArrayField *>(f)) {
      for (std::size_t i = 0; i < a->GetSize(); i++) collect(a->GetItem(i), path + "[" + std::to_string(i) + "]", state);
    } else if (auto *s = dynamic_cast<::Smp::IStructureField *>(f)) {
      for (auto *m : *s->GetFields()) collect(m, path + "." + m->GetName(), state);
    }
  }
  void collect(::Smp::IComposite *composite, const std::string &path) {
    for (auto *container : *composite->GetContainers())
      for (auto *comp : *container->GetComponents()) {
        const std::string at = path + "/" + comp->GetName();
        // the services' fields control how they work and are no simulation state of the harness's
        if (const auto *fields = comp->GetFields())
          if (at.rfind("/Xsmp", 0) != 0) for (auto *f : *fields) collect(f, at + "." + f->GetName(), true);
        if (auto *inner = dynamic_cast<::Smp::IComposite *>(comp)) collect(inner, at);
      }
  }
  // ------------------------------------------------------------ behaviour
  static void randomize(Keeper &k, xv::Rng &r) {
    k.list.resize(r.below(20));
    for (auto &x : k.list) x = static_cast<::Smp::Int64>(r.next());
    k.table.clear();
    for (auto n = r.below(6); n > 0; n--) k.table[std::string(r.below(40), static_cast<char>('a' + r.below(26)))] = static_cast<double>(r.range(-999, 999)) / 4;
  }
  void keep(Keeper &k, xv::Rng &r) {
    randomize(k, r);
    k.entry = r.chance(1, 3) ? nullptr : r.pick(entries);
  }
  void write(xv::Rng &r) {
    const auto &l = r.pick(leaves);
    if (l.simple == dice || l.simple == posted || l.simple == mine) return;
    const auto k = l.simple ? l.simple->GetPrimitiveTypeKind() : l.array->GetValue(0).GetType();
    if (l.forcible && r.chance(1, 3)) { if (r.chance(1, 3)) l.forcible->Unforce(); else l.forcible->Force(draw(r, k, l.literal)); }
    else if (l.simple) l.simple->SetValue(draw(r, k, l.literal));
    else l.array->SetValue(r.below(l.array->GetSize()), draw(r, k, l.literal));
  }
  void fail(xv::Rng &r) {
    if (failures.empty()) return;
    auto *f = r.pick(failures).second;
    if (r.chance(1, 2)) f->Fail(); else f->Unfail();
  }
  void post(xv::Rng &r) {
    const auto *e = r.pick(entries);
    const ::Smp::Duration in = r.chance(1, 6) ? 0 : r.range(1, 60), cycle = r.chance(1, 3) ? r.range(5, 50) : 0;
    const ::Smp::Int64 repeat = cycle ? r.pick({-1, 1, 3}) : 0;
    EventId id{};
    switch (r.below(6)) {
    case 0: id = w.scheduler()->AddImmediateEvent(e); break;
    case 1: case 2: id = w.scheduler()->AddSimulationTimeEvent(e, in, cycle, repeat); break;
    case 3: id = w.scheduler()->AddMissionTimeEvent(e, w.clock()->GetMissionTime() + in, cycle, repeat); break;
    case 4: id = w.scheduler()->AddEpochTimeEvent(e, w.clock()->GetEpochTime() + in, cycle, repeat); break;
    default: id = w.scheduler()->AddZuluTimeEvent(e, w.clock()->GetZuluTime() + 1000000000000LL + in, cycle, repeat);
    }
    if (id >= 0 && id < 64) *mine = *mine | std::uint64_t{1} << id;
    *posted = *posted + 1;
  }
  void subscribe(xv::Rng &r) {
    const auto id = w.events()->QueryEventId(("ev" + std::to_string(r.below(4))).c_str());
    const auto *h = r.pick(handlers);
    try {
      if (r.chance(2, 3)) w.events()->Subscribe(id, h); else w.events()->Unsubscribe(id, h);
    } catch (const ::Smp::Exception &) {}
  }
  /// what an identifier of an event stands for is part of the state
  void change(xv::Rng &r) {
    const auto id = static_cast<EventId>(r.below(24));
    if (!(*mine >> id & 1)) return;
    std::string what;
    try {
      switch (r.below(5)) {
      case 0: what = "remove"; w.scheduler()->RemoveEvent(id); break;
      case 1: what = "cycle"; w.scheduler()->SetEventCycleTime(id, r.range(5, 40)); break;
      case 2: what = "repeat"; w.scheduler()->SetEventRepeat(id, r.range(0, 3)); break;
      case 3: what = "move"; w.scheduler()->SetEventSimulationTime(id, r.range(1, 50)); break;
      default: what = "mission"; w.scheduler()->SetEventMissionTime(id, w.clock()->GetMissionTime() + r.range(1, 50));
      }
      what += " done";
    } catch (const ::Smp::Exception &) { what += " refused"; }
    log.push_back(what + " " + std::to_string(id));
  }
  void clocks(xv::Rng &r) {
    switch (r.below(3)) {
    case 0: w.clock()->SetMissionTime(r.range(-1000, 1000)); break;
    case 1: w.clock()->SetMissionStartTime(w.clock()->GetEpochTime() + r.range(-1000, 1000)); break;
    default: w.clock()->SetEpochTime(r.range(-1000000, 1000000));
    }
  }
  void act(xv::Rng &r) {
    switch (r.below(12)) {
    case 0: case 1: case 2: write(r); break;
    case 3: fail(r); break;
    case 4: case 5: if (*posted < 60 || r.chance(1, 4)) post(r); break;
    case 6: change(r); break;
    case 7: subscribe(r); break;
    case 8: w.events()->Emit(w.events()->QueryEventId(("ev" + std::to_string(r.below(4))).c_str())); break;
    case 9: if (r.chance(1, 3)) clocks(r); break;
    case 10: if (!keepers.empty()) keep(*r.pick(keepers), r); break;
    default: if (r.chance(1, 8)) w.logger()->QueryLogMessageKind(("kind" + std::to_string(r.below(20))).c_str());
    }
  }
  void fire(const std::string &at) {
    std::ostringstream o;
    o << at << " at " << w.clock()->GetSimulationTime() << " " << w.clock()->GetMissionTime() << " " << w.clock()->GetEpochTime();
    log.push_back(o.str());
    XV_COUNT("events fired");
    if (budget == 0) { w.sim.Hold(true); return; }
    budget--;
    xv::Rng r(static_cast<::Smp::UInt64>(*dice));
    *dice = static_cast<::Smp::UInt64>(*dice) + 0x9e3779b97f4a7c15ULL;
    for (auto n = r.below(4); n > 0; n--) act(r);
  }
  void run(::Smp::Duration d) {
    budget = 60;
    w.sim.Run(d);
    std::ostringstream o;
    o << "standby at " << w.clock()->GetSimulationTime();
    log.push_back(o.str());
  }
  /// a history decided by its seed and by the state
  void history(std::uint64_t seed, std::uint64_t steps) {
    xv::Rng r(seed);
    for (std::uint64_t k = 0; k < steps && usable(); k++) {
      if (r.chance(1, 3)) run(r.range(0, 60)); else act(r);
    }
  }
  // ------------------------------------------------------------ observation
  std::vector<Cell> cells() {
    std::vector<Cell> v;
    auto add = [&](const std::string &path, bool state, const std::string &value) { v.push_back({path, state, value}); };
    for (const auto &l : leaves) {
      std::string s;
      if (l.simple) s = text(l.simple->GetValue());
      else for (std::size_t i = 0; i < l.array->GetSize(); i++) s += text(l.array->GetValue(i)) + " ";
      add(l.path, l.state, s);
      if (l.forcible) add(l.path + " forced", l.state, l.forcible->IsForced() ? "yes" : "no");
    }
    for (const auto &[path, f] : failures) add(path + " failed", true, f->IsFailed() ? "yes" : "no");
    for (auto *k : keepers) {
      std::ostringstream o;
      for (auto x : k->list) o << x << " ";
      o << "|";
      for (const auto &[n, x] : k->table) o << n << "=" << x << " ";
      o << "|" << (k->entry ? ::Xsmp::Helper::GetPath(k->entry) : "none");
      add(std::string(k->GetName()) + " itself", true, o.str());
    }
    auto num = [](auto x) { return std::to_string(static_cast<long long>(x)); };
    add("simulation time", true, num(w.clock()->GetSimulationTime()));
    add("mission time", true, num(w.clock()->GetMissionTime()));
    add("mission start time", true, num(w.clock()->GetMissionStartTime()));
    add("epoch time", true, num(w.clock()->GetEpochTime()));
    add("next event time", true, num(w.scheduler()->GetNextScheduledEventTime()));
    // who is told of what
    auto before = std::move(log);
    for (int n = 0; n < 4; n++) {
      log.clear();
      w.events()->Emit(w.events()->QueryEventId(("ev" + std::to_string(n)).c_str()));
      std::string s;
      for (const auto &x : log) s += x + " ";
      add("subscribers of ev" + std::to_string(n), true, s);
    }
    log = std::move(before);
    return v;
  }
};
void compare(const char *key, const std::string &when, const std::vector<Cell> &got, const std::vector<Cell> &want, bool state) {
  XV_CHECK(got.size() == want.size(), key, when << " there are other cells");
  for (std::size_t i = 0; i < got.size(); i++) {
    if (want[i].state != state) continue;
    XV_CHECK(got[i].path == want[i].path && got[i].value == want[i].value, key, when << " " << got[i].path << " is " << got[i].value << ", expected " << want[i].value);
    if (state) XV_COUNT("state cells compared"); else XV_COUNT("other cells compared");
  }
}
void compareLogs(const char *key, const std::string &when, const std::vector<std::string> &got, const std::vector<std::string> &want) {
  for (std::size_t i = 0; i < std::max(got.size(), want.size()); i++) {
    const std::string g = i < got.size() ? got[i] : "nothing", x = i < want.size() ? want[i] : "nothing";
    XV_CHECK(g == x, key, when << ", step " << i << " is " << g << ", expected " << x);
  }
  XV_COUNT("continuations compared");
}
} // namespace

XV_SCENARIO_NOLEAK(C27, restored, 400, 12000) {
  const auto seed = c.rng.next();
  struct Save { std::string dir; std::vector<Cell> cells, after; std::vector<std::string> log; std::uint64_t plan, steps; };
  std::vector<Save> saves;
  auto a = std::make_unique<Model>(c, seed);
  auto play = [&](Model &m, const Save &s) {
    m.log.clear();
    m.history(s.plan, s.steps);
    return m.log;
  };
  auto restore = [&](Model &m, const Save &s, const std::string &who) {
    const auto before = m.cells();
    c.op("restore " + s.dir + who);
    xv::quiet("restore", "restoring " + s.dir + who, [&] { m.w.sim.Restore(s.dir.c_str()); });
    XV_CHECK(m.usable(), "restore", "the simulation is in state " << stateName(m.w.sim.GetState()) << " after restoring " << s.dir);
    const auto now = m.cells();
    compare("state", "after restoring " + s.dir + who, now, s.cells, true);
    compare("untouched", "after restoring " + s.dir + who, now, before, false);
    XV_COUNT("restores");
  };
  const auto rounds = 2 + c.rng.below(5);
  for (std::uint64_t k = 0; k < rounds; k++) {
    switch (saves.empty() ? 0 : c.rng.below(3)) {
    case 0: {
      Save s;
      const auto steps = c.rng.below(12);
      c.op("history of " + std::to_string(steps));
      a->history(c.rng.next(), steps);
      if (!a->usable()) return;
      s.dir = !saves.empty() && c.rng.chance(1, 4) ? saves.back().dir : "save" + std::to_string(saves.size()) + (c.rng.chance(1, 3) ? "/deep/er" : "");
      s.cells = a->cells();
      c.op("save " + s.dir);
      xv::quiet("save", "saving", [&] { a->w.sim.Store(s.dir.c_str()); });
      compare("saving", "after saving", a->cells(), s.cells, true);
      compare("saving", "after saving", a->cells(), s.cells, false);
      s.plan = c.rng.next();
      s.steps = 2 + c.rng.below(12);
      s.log = play(*a, s);
      if (!a->usable()) return;
      s.after = a->cells();
      if (!saves.empty() && saves.back().dir == s.dir) { saves.pop_back(); XV_COUNT("saves replaced"); }
      saves.push_back(std::move(s));
      XV_COUNT("saves");
      break;
    }
    default: {
      const auto &s = c.rng.pick(saves);
      const bool twin = c.rng.chance(1, 3);
      std::unique_ptr<Model> b;
      if (twin) { c.op("twin"); b = std::make_unique<Model>(c, seed); XV_COUNT("twins"); }
      Model &m = twin ? *b : *a;
      const auto steps = c.rng.below(10);
      c.op("history of " + std::to_string(steps));
      m.history(c.rng.next(), steps);
      if (!m.usable()) break;
      restore(m, s, twin ? " into a twin" : "");
      const auto log = play(m, s);
      compareLogs("continuation", "after restoring " + s.dir + (twin ? " into a twin" : ""), log, s.log);
      compare("continuation state", "after continuing from " + s.dir, m.cells(), s.after, true);
      if (log.size() > 4) c.nontrivial = true;
    }
    }
  }
}
/// a save that could not be written completely is reported
XV_SCENARIO_NOLEAK(C27, full, 20, 100) {
  Model m(c, c.rng.next());
  std::error_code e;
  const std::string dir = "full";
  std::filesystem::remove_all(dir, e);
  std::filesystem::create_directory(dir);
  std::filesystem::create_symlink("/dev/full", dir + "/simulator.bin");
  c.op("save to a full device");
  bool threw = false;
  try { m.w.sim.Store(dir.c_str()); } catch (const ::Smp::CannotStore &) { threw = true; }
  std::filesystem::remove_all(dir, e);
  XV_CHECK(threw, "full", "saving to a full device is reported as done");
  XV_CHECK(m.usable(), "full", "the simulation is in state " << stateName(m.w.sim.GetState()) << " after a failed save");
  XV_COUNT("failed saves");
  c.nontrivial = true;
}
