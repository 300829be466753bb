// The simulator's libraries (C48) and services (C49).
#include "sim.h"
#include "items.h"
#include <Smp/DuplicateName.h>
#include <Smp/InvalidLibrary.h>
#include <Smp/InvalidSimulatorState.h>
#include <Smp/LibraryNotFound.h>
#include <Xsmp/Factory.h>
#include <Xsmp/Services/XsmpEventManager.h>
#include <Xsmp/Services/XsmpLinkRegistry.h>
#include <Xsmp/Services/XsmpLogger.h>
#include <Xsmp/Services/XsmpResolver.h>
#include <Xsmp/Services/XsmpScheduler.h>
#include <Xsmp/Services/XsmpTimeKeeper.h>
#include <sys/stat.h>
#include <xsmp_event_manager.h>
#include <xsmp_link_registry.h>
#include <xsmp_logger.h>
#include <xsmp_resolver.h>
#include <xsmp_scheduler.h>
#include <xsmp_services.h>
#include <xsmp_time_keeper.h>
namespace {
using namespace smpx;
using namespace ::Smp::Services;
using S = ::Smp::SimulatorStateKind;

std::function<bool(int, ::Smp::ISimulator *, ::Smp::Publication::ITypeRegistry *)> onInitialise;
std::function<bool(int, ::Smp::ISimulator *)> onFinalise;
} // namespace
extern "C" bool xv_initialise(int id, ::Smp::ISimulator *s, ::Smp::Publication::ITypeRegistry *t) { return onInitialise && onInitialise(id, s, t); }
extern "C" bool xv_finalise(int id, ::Smp::ISimulator *s) { return onFinalise && onFinalise(id, s); }
namespace {
enum class Fate { Good, NotFound, Invalid };
struct Lib { const char *name; int id; Fate fate; };
const Lib libs[] = {{"xvload1", 1, Fate::Good}, {"xvload2", 2, Fate::Good}, {"xvload3", 3, Fate::Good}, {"xvnoinit", 0, Fate::Invalid}, {"xvnofin", 0, Fate::Invalid}, {"xvneither", 0, Fate::Invalid}, {"xvunresolved", 0, Fate::NotFound}, {"xvcorrupt", 0, Fate::NotFound}, {"xvempty", 0, Fate::NotFound}, {"xvdirectory", 0, Fate::NotFound}, {"xvmissing", 0, Fate::NotFound}, {"", 0, Fate::NotFound}, {"xvload1.so", 0, Fate::NotFound}};
void badFiles() {
  static bool once = false;
  if (once) return;
  once = true;
  std::ofstream("libxvcorrupt.so") << "\x7f" << "ELF this is not a library";
  std::ofstream("libxvempty.so");
  mkdir("libxvdirectory.so", 0755);
}
/// one simulator and what is known of it
struct Loaded {
  std::unique_ptr<::Xsmp::Simulator> sim;
  std::vector<int> libraries; // in the order in which they were loaded
  std::vector<::Smp::Uuid> factories, types;
  std::vector<std::pair<std::string, ::Smp::IComponent *>> models, services;
  int number = 0;
};
} // namespace

XV_SCENARIO_NOLEAK(C48, stubs, 3000, 80000) {
  badFiles(); // beside the harness: before the change of directory
  Scratch::get();
  std::vector<std::unique_ptr<Loaded>> sims;
  struct Call { bool init; int id; ::Smp::ISimulator *sim; bool result; };
  std::vector<Call> calls;
  Loaded *dying = nullptr;
  int serial = 0;
  const int liveBefore = Svc::liveCount() + Node::liveCount();
  auto of = [&](::Smp::ISimulator *s) -> Loaded * {
    for (auto &l : sims) if (l->sim.get() == s) return l.get();
    return nullptr;
  };
  int resultIn = 1, nestedIn = 0, addsIn = 0;
  auto expect = [&](bool ok, const char *key, const std::string &what) { if (!ok) c.flag(key, what); };
  ::Xsmp::Simulator *dyingSim = nullptr;
  onInitialise = [&](int id, ::Smp::ISimulator *s, ::Smp::Publication::ITypeRegistry *t) {
    const auto index = calls.size();
    calls.push_back({true, id, s, false});
    auto *l = of(s);
    expect(l != nullptr, "simulator", "a library is initialised for an unknown simulator");
    if (!l) return false;
    expect(t == s->GetTypeRegistry(), "registry", "a library is initialised with another type registry than the simulator's");
    for (int adds = addsIn; adds > 0; adds--) {
      const auto name = "n" + std::to_string(++serial);
      const auto uuid = freshUuid(c);
      switch (c.rng.below(4)) {
      case 0: s->RegisterFactory(::Xsmp::Factory::Create(name.c_str(), "", s, uuid, typeid(Node), [uuid](::Smp::String8 n, ::Smp::String8 d, ::Smp::IComposite *p, ::Smp::ISimulator *sm) -> std::unique_ptr<::Smp::IComponent> { auto x = std::make_unique<Node>(n, d, p, sm); x->uuid = uuid; return x; })); l->factories.push_back(uuid); break;
      case 1: { auto *x = new Node(name.c_str(), "", s, s); s->AddModel(x); l->models.emplace_back(name, x); break; }
      case 2: { auto *x = new Svc(name.c_str(), "", s, s); s->AddService(x); l->services.emplace_back(name, x); break; }
      default: t->AddStringType(name.c_str(), "", uuid, 5); l->types.push_back(uuid); break;
      }
      XV_COUNT("registrations by libraries");
    }
    const bool result = resultIn != 0;
    if (nestedIn) { // a library may load those it needs
      const int other = nestedIn;
      nestedIn = 0;
      resultIn = 1;
      addsIn = 0;
      s->LoadLibrary(("xvload" + std::to_string(other)).c_str());
      l->libraries.push_back(other);
      XV_COUNT("libraries loaded by libraries");
    }
    calls[index].result = result;
    return result;
  };
  onFinalise = [&](int id, ::Smp::ISimulator *s) {
    const bool result = c.rng.chance(2, 3);
    calls.push_back({false, id, s, result});
    expect(dying != nullptr && s == dyingSim, "finalise", "a library is finalised for a simulator that is not being destroyed");
    if (!dying || s != dyingSim) return result;
    // what the libraries brought is still there
    for (auto &[name, x] : dying->services) expect(s->GetService(name.c_str()) == x, "alive", "service " + name + " is gone when a library is finalised");
    for (auto &[name, x] : dying->models) expect(s->GetContainer(::Smp::ISimulator::SMP_SimulatorModels)->GetComponent(name.c_str()) == x && std::string(x->GetName()) == name, "alive", "model " + name + " is gone when a library is finalised");
    for (const auto u : dying->factories) expect(s->GetFactory(u) != nullptr, "alive", "a factory is gone when a library is finalised");
    return result;
  };
  auto usable = [&](Loaded &l) {
    auto &s = *l.sim;
    for (auto &[name, x] : l.services) XV_CHECK(s.GetService(name.c_str()) == x, "registered", "service " << name << " of a library is not found");
    for (auto &[name, x] : l.models) XV_CHECK(s.GetContainer(::Smp::ISimulator::SMP_SimulatorModels)->GetComponent(name.c_str()) == x, "registered", "model " << name << " of a library is not found");
    for (const auto u : l.types) XV_CHECK(s.GetTypeRegistry()->GetType(u) != nullptr, "registered", "a type of a library is not found");
    for (const auto u : l.factories) {
      std::unique_ptr<::Smp::IComponent> x(s.CreateInstance(u, "made", "", &s));
      XV_CHECK(x && x->GetUuid() == u, "registered", "no instance of a component registered by a library");
    }
    for (auto &o : sims) if (o.get() != &l) for (const auto u : l.factories) XV_CHECK(o->sim->GetFactory(u) == nullptr, "registered", "a library's factory is known to another simulator");
  };
  auto destroy = [&](std::size_t i) {
    auto l = std::move(sims[i]);
    sims.erase(sims.begin() + static_cast<std::ptrdiff_t>(i));
    c.op("destroy " + std::to_string(l->number));
    calls.clear();
    dying = l.get();
    dyingSim = l->sim.get();
    l->sim.release();
    delete dyingSim;
    dying = nullptr;
    const auto n = l->libraries.size();
    XV_EQ(calls.size(), n, "finalised", "number of Finalise calls for " << n << " loaded libraries");
    for (std::size_t k = 0; k < n; k++) {
      XV_CHECK(!calls[k].init && calls[k].sim == dyingSim, "finalised", "call " << k << " is no Finalise of the simulator");
      XV_EQ(calls[k].id, l->libraries[n - 1 - k], "order", "library finalised at position " << k << " of " << n);
      if (!calls[k].result && k + 1 < n) XV_COUNT("finalisations after a failing one");
    }
    if (n > 1) XV_COUNT("orders of several libraries");
    dyingSim = nullptr;
  };
  const std::size_t steps = 4 + c.rng.below(14);
  for (std::size_t step = 0; step < steps; step++) {
    if (sims.empty() || (sims.size() < 3 && c.rng.chance(1, 8))) {
      sims.push_back(std::make_unique<Loaded>());
      sims.back()->sim = std::make_unique<::Xsmp::Simulator>("Simulator", "");
      sims.back()->number = ++serial;
      c.op("create " + std::to_string(serial));
      continue;
    }
    const auto i = c.rng.below(sims.size());
    auto &l = *sims[i];
    auto &s = *l.sim;
    switch (c.rng.below(12)) {
    case 0: destroy(i); continue;
    case 1:
      if (s.GetState() != S::SSK_Building) break;
      c.op("connect " + std::to_string(l.number));
      s.Publish(); s.Configure(); s.Connect();
      XV_EQ(stateName(s.GetState()), std::string("Standby"), "harness", "state after Connect");
      break;
    default: {
      const Lib &lib = libs[c.rng.chance(2, 3) ? c.rng.below(3) : c.rng.below(std::size(libs))];
      calls.clear();
      resultIn = c.rng.chance(4, 5) ? 1 : 0;
      const int nested = c.rng.chance(1, 8) ? 1 + static_cast<int>(c.rng.below(3)) : 0;
      nestedIn = nested;
      addsIn = static_cast<int>(c.rng.below(4));
      c.op(std::string("load ") + lib.name + " in " + std::to_string(l.number) + (lib.id && !resultIn ? " failing" : "") + (lib.id && nestedIn ? " nesting " + std::to_string(nestedIn) : ""));
      const bool good = resultIn;
      if (lib.fate == Fate::NotFound) {
        try { s.LoadLibrary(lib.name); XV_FAIL("accepted", "loading '" << lib.name << "' gave no error"); }
        catch (const ::Smp::LibraryNotFound &e) {
          XV_EQ(std::string(e.GetLibraryName()), std::string(lib.name), "error", "library named by the error");
          XV_CHECK(e.GetSender() == static_cast<::Smp::IObject *>(&s), "error", "sender of the error");
          XV_CHECK(std::string(e.GetMessage()).find("lib" + std::string(lib.name) + ".so") != std::string::npos, "error", "the error does not name the file: " << e.GetMessage());
        }
        XV_CHECK(calls.empty(), "accepted", "a library that cannot be loaded is called");
        XV_COUNT("libraries not found");
        c.nontrivial = true;
      } else if (lib.fate == Fate::Invalid || !good) {
        try { s.LoadLibrary(lib.name); XV_FAIL("accepted", "loading '" << lib.name << "' gave no error"); }
        catch (const ::Smp::InvalidLibrary &e) {
          XV_EQ(std::string(e.GetLibraryName()), std::string(lib.name), "error", "library named by the error");
          XV_CHECK(e.GetSender() == static_cast<::Smp::IObject *>(&s), "error", "sender of the error");
        }
        if (lib.fate == Fate::Invalid) { XV_CHECK(calls.empty(), "accepted", "a library without its entry points is called"); XV_COUNT("libraries without entry points"); }
        else { XV_CHECK(!calls.empty() && calls[0].init && calls[0].id == lib.id && calls[0].sim == &s, "initialise", "the library has not been initialised"); XV_COUNT("failing initialisations"); }
        c.nontrivial = true;
      } else {
        xv::quiet("load", std::string("loading ") + lib.name, [&] { s.LoadLibrary(lib.name); });
        l.libraries.push_back(lib.id);
        XV_CHECK(!calls.empty() && calls[0].init && calls[0].id == lib.id && calls[0].sim == &s, "initialise", "the library has not been initialised for the simulator");
        XV_COUNT("libraries loaded");
      }
      if (lib.fate == Fate::Good) {
        XV_EQ(calls.size(), nested ? 2u : 1u, "initialise", "number of Initialise calls");
        if (nested) XV_CHECK(calls[1].init && calls[1].id == nested && calls[1].sim == &s, "initialise", "wrong nested call");
      }
      nestedIn = 0;
      calls.clear();
      for (auto &o : sims) usable(*o);
      XV_CHECK(calls.empty(), "initialise", "libraries are called by using what they registered");
    }
    }
  }
  while (!sims.empty()) destroy(c.rng.below(sims.size()));
  XV_EQ(Svc::liveCount() + Node::liveCount(), liveBefore, "owned", "components alive after the simulators");
  onInitialise = nullptr;
  onFinalise = nullptr;
}

// the libraries of the services, in any order and any number of times
XV_SCENARIO_NOLEAK(C48, services, 300, 6000) {
  Scratch::get();
  static const struct { const char *library, *service; bool (*init)(::Smp::ISimulator *, ::Smp::Publication::ITypeRegistry *); } real[] = {{"xsmp_logger", "XsmpLogger", Initialise_xsmp_logger}, {"xsmp_time_keeper", "XsmpTimeKeeper", Initialise_xsmp_time_keeper}, {"xsmp_resolver", "XsmpResolver", Initialise_xsmp_resolver}, {"xsmp_event_manager", "XsmpEventManager", Initialise_xsmp_event_manager}, {"xsmp_link_registry", "XsmpLinkRegistry", Initialise_xsmp_link_registry}, {"xsmp_scheduler", "XsmpScheduler", Initialise_xsmp_scheduler}};
  const std::size_t n = 1 + c.rng.below(2);
  std::vector<std::unique_ptr<::Xsmp::Simulator>> sims;
  std::vector<std::map<std::string, ::Smp::IComponent *>> known(n);
  std::vector<unsigned> have(n);
  for (std::size_t i = 0; i < n; i++) sims.push_back(std::make_unique<::Xsmp::Simulator>());
  const std::size_t steps = 2 + c.rng.below(10);
  for (std::size_t step = 0; step < steps; step++) {
    const auto i = c.rng.below(n);
    auto &s = *sims[i];
    const auto k = c.rng.below(7);
    const bool direct = c.rng.chance(1, 4);
    if (direct && c.rng.chance(1, 4)) {
      c.op("null simulator");
      XV_CHECK(!(k == 6 ? Initialise_xsmp_services(nullptr, nullptr) : real[k].init(nullptr, nullptr)), "null", "a null simulator is accepted");
      XV_COUNT("null simulators");
    } else {
      c.op(std::string(direct ? "initialise " : "load ") + (k == 6 ? "xsmp_services" : real[k].library) + " in " + std::to_string(i));
      const unsigned now = k == 6 ? 63u : 1u << k;
      if ((have[i] & now) == now) { XV_COUNT("repeated loads"); c.nontrivial = true; }
      if (direct) XV_CHECK((k == 6 ? Initialise_xsmp_services : real[k].init)(&s, s.GetTypeRegistry()), "refused", "a library refuses the simulator");
      else xv::quiet("load", "loading a library of services", [&] { s.LoadLibrary(k == 6 ? "xsmp_services" : real[k].library); });
      have[i] |= now;
    }
    for (std::size_t j = 0; j < n; j++) {
      auto &m = *sims[j];
      unsigned count = 0;
      for (unsigned b = 0; b < 6; b++) {
        auto *f = m.GetService(real[b].service);
        XV_EQ(f != nullptr, ((have[j] >> b) & 1u) != 0, "present", real[b].service << " in simulator " << j);
        if (!f) continue;
        count++;
        auto &before = known[j][real[b].service];
        if (before) XV_CHECK(before == f, "replaced", real[b].service << " has been replaced");
        before = f;
        for (std::size_t o = 0; o < n; o++) if (o != j) XV_CHECK(sims[o]->GetService(real[b].service) != f, "shared", "two simulators share a service");
        XV_CHECK(f->GetParent() == static_cast<::Smp::IObject *>(&m), "parent", "parent of " << real[b].service);
      }
      XV_EQ(m.GetContainer(::Smp::ISimulator::SMP_SimulatorServices)->GetComponents()->size(), std::size_t{count}, "count", "number of services");
      const ::Smp::IComponent *kinds[] = {m.GetLogger(), m.GetTimeKeeper(), m.GetResolver(), m.GetEventManager(), m.GetLinkRegistry(), m.GetScheduler()};
      for (unsigned b = 0; b < 6; b++) XV_CHECK(kinds[b] == m.GetService(real[b].service), "kind", real[b].service << " does not serve its kind");
    }
    if (have[i] == 63u && s.GetState() == S::SSK_Building && c.rng.chance(1, 2)) {
      c.op("connect " + std::to_string(i));
      s.Publish(); s.Configure(); s.Connect();
      XV_EQ(stateName(s.GetState()), std::string("Standby"), "connect", "state with all services");
      for (unsigned b = 0; b < 6; b++) XV_CHECK(s.GetService(real[b].service)->GetState() == ::Smp::ComponentStateKind::CSK_Connected, "connect", real[b].service << " is not connected");
      XV_COUNT("simulations connected");
    }
    XV_COUNT("service states compared");
  }
}

// ---------------------------------------------------------------- C49
namespace {
enum { Log = 1, Time = 2, Sched = 4, Events = 8, Resolve = 16, Links = 32 };
template <typename I> struct Stub;
template <> struct Stub<ILogger> : virtual ILogger { LogMessageKind QueryLogMessageKind(::Smp::String8) override { return 0; } void Log(const ::Smp::IObject *, ::Smp::String8, LogMessageKind) override { ++logged; } int logged = 0; };
template <> struct Stub<ITimeKeeper> : virtual ITimeKeeper {
  ::Smp::Duration GetSimulationTime() const override { return 0; }
  ::Smp::DateTime GetEpochTime() const override { return 0; }
  ::Smp::DateTime GetMissionStartTime() const override { return 0; }
  ::Smp::Duration GetMissionTime() const override { return 0; }
  ::Smp::DateTime GetZuluTime() const override { return 0; }
  void SetSimulationTime(::Smp::Duration) override {}
  void SetEpochTime(::Smp::DateTime) override {}
  void SetMissionStartTime(::Smp::DateTime) override {}
  void SetMissionTime(::Smp::Duration) override {}
};
template <> struct Stub<IScheduler> : virtual IScheduler {
  EventId AddImmediateEvent(const ::Smp::IEntryPoint *) override { return 0; }
  EventId AddSimulationTimeEvent(const ::Smp::IEntryPoint *, ::Smp::Duration, ::Smp::Duration, ::Smp::Int64) override { return 0; }
  EventId AddMissionTimeEvent(const ::Smp::IEntryPoint *, ::Smp::Duration, ::Smp::Duration, ::Smp::Int64) override { return 0; }
  EventId AddEpochTimeEvent(const ::Smp::IEntryPoint *, ::Smp::DateTime, ::Smp::Duration, ::Smp::Int64) override { return 0; }
  EventId AddZuluTimeEvent(const ::Smp::IEntryPoint *, ::Smp::DateTime, ::Smp::Duration, ::Smp::Int64) override { return 0; }
  void SetEventSimulationTime(EventId, ::Smp::Duration) override {}
  void SetEventMissionTime(EventId, ::Smp::Duration) override {}
  void SetEventEpochTime(EventId, ::Smp::DateTime) override {}
  void SetEventZuluTime(EventId, ::Smp::DateTime) override {}
  void SetEventCycleTime(EventId, ::Smp::Duration) override {}
  void SetEventRepeat(EventId, ::Smp::Int64) override {}
  void RemoveEvent(EventId) override {}
  EventId GetCurrentEventId() const override { return 0; }
  ::Smp::Duration GetNextScheduledEventTime() const override { return 0; }
};
template <> struct Stub<IEventManager> : virtual IEventManager {
  EventId QueryEventId(::Smp::String8) override { return 0; }
  void Subscribe(EventId, const ::Smp::IEntryPoint *) override {}
  void Unsubscribe(EventId, const ::Smp::IEntryPoint *) override {}
  void Emit(EventId, ::Smp::Bool) override { ++emitted; }
  int emitted = 0;
};
template <> struct Stub<IResolver> : virtual IResolver {
  ::Smp::IObject *ResolveAbsolute(::Smp::String8) override { return nullptr; }
  ::Smp::IObject *ResolveRelative(::Smp::String8, const ::Smp::IComponent *) override { return nullptr; }
};
template <> struct Stub<ILinkRegistry> : virtual ILinkRegistry {
  void AddLink(::Smp::IComponent *, const ::Smp::IComponent *) override {}
  ::Smp::UInt32 GetLinkCount(const ::Smp::IComponent *, const ::Smp::IComponent *) const override { return 0; }
  ::Smp::Bool RemoveLink(::Smp::IComponent *, const ::Smp::IComponent *) override { return false; }
  const ::Smp::ComponentCollection *GetLinkSources(const ::Smp::IComponent *) const override { return nullptr; }
  ::Smp::Bool CanRemove(const ::Smp::IComponent *) override { return true; }
  void RemoveLinks(const ::Smp::IComponent *) override {}
};
int stubs = 0;
/// a service of several kinds at once
template <typename... I> struct Many final : public ::Xsmp::Service, public Stub<I>... {
  Many(const char *name, ::Smp::IComposite *parent, ::Smp::ISimulator *sim) : ::Xsmp::Service(name, "", parent, sim) { ++stubs; }
  ~Many() noexcept override { --stubs; }
  const ::Smp::Uuid &GetUuid() const override { return nodeUuid; }
};
struct Made { ::Smp::IService *service; int kinds; const char *what; };
Made make(xv::Case &c, const char *name, ::Smp::IComposite *p, ::Smp::ISimulator *s) {
  switch (c.rng.below(19)) {
  case 0: return {new Many<>(name, p, s), 0, "plain"};
  case 1: return {new Many<ILogger>(name, p, s), Log, "logger"};
  case 2: return {new Many<ITimeKeeper>(name, p, s), Time, "time keeper"};
  case 3: return {new Many<IScheduler>(name, p, s), Sched, "scheduler"};
  case 4: return {new Many<IEventManager>(name, p, s), Events, "event manager"};
  case 5: return {new Many<IResolver>(name, p, s), Resolve, "resolver"};
  case 6: return {new Many<ILinkRegistry>(name, p, s), Links, "link registry"};
  case 7: return {new Many<ILogger, IScheduler>(name, p, s), Log | Sched, "logger and scheduler"};
  case 8: return {new Many<ITimeKeeper, IResolver, ILinkRegistry>(name, p, s), Time | Resolve | Links, "time keeper, resolver and link registry"};
  case 9: return {new Many<IEventManager, IResolver>(name, p, s), Events | Resolve, "event manager and resolver"};
  case 10: return {new Many<ILogger, ITimeKeeper, IScheduler, IEventManager, IResolver, ILinkRegistry>(name, p, s), 63, "all"};
  case 11: return {new Many<ILinkRegistry, ITimeKeeper, IEventManager>(name, p, s), Links | Time | Events, "link registry, time keeper and event manager"};
  case 12: return {new Many<IScheduler, ILinkRegistry>(name, p, s), Sched | Links, "scheduler and link registry"};
  case 13: return {new ::Xsmp::Services::XsmpLogger(name, "", p, s), Log, "XsmpLogger"};
  case 14: return {new ::Xsmp::Services::XsmpTimeKeeper(name, "", p, s), Time, "XsmpTimeKeeper"};
  case 15: return {new ::Xsmp::Services::XsmpScheduler(name, "", p, s), Sched, "XsmpScheduler"};
  case 16: return {new ::Xsmp::Services::XsmpEventManager(name, "", p, s), Events, "XsmpEventManager"};
  case 17: return {new ::Xsmp::Services::XsmpResolver(name, "", p, s), Resolve, "XsmpResolver"};
  default: return {new ::Xsmp::Services::XsmpLinkRegistry(name, "", p, s), Links, "XsmpLinkRegistry"};
  }
}
} // namespace
XV_SCENARIO_NOLEAK(C49, histories, 3000, 80000) {
  Scratch::get();
  const int nodesBefore = Node::liveCount(), stubsBefore = stubs;
  {
    ::Xsmp::Simulator sim;
    struct Entry { std::string name; ::Smp::IComponent *x; int kinds; };
    std::vector<Entry> services, models;
    ::Smp::IService *first[6] = {};
    static const char *const names[] = {"a", "b", "A", "ab", "a1", "b_2", "XsmpLogger", "longer_than_any_other_name_of_a_service_0123456789"};
    auto compare = [&] {
      for (const auto *name : names) {
        ::Smp::IComponent *want = nullptr;
        for (auto &e : services) if (e.name == name) want = e.x;
        const std::string copy(name); // another address
        XV_CHECK(sim.GetService(copy.c_str()) == want, "byname", "service '" << name << "' looked up");
      }
      XV_CHECK(sim.GetService("") == nullptr && sim.GetService("nothing") == nullptr, "byname", "an unknown name finds a service");
      XV_CHECK(sim.GetService(nullptr) == nullptr, "byname", "a null name finds a service");
      const ::Smp::IComponent *kinds[] = {sim.GetLogger(), sim.GetTimeKeeper(), sim.GetScheduler(), sim.GetEventManager(), sim.GetResolver(), sim.GetLinkRegistry()};
      static const char *const kindNames[] = {"logger", "time keeper", "scheduler", "event manager", "resolver", "link registry"};
      for (int k = 0; k < 6; k++) XV_CHECK(kinds[k] == first[k], "bykind", "the " << kindNames[k] << " is " << (kinds[k] ? kinds[k]->GetName() : "none") << " instead of " << (first[k] ? first[k]->GetName() : "none"));
      auto list = [&](const char *container, const std::vector<Entry> &want) {
        const auto *all = sim.GetContainer(container)->GetComponents();
        XV_EQ(all->size(), want.size(), "list", "number of components in " << container);
        std::size_t i = 0;
        for (auto *x : *all) { XV_CHECK(x == want[i].x, "list", "component " << i << " in " << container); i++; }
      };
      list(::Smp::ISimulator::SMP_SimulatorServices, services);
      list(::Smp::ISimulator::SMP_SimulatorModels, models);
      XV_COUNT("lookups compared");
    };
    compare();
    const std::size_t steps = 3 + c.rng.below(22);
    for (std::size_t step = 0; step < steps; step++) {
      const auto op = c.rng.below(14);
      const bool accepts = sim.GetState() == S::SSK_Building || sim.GetState() == S::SSK_Standby;
      const char *name = names[c.rng.below(std::size(names))];
      bool taken = false;
      for (auto *v : {&services, &models}) for (auto &e : *v) taken = taken || e.name == name;
      const bool foreign = c.rng.chance(1, 12); // made for another parent
      Node other("other", "", nullptr, nullptr);
      ::Smp::IComposite *parent = foreign ? static_cast<::Smp::IComposite *>(&other) : &sim;
      if (op < 8) {
        auto m = make(c, name, parent, &sim);
        c.op(std::string("service ") + name + " " + m.what + (foreign ? " of another parent" : ""));
        bool added = false;
        std::string error;
        try { sim.AddService(m.service); added = true; }
        catch (const ::Smp::InvalidSimulatorState &) { error = "state"; }
        catch (const ::Smp::DuplicateName &) { error = "duplicate"; }
        catch (const ::Smp::Exception &e) { error = e.GetName(); }
        if (!accepts) XV_EQ(error, std::string("state"), "refused", "adding a service in state " << stateName(sim.GetState()));
        else if (taken && foreign) XV_CHECK(!added, "refused", "a second component named " << name << " of another parent is added");
        else if (taken) XV_EQ(error, std::string("duplicate"), "refused", "adding a second component called " << name);
        else if (foreign) XV_CHECK(!added, "refused", "a service of another parent is added");
        else XV_CHECK(added, "refused", "a service is refused: " << error);
        if (added) {
          services.push_back({name, m.service, m.kinds});
          for (int k = 0; k < 6; k++) if (m.kinds >> k & 1) { if (first[k]) XV_COUNT("further services of a kind"); else first[k] = m.service; }
          XV_COUNT("services added");
        } else {
          delete m.service;
          XV_COUNT("services refused");
          c.nontrivial = true;
        }
      } else if (op < 11) {
        auto *x = new Node(name, "", parent, &sim);
        c.op(std::string("model ") + name + (foreign ? " of another parent" : ""));
        bool added = false;
        std::string error;
        try { sim.AddModel(x); added = true; }
        catch (const ::Smp::InvalidSimulatorState &) { error = "state"; }
        catch (const ::Smp::DuplicateName &) { error = "duplicate"; }
        catch (const ::Smp::Exception &e) { error = e.GetName(); }
        if (!accepts) XV_EQ(error, std::string("state"), "refused", "adding a model in state " << stateName(sim.GetState()));
        else if (taken && foreign) XV_CHECK(!added, "refused", "a second component named " << name << " of another parent is added");
        else if (taken) XV_EQ(error, std::string("duplicate"), "refused", "adding a second component called " << name);
        else if (foreign) XV_CHECK(!added, "refused", "a model of another parent is added");
        else XV_CHECK(added, "refused", "a model is refused: " << error);
        if (added) { models.push_back({name, x, 0}); XV_COUNT("models added"); }
        else delete x;
      } else if (op == 11 && sim.GetState() == S::SSK_Building && c.rng.chance(1, 2)) {
        bool all = true, real = false; // the real services need the others
        for (auto *f : first) all = all && f;
        for (auto &e : services) real = real || dynamic_cast<::Xsmp::Services::XsmpScheduler *>(e.x) || dynamic_cast<::Xsmp::Services::XsmpTimeKeeper *>(e.x) || dynamic_cast<::Xsmp::Services::XsmpEventManager *>(e.x);
        if (real && !all) continue;
        c.op("connect");
        sim.Publish(); sim.Configure(); sim.Connect();
        XV_EQ(stateName(sim.GetState()), std::string("Standby"), "connect", "state after Connect");
        XV_COUNT("simulations connected");
      } else if (op == 12 && c.rng.chance(1, 3)) {
        const bool abort = c.rng.chance(1, 2);
        if (!abort && sim.GetState() != S::SSK_Standby) continue;
        c.op(abort ? "abort" : "exit");
        if (abort) sim.Abort(); else sim.Exit();
      } else continue;
      compare();
    }
  }
  XV_EQ(Node::liveCount(), nodesBefore, "owned", "models alive after the simulator");
  XV_EQ(stubs, stubsBefore, "owned", "services alive after the simulator");
}
