// The simulator: its state machine, the life of the components in it and its
// factories, driven by random commands, also from inside handlers, and
// compared with a model.
#include "sim.h"
#include "items.h"
#include <Smp/CannotRestore.h>
#include <Smp/CannotStore.h>
#include <Smp/DuplicateUuid.h>
#include <Smp/InvalidSimulatorState.h>
#include <Xsmp/Factory.h>
namespace {
using namespace smpx;
using namespace ::Smp::Services;
using S = ::Smp::SimulatorStateKind;
using E = IEventManager;
const char *eventName(EventId id) {
  static const std::map<EventId, const char *> names{{E::SMP_LeaveConnectingId, "LeaveConnecting"}, {E::SMP_EnterInitialisingId, "EnterInitialising"}, {E::SMP_LeaveInitialisingId, "LeaveInitialising"}, {E::SMP_EnterStandbyId, "EnterStandby"}, {E::SMP_LeaveStandbyId, "LeaveStandby"}, {E::SMP_EnterExecutingId, "EnterExecuting"}, {E::SMP_LeaveExecutingId, "LeaveExecuting"}, {E::SMP_EnterStoringId, "EnterStoring"}, {E::SMP_LeaveStoringId, "LeaveStoring"}, {E::SMP_EnterRestoringId, "EnterRestoring"}, {E::SMP_LeaveRestoringId, "LeaveRestoring"}, {E::SMP_EnterExitingId, "EnterExiting"}, {E::SMP_EnterAbortingId, "EnterAborting"}, {E::SMP_EnterReconnectingId, "EnterReconnecting"}, {E::SMP_LeaveReconnectingId, "LeaveReconnecting"}, {E::SMP_PreSimTimeChangeId, "PreSimTimeChange"}, {E::SMP_PostSimTimeChangeId, "PostSimTimeChange"}};
  auto it = names.find(id);
  return it == names.end() ? "?" : it->second;
}

/// the minimal event manager: tells the monitor, then runs the subscribers
class StubEvents final : public ::Xsmp::Service, public virtual ::Smp::Services::IEventManager {
public:
  std::function<void(EventId, bool)> hook; // (event, true) before and (event, false) after the handlers
  std::map<EventId, std::vector<const ::Smp::IEntryPoint *>> subscribed;
  using ::Xsmp::Service::Service;
  const ::Smp::Uuid &GetUuid() const override { return nodeUuid; }
  EventId QueryEventId(::Smp::String8) override { return 1; }
  void Subscribe(EventId e, const ::Smp::IEntryPoint *p) override { subscribed[e].push_back(p); }
  void Unsubscribe(EventId e, const ::Smp::IEntryPoint *p) override {
    auto &s = subscribed[e];
    s.erase(std::find(s.begin(), s.end(), p));
  }
  void Emit(EventId e, ::Smp::Bool) override {
    if (hook) hook(e, true);
    const auto due = subscribed[e];
    for (const auto *p : due) p->Execute();
    if (hook) hook(e, false);
  }
};

/// follows the simulator command by command and event by event
struct Monitor {
  struct Step { bool emit; EventId id; S state; };
  static Step emits(EventId id) { return {true, id, S::SSK_Building}; }
  static Step enters(S s) { return {false, 0, s}; }
  struct Plan { std::string name; std::vector<Step> steps; std::size_t next = 0; bool dead = false, internal = false; std::size_t diedAt = 0; std::function<bool()> act; bool fails = false; };
  xv::Case &c;
  std::unique_ptr<::Xsmp::Simulator> owned;
  ::Xsmp::Simulator *sim = nullptr;
  S state = S::SSK_Building;
  EventId last = -1;
  bool deferred = false;
  std::deque<Plan> plans;
  int budget = 0;
  bool scheduled = false; // with a scheduler: a run blocks until it is held
  std::map<std::string, int> files;
  int version = 0, names = 0;
  std::uint64_t emissions = 0;
  std::vector<::Smp::IComponent *> components;
  std::function<void()> beforeRun;
  explicit Monitor(xv::Case &cc) : c(cc) {}
  void flag(const char *key, const std::string &s) { c.flag(key, s); }
  std::string indent() const { return std::string(plans.size() * 2, ' '); }
  bool consistent(const std::string &where) {
    if (sim->GetState() != state) { flag("state", where + ": the state is " + stateName(sim->GetState()) + " instead of " + stateName(state)); return false; }
    XV_COUNT("states compared");
    return true;
  }
  void settle() {
    auto &p = plans.back();
    while (!p.dead && p.next < p.steps.size() && !p.steps[p.next].emit) state = p.steps[p.next++].state;
  }
  void dropInternal() { while (!plans.empty() && plans.back().internal && (plans.back().dead || plans.back().next == plans.back().steps.size())) plans.pop_back(); }
  /// an event of the state machine is emitted
  void emitted(EventId id) {
    emissions++;
    c.op(indent() + "event " + eventName(id));
    dropInternal();
    if (plans.empty()) return flag("spurious", std::string(eventName(id)) + " is emitted outside any command");
    settle();
    auto &p = plans.back();
    if (p.dead || p.next >= p.steps.size() || p.steps[p.next].id != id)
      return flag("event", std::string(eventName(id)) + " is emitted by " + p.name + (p.dead ? " after an abort" : p.next >= p.steps.size() ? " where no event is due" : std::string(" where ") + eventName(p.steps[p.next].id) + " is due"));
    p.next++;
    if (p.act && p.next == 3) p.fails = p.act(); // the action is next
    consistent(std::string("in the handlers of ") + eventName(id));
    XV_COUNT("events compared");
  }
  bool standby() const { return state == S::SSK_Standby && last != E::SMP_LeaveStandbyId; }
  /// runs a command the monitor expects the given steps of
  template <typename F> void run(const std::string &name, bool legal, std::vector<Step> steps, F &&f, const std::function<bool()> &act = {}) {
    c.op(indent() + name + (legal ? "" : " (not legal)"));
    if (legal) XV_COUNT("legal commands"); else XV_COUNT("illegal commands");
    if (!plans.empty()) XV_COUNT("commands from handlers");
    if (legal && !plans.empty()) XV_COUNT("legal commands from handlers");
    plans.push_back({name, legal ? std::move(steps) : std::vector<Step>{}});
    plans.back().act = act;
    settle();
    bool threw = false;
    std::string what;
    try { f(); }
    catch (const std::exception &e) { threw = true; what = e.what(); }
    if (!c.flagged.empty()) return;
    dropInternal();
    auto &p = plans.back();
    settle();
    if (!p.dead && p.next != p.steps.size()) flag("missing", name + " returned before " + eventName(p.steps[p.next].id) + " was emitted");
    const bool want = p.fails && !(p.dead && p.diedAt <= 3); // an abort before the action prevents it
    if (threw != want) flag(threw ? "threw" : "not-thrown", name + (threw ? " threw " + what : " did not throw"));
    if (threw) XV_COUNT("failing commands");
    plans.pop_back();
    consistent("after " + name);
  }
  void abort() {
    if (state == S::SSK_Aborting) return run("Abort again", true, {}, [this] { sim->Abort(); });
    for (auto &p : plans) if (!p.dead) { p.dead = true; p.diedAt = p.next; }
    run("Abort", true, {enters(S::SSK_Aborting), emits(E::SMP_EnterAbortingId)}, [this] { sim->Abort(); });
    XV_COUNT("aborts");
  }
  void hold(bool immediate) {
    const bool legal = state == S::SSK_Executing && last != E::SMP_LeaveExecutingId;
    if (!immediate) return run("Hold(false)", legal, {}, [&] { sim->Hold(false); if (legal) deferred = true; });
    if (legal) deferred = false;
    run("Hold(true)", legal, {emits(E::SMP_LeaveExecutingId), enters(S::SSK_Standby), emits(E::SMP_EnterStandbyId)}, [this] { sim->Hold(true); });
  }
  void addModel() {
    const bool legal = state == S::SSK_Building || state == S::SSK_Connecting || state == S::SSK_Standby;
    auto n = std::make_unique<Node>(("m" + std::to_string(names++)).c_str(), "", static_cast<::Smp::IComposite *>(sim), sim);
    hooks(*n);
    auto *raw = n.get();
    c.op(indent() + "add model " + raw->GetName() + (legal ? "" : " (not legal)"));
    try {
      sim->AddModel(raw);
      n.release();
      components.push_back(raw);
      version++;
      if (!legal) flag("added", std::string("a model was added in state ") + stateName(state));
    } catch (const ::Smp::InvalidSimulatorState &e) {
      if (legal) flag("not-added", std::string("a model was refused in state ") + stateName(state));
      if (e.GetInvalidState() != state) flag("not-added", "the error names another state");
      XV_COUNT("models refused");
    }
  }
  void hooks(Node &n) {
    n.onPublish = [this](::Smp::IPublication *) { action("publish"); };
    n.onConfigure = [this] { action("configure"); };
    n.onConnect = [this] { action("connect"); };
    n.onDisconnect = [this] { action("disconnect"); };
  }
  void action(const char *what) {
    if (!c.flagged.empty()) return;
    consistent(std::string("in a component's ") + what);
    if (c.rng.chance(1, 8)) several(true);
  }
  /// one command or a few, one after another, from inside a handler
  void several(bool noBuild) {
    for (int n = 0; n < 4; n++) {
      nested(noBuild);
      if (n) XV_COUNT("further commands in a handler");
      if (c.rng.chance(1, 2)) break;
    }
  }
  /// a command from inside a handler
  void nested(bool noBuild) {
    if (budget <= 0 || !c.flagged.empty()) return;
    budget--;
    command(true, noBuild);
  }
  void command(bool inside, bool noBuild = false) {
    dropInternal();
    if (!c.flagged.empty() || (inside && plans.size() > 6)) return;
    switch (c.rng.below(inside ? 13 : 16)) {
    case 0:
      if (noBuild && state == S::SSK_Building) return;
      return run("Publish", state == S::SSK_Building, {}, [this] { sim->Publish(); });
    case 1:
      if (noBuild && state == S::SSK_Building) return;
      return run("Configure", state == S::SSK_Building, {}, [this] { sim->Configure(); });
    case 2:
      if (noBuild && state == S::SSK_Building) return;
      return run("Connect", state == S::SSK_Building, {enters(S::SSK_Connecting), emits(E::SMP_LeaveConnectingId), enters(S::SSK_Initialising), emits(E::SMP_EnterInitialisingId), emits(E::SMP_LeaveInitialisingId), enters(S::SSK_Standby), emits(E::SMP_EnterStandbyId)}, [this] { sim->Connect(); });
    case 3:
      return run("Initialise", standby(), {emits(E::SMP_LeaveStandbyId), enters(S::SSK_Initialising), emits(E::SMP_EnterInitialisingId), emits(E::SMP_LeaveInitialisingId), enters(S::SSK_Standby), emits(E::SMP_EnterStandbyId)}, [this] { sim->Initialise(); });
    case 4: {
      const std::string file = c.rng.pick<std::string>({"s0", "s1", "s2", "bad"});
      return run("Store " + file, standby(), {emits(E::SMP_LeaveStandbyId), enters(S::SSK_Storing), emits(E::SMP_EnterStoringId), emits(E::SMP_LeaveStoringId), enters(S::SSK_Standby), emits(E::SMP_EnterStandbyId)}, [&] { sim->Store(file.c_str()); },
                 [&] { if (file == "bad") return true; files[file] = version; return false; });
    }
    case 5: {
      if (inside && scheduled) return;
      const std::string file = c.rng.pick<std::string>({"s0", "s1", "s2", "bad", "missing"});
      return run("Restore " + file, standby(), {emits(E::SMP_LeaveStandbyId), enters(S::SSK_Restoring), emits(E::SMP_EnterRestoringId), emits(E::SMP_LeaveRestoringId), enters(S::SSK_Standby), emits(E::SMP_EnterStandbyId)}, [&] { sim->Restore(file.c_str()); },
                 [&] { auto it = files.find(file); return it == files.end() || it->second != version; });
    }
    case 6: {
      auto *root = components.empty() || c.rng.chance(1, 5) ? nullptr : components[c.rng.below(components.size())];
      return run(std::string("Reconnect ") + (root ? root->GetName() : "nothing"), standby(), {emits(E::SMP_LeaveStandbyId), enters(S::SSK_Reconnecting), emits(E::SMP_EnterReconnectingId), emits(E::SMP_LeaveReconnectingId), enters(S::SSK_Standby), emits(E::SMP_EnterStandbyId)}, [&] { sim->Reconnect(root); });
    }
    case 7:
      if (!c.rng.chance(1, 3)) return;
      return run("Exit", standby(), {emits(E::SMP_LeaveStandbyId), enters(S::SSK_Exiting), emits(E::SMP_EnterExitingId)}, [this] { sim->Exit(); });
    case 8:
      if (!c.rng.chance(1, 5)) return;
      return abort();
    case 9: return hold(true);
    case 10: return hold(false);
    case 11: return addModel();
    case 12:
    default: {
      if (scheduled && !plans.empty()) return;
      const bool legal = standby() && last != E::SMP_EnterStandbyId;
      const bool bounded = c.rng.chance(1, 2);
      if (legal && scheduled) return beforeRun();
      return run(bounded ? "Run(5)" : "Run()", legal, {emits(E::SMP_LeaveStandbyId), enters(S::SSK_Executing), emits(E::SMP_EnterExecutingId)}, [&] { if (bounded) sim->Run(5); else sim->Run(); });
    }
    }
  }
  /// the end of the simulator
  void destroy() {
    std::vector<Step> steps;
    dropInternal();
    deferred = false;
    if (state == S::SSK_Executing) { steps = {emits(E::SMP_LeaveExecutingId), enters(S::SSK_Standby), emits(E::SMP_EnterStandbyId)}; }
    if (state == S::SSK_Executing || state == S::SSK_Standby) { steps.push_back(emits(E::SMP_LeaveStandbyId)); steps.push_back(enters(S::SSK_Exiting)); steps.push_back(emits(E::SMP_EnterExitingId)); }
    budget = 0;
    c.op("destroy the simulator");
    plans.push_back({"the destruction", steps});
    owned.reset();
    settle();
    if (c.flagged.empty() && !plans.back().dead && plans.back().next != plans.back().steps.size()) flag("missing", std::string("the destruction did not emit ") + eventName(plans.back().steps[plans.back().next].id));
  }
};
void prepareFiles() {
  namespace fs = std::filesystem;
  for (const char *d : {"s0", "s1", "s2", "bad", "missing"}) fs::remove_all(d);
  fs::create_directories("bad/simulator.bin");
}
XV_SCENARIO_NOLEAK(C31, commands, 1500, 40000) {
  Scratch::get().quiet();
  prepareFiles();
  Monitor m(c);
  m.owned = std::make_unique<::Xsmp::Simulator>();
  m.sim = m.owned.get();
  auto *events = new StubEvents("events", "", static_cast<::Smp::IComposite *>(m.sim), m.sim);
  m.sim->AddService(events);
  events->hook = [&](EventId id, bool before) {
    static thread_local std::vector<EventId> saved;
    if (id == E::SMP_PreSimTimeChangeId) return;
    if (!before) { m.last = saved.back(); saved.pop_back(); return; }
    saved.push_back(m.last);
    m.emitted(id);
    m.last = id;
    if (c.rng.chance(1, 4)) m.several(false);
  };
  m.budget = static_cast<int>(c.rng.below(25));
  const auto n = c.rng.below(4);
  for (std::uint64_t i = 0; i < n; i++) m.addModel();
  ::Xsmp::EntryPoint init("init", "", m.sim, [&] { m.consistent("in an initialisation entry point"); if (c.rng.chance(1, 3)) m.nested(false); });
  const auto steps = 10 + c.rng.below(60);
  const bool direct = c.rng.chance(3, 4); // connect early
  for (std::uint64_t i = 0; i < steps && c.flagged.empty(); i++) {
    if (direct && i == 3 && m.state == S::SSK_Building) { m.run("Connect", true, {Monitor::enters(S::SSK_Connecting), Monitor::emits(E::SMP_LeaveConnectingId), Monitor::enters(S::SSK_Initialising), Monitor::emits(E::SMP_EnterInitialisingId), Monitor::emits(E::SMP_LeaveInitialisingId), Monitor::enters(S::SSK_Standby), Monitor::emits(E::SMP_EnterStandbyId)}, [&] { m.sim->Connect(); }); continue; }
    if (c.rng.chance(1, 10)) {
      // a time change: a deferred hold becomes effective
      const bool due = m.deferred && m.state == S::SSK_Executing;
      if (due) m.deferred = false;
      m.run(due ? "time change with a hold pending" : "time change", due, {Monitor::emits(E::SMP_LeaveExecutingId), Monitor::enters(S::SSK_Standby), Monitor::emits(E::SMP_EnterStandbyId)}, [&] { events->Emit(E::SMP_PreSimTimeChangeId, true); });
      if (due) XV_COUNT("deferred holds");
      continue;
    }
    if (c.rng.chance(1, 10) && (m.state == S::SSK_Building || m.state == S::SSK_Standby)) { c.op("add an initialisation entry point"); m.sim->AddInitEntryPoint(&init); }
    m.command(false);
  }
  if (!c.flagged.empty()) { events->hook = {}; return; }
  c.nontrivial = m.emissions > 8;
  m.destroy();
}
XV_SCENARIO_NOLEAK(C31, services, 400, 10000) {
  Scratch::get().quiet();
  prepareFiles();
  Monitor m(c);
  m.owned = std::make_unique<::Xsmp::Simulator>();
  m.sim = m.owned.get();
  m.scheduled = true;
  m.sim->LoadLibrary("xsmp_services");
  m.addModel();
  auto &node = dynamic_cast<Node &>(*m.components[0]);
  auto *events = m.sim->GetEventManager();
  bool instants = false, due = false;
  ::Smp::Duration until = -1;
  const std::vector<EventId> ids{E::SMP_LeaveConnectingId, E::SMP_EnterInitialisingId, E::SMP_LeaveInitialisingId, E::SMP_EnterStandbyId, E::SMP_LeaveStandbyId, E::SMP_EnterExecutingId, E::SMP_LeaveExecutingId, E::SMP_EnterStoringId, E::SMP_LeaveStoringId, E::SMP_EnterRestoringId, E::SMP_LeaveRestoringId, E::SMP_EnterExitingId, E::SMP_EnterAbortingId, E::SMP_EnterReconnectingId, E::SMP_LeaveReconnectingId};
  for (auto id : ids) {
    auto &ep = node.own.make<::Xsmp::EntryPoint>(eventName(id), "", static_cast<::Xsmp::EntryPointPublisher *>(&node), [&m, &c, &until, &due, id] {
      m.emitted(id);
      if (id == E::SMP_LeaveExecutingId) { until = -1; due = false; }
      const auto before = m.last;
      m.last = id;
      if (c.rng.chance(1, 5)) m.several(false);
      m.last = before;
    });
    events->Subscribe(id, &ep);
  }
  auto *clock = m.sim->GetTimeKeeper();
  auto &pre = node.own.make<::Xsmp::EntryPoint>("Pre", "", static_cast<::Xsmp::EntryPointPublisher *>(&node), [&] {
    m.dropInternal();
    m.consistent("before a time change");
    if (m.state != S::SSK_Executing) return m.flag("time-change", "time changes while the simulator is not executing");
    const bool holds = m.deferred || due;
    instants = true;
    if (c.rng.chance(1, 12)) m.nested(false);
    m.dropInternal();
    if (holds && m.state == S::SSK_Executing && c.flagged.empty()) {
      c.op(m.indent() + "a pending hold is due");
      m.deferred = due = false;
      m.plans.push_back({"the pending hold", {Monitor::emits(E::SMP_LeaveExecutingId), Monitor::enters(S::SSK_Standby), Monitor::emits(E::SMP_EnterStandbyId)}});
      m.plans.back().internal = true;
      XV_COUNT("deferred holds");
    }
  });
  auto &post = node.own.make<::Xsmp::EntryPoint>("Post", "", static_cast<::Xsmp::EntryPointPublisher *>(&node), [&] {
    if (!m.plans.empty() && m.plans.back().internal && m.plans.back().next == 0) m.flag("hold", "the pending hold did not hold the simulation at the time change");
    m.consistent("after a time change");
    instants = false;
    if (until >= 0 && clock->GetSimulationTime() >= until) due = true;
    if (c.rng.chance(1, 12)) m.nested(false);
  });
  auto &event = node.own.make<::Xsmp::EntryPoint>("event", "", static_cast<::Xsmp::EntryPointPublisher *>(&node), [&] {
    m.dropInternal();
    if (!c.flagged.empty()) return;
    if (m.state != S::SSK_Executing) m.flag("event-run", "an event is executed in state " + std::string(stateName(m.state)));
    m.consistent("in an event");
    c.op(m.indent() + "scheduled event");
    XV_COUNT("scheduled events");
    m.several(false);
  });
  auto &stop = node.own.make<::Xsmp::EntryPoint>("stop", "", static_cast<::Xsmp::EntryPointPublisher *>(&node), [&] {
    m.dropInternal();
    if (c.flagged.empty()) m.hold(c.rng.chance(1, 2));
    if (!c.flagged.empty()) m.sim->Abort();
  });
  events->Subscribe(E::SMP_PreSimTimeChangeId, &pre);
  events->Subscribe(E::SMP_PostSimTimeChangeId, &post);
  m.beforeRun = [&] {
    auto *scheduler = m.sim->GetScheduler();
    const auto n = c.rng.below(4);
    for (std::uint64_t i = 0; i < n; i++) scheduler->AddSimulationTimeEvent(&event, static_cast<std::int64_t>(c.rng.below(8)));
    const bool bounded = c.rng.chance(1, 2);
    const auto duration = static_cast<std::int64_t>(c.rng.below(8));
    if (bounded) until = clock->GetSimulationTime() + duration;
    else { until = -1; scheduler->AddSimulationTimeEvent(&stop, duration); }
    due = false;
    const auto before = m.budget;
    m.run(bounded ? "Run(" + std::to_string(duration) + ")" : "Run()", true, {Monitor::emits(E::SMP_LeaveStandbyId), Monitor::enters(S::SSK_Executing), Monitor::emits(E::SMP_EnterExecutingId)}, [&] { if (bounded) m.sim->Run(duration); else m.sim->Run(); });
    (void)before;
    XV_COUNT("runs");
  };
  m.budget = static_cast<int>(c.rng.below(25));
  const auto steps = 5 + c.rng.below(25);
  for (std::uint64_t i = 0; i < steps && c.flagged.empty(); i++) {
    if (i == 1 && m.state == S::SSK_Building) m.run("Connect", true, {Monitor::enters(S::SSK_Connecting), Monitor::emits(E::SMP_LeaveConnectingId), Monitor::enters(S::SSK_Initialising), Monitor::emits(E::SMP_EnterInitialisingId), Monitor::emits(E::SMP_LeaveInitialisingId), Monitor::enters(S::SSK_Standby), Monitor::emits(E::SMP_EnterStandbyId)}, [&] { m.sim->Connect(); });
    else m.command(false);
  }
  c.nontrivial = m.emissions > 8;
  if (!c.flagged.empty()) m.budget = 0;
  m.destroy();
}
XV_SCENARIO_NOLEAK(C31, late, 8, 40) {
  // a handler subscribed to the start of the execution after the scheduler
  World w;
  Pool own;
  std::vector<S> seen;
  auto &ep = own.make<::Xsmp::EntryPoint>("late", "", &w.sim, [&] { seen.push_back(w.sim.GetState()); });
  w.events()->Subscribe(E::SMP_EnterExecutingId, &ep);
  w.sim.Run(static_cast<std::int64_t>(c.rng.below(10)));
  c.nontrivial = true;
  XV_EQ(seen.size(), 1u, "count", "executions of the handler");
  XV_COUNT("late handlers");
  XV_CHECK(seen[0] == S::SSK_Executing, "enter-executing-after-scheduler", "a handler of EnterExecuting subscribed after the scheduler's is executed in state " << stateName(seen[0]));
}

// ---------------------------------------------------------------- C32
struct Life { std::vector<std::string> calls; std::string addedIn; Node *node = nullptr; };
XV_SCENARIO_NOLEAK(C32, tree, 1500, 40000) {
  Scratch::get().quiet();
  auto sim = std::make_unique<::Xsmp::Simulator>();
  const bool services = c.rng.chance(1, 2);
  if (services) sim->LoadLibrary("xsmp_services");
  std::deque<Life> lives;
  std::string phase = "building";
  int budget = static_cast<int>(c.rng.below(30));
  int names = 0;
  bool exiting = false;
  std::vector<int> initDone, initWanted;
  Pool own;
  struct Init { ::Xsmp::EntryPoint *ep; };
  std::deque<Init> inits;
  std::function<void(::Smp::IComposite *)> noop;
  std::function<Node *(Node *)> add = [&](Node *parent) -> Node * {
    lives.emplace_back();
    auto &l = lives.back();
    const auto name = "n" + std::to_string(names++);
    c.op("add " + name + " to " + (parent ? parent->GetName() : "the simulator") + " while " + phase);
    Node *n;
    if (parent) n = &parent->child<Node>(name.c_str());
    else {
      n = new Node(name.c_str(), "", static_cast<::Smp::IComposite *>(sim.get()), sim.get());
      sim->AddModel(n);
    }
    l.node = n;
    l.addedIn = phase;
    auto grow = [&] {
      if (exiting || budget <= 0 || !c.rng.chance(1, 3)) return;
      budget--;
      Node *p = c.rng.chance(1, 5) ? nullptr : lives[c.rng.below(lives.size())].node;
      // a parent of which the construction is not complete yet has no node
      add(p);
      XV_COUNT("components added by components");
    };
    auto maybeInit = [&] {
      if (exiting || !c.rng.chance(1, 6)) return;
      const int id = static_cast<int>(inits.size());
      auto &ep = own.make<::Xsmp::EntryPoint>("init", "", sim.get(), [&initDone, id] { initDone.push_back(id); });
      inits.push_back({&ep});
      sim->AddInitEntryPoint(&ep);
      const auto s = sim->GetState();
      if (s == S::SSK_Building || s == S::SSK_Connecting || s == S::SSK_Standby) initWanted.push_back(id);
      c.op("initialisation entry point " + std::to_string(id) + " while " + phase);
    };
    n->onPublish = [&, n, grow, maybeInit](::Smp::IPublication *p) {
      l.calls.push_back("publish");
      if (!p) c.flag("publication", "a component is published without publication");
      if (n->GetState() != ::Smp::ComponentStateKind::CSK_Publishing) c.flag("component-state", "a component is not publishing in its publish action");
      grow(); maybeInit();
    };
    n->onConfigure = [&, n, grow, maybeInit] {
      l.calls.push_back("configure");
      if (phase == "publishing") c.flag("phase", std::string(n->GetName()) + " is configured while the simulator is " + phase);
      grow(); maybeInit();
    };
    n->onConnect = [&, n, grow, maybeInit] {
      l.calls.push_back("connect");
      if (phase != "connecting" && phase != "reconnecting") c.flag("phase", std::string(n->GetName()) + " is connected while the simulator is " + phase);
      if (sim->GetState() != S::SSK_Connecting && sim->GetState() != S::SSK_Reconnecting) c.flag("phase", std::string(n->GetName()) + " is connected in state " + stateName(sim->GetState()));
      if (n->GetSimulator() != sim.get()) c.flag("simulator", "a component has been connected to another simulator");
      grow(); maybeInit();
    };
    n->onDisconnect = [&] { l.calls.push_back("disconnect"); };
    return n;
  };
  auto some = [&](std::uint64_t most) {
    for (auto n = c.rng.below(most + 1); n > 0; n--) add(lives.empty() || c.rng.chance(1, 4) ? nullptr : lives[c.rng.below(lives.size())].node);
  };
  auto initSome = [&] {
    for (auto n = c.rng.below(3); n > 0; n--) {
      const int id = static_cast<int>(inits.size());
      auto &ep = own.make<::Xsmp::EntryPoint>("init", "", sim.get(), [&initDone, &c, &phase, id, s = sim.get()] {
        initDone.push_back(id);
        if (s->GetState() != S::SSK_Initialising) c.flag("phase", "an initialisation entry point is executed in another state");
      });
      inits.push_back({&ep});
      sim->AddInitEntryPoint(&ep);
      initWanted.push_back(id);
      c.op("initialisation entry point " + std::to_string(id) + " while " + phase);
    }
  };
  const auto show = [](const std::vector<std::string> &v) { std::string s; for (const auto &x : v) s += (s.empty() ? "" : ", ") + x; return s; };
  const auto whole = [&](const std::vector<std::string> &want, const std::string &when, const std::function<bool(const Life &)> &which) {
    for (const auto &l : lives) {
      if (!which(l)) continue;
      XV_CHECK(l.calls == want, "life", l.node->GetName() << ", added while " << l.addedIn << ", has been through [" << show(l.calls) << "] " << when << " instead of [" << show(want) << "]");
      XV_COUNT("lives compared");
    }
  };
  const auto everything = [](const Life &) { return true; };
  some(6);
  initSome();
  if (c.rng.chance(1, 2)) {
    for (auto n = 1 + c.rng.below(2); n > 0; n--) {
      phase = "publishing";
      sim->Publish();
      phase = "building";
      whole({"publish"}, "after Publish", everything);
      if (n > 1) some(3);
    }
    some(3);
    initSome();
  }
  if (c.rng.chance(1, 2)) {
    phase = "configuring";
    sim->Configure();
    phase = "building";
    whole({"publish", "configure"}, "after Configure", everything);
    some(3);
  }
  phase = "connecting";
  sim->Connect();
  phase = "standby";
  XV_CHECK(c.flagged.empty(), "flagged", "");
  XV_CHECK(sim->GetState() == S::SSK_Standby, "state", "after Connect the simulator is " << stateName(sim->GetState()));
  whole({"publish", "configure", "connect"}, "after Connect", everything);
  XV_CHECK(initDone == initWanted, "init", initDone.size() << " initialisation entry points were executed instead of " << initWanted.size() << ", or in another order");
  xv::count("initialisations", initWanted.size());
  c.nontrivial = lives.size() > 4;
  for (auto rounds = c.rng.below(5); rounds > 0; rounds--) {
    initDone.clear();
    initWanted.clear();
    if (c.rng.chance(1, 2)) {
      initSome();
      c.op("initialise again");
      sim->Initialise();
      XV_CHECK(initDone == initWanted, "init", initDone.size() << " initialisation entry points were executed by a second initialisation instead of " << initWanted.size());
      xv::count("initialisations", initWanted.size());
    } else {
      budget += 2;
      const auto first = lives.size();
      some(4);
      std::set<const ::Smp::IObject *> before;
      for (const auto &l : lives) if (l.calls.size() == 3) before.insert(l.node);
      if (lives.empty()) continue;
      auto *root = lives[c.rng.below(lives.size())].node;
      c.op(std::string("reconnect ") + root->GetName());
      phase = "reconnecting";
      budget = 0;
      sim->Reconnect(root);
      phase = "standby";
      for (const auto &l : lives) {
        bool below = false;
        for (const ::Smp::IObject *o = l.node; o; o = o->GetParent()) below = below || o == root;
        const std::vector<std::string> want = below || before.count(l.node) ? std::vector<std::string>{"publish", "configure", "connect"} : std::vector<std::string>{};
        XV_CHECK(l.calls == want, "reconnect", l.node->GetName() << " has been through [" << show(l.calls) << "] after reconnecting " << root->GetName() << " instead of [" << show(want) << "]");
        if (below && !before.count(l.node)) XV_COUNT("components reconnected");
      }
      (void)first;
      sim->Initialise();
      XV_CHECK(initDone == initWanted, "init", initDone.size() << " initialisation entry points were executed after reconnecting instead of " << initWanted.size());
    }
    XV_CHECK(c.flagged.empty(), "flagged", "");
  }
  exiting = true;
  std::vector<std::vector<std::string>> before;
  for (const auto &l : lives) before.push_back(l.calls);
  if (c.rng.chance(1, 4)) { // the destruction exits by itself
    for (auto &l : lives) l.node = nullptr;
    std::vector<std::string> nameOf;
    sim.reset();
    for (std::size_t i = 0; i < lives.size(); i++) {
      auto want = before[i];
      if (want.size() == 3) want.push_back("disconnect");
      XV_CHECK(lives[i].calls == want, "exit", "a component has been through [" << show(lives[i].calls) << "] after the destruction of the simulator");
    }
    XV_COUNT("destructions");
    return;
  }
  c.op("exit");
  sim->Exit();
  for (std::size_t i = 0; i < lives.size(); i++) {
    auto want = before[i];
    if (want.size() == 3) want.push_back("disconnect");
    XV_CHECK(lives[i].calls == want, "exit", lives[i].node->GetName() << " has been through [" << show(lives[i].calls) << "] after the exit");
  }
  XV_COUNT("exits");
  sim->Exit();
  sim.reset();
  for (std::size_t i = 0; i < lives.size(); i++) XV_CHECK(std::count(lives[i].calls.begin(), lives[i].calls.end(), "disconnect") <= 1, "exit", "a component was disconnected twice");
}

// ---------------------------------------------------------------- C33
template <int N> class Product : public Node {
public:
  ::Smp::ISimulator *given;
  std::string description;
  ::Smp::IComposite *parent;
  Product(const char *name, const char *d, ::Smp::IComposite *p, ::Smp::ISimulator *s) : Node(name, d, p, s), given(s), description(d ? d : ""), parent(p) { uuid = next(); }
  static ::Smp::Uuid &next() { static ::Smp::Uuid u; return u; }
};
XV_SCENARIO(C33, factories, 1500, 40000) {
  Scratch::get().quiet();
  ::Xsmp::Simulator sim;
  struct Known { ::Smp::Uuid uuid; std::string name, description; ::Smp::IFactory *factory; int product; };
  std::vector<Known> known;
  std::vector<::Smp::Uuid> uuids;
  for (int i = 0; i < 8; i++) {
    uuids.push_back(freshUuid(c));
    if (i && c.rng.chance(1, 3)) { // one bit beside the one before
      auto raw = std::array<unsigned char, sizeof(::Smp::Uuid)>{};
      std::memcpy(raw.data(), &uuids[static_cast<std::size_t>(i) - 1], raw.size());
      raw[c.rng.below(8)] ^= static_cast<unsigned char>(1u << c.rng.below(8));
      ::Smp::Uuid near;
      std::memcpy(static_cast<void *>(&near), raw.data(), raw.size());
      if (std::find(uuids.begin(), uuids.end(), near) == uuids.end()) uuids.back() = near;
    }
  }
  auto find = [&](::Smp::Uuid u) -> Known * { for (auto &k : known) if (k.uuid == u) return &k; return nullptr; };
  int instances = 0;
  std::vector<std::unique_ptr<::Smp::IComponent>> made;
  Node parent("parent", "", &sim, &sim);
  const auto steps = 10 + c.rng.below(50);
  for (std::uint64_t step = 0; step < steps; step++) {
    const auto u = uuids[c.rng.below(uuids.size())];
    auto *k = find(u);
    switch (c.rng.below(5)) {
    case 4: { // a factory whose product is of another type, and one whose product cannot be made
      const auto mine = freshUuid(c);
      const bool fails = c.rng.chance(1, 3);
      int alive = 0;
      struct Wrong : Leaf { int *n; Wrong(const char *nm, ::Smp::IComposite *p, int *a) : Leaf(nm, "", p, nullptr), n(a) { ++*n; } ~Wrong() noexcept override { --*n; } };
      std::unique_ptr<::Smp::IFactory> f(::Xsmp::Factory::Create("Wrong", "", &sim, mine, typeid(Wrong), [&alive, fails](::Smp::String8 n, ::Smp::String8, ::Smp::IComposite *p, ::Smp::ISimulator *) -> std::unique_ptr<::Smp::IComponent> {
        auto r = std::make_unique<Wrong>(n, p, &alive);
        if (fails) throw std::runtime_error("no product");
        return r;
      }));
      c.op(fails ? "create from a failing factory" : "create from a mistaken factory");
      try {
        f->CreateInstance("x", "", nullptr);
        XV_FAIL("mistaken", "a factory created an instance of another type");
      } catch (const std::runtime_error &) { XV_CHECK(fails, "mistaken", "another error");
      } catch (const ::Smp::Exception &e) { XV_CHECK(!fails, "mistaken", "another error"); XV_EQ(std::string(e.GetName()), "InvalidFactory", "mistaken", "name of the error"); }
      XV_EQ(alive, 0, "mistaken", "instances left by a refused creation");
      XV_COUNT("mistaken factories");
      break;
    }
    case 0: {
      const std::string name = c.rng.pick({"a", "b", "c", "Factory"}), description = c.rng.chance(1, 3) ? "" : "of step " + std::to_string(step);
      const int product = static_cast<int>(c.rng.below(2));
      c.op("register " + name + (k ? " again" : ""));
      auto bound = [u](auto *type) { using T = std::remove_pointer_t<decltype(type)>; return ::Xsmp::Factory::_factory_instantiator_t([u](::Smp::String8 n, ::Smp::String8 d, ::Smp::IComposite *p, ::Smp::ISimulator *s) -> std::unique_ptr<::Smp::IComponent> { auto r = std::make_unique<T>(n, d, p, s); r->uuid = u; return r; }); };
      auto name2 = std::make_unique<std::string>(name), description2 = std::make_unique<std::string>(description);
      auto *f = product ? ::Xsmp::Factory::Create(name2->c_str(), description2->c_str(), &sim, u, typeid(Product<1>), bound(static_cast<Product<1> *>(nullptr)))
                        : ::Xsmp::Factory::Create(name2->c_str(), description2->c_str(), &sim, u, typeid(Product<0>), bound(static_cast<Product<0> *>(nullptr)));
      name2.reset();
      description2.reset();
      if (k) {
        try {
          sim.RegisterFactory(f);
          XV_FAIL("accepted", "a second factory was registered for a UUID");
        } catch (const ::Smp::DuplicateUuid &e) {
          XV_EQ(std::string(e.GetOldName()), k->name, "error", "old name in the error");
          XV_EQ(std::string(e.GetNewName()), name, "error", "new name in the error");
        }
        XV_COUNT("refused factories");
      } else {
        xv::quiet("refused", "registering a factory", [&] { sim.RegisterFactory(f); });
        known.push_back({u, name, description, f, product});
        XV_COUNT("factories");
      }
      break;
    }
    default: {
      const std::string name = "i" + std::to_string(instances++), description = c.rng.chance(1, 2) ? "" : "some text";
      c.op("create " + name + (k ? "" : " of an unknown type"));
      auto *where = c.rng.chance(1, 3) ? nullptr : c.rng.chance(1, 2) ? static_cast<::Smp::IComposite *>(&parent) : static_cast<::Smp::IComposite *>(&sim);
      std::unique_ptr<::Smp::IComponent> p;
      xv::quiet("create", "creating an instance", [&] { p.reset(sim.CreateInstance(u, name.c_str(), description.c_str(), where)); });
      XV_EQ(p != nullptr, k != nullptr, "instance", "whether an instance was created");
      if (!p) { XV_COUNT("unknown types"); break; }
      c.nontrivial = true;
      XV_EQ(std::string(p->GetName()), name, "name", "name of the instance");
      XV_EQ(std::string(p->GetDescription()), description, "description", "description of the instance");
      XV_CHECK(p->GetParent() == where, "parent", "the parent of the instance is another one");
      XV_CHECK(p->GetUuid() == u, "uuid", "the instance is of another UUID");
      XV_CHECK((dynamic_cast<Product<1> *>(p.get()) != nullptr) == (k->product == 1) && (dynamic_cast<Product<0> *>(p.get()) != nullptr) == (k->product == 0), "type", "the instance is of another type");
      XV_CHECK(p->GetState() == ::Smp::ComponentStateKind::CSK_Created, "state", "a new instance is not in state Created");
      for (const auto &m : made) XV_CHECK(m.get() != p.get(), "fresh", "the instance is not new");
      if (c.rng.chance(1, 3)) k->factory->DeleteInstance(p.release());
      else made.push_back(std::move(p));
      XV_COUNT("instances");
      break;
    }
    }
    const auto *all = sim.GetFactories();
    XV_EQ(all->size(), known.size(), "collection", "number of factories");
    for (std::size_t i = 0; i < known.size(); i++) XV_CHECK(all->at(i) == known[i].factory, "collection", "factory number " << i << " is another one");
    XV_CHECK(all->at(known.size()) == nullptr, "collection", "there is a factory beyond the last");
    std::size_t pos = 0;
    for (auto *f : *all) { XV_CHECK(pos < known.size() && f == known[pos].factory, "collection", "iteration yields another factory at " << pos); pos++; }
    XV_EQ(pos, known.size(), "collection", "number of factories iterated");
    for (const char *n : {"a", "b", "c", "Factory", "Wrong", "", "d"}) { // several factories may have one name: the first is found
      ::Smp::IFactory *first = nullptr;
      for (auto &kk : known) if (!first && kk.name == n) first = kk.factory;
      const std::string lent(n);
      XV_CHECK(all->at(lent.c_str()) == first, "by name", "the factory found for the name " << xv::show(n) << " is another one");
    }
    XV_CHECK(all->at(static_cast<::Smp::String8>(nullptr)) == nullptr, "by name", "a factory has a null name");
    for (const auto &uu : uuids) {
      auto *kk = find(uu);
      auto *f = sim.GetFactory(uu);
      XV_CHECK(f == (kk ? kk->factory : nullptr), "lookup", "the factory found for a UUID is another one");
      if (!f) continue;
      XV_EQ(std::string(f->GetName()), kk->name, "factory", "name of a factory");
      XV_EQ(std::string(f->GetDescription()), kk->description, "factory", "description of a factory");
      XV_CHECK(f->GetUuid() == uu && f->GetParent() == &sim, "factory", "a factory has another UUID or parent");
      XV_CHECK(std::string(f->GetTypeName()).find("Product<" + std::to_string(kk->product) + ">") != std::string::npos, "factory", "the type name of a factory is " << f->GetTypeName());
      XV_COUNT("factories compared");
    }
  }
}
} // namespace
