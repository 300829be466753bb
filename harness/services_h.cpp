// The standard services one by one: time keeper, event manager, link registry
// and logger, each driven by random histories against a model.
#include "delays.h"
#include "sim.h"
#include <Xsmp/DateTime.h>
#include <Smp/Services/EntryPointAlreadySubscribed.h>
#include <Smp/Services/EntryPointNotSubscribed.h>
#include <Smp/Services/InvalidEventId.h>
#include <Smp/Services/InvalidEventName.h>
#include <Smp/Services/InvalidSimulationTime.h>
#include <Smp/Services/TimeKind.h>
#include <Xsmp/Duration.h>
#include <regex>
#include <thread>
namespace {
using namespace smpx;
using namespace ::Smp::Services;
using Wide = __int128;
constexpr Wide lowest = std::numeric_limits<std::int64_t>::min(), highest = std::numeric_limits<std::int64_t>::max();
bool fits(Wide v) { return v >= lowest && v <= highest; }
std::int64_t someTime(xv::Case &c) {
  switch (c.rng.below(5)) {
  case 0: return c.rng.range(-5, 5);
  case 1: return c.rng.range(-1000, 100000);
  case 2: return static_cast<std::int64_t>(c.rng.next());
  case 3: return c.rng.chance(1, 2) ? std::numeric_limits<std::int64_t>::max() - static_cast<std::int64_t>(c.rng.below(4)) : std::numeric_limits<std::int64_t>::min() + static_cast<std::int64_t>(c.rng.below(4));
  default: return static_cast<std::int64_t>(c.rng.next()) >> c.rng.below(60);
  }
}

// ---------------------------------------------------------------- C40
XV_SCENARIO_NOLEAK(C40, clocks, 3000, 60000) {
  World w;
  auto *clock = w.clock();
  auto *events = w.events();
  auto *scheduler = w.scheduler();
  // the model: simulation time, epoch = simulation time + offset, mission = epoch - start
  Wide now = 0, offset = 0, start = 0;
  bool changing = false;
  int epochs = 0, missions = 0, wantEpochs = 0, wantMissions = 0;
  struct Pending { EventId id; TimeKind kind; Wide time; };
  std::vector<Pending> pending;
  std::string phase = "before the first change";
  auto compare = [&](const std::string &what) {
    XV_EQ(clock->GetSimulationTime(), static_cast<std::int64_t>(now), "simulation-time", what);
    XV_EQ(clock->GetEpochTime(), static_cast<std::int64_t>(now + offset), "epoch-time", what);
    XV_EQ(clock->GetMissionStartTime(), static_cast<std::int64_t>(start), "mission-start", what);
    XV_EQ(clock->GetMissionTime(), static_cast<std::int64_t>(now + offset - start), "mission-time", what);
    XV_COUNT("clock states compared");
  };
  auto representable = [&](Wide n, Wide o, Wide s) { return fits(n) && fits(o) && fits(-o) && fits(n + o) && fits(s) && fits(n + o - s) && fits(o - s); };
  Pool own;
  auto &epochHandler = own.make<::Xsmp::EntryPoint>("epoch", "", &w.sim, [&] { epochs++; XV_COUNT("announcements"); if (clock->GetEpochTime() != static_cast<std::int64_t>(now + offset)) c.flag("announced-early", "the epoch time is not the new one while its change is announced"); });
  auto &missionHandler = own.make<::Xsmp::EntryPoint>("mission", "", &w.sim, [&] { missions++; XV_COUNT("announcements"); if (clock->GetMissionTime() != static_cast<std::int64_t>(now + offset - start)) c.flag("announced-early", "the mission time is not the new one while its change is announced"); });
  auto &nothing = own.make<::Xsmp::EntryPoint>("nothing", "", &w.sim, [] {});
  events->Subscribe(IEventManager::SMP_EpochTimeChangedId, &epochHandler);
  events->Subscribe(IEventManager::SMP_MissionTimeChangedId, &missionHandler);
  auto next = [&] {
    Wide n = highest;
    for (const auto &p : pending) {
      const Wide shown = p.kind == TimeKind::TK_SimulationTime ? now : p.kind == TimeKind::TK_EpochTime ? now + offset : now + offset - start;
      if (p.time >= shown) n = std::min(n, now + p.time - shown);
    }
    return n;
  };
  compare("at the start");
  // read back while nobody writes, by another thread too
  const auto steps = 10 + c.rng.below(60);
  for (std::uint64_t step = 0; step < steps; step++) {
    const auto t = someTime(c);
    std::string what;
    switch (c.rng.below(12)) {
    case 0: {
      what = "SetEpochTime(" + std::to_string(t) + ")";
      if (!representable(now, t - now, start)) continue;
      offset = Wide{t} - now;
      wantEpochs++;
      c.op(what);
      clock->SetEpochTime(t);
      break;
    }
    case 1: {
      what = "SetMissionStartTime(" + std::to_string(t) + ")";
      if (!representable(now, offset, t)) continue;
      start = t;
      wantMissions++;
      c.op(what);
      clock->SetMissionStartTime(t);
      break;
    }
    case 2: {
      what = "SetMissionTime(" + std::to_string(t) + ")";
      if (!representable(now, offset, now + offset - t)) continue;
      start = now + offset - t;
      wantMissions++;
      c.op(what);
      clock->SetMissionTime(t);
      break;
    }
    case 3:
    case 4: {
      what = changing ? "end of the time change" : "start of a time change";
      c.op(what);
      changing = !changing;
      events->Emit(changing ? IEventManager::SMP_PreSimTimeChangeId : IEventManager::SMP_PostSimTimeChangeId);
      break;
    }
    case 5: { // post an event that bounds the time
      const auto delay = c.rng.chance(1, 4) ? 0 : static_cast<std::int64_t>(c.rng.below(2000));
      const auto kind = c.rng.pick({TimeKind::TK_SimulationTime, TimeKind::TK_EpochTime, TimeKind::TK_MissionTime});
      const Wide shown = kind == TimeKind::TK_SimulationTime ? now : kind == TimeKind::TK_EpochTime ? now + offset : now + offset - start;
      if (!fits(now + delay) || !fits(shown + delay)) continue;
      what = "event in " + std::to_string(delay) + " of kind " + std::to_string(static_cast<int>(kind));
      c.op(what);
      EventId id = kind == TimeKind::TK_SimulationTime ? scheduler->AddSimulationTimeEvent(&nothing, delay)
                   : kind == TimeKind::TK_EpochTime    ? scheduler->AddEpochTimeEvent(&nothing, static_cast<std::int64_t>(shown + delay))
                                                       : scheduler->AddMissionTimeEvent(&nothing, static_cast<std::int64_t>(shown + delay));
      pending.push_back({id, kind, shown + delay});
      break;
    }
    case 6: {
      if (pending.empty()) continue;
      const auto i = c.rng.below(pending.size());
      what = "remove event " + std::to_string(pending[i].id);
      c.op(what);
      scheduler->RemoveEvent(pending[i].id);
      pending.erase(pending.begin() + static_cast<std::ptrdiff_t>(i));
      break;
    }
    default: {
      const auto limit = next();
      Wide target = t;
      switch (c.rng.below(6)) {
      case 0: target = now; break;
      case 1: target = now - 1 - static_cast<Wide>(c.rng.below(3)); break;
      case 2: target = limit; break;
      case 3: target = limit + 1 + static_cast<Wide>(c.rng.below(3)); break;
      case 4: target = now + static_cast<Wide>(c.rng.below(1000)); break;
      default: break;
      }
      if (!fits(target) || !representable(target, offset, start)) continue;
      what = "SetSimulationTime(" + std::to_string(static_cast<std::int64_t>(target)) + ") " + (changing ? "inside" : "outside") + " a change, at most " + std::to_string(static_cast<std::int64_t>(limit));
      c.op(what);
      if (!changing) {
        clock->SetSimulationTime(static_cast<std::int64_t>(target));
        XV_COUNT("ignored moves");
      } else if (target < now || target > limit) {
        try {
          clock->SetSimulationTime(static_cast<std::int64_t>(target));
          XV_FAIL("accepted", what << " was accepted");
        } catch (const InvalidSimulationTime &e) {
          XV_EQ(e.GetCurrentTime(), static_cast<std::int64_t>(now), "error", "current time in the error of " << what);
          XV_EQ(e.GetProvidedTime(), static_cast<std::int64_t>(target), "error", "requested time in the error of " << what);
          XV_EQ(e.GetMaximumTime(), static_cast<std::int64_t>(limit), "error", "maximum time in the error of " << what);
          XV_COUNT("refused moves");
        }
      } else {
        xv::quiet("refused", what, [&] { clock->SetSimulationTime(static_cast<std::int64_t>(target)); });
        c.nontrivial = c.nontrivial || now != target;
        now = target;
        XV_COUNT("moves");
      }
      break;
    }
    }
    compare("after " + what);
    XV_EQ(scheduler->GetNextScheduledEventTime(), static_cast<std::int64_t>(next()), "next-event", "time of the next event after " << what);
    XV_EQ(epochs, wantEpochs, "announcements", "announced changes of the epoch time after " << what);
    XV_EQ(missions, wantMissions, "announcements", "announced changes of the mission time after " << what);
  }
  // the wall clock only goes forward within a case
  const auto z1 = clock->GetZuluTime(), z2 = clock->GetZuluTime();
  XV_CHECK(z1 <= z2 && z2 - z1 < 60000000000, "zulu", "the Zulu time went from " << z1 << " to " << z2);
}

// ---------------------------------------------------------------- C41
const std::map<std::string, EventId> &predefinedEvents() {
  static const std::map<std::string, EventId> m{{IEventManager::SMP_LeaveConnecting, IEventManager::SMP_LeaveConnectingId}, {IEventManager::SMP_EnterInitialising, IEventManager::SMP_EnterInitialisingId}, {IEventManager::SMP_LeaveInitialising, IEventManager::SMP_LeaveInitialisingId}, {IEventManager::SMP_EnterStandby, IEventManager::SMP_EnterStandbyId}, {IEventManager::SMP_LeaveStandby, IEventManager::SMP_LeaveStandbyId}, {IEventManager::SMP_EnterExecuting, IEventManager::SMP_EnterExecutingId}, {IEventManager::SMP_LeaveExecuting, IEventManager::SMP_LeaveExecutingId}, {IEventManager::SMP_EnterStoring, IEventManager::SMP_EnterStoringId}, {IEventManager::SMP_LeaveStoring, IEventManager::SMP_LeaveStoringId}, {IEventManager::SMP_EnterRestoring, IEventManager::SMP_EnterRestoringId}, {IEventManager::SMP_LeaveRestoring, IEventManager::SMP_LeaveRestoringId}, {IEventManager::SMP_EnterExiting, IEventManager::SMP_EnterExitingId}, {IEventManager::SMP_EnterAborting, IEventManager::SMP_EnterAbortingId}, {IEventManager::SMP_EpochTimeChanged, IEventManager::SMP_EpochTimeChangedId}, {IEventManager::SMP_MissionTimeChanged, IEventManager::SMP_MissionTimeChangedId}, {IEventManager::SMP_EnterReconnecting, IEventManager::SMP_EnterReconnectingId}, {IEventManager::SMP_LeaveReconnecting, IEventManager::SMP_LeaveReconnectingId}, {IEventManager::SMP_PreSimTimeChange, IEventManager::SMP_PreSimTimeChangeId}, {IEventManager::SMP_PostSimTimeChange, IEventManager::SMP_PostSimTimeChangeId}};
  return m;
}
XV_SCENARIO_NOLEAK(C41, subscriptions, 3000, 50000) {
  World w;
  auto *events = w.events();
  std::map<std::string, EventId> names = predefinedEvents();
  std::set<EventId> used;
  for (const auto &[n, i] : names) used.insert(i);
  // ids events are emitted under here: custom ones and two predefined ones no service listens to
  std::vector<EventId> ids{IEventManager::SMP_EpochTimeChangedId, IEventManager::SMP_LeaveStoringId};
  std::map<EventId, std::vector<int>> subscribed; // in order
  struct Frame { EventId event; std::vector<int> due; std::size_t done = 0; };
  std::vector<Frame> frames;
  struct Handler { ::Xsmp::EntryPoint *ep = nullptr; std::vector<std::function<void()>> scripts; };
  std::deque<Handler> handlers;
  Pool own;
  bool failing = false; // some handler has thrown
  auto say = [&](const char *key, const std::string &s) { c.flag(key, s); };
  auto show = [&](EventId e, int h) { return "handler " + std::to_string(h) + " of event " + std::to_string(e); };
  int budget = 200;
  std::function<void(EventId)> emit = [&](EventId e) {
    if (--budget < 0) return;
    c.op(std::string(frames.size() * 2, ' ') + "emit " + std::to_string(e));
    auto it = subscribed.find(e);
    frames.push_back({e, it == subscribed.end() ? std::vector<int>{} : it->second});
    const auto depth = frames.size();
    events->Emit(e, c.rng.chance(1, 2));
    if (frames.size() != depth) return say("nesting", "handlers still run after the emission of event " + std::to_string(e));
    if (frames.back().done != frames.back().due.size()) say("not-run", "event " + std::to_string(e) + " ran " + std::to_string(frames.back().done) + " of " + std::to_string(frames.back().due.size()) + " subscribed handlers");
    if (frames.back().due.size() > 1) c.nontrivial = true;
    frames.pop_back();
    XV_COUNT("emissions");
    if (depth > 1) XV_COUNT("nested emissions");
  };
  auto subscribe = [&](EventId e, int h) {
    auto &s = subscribed[e];
    c.op(std::string(frames.size() * 2, ' ') + "subscribe " + show(e, h));
    const bool known = std::find(s.begin(), s.end(), h) != s.end();
    try {
      events->Subscribe(e, handlers[static_cast<std::size_t>(h)].ep);
      if (known) say("subscribed-twice", show(e, h) + " was subscribed twice");
      s.push_back(h);
      XV_COUNT("subscriptions");
    } catch (const EntryPointAlreadySubscribed &) {
      if (!known) say("refused", show(e, h) + " was refused as already subscribed");
      XV_COUNT("refused subscriptions");
    } catch (const ::Smp::Exception &x) { say("wrong-error", std::string("subscribe: ") + x.what()); }
    if (!frames.empty()) XV_COUNT("changes during an emission");
  };
  auto unsubscribe = [&](EventId e, int h) {
    auto &s = subscribed[e];
    c.op(std::string(frames.size() * 2, ' ') + "unsubscribe " + show(e, h));
    const auto at = std::find(s.begin(), s.end(), h);
    try {
      events->Unsubscribe(e, handlers[static_cast<std::size_t>(h)].ep);
      if (at == s.end()) say("unsubscribed-twice", show(e, h) + " was unsubscribed though not subscribed");
      else s.erase(at);
      XV_COUNT("removals");
    } catch (const EntryPointNotSubscribed &) {
      if (at != s.end()) say("refused", show(e, h) + " was refused as not subscribed");
      XV_COUNT("refused removals");
    } catch (const ::Smp::Exception &x) { say("wrong-error", std::string("unsubscribe: ") + x.what()); }
    if (!frames.empty()) XV_COUNT("changes during an emission");
  };
  auto run = [&](int h) {
    if (frames.empty()) return say("spurious", "handler " + std::to_string(h) + " ran outside any emission");
    auto &f = frames.back();
    if (f.done >= f.due.size() || f.due[f.done] != h) return say("order", "handler " + std::to_string(h) + " ran as number " + std::to_string(f.done) + " of event " + std::to_string(f.event) + (f.done < f.due.size() ? " where " + std::to_string(f.due[f.done]) + " was due" : ""));
    f.done++;
    XV_COUNT("handlers run");
    auto &scripts = handlers[static_cast<std::size_t>(h)].scripts;
    if (!scripts.empty()) {
      auto s = std::move(scripts.back());
      scripts.pop_back();
      s();
    }
  };
  const auto n = 2 + c.rng.below(6);
  for (std::uint64_t h = 0; h < n; h++) {
    handlers.emplace_back();
    handlers.back().ep = &own.make<::Xsmp::EntryPoint>("handler", "", &w.sim, [&run, h] { run(static_cast<int>(h)); });
  }
  const auto handler = [&] { return static_cast<int>(c.rng.below(n)); };
  const auto id = [&] { return ids[c.rng.below(ids.size())]; };
  std::function<std::function<void()>()> action = [&]() -> std::function<void()> {
    const auto e = id();
    const auto h = handler();
    switch (c.rng.below(5)) {
    case 0: return [=, &subscribe] { subscribe(e, h); };
    case 1: return [=, &unsubscribe] { unsubscribe(e, h); };
    case 2: return [=, &emit] { emit(e); };
    case 3: return [&c, &failing] { c.op("a handler fails"); failing = true; XV_COUNT("handlers that fail"); throw std::runtime_error("handler"); };
    default: return [=, &unsubscribe, &subscribe] { unsubscribe(e, h); subscribe(e, h); };
    }
  };
  const auto steps = 10 + c.rng.below(60);
  for (std::uint64_t step = 0; step < steps; step++) {
    switch (c.rng.below(10)) {
    case 0: { // query
      std::string name = c.rng.chance(1, 4) ? std::next(names.begin(), static_cast<std::ptrdiff_t>(c.rng.below(names.size())))->first : "event" + std::to_string(c.rng.below(12)) + (c.rng.chance(1, 4) ? std::string(c.rng.below(60), 'x') : "");
      auto copy = std::make_unique<char[]>(name.size() + 1);
      std::strcpy(copy.get(), name.c_str());
      const auto got = events->QueryEventId(copy.get());
      c.op("query " + name + " gives " + std::to_string(got));
      if (auto it = names.find(name); it != names.end()) {
        XV_EQ(got, it->second, "identifier", "identifier of the known event " << name);
        XV_COUNT("known names");
      } else {
        XV_CHECK(used.insert(got).second, "identifier", "the new event " << name << " got the identifier " << got << " of another event");
        names[name] = got;
        ids.push_back(got);
        XV_COUNT("new names");
      }
      break;
    }
    case 1: {
      xv::throws<InvalidEventName>("empty-name", "query of an empty name", [&] { events->QueryEventId(c.rng.chance(1, 2) ? "" : nullptr); });
      EventId unknown = c.rng.pick<EventId>({0, -1, static_cast<EventId>(names.size() + 1), static_cast<EventId>(names.size() + 100), std::numeric_limits<EventId>::max(), std::numeric_limits<EventId>::min()});
      if (used.count(unknown)) break;
      c.op("unknown identifier " + std::to_string(unknown));
      const auto h = static_cast<std::size_t>(handler());
      xv::throws<InvalidEventId>("unknown-id", "subscribing to an unknown event", [&] { events->Subscribe(unknown, handlers[h].ep); });
      xv::throws<InvalidEventId>("unknown-id", "unsubscribing from an unknown event", [&] { events->Unsubscribe(unknown, handlers[h].ep); });
      xv::throws<InvalidEventId>("unknown-id", "emitting an unknown event", [&] { events->Emit(unknown); });
      XV_COUNT("unknown identifiers");
      break;
    }
    case 2:
    case 3:
    case 4: subscribe(id(), handler()); break;
    case 5: unsubscribe(id(), handler()); break;
    case 6: handlers[static_cast<std::size_t>(handler())].scripts.push_back(action()); break;
    default: emit(id()); break;
    }
    if (!c.flagged.empty()) return;
  }
  // at the end each event still runs exactly its subscribers
  for (auto &h : handlers) h.scripts.clear();
  budget = 1000;
  for (auto e : ids) emit(e);
  XV_CHECK((w.sim.GetState() == ::Smp::SimulatorStateKind::SSK_Aborting) == failing, "failure", "the simulator is " << stateName(w.sim.GetState()) << (failing ? " after a handler failed" : ""));
}
XV_SCENARIO_NOLEAK(C41, threads, 100, 1500) {
  World w;
  const delays::Scope delays(c.rng.pick({0u, 0u, 10u, 40u, 150u}));
  auto *events = w.events();
  const auto n = 2 + c.rng.below(3);
  const auto rounds = 40 + c.rng.below(60);
  std::atomic<std::uint64_t> fixedRuns{0};
  Pool own;
  auto &fixed = own.make<::Xsmp::EntryPoint>("fixed", "", &w.sim, [&] { fixedRuns++; });
  const auto shared = events->QueryEventId("shared");
  events->Subscribe(shared, &fixed);
  std::vector<std::map<std::string, EventId>> seen(n);
  std::vector<std::uint64_t> emitted(n), ownRuns(n), ownWanted(n);
  std::vector<std::string> problem(n);
  std::vector<std::thread> threads;
  std::atomic<unsigned> ready{0};
  for (std::uint64_t t = 0; t < n; t++) {
    auto &mine = own.make<::Xsmp::EntryPoint>("own", "", &w.sim, [&ownRuns, t] { ownRuns[t]++; });
    const auto seed = c.rng.next();
    threads.emplace_back([&, t, seed, m = &mine] {
      xv::Rng r(seed);
      ready++;
      while (ready < n) std::this_thread::yield();
      try {
        const auto private_ = events->QueryEventId(("private" + std::to_string(t)).c_str());
        for (std::uint64_t i = 0; i < rounds; i++) {
          const auto name = "name" + std::to_string(r.below(20));
          const auto id = events->QueryEventId(name.c_str());
          auto [it, isNew] = seen[t].try_emplace(name, id);
          if (!isNew && it->second != id) problem[t] = "the identifier of " + name + " changed from " + std::to_string(it->second) + " to " + std::to_string(id);
          events->Emit(id);
          events->Subscribe(private_, m);
          events->Emit(private_);
          ownWanted[t]++;
          events->Unsubscribe(private_, m);
          if (r.chance(1, 2)) { events->Emit(shared); emitted[t]++; }
          const auto other = events->QueryEventId(("fresh" + std::to_string(i)).c_str());
          events->Subscribe(other, m);
          events->Unsubscribe(other, m);
        }
      } catch (const std::exception &e) { problem[t] = e.what(); }
    });
  }
  for (auto &t : threads) t.join();
  c.op(std::to_string(n) + " threads");
  c.nontrivial = true;
  std::map<std::string, EventId> all;
  std::map<EventId, std::string> back;
  std::uint64_t total = 0;
  for (std::uint64_t t = 0; t < n; t++) {
    XV_CHECK(problem[t].empty(), "thread", problem[t]);
    XV_EQ(ownRuns[t], ownWanted[t], "private", "executions of a thread's own handler");
    total += emitted[t];
    for (const auto &[name, id] : seen[t]) {
      auto [it, isNew] = all.try_emplace(name, id);
      XV_CHECK(isNew || it->second == id, "identifier", "two threads got the identifiers " << it->second << " and " << id << " for " << name);
      auto [it2, isNew2] = back.try_emplace(id, name);
      XV_CHECK(isNew2 || it2->second == name, "identifier", "the names " << it2->second << " and " << name << " have the same identifier");
    }
  }
  XV_EQ(fixedRuns.load(), total, "shared", "executions of the handler of the shared event");
  xv::count("concurrent emissions", total);
}

// ---------------------------------------------------------------- C42
class Linker : public ::Xsmp::Model {
public:
  ILinkRegistry *links = nullptr;
  bool forget = true;
  int asked = 0;
  std::vector<const ::Smp::IComponent *> askedFor;
  using ::Xsmp::Model::Model;
  const ::Smp::Uuid &GetUuid() const override { return nodeUuid; }
  void RemoveLinks(const ::Smp::IComponent *target) override {
    asked++;
    askedFor.push_back(target);
    if (forget) while (links->RemoveLink(this, target)) {}
  }
};
/// a component that cannot drop its links
class Stubborn final : public virtual ::Smp::IModel {
  std::string name;
  ::Smp::IObject *parent;
public:
  Stubborn(const char *n, ::Smp::IObject *p) : name(n), parent(p) {}
  ::Smp::String8 GetName() const override { return name.c_str(); }
  ::Smp::String8 GetDescription() const override { return ""; }
  ::Smp::IObject *GetParent() const override { return parent; }
  ::Smp::ComponentStateKind GetState() const override { return ::Smp::ComponentStateKind::CSK_Created; }
  void Publish(::Smp::IPublication *) override {}
  void Configure(::Smp::Services::ILogger *, ::Smp::Services::ILinkRegistry *) override {}
  void Connect(::Smp::ISimulator *) override {}
  void Disconnect() override {}
  ::Smp::IField *GetField(::Smp::String8) const override { return nullptr; }
  const ::Smp::FieldCollection *GetFields() const override { return nullptr; }
  const ::Smp::Uuid &GetUuid() const override { return nodeUuid; }
};
XV_SCENARIO_NOLEAK(C42, counts, 5000, 100000) {
  World w;
  auto *links = w.links();
  Pool own;
  std::vector<::Smp::IComponent *> all;
  std::vector<Linker *> linkers;
  const auto n = 2 + c.rng.below(5);
  auto &group = own.make<Node>("group", "", static_cast<::Smp::IComposite *>(&w.sim), &w.sim);
  for (std::uint64_t i = 0; i < n; i++) {
    const char *name = c.rng.pick({"a", "b", "a"});
    auto *parent = c.rng.chance(1, 2) ? static_cast<::Smp::IComposite *>(&group) : static_cast<::Smp::IComposite *>(&w.sim);
    if (c.rng.chance(3, 4)) {
      auto &l = own.make<Linker>(name, "", parent, &w.sim);
      l.links = links;
      l.forget = c.rng.chance(4, 5);
      linkers.push_back(&l);
      all.push_back(&l);
    } else {
      linkers.push_back(nullptr);
      all.push_back(&own.make<Stubborn>(name, parent));
    }
  }
  std::map<std::pair<std::size_t, std::size_t>, std::uint32_t> model;
  const auto steps = 5 + c.rng.below(60);
  for (std::uint64_t step = 0; step < steps; step++) {
    const auto s = c.rng.below(n), t = c.rng.below(n);
    std::string what;
    switch (c.rng.below(8)) {
    case 0:
    case 1:
    case 2:
    case 3: {
      const auto times = c.rng.chance(1, 10) ? 1 + c.rng.below(300) : 1;
      what = "link " + std::to_string(s) + " to " + std::to_string(t) + " " + std::to_string(times) + " times";
      c.op(what);
      for (std::uint64_t i = 0; i < times; i++) xv::quiet("add", what, [&] { links->AddLink(all[s], all[t]); });
      model[{s, t}] += static_cast<std::uint32_t>(times);
      xv::count("links added", times);
      break;
    }
    case 4:
    case 5:
    case 6: {
      what = "unlink " + std::to_string(s) + " from " + std::to_string(t);
      c.op(what);
      auto it = model.find({s, t});
      const bool want = it != model.end();
      XV_EQ(links->RemoveLink(all[s], all[t]), want, "remove", what);
      if (want) { if (--it->second == 0) model.erase(it); XV_COUNT("links removed"); }
      else XV_COUNT("absent links");
      break;
    }
    default: {
      what = "remove all links to " + std::to_string(t);
      c.op(what);
      for (auto *l : linkers) if (l) { l->asked = 0; l->askedFor.clear(); }
      links->RemoveLinks(all[t]);
      std::set<std::size_t> sources;
      for (const auto &[k, count] : model) if (k.second == t) sources.insert(k.first);
      for (std::size_t i = 0; i < n; i++) {
        if (!linkers[i]) continue;
        XV_EQ(linkers[i]->asked, sources.count(i) ? 1 : 0, "asked", "times component " << i << " was asked to " << what);
        for (const auto *a : linkers[i]->askedFor) XV_CHECK(a == all[t], "asked", "component " << i << " was asked to remove its links to another component than " << t);
        if (sources.count(i) && linkers[i]->forget) model.erase({i, t});
      }
      if (sources.size() > 1) c.nontrivial = true;
      XV_COUNT("targets forgotten");
      break;
    }
    }
    for (std::size_t i = 0; i < n; i++) {
      std::multiset<const ::Smp::IComponent *> want, got;
      bool removable = true;
      for (std::size_t j = 0; j < n; j++) {
        auto it = model.find({j, i});
        const auto count = it == model.end() ? 0 : it->second;
        XV_EQ(links->GetLinkCount(all[j], all[i]), count, "count", "links from " << j << " to " << i << " after " << what);
        if (count) { want.insert(all[j]); if (!linkers[j]) removable = false; }
      }
      if (c.rng.chance(1, 2)) {
        const auto *sources = links->GetLinkSources(all[i]);
        for (const auto *x : *sources) got.insert(x);
        XV_CHECK(got == want && sources->size() == want.size(), "sources", "component " << i << " lists " << got.size() << " sources instead of " << want.size() << " after " << what);
        XV_COUNT("source lists compared");
      }
      XV_EQ(links->CanRemove(all[i]), removable, "removable", "whether component " << i << " can be removed after " << what);
      if (removable && !want.empty()) XV_COUNT("removable targets");
      if (!removable) XV_COUNT("targets that cannot be removed");
    }
  }
}
/// a component that can be asked to drop its links from any thread
class SharedLinker final : public ::Xsmp::Model {
public:
  ILinkRegistry *links = nullptr;
  std::function<void(const ::Smp::IComponent *)> dropped; // one link
  using ::Xsmp::Model::Model;
  const ::Smp::Uuid &GetUuid() const override { return nodeUuid; }
  void RemoveLinks(const ::Smp::IComponent *target) override {
    while (links->RemoveLink(this, target)) dropped(target);
  }
};
/// links are added, removed, forgotten and queried by several threads
XV_SCENARIO_NOLEAK(C42, threads, 120, 2500) {
  World w;
  const delays::Scope delays(c.rng.pick({0u, 0u, 10u, 40u, 150u}));
  auto *links = w.links();
  Pool own;
  // some sources and targets are only used by one thread
  const auto n = 2 + c.rng.below(3);
  constexpr std::size_t nShared = 2;
  const auto count = nShared + n;
  std::vector<SharedLinker *> all;
  std::vector<std::atomic<std::int64_t>> left(count * count);
  std::atomic<std::uint64_t> added{0}, removed{0}, forgotten{0};
  for (std::size_t i = 0; i < count; i++) {
    auto &l = own.make<SharedLinker>(("l" + std::to_string(i)).c_str(), "", static_cast<::Smp::IComposite *>(&w.sim), &w.sim);
    l.links = links;
    all.push_back(&l);
  }
  for (std::size_t i = 0; i < count; i++)
    all[i]->dropped = [&, i](const ::Smp::IComponent *target) {
      for (std::size_t k = 0; k < count; k++) if (all[k] == target) left[i * count + k]--;
      forgotten++;
    };
  Stubborn stubborn("stubborn", &w.sim), kept("kept", &w.sim);
  links->AddLink(&stubborn, &kept);
  std::vector<std::string> problem(n);
  std::vector<std::vector<const void *>> lists(n, std::vector<const void *>(count));
  std::vector<std::thread> threads;
  std::atomic<unsigned> ready{0};
  const auto rounds = 60 + c.rng.below(200);
  for (std::size_t t = 0; t < n; t++) {
    const auto seed = c.rng.next();
    threads.emplace_back([&, t, seed] {
      xv::Rng r(seed);
      ready++;
      while (ready < n) std::this_thread::yield();
      const auto wrong = [&](const std::string &what) { if (problem[t].empty()) problem[t] = what; };
      for (std::uint64_t i = 0; i < rounds; i++) {
        // to a shared target, or to the one of this thread
        const bool mine = r.chance(1, 3);
        const auto s = mine ? nShared + t : r.below(nShared), d = mine ? nShared + t : r.below(nShared);
        auto &l = left[s * count + d];
        switch (r.below(10)) {
        case 0: case 1: case 2: case 3:
          l++;
          links->AddLink(all[s], all[d]);
          added++;
          break;
        case 4: case 5: case 6: {
          const auto before = l.load();
          const bool was = links->RemoveLink(all[s], all[d]);
          if (was) { l--; removed++; }
          if (mine && was != (before > 0)) wrong("removing one of " + std::to_string(before) + " links between components of one thread returns " + (was ? "true" : "false"));
          break;
        }
        case 7: {
          const auto got = links->GetLinkCount(all[s], all[d]);
          if (mine && got != l.load()) wrong("components of one thread have " + std::to_string(got) + " links instead of " + std::to_string(l.load()));
          if (links->GetLinkCount(&stubborn, &kept) != 1) wrong("a link that nobody changes is not counted once");
          break;
        }
        case 8: {
          const void *list = links->GetLinkSources(all[d]);
          if (lists[t][d] && list != lists[t][d]) wrong("the list of sources is another one");
          lists[t][d] = list;
          if (!links->CanRemove(all[d])) wrong("a target of links that can be dropped cannot be removed");
          if (links->CanRemove(&kept)) wrong("the target of a link that cannot be dropped can be removed");
          break;
        }
        default:
          links->RemoveLinks(all[d]);
          if (mine && links->GetLinkCount(all[s], all[d]) != 0) wrong("links are left when those of a target of one thread have been removed");
          break;
        }
      }
    });
  }
  for (auto &t : threads) t.join();
  c.op(std::to_string(n) + " threads, " + std::to_string(rounds) + " steps each, seed " + std::to_string(c.rng.next()));
  c.nontrivial = removed > 0;
  for (std::size_t t = 0; t < n; t++) XV_CHECK(problem[t].empty(), "thread", problem[t]);
  for (std::size_t d = 0; d < count; d++) {
    std::multiset<const ::Smp::IComponent *> want, got;
    for (std::size_t s = 0; s < count; s++) {
      const auto l = left[s * count + d].load();
      XV_EQ(static_cast<std::int64_t>(links->GetLinkCount(all[s], all[d])), l, "conserved", "links from " << s << " to " << d << ": those added less those removed");
      if (l > 0) want.insert(all[s]);
    }
    const auto *list = links->GetLinkSources(all[d]);
    for (std::size_t t = 0; t < n; t++) XV_CHECK(!lists[t][d] || lists[t][d] == list, "list", "two threads got two lists of the sources of one target");
    for (auto *s : *list) got.insert(s);
    XV_CHECK(got == want, "sources", "when the threads have ended, " << got.size() << " sources are listed for a target that has " << want.size() << ", or other ones");
  }
  xv::count("links added by threads", added);
  xv::count("links removed by threads", removed);
  xv::count("links dropped when forgotten by threads", forgotten);
}

// ---------------------------------------------------------------- C43
struct Pattern { std::string line, render; };
struct Shot { std::string sender, message, kind; std::int64_t simulation, epoch, mission; };
/// one random piece of a pattern and how a message is shown by it
std::string renderPattern(const std::vector<std::string> &pieces, const Shot &s) {
  std::string r;
  for (const auto &p : pieces) {
    if (p == "%p") r += s.sender;
    else if (p == "%k") r += s.kind;
    else if (p == "%m") r += s.message;
    else if (p == "%S") r += std::to_string(s.simulation);
    else if (p == "%E") r += std::to_string(s.epoch);
    else if (p == "%M") r += std::to_string(s.mission);
    else if (p == "%t") r += '\t';
    else if (p == "%n") r += '\n';
    else if (p == "%%") r += '%';
    else if (p[0] == '%' && p.size() > 3 && p[2] == '{') {
      const auto format = p.substr(3, p.size() - 4);
      r += p[1] == 'S' ? ::Xsmp::Duration(s.simulation).format(format) : p[1] == 'M' ? ::Xsmp::Duration(s.mission).format(format) : ::Xsmp::DateTime(s.epoch).format(format);
      XV_COUNT("formatted times");
    } else if (p == "\\\\") r += '\\';
    else if (p == "\\'") r += '\'';
    else if (p == "\\\"") r += '"';
    else if (p == "\\?") r += '?';
    else if (p == "\\a") r += '\a';
    else if (p == "\\b") r += '\b';
    else if (p == "\\f") r += '\f';
    else if (p == "\\r") r += '\r';
    else if (p == "\\v") r += '\v';
    else if (p == "\\t") r += '\t';
    else if (p == "\\n") r += '\n';
    else r += p;
  }
  return r;
}
struct Out {
  std::string file;
  bool judged = true, simple = false;
  std::vector<std::string> pieces;
  std::set<std::string> levels;
  std::string path;
  bool wants(const Shot &s) const { return (levels.empty() || levels.count(s.kind)) && (path.empty() || std::regex_match(s.sender, std::regex(path))); }
  std::string show(const Shot &s) const {
    if (simple) { std::ostringstream o; o << ::Xsmp::Duration(s.simulation) << "\t" << s.sender << "\t" << s.kind << "\t" << s.message << "\n"; return o.str(); }
    return renderPattern(pieces, s);
  }
};
std::string read(const std::string &file) { std::ifstream f(file, std::ios::binary); return {std::istreambuf_iterator<char>(f), {}}; }
std::vector<Out> configure(xv::Case &c, const std::string &tag) {
  std::vector<Out> outs;
  std::string text = c.rng.chance(1, 2) ? "# comment = x\n\n" : "", root;
  const auto n = 1 + c.rng.below(4);
  for (std::uint64_t i = 0; i < n; i++) {
    Out o;
    const auto name = "A" + std::to_string(i), base = "log.appender." + name;
    o.file = tag + name + ".log";
    root += (i ? (c.rng.chance(1, 2) ? " , " : ",") : "") + name;
    auto eq = [&] { return c.rng.pick({"=", " = ", "\t=", "= "}); };
    auto line = [&](const std::string &k, const std::string &v) { text += (c.rng.chance(1, 4) ? "  " : "") + k + eq() + v + (c.rng.chance(1, 4) ? " \n" : "\n"); };
    line(base, "FileAppender");
    line(base + ".File", o.file);
    switch (c.rng.below(5)) {
    case 0:
      o.simple = true;
      line(base + ".layout", "SimpleLayout");
      break;
    case 1: { // unusual, only has to work
      o.judged = false;
      switch (c.rng.below(5)) {
      case 0: line(base + ".layout", "NoLayout"); break;
      case 1: line(base + ".layout.conversionPattern", "%m%"); break;
      case 2: line(base + ".layout.conversionPattern", "%S{%H"); break;
      case 3: line(base + ".layout.conversionPattern", "%d{%F %T}%S{%T}%E{}%M{%n}%"); break;
      default: break;
      }
      break;
    }
    default: {
      if (c.rng.chance(1, 2)) line(base + ".layout", "PatternLayout");
      const auto k = 1 + c.rng.below(10);
      for (std::uint64_t j = 0; j < k; j++) o.pieces.push_back(c.rng.pick<std::string>({"%p", "%k", "%m", "%S", "%E", "%M", "%t", "%n", "%%", "%x", "a", "[", "]", "=", "\\\\", "\\t", "\\n", "é", "%q", "\\'", "\\\"", "\\?", "\\a", "\\b", "\\f", "\\r", "\\v", "%S{%T}", "%M{%H-%M}", "%E{%F %T}", "%E{%Y}", "%S{.%S.}"}));
      o.pieces.insert(o.pieces.begin(), "<");
      o.pieces.push_back(">");
      o.pieces.push_back("\\n");
      std::string p;
      for (const auto &x : o.pieces) p += x;
      line(base + ".layout.conversionPattern", p);
      break;
    }
    }
    if (c.rng.chance(1, 3)) {
      std::string l;
      for (const char *k : {"Information", "Event", "Warning", "Error", "Debug", "mine", "<unknown: 99>"}) if (c.rng.chance(1, 2)) { o.levels.insert(k); l += (l.empty() ? "" : ", ") + std::string(k); }
      if (!o.levels.empty()) line(base + ".levels", l);
    }
    if (c.rng.chance(1, 3)) {
      o.path = c.rng.pick<std::string>({"/a.*", ".*b", "/", "(/a|/b).*", "<null>", "/group/.*"});
      line(base + ".path", o.path);
      if (c.rng.chance(1, 4)) { // a regular expression that needs escapes
        o.path = "/[ab]+(\\.ep)?";
        text.resize(text.rfind(base));
        line(base + ".path", "/[ab]+(\\\\.ep)?");
      }
    }
    outs.push_back(o);
  }
  if (c.rng.chance(1, 6)) root += ",Missing";
  text += "log.rootLogger=" + root + "\n";
  if (c.rng.chance(1, 6)) text += "garbage\n";
  Scratch::get().configure(text);
  for (std::size_t at = 0; at < text.size();) { const auto e = text.find('\n', at); c.op("properties: " + text.substr(at, e - at)); at = e + 1; }
  return outs;
}
std::string someMessage(xv::Case &, xv::Rng &r, const std::string &id) {
  std::string m = id + ":";
  const auto n = r.chance(1, 20) ? r.below(20000) : r.below(40);
  static const std::vector<std::string> bits{"a", "%m", "%", "\n", "{", "}", "\\n", "é", " ", "\t", "0"};
  for (std::uint64_t i = 0; i < n; i++) m += r.pick(bits);
  return m;
}
/// std::cerr without the text the logger prints about unusual properties
struct NoErr {
  std::ostringstream s;
  std::streambuf *before = std::cerr.rdbuf(s.rdbuf());
  ~NoErr() { std::cerr.rdbuf(before); }
};
XV_SCENARIO_NOLEAK(C43, files, 2500, 40000) {
  auto &scratch = Scratch::get();
  const auto outs = configure(c, "f");
  std::vector<Shot> shots;
  {
    NoErr noErr;
    World w;
    auto *logger = w.logger();
    std::map<std::string, LogMessageKind> kinds{{ILogger::LMK_InformationName, ILogger::LMK_Information}, {ILogger::LMK_EventName, ILogger::LMK_Event}, {ILogger::LMK_WarningName, ILogger::LMK_Warning}, {ILogger::LMK_ErrorName, ILogger::LMK_Error}, {ILogger::LMK_DebugName, ILogger::LMK_Debug}};
    std::map<LogMessageKind, std::string> back;
    for (const auto &[n, k] : kinds) back[k] = n;
    Pool own;
    auto &group = own.make<Node>("group", "", static_cast<::Smp::IComposite *>(&w.sim), &w.sim);
    std::vector<std::pair<const ::Smp::IObject *, std::string>> senders{{nullptr, "<null>"}, {&w.sim, "/"}, {&group, "/group"}};
    for (const char *n : {"a", "b", "ab"}) {
      auto &m = own.make<Node>(n, "", static_cast<::Smp::IComposite *>(&group), &w.sim);
      auto &top = own.make<Node>(n, "", static_cast<::Smp::IComposite *>(&w.sim), &w.sim);
      senders.push_back({&m, std::string("/group/") + n});
      senders.push_back({&top, std::string("/") + n});
      auto &ep = own.make<::Xsmp::EntryPoint>("ep", "", &top, [] {});
      senders.push_back({&ep, std::string("/") + n + ".ep"});
    }
    const auto steps = 5 + c.rng.below(80);
    for (std::uint64_t step = 0; step < steps; step++) {
      switch (c.rng.below(8)) {
      case 0: {
        const auto name = c.rng.pick<std::string>({"mine", "yours", "Information", "Debug", "Event", "mine2", "Mine", "é"});
        auto copy = std::make_unique<char[]>(name.size() + 1);
        std::strcpy(copy.get(), name.c_str());
        const auto got = logger->QueryLogMessageKind(copy.get());
        c.op("kind " + name + " is " + std::to_string(got));
        if (auto it = kinds.find(name); it != kinds.end()) {
          XV_EQ(got, it->second, "kind", "identifier of the kind " << name);
          XV_COUNT("known kinds");
        } else {
          XV_CHECK(back.try_emplace(got, name).second, "kind", "the kind " << name << " got the identifier " << got << " of another kind");
          kinds[name] = got;
          XV_COUNT("new kinds");
        }
        break;
      }
      case 1: {
        const auto t = c.rng.range(-1000000, 1000000);
        c.op("epoch " + std::to_string(t));
        w.clock()->SetEpochTime(t);
        w.clock()->SetMissionTime(t * 3);
        break;
      }
      default: {
        const auto &[sender, path] = senders[c.rng.below(senders.size())];
        const auto kind = c.rng.chance(1, 10) ? c.rng.pick<LogMessageKind>({99, -1, 77}) : std::next(back.begin(), static_cast<std::ptrdiff_t>(c.rng.below(back.size())))->first;
        const auto message = c.rng.chance(1, 30) ? "" : someMessage(c, c.rng, std::to_string(step));
        auto copy = std::make_unique<char[]>(message.size() + 1);
        std::memcpy(copy.get(), message.c_str(), message.size() + 1);
        c.op("log " + path + " kind " + std::to_string(kind) + " " + xv::show(message));
        shots.push_back({path, message, back.count(kind) ? back[kind] : "<unknown: " + std::to_string(kind) + ">", w.clock()->GetSimulationTime(), w.clock()->GetEpochTime(), w.clock()->GetMissionTime()});
        logger->Log(sender, copy.get(), kind);
        XV_COUNT("messages logged");
        break;
      }
      }
    }
    c.nontrivial = shots.size() > 3;
    if (c.rng.chance(1, 2)) std::this_thread::sleep_for(std::chrono::microseconds(c.rng.below(2000)));
  } // the logger writes what is left
  scratch.quiet();
  for (const auto &o : outs) {
    if (!o.judged) { std::filesystem::remove(o.file); XV_COUNT("unusual appenders"); continue; }
    const auto text = read(o.file);
    std::filesystem::remove(o.file);
    // the other messages are those of the services: events of the event manager, debug ones
    std::size_t at = 0;
    for (const auto &s : shots) {
      if (!o.wants(s)) { XV_COUNT("messages filtered"); continue; }
      const auto want = o.show(s);
      const auto found = text.find(want, at);
      XV_CHECK(found != std::string::npos, "message", o.file << " lacks, after " << at << " of " << text.size() << " bytes, the message " << xv::show(want, 200) << "; next is " << xv::show(text.substr(at), 200));
      at = found + want.size();
      XV_COUNT("messages found");
    }
    // how often a message is there at all
    std::map<std::string, std::size_t> wanted;
    for (const auto &s : shots) if (o.wants(s) && !s.message.empty() && (o.simple || std::count(o.pieces.begin(), o.pieces.end(), "%m"))) wanted[o.show(s)]++;
    for (const auto &[line, times] : wanted) {
      std::size_t got = 0;
      for (auto p = text.find(line); p != std::string::npos; p = text.find(line, p + line.size())) got++;
      XV_EQ(got, times, "repeated", o.file << ": occurrences of " << xv::show(line, 200));
    }
  }
}
XV_SCENARIO_NOLEAK(C43, threads, 120, 2000) {
  const delays::Scope delays(c.rng.pick({0u, 0u, 10u, 40u, 150u}));
  auto &scratch = Scratch::get();
  const bool console = c.rng.chance(1, 2);
  std::string props;
  props += "log.rootLogger=F,C\nlog.appender.F=FileAppender\nlog.appender.F.File=threads.log\nlog.appender.F.layout.conversionPattern=\x01%p|%k|%m\x02\n";
  if (console) props += "log.appender.C=ConsoleAppender\nlog.appender.C.layout.conversionPattern=\x01%p|%k|%m\x02\n";
  scratch.configure(props);
  std::ostringstream out;
  auto *before = std::cout.rdbuf(out.rdbuf());
  const auto n = 2 + c.rng.below(3);
  const auto rounds = 30 + c.rng.below(100);
  std::vector<std::map<std::string, LogMessageKind>> kinds(n);
  std::vector<std::vector<std::string>> logged(n);
  std::vector<std::string> problem(n);
  std::string second;
  {
    NoErr noErr;
    World w;
    // another simulator writing to the same console
    scratch.configure(console ? "log.rootLogger=C\nlog.appender.C=ConsoleAppender\nlog.appender.C.layout.conversionPattern=\x01second|%p|%m\x02\n" : "log.rootLogger=\n");
    World w2;
    auto *logger = w.logger();
    std::atomic<unsigned> ready{0};
    std::vector<std::thread> threads;
    for (std::uint64_t t = 0; t < n; t++) {
      const auto seed = c.rng.next();
      threads.emplace_back([&, t, seed] {
        xv::Rng r(seed);
        ready++;
        while (ready < n) std::this_thread::yield();
        try {
          for (std::uint64_t i = 0; i < rounds; i++) {
            const auto name = "kind" + std::to_string(r.below(30));
            const auto kind = logger->QueryLogMessageKind(name.c_str());
            auto [it, isNew] = kinds[t].try_emplace(name, kind);
            if (!isNew && it->second != kind) problem[t] = "the identifier of " + name + " changed";
            auto m = someMessage(c, r, std::to_string(t) + "." + std::to_string(i));
            logged[t].push_back("/|" + name + "|" + m);
            logger->Log(&w.sim, m.c_str(), kind);
            if (r.chance(1, 4)) w2.logger()->Log(&w2.sim, "other", 0);
            if (r.chance(1, 20)) std::this_thread::sleep_for(std::chrono::microseconds(r.below(300)));
          }
        } catch (const std::exception &e) { problem[t] = e.what(); }
      });
    }
    for (auto &t : threads) t.join();
  }
  std::cout.rdbuf(before);
  scratch.quiet();
  c.op(std::to_string(n) + " threads");
  c.nontrivial = true;
  std::map<std::string, LogMessageKind> all;
  std::map<LogMessageKind, std::string> back;
  for (std::uint64_t t = 0; t < n; t++) {
    XV_CHECK(problem[t].empty(), "thread", problem[t]);
    for (const auto &[name, kind] : kinds[t]) {
      auto [it, isNew] = all.try_emplace(name, kind);
      XV_CHECK(isNew || it->second == kind, "kind", "two threads got different identifiers for " << name);
      auto [it2, isNew2] = back.try_emplace(kind, name);
      XV_CHECK(isNew2 || it2->second == name, "kind", "two names got the same identifier");
    }
  }
  std::vector<std::string> texts{read("threads.log")};
  if (console) { texts.push_back(out.str()); XV_COUNT("consoles"); }
  for (const auto &text : texts) {
    std::vector<std::size_t> next(n);
    std::size_t records = 0;
    for (std::size_t at = 0; at < text.size();) {
      XV_CHECK(text[at] == '\x01', "interleaved", "a record does not start where the one before ends: " << xv::show(text.substr(at)));
      const auto end = text.find('\x02', at);
      XV_CHECK(end != std::string::npos, "interleaved", "a record has no end");
      const auto record = text.substr(at + 1, end - at - 1);
      XV_CHECK(record.find('\x01') == std::string::npos, "interleaved", "a record within a record");
      at = end + 1;
      if (record.compare(0, 2, "/|") != 0 || record.compare(0, 4, "/|ki") != 0) continue; // of a service
      const auto id = record.find('|', 2) + 1;
      const auto t = static_cast<std::size_t>(std::stoul(record.substr(id)));
      XV_CHECK(t < n && next[t] < logged[t].size(), "repeated", "more records than messages: " << xv::show(record));
      XV_EQ(record, logged[t][next[t]], "record", "record of thread " << t);
      next[t]++;
      records++;
    }
    for (std::uint64_t t = 0; t < n; t++) XV_EQ(next[t], logged[t].size(), "lost", "messages of thread " << t << " found");
    xv::count("concurrent messages found", records);
  }
  std::filesystem::remove("threads.log");
}
} // namespace
