// The scheduler: random schedules changed from everywhere, every step of the
// run compared with a model as it happens; and the same from several threads.
#include "delays.h"
#include "sim.h"
#include <Smp/Services/InvalidCycleTime.h>
#include <Smp/Services/InvalidEventId.h>
#include <Smp/Services/InvalidEventTime.h>
#include <Smp/Services/TimeKind.h>
#include <Xsmp/DateTime.h>
#include <thread>
namespace {
using namespace smpx;
using namespace ::Smp::Services;
using E = IEventManager;
using S = ::Smp::SimulatorStateKind;
using Wide = __int128;
constexpr Wide lowest = std::numeric_limits<std::int64_t>::min(), highest = std::numeric_limits<std::int64_t>::max();
std::string num(Wide v) { return v < 0 ? "-" + num(-v) : v < 10 ? std::string(1, static_cast<char>('0' + static_cast<int>(v))) : num(v / 10) + static_cast<char>('0' + static_cast<int>(v % 10)); }

enum Op { PostSim, PostNow, PostMission, PostEpoch, Remove, RemoveSelf, Move, MoveSelf, MoveWrong, Cycle, Repeat, CycleSelf, RepeatSelf, HoldNow, HoldLater, Clock, Query, BadId, BadPost, Throw, OpCount };
struct Style {
  int weight[OpCount] = {};
  bool cyclic = false, holds = true, changes = true;
};

/// a simulation whose every step is checked against a model of the schedule
struct Engine {
  enum class Type { Nothing, Pre, Post, Fire };
  enum class Phase { Start, AfterPre, AfterPost };
  struct Event {
    EventId id;
    TimeKind kind;
    Wide time; // as shown by the clock of its kind
    Wide cycle;
    std::int64_t repeat;
    int entry;        // -1: holds at the next time change, -2: holds at the end of time
    bool immediate = false, alive = true, current = false, moved = false;
    unsigned fired = 0;
  };
  struct Step { Type type; std::size_t event; Wide time; };

  xv::Case &c;
  Style style;
  std::uint64_t seed; // of the script
  World w{false};
  Pool own;
  std::vector<::Xsmp::EntryPoint *> entries;
  std::vector<Event> events; // in the order of their posting
  std::map<EventId, std::size_t> ids;
  Wide now = 0, epoch = 0, start = 0; // epoch clock = now + epoch, mission clock = epoch clock - start
  bool running = false, aborted = false, holding = false, holdAtPre = false;
  std::size_t holdAfter = SIZE_MAX, current = SIZE_MAX;
  Phase phase = Phase::Start;
  bool jump = true;      // the handler of the time change skips the waiting
  bool handlers = true;  // the handlers of the time changes act too
  bool record = false;
  std::vector<std::pair<std::size_t, Wide>> fired; // event, time
  std::vector<std::size_t> labels;                 // of the posted events, the internal ones left out
  std::uint64_t firings = 0, steps = 0, limit = 150;
  Wide unit = 1;
  Wide lastTime = -1;
  xv::Rng *extra = nullptr; // decides on holds outside of the script
  std::uint64_t nOps = 0;
  bool idle = false; // no run is in progress

  Engine(xv::Case &cc, const Style &st, std::uint64_t sd) : c(cc), style(st), seed(sd) {
    w.sim.Publish();
    w.sim.Configure();
    for (int i = 0; i < 5; i++) entries.push_back(&own.make<::Xsmp::EntryPoint>(("event" + std::to_string(i)).c_str(), "", &w.sim, [this, i] { fire(i); }));
    auto on = [&](EventId id, const char *name, std::function<void()> f) { w.events()->Subscribe(id, &own.make<::Xsmp::EntryPoint>(name, "", &w.sim, std::move(f))); };
    // before those of the scheduler
    on(E::SMP_EnterExecutingId, "enterExecuting", [this] { if (style.changes) act("EnterExecuting", false); });
    w.sim.Connect();
    on(E::SMP_PreSimTimeChangeId, "pre", [this] { pre(); });
    on(E::SMP_PostSimTimeChangeId, "post", [this] { post(); });
    on(E::SMP_LeaveExecutingId, "leaveExecuting", [this] { stopped(); });
    on(E::SMP_EnterStandbyId, "enterStandby", [this] { held(); });
    events.push_back({-2, TimeKind::TK_SimulationTime, highest, 0, 0, -2});
    now = w.clock()->GetSimulationTime();
    epoch = Wide{w.clock()->GetEpochTime()} - now;
    start = w.clock()->GetMissionStartTime();
  }
  IScheduler *scheduler() { return w.scheduler(); }
  bool bad() { return !c.flagged.empty(); }
  void flag(const std::string &key, const std::string &msg) {
    if (!bad()) c.op("!! " + key + ": " + msg);
    c.flag(key, msg);
    running = false;
  }
  // ---- model
  Wide clockOf(TimeKind k) const { return k == TimeKind::TK_MissionTime ? now + epoch - start : k == TimeKind::TK_EpochTime ? now + epoch : now; }
  Wide due(const Event &e) const { return now + e.time - clockOf(e.kind); }
  bool pending(const Event &e) const { return e.alive && (!e.current || e.moved); }
  bool past(const Event &e) const { return pending(e) && !e.immediate && due(e) < now; }
  bool anyPast() const { return std::any_of(events.begin(), events.end(), [&](const Event &e) { return e.alive && clockOf(e.kind) > e.time && !e.immediate && e.kind != TimeKind::TK_SimulationTime; }); }
  /// drop the occurrences a clock has jumped over
  bool skip(Event &e) const {
    const Wide shown = clockOf(e.kind);
    while (e.time < shown) {
      if (e.repeat == 0) return false;
      Wide n = (shown - e.time + e.cycle - 1) / e.cycle;
      if (e.repeat > 0) {
        if (e.repeat < n) return false;
        e.repeat -= static_cast<std::int64_t>(n);
      }
      e.time += n * e.cycle;
    }
    return true;
  }
  void skipAll() {
    for (auto &e : events) if (past(e)) {
      XV_COUNT("events jumped over");
      if (!skip(e)) e.alive = false;
    }
  }
  Wide nextTime() const {
    Wide n = highest;
    bool any = false;
    for (auto e : events) {
      if (!pending(e) || e.immediate) continue;
      if (past(e) && !skip(e)) continue;
      n = std::min(n, due(e));
      any = true;
    }
    return any ? n : highest;
  }
  void hold(bool immediate) {
    if (!running) return;
    if (!immediate) { holding = true; return; }
    running = false;
    holding = false;
    if (holdAfter != SIZE_MAX) events[holdAfter].alive = false;
    holdAfter = SIZE_MAX;
  }
  Step expected() {
    for (;;) {
      if (!running) return {Type::Nothing, 0, now};
      for (std::size_t i = 0; i < events.size(); i++) if (pending(events[i]) && events[i].immediate) return {Type::Fire, i, now};
      if (phase == Phase::Start) return {Type::Pre, 0, now};
      skipAll();
      if (phase == Phase::AfterPre) return {Type::Post, 0, nextTime()};
      std::size_t next = SIZE_MAX;
      for (std::size_t i = 0; i < events.size() && next == SIZE_MAX; i++) if (pending(events[i]) && due(events[i]) <= now && events[i].entry != -2) next = i;
      // the end of time comes last
      if (next == SIZE_MAX && events[0].alive && now == highest) next = 0;
      if (next == SIZE_MAX) return {Type::Pre, 0, now};
      if (events[next].entry >= 0) return {Type::Fire, next, now};
      events[next].alive = false;
      if (events[next].entry == -1) { holdAfter = SIZE_MAX; hold(false); }
      else { XV_COUNT("ends of time"); hold(true); }
    }
  }
  std::string show(const Step &s) const {
    switch (s.type) {
    case Type::Pre: return "the announcement of a time change";
    case Type::Post: return "a time change to " + num(s.time);
    case Type::Fire: return "event #" + std::to_string(s.event);
    default: return "nothing";
    }
  }
  // ---- observations
  std::size_t find(EventId id) const {
    auto it = ids.find(id);
    return it == ids.end() ? SIZE_MAX : it->second;
  }
  bool checkTime(const std::string &what, Wide want) {
    const Wide t = w.clock()->GetSimulationTime();
    if (t != want) { flag("time", what + " finds simulation time " + num(t) + " instead of " + num(want)); return false; }
    if (t < lastTime) { flag("backwards", "the simulation time went back from " + num(lastTime) + " to " + num(t)); return false; }
    lastTime = t;
    return true;
  }
  void guard() { if (bad() && w.sim.GetState() == S::SSK_Executing) w.sim.Abort(); }
  void fire(int entry) {
    if (bad()) return guard();
    const auto id = scheduler()->GetCurrentEventId();
    const auto i = find(id);
    c.op("fire #" + (i == SIZE_MAX ? "?" + std::to_string(id) : std::to_string(i)) + " at " + num(w.clock()->GetSimulationTime()));
    const auto want = expected();
    if (want.type != Type::Fire || want.event != i) {
      const bool dead = i != SIZE_MAX && !pending(events[i]);
      flag(want.type == Type::Nothing ? "fired-on-hold" : dead ? "fired-again" : want.type == Type::Fire ? "order" : "early", (i == SIZE_MAX ? "an unknown event" : "event #" + std::to_string(i)) + (dead ? " (which is gone)" : "") + " fires at " + num(w.clock()->GetSimulationTime()) + " where " + show(want) + " is due");
      return guard();
    }
    auto &e = events[i];
    if (e.entry != entry) { flag("entry", "event #" + std::to_string(i) + " executes another entry point"); return guard(); }
    if (!checkTime("event #" + std::to_string(i), now)) return guard();
    firings++;
    XV_COUNT("firings");
    if (e.immediate) XV_COUNT("immediate firings");
    if (e.fired > 0) XV_COUNT("repeated firings");
    if (!fired.empty() && fired.back().second == now) XV_COUNT("simultaneous firings");
    if (e.kind == TimeKind::TK_MissionTime) XV_COUNT("mission time firings");
    if (e.kind == TimeKind::TK_EpochTime) XV_COUNT("epoch time firings");
    fired.emplace_back(std::find(labels.begin(), labels.end(), i) - labels.begin(), now);
    e.immediate = false;
    e.current = true;
    e.moved = false;
    e.fired++;
    current = i;
    act("event #" + std::to_string(i), true);
    current = SIZE_MAX;
    auto &f = events[i]; // the table may have grown
    f.current = false;
    if (!f.alive) return guard();
    if (f.repeat == 0) f.alive = f.moved;
    else {
      if (f.repeat > 0) f.repeat--;
      if (!f.moved) {
        f.time += f.cycle;
        if (due(f) > highest) f.alive = false;
      }
    }
    f.moved = false;
    guard();
  }
  void pre() {
    if (bad()) return guard();
    c.op("pre at " + num(w.clock()->GetSimulationTime()));
    const auto want = expected();
    if (want.type != Type::Pre) { flag(want.type == Type::Nothing ? "announced-on-hold" : "missed", "a time change is announced where " + show(want) + " is due"); return guard(); }
    if (!checkTime("the announcement", now)) return guard();
    XV_COUNT("time changes");
    phase = Phase::AfterPre;
    holdAtPre = holding;
    if (++steps > limit) { w_hold(true); return; }
    if (handlers && style.changes) act("PreSimTimeChange", false);
    if (running && !bad() && jump && (!holdAtPre || (style.weight[Clock] == 0 && style.changes && c.rng.chance(1, 8)))) {
      const Wide n = scheduler()->GetNextScheduledEventTime();
      if (n != nextTime()) { flag("next", "the next event is said to be due at " + num(n) + " instead of " + num(nextTime())); return guard(); }
      const Wide to = handlers && extra == nullptr && c.rng.chance(1, 4) && n - now < (Wide{1} << 62) ? now + static_cast<Wide>(c.rng.below(static_cast<std::uint64_t>(n - now) + 1)) : n;
      // the rest is waited for
      if (n - to <= 500 || to == n) {
        c.op("advance to " + num(to));
        w.clock()->SetSimulationTime(static_cast<std::int64_t>(to));
        now = to;
        checkTime("the announcement", now);
      } else {
        c.op("advance to " + num(n));
        w.clock()->SetSimulationTime(static_cast<std::int64_t>(n));
        now = n;
      }
    }
    guard();
  }
  void post() {
    if (bad()) return guard();
    c.op("post at " + num(w.clock()->GetSimulationTime()));
    const auto want = expected();
    if (want.type != Type::Post) { flag(want.type == Type::Nothing ? "changed-on-hold" : want.type == Type::Fire ? "late" : "change", "the time changes where " + show(want) + " is due"); return guard(); }
    now = want.time;
    phase = Phase::AfterPost;
    if (!checkTime("the time change", now)) return guard();
    if (handlers && style.changes) act("PostSimTimeChange", false);
    guard();
  }
  /// the simulator says that the run is over
  bool over() {
    if (bad()) return false;
    if (running && phase == Phase::AfterPre && holdAtPre) { XV_COUNT("deferred holds done"); hold(true); }
    else if (running) expected(); // the end of time
    if (running) { const auto want = expected(); flag("held-early", "the simulation is held where " + show(want) + " is due"); return false; }
    return checkTime("the hold", now);
  }
  void stopped() { over(); }
  void held() {
    if (!over()) return;
    if (handlers && style.changes && nOps < 2000) act("EnterStandby", false);
  }
  void w_hold(bool immediate) {
    c.op(immediate ? "hold now" : "hold at the next time change");
    hold(immediate); // the handlers of the state changes find it done
    w.sim.Hold(immediate);
  }
  // ---- operations
  enum class Refusal { None, Id, Cycle, Time, TimeOrCycle };
  template <typename F> bool attempt(const std::string &what, Refusal want, F f) {
    Refusal got = Refusal::None;
    try { f(); }
    catch (const InvalidEventId &) { got = Refusal::Id; }
    catch (const InvalidCycleTime &) { got = Refusal::Cycle; }
    catch (const InvalidEventTime &) { got = Refusal::Time; }
    if (want == Refusal::TimeOrCycle && (got == Refusal::Time || got == Refusal::Cycle)) want = got;
    static const char *const names[] = {"accepted", "refused as an unknown event", "refused for its cycle", "refused for its time", "refused"};
    c.op(what + (got == Refusal::None ? "" : std::string(": ") + names[static_cast<int>(got)]));
    if (got != want) { flag(want == Refusal::None ? "refused" : got == Refusal::None ? "accepted" : "other-refusal", what + " is " + names[static_cast<int>(got)] + " and not " + names[static_cast<int>(want)]); return false; }
    if (want != Refusal::None) XV_COUNT("refusals");
    return want == Refusal::None;
  }
  /// a new event, due in a while
  void post(xv::Rng &r, TimeKind kind, Wide in, bool immediate = false) {
    if (now + in > highest) return;
    const int entry = static_cast<int>(r.below(entries.size()));
    Wide cycle = 0;
    std::int64_t repeat = 0;
    if (style.cyclic && r.chance(1, 2)) {
      cycle = unit * r.range(1, 6);
      repeat = r.chance(1, 4) ? -1 : r.range(0, 5);
    }
    if (immediate) { cycle = 0; repeat = 0; }
    const Wide time = clockOf(kind) + in;
    if (time > highest || time < lowest || now + in < lowest) return;
    const auto t = static_cast<std::int64_t>(time), cy = static_cast<std::int64_t>(cycle);
    EventId id = -1;
    const std::string what = (immediate ? std::string("post immediate") : std::string("post ") + (kind == TimeKind::TK_SimulationTime ? "in " + num(in) : kind == TimeKind::TK_MissionTime ? "at mission time " + num(time) : "at epoch time " + num(time)) + (repeat ? " every " + num(cycle) + " x" + std::to_string(repeat) : "")) + " as #" + std::to_string(events.size());
    const bool ok = attempt(what, in < 0 ? Refusal::Time : Refusal::None, [&] {
      auto *e = entries[static_cast<std::size_t>(entry)];
      id = immediate ? scheduler()->AddImmediateEvent(e) : kind == TimeKind::TK_SimulationTime ? scheduler()->AddSimulationTimeEvent(e, static_cast<std::int64_t>(in), cy, repeat) : kind == TimeKind::TK_MissionTime ? scheduler()->AddMissionTimeEvent(e, t, cy, repeat) : scheduler()->AddEpochTimeEvent(e, t, cy, repeat);
    });
    if (!ok) return;
    if (ids.count(id) && events[ids[id]].alive) return flag("identifier", "two pending events have the identifier " + std::to_string(id));
    ids[id] = events.size();
    labels.push_back(events.size());
    events.push_back({id, kind, time, cycle, repeat, entry, immediate});
    XV_COUNT("events posted");
  }
  Wide someDelay(xv::Rng &r) {
    switch (r.below(6)) {
    case 0: case 1: return 0;
    case 2: return unit * r.range(0, 40);
    default: return unit * r.range(0, 6);
    }
  }
  void move(xv::Rng &r, std::size_t i) {
    auto &e = events[i];
    if (e.alive && past(e)) return;
    Wide in = r.chance(1, 6) ? -unit * r.range(1, 5) : someDelay(r);
    const bool known = e.alive;
    const auto kind = e.kind;
    const Wide time = clockOf(kind) + in;
    if (time > highest || time < lowest || now + in > highest) return;
    const auto t = static_cast<std::int64_t>(time);
    const bool self = e.current;
    if (attempt("move #" + std::to_string(i) + " to " + num(now + in), known ? Refusal::None : Refusal::Id, [&] {
          if (kind == TimeKind::TK_SimulationTime) scheduler()->SetEventSimulationTime(e.id, static_cast<std::int64_t>(in));
          else if (kind == TimeKind::TK_MissionTime) scheduler()->SetEventMissionTime(e.id, t);
          else scheduler()->SetEventEpochTime(e.id, t);
        })) {
      e.immediate = false;
      if (in < 0) { e.alive = false; XV_COUNT("events moved into the past"); }
      else { e.time = time; if (self) { e.moved = true; XV_COUNT("own moves"); } else XV_COUNT("events moved"); }
    }
  }
  void remove(std::size_t i) {
    auto &e = events[i];
    if (e.alive && past(e)) return;
    if (attempt("remove #" + std::to_string(i), e.alive ? Refusal::None : Refusal::Id, [&] { scheduler()->RemoveEvent(e.id); })) {
      e.alive = false;
      if (e.current) XV_COUNT("own removals"); else XV_COUNT("events removed");
    }
  }
  void cycle(xv::Rng &r, std::size_t i) {
    auto &e = events[i];
    if (e.alive && past(e)) return;
    const Wide cy = r.chance(1, 5) ? -unit * r.range(0, 2) : unit * r.range(1, 6);
    if (attempt("cycle of #" + std::to_string(i) + " is " + num(cy), !e.alive ? Refusal::Id : e.repeat != 0 && cy <= 0 ? Refusal::Cycle : Refusal::None, [&] { scheduler()->SetEventCycleTime(e.id, static_cast<std::int64_t>(cy)); })) { e.cycle = cy; XV_COUNT("cycles changed"); }
  }
  void repeat(xv::Rng &r, std::size_t i) {
    auto &e = events[i];
    if (e.alive && past(e)) return;
    const std::int64_t n = r.chance(1, 5) ? -1 : r.range(0, 4);
    if (attempt("repeat of #" + std::to_string(i) + " is " + std::to_string(n), !e.alive ? Refusal::Id : n != 0 && e.cycle <= 0 ? Refusal::Cycle : Refusal::None, [&] { scheduler()->SetEventRepeat(e.id, n); })) { e.repeat = n; XV_COUNT("repeats changed"); }
  }
  void changeClock(xv::Rng &r) {
    if (anyPast()) return; // one jump at a time
    const auto kind = r.below(3);
    const Wide shift = (r.chance(1, 2) ? -1 : 1) * unit * r.range(0, 30);
    const Wide wasEpoch = epoch, wasStart = start;
    Wide to = 0;
    if (kind == 0) { epoch += shift; to = now + epoch; }
    else if (kind == 1) { start += shift; to = start; }
    else { start += shift; to = now + epoch - start; }
    bool fits = to <= highest && to >= lowest && now + epoch <= highest && now + epoch >= lowest && now + epoch - start <= highest && now + epoch - start >= lowest && start <= highest && start >= lowest && epoch <= highest && epoch >= lowest;
    for (const auto &e : events) fits = fits && (!e.alive || due(e) <= highest);
    // the event being executed has no time of its own until it is posted again
    if (current != SIZE_MAX && events[current].alive && events[current].kind != TimeKind::TK_SimulationTime && events[current].repeat != 0) fits = fits && !events[current].moved;
    if (!fits) { epoch = wasEpoch; start = wasStart; return; }
    const auto t = static_cast<std::int64_t>(to);
    c.op(std::string(kind == 0 ? "epoch time" : kind == 1 ? "mission start" : "mission time") + " is " + num(to));
    if (kind == 0) w.clock()->SetEpochTime(t); else if (kind == 1) w.clock()->SetMissionStartTime(t); else w.clock()->SetMissionTime(t);
    XV_COUNT("clock changes");
  }
  /// a few random operations, as the script has it
  void act(const std::string &where, bool event) {
    if (bad()) return;
    xv::Rng script(0);
    if (event) script = xv::Rng(xv::mix(seed ^ (static_cast<std::uint64_t>(std::find(labels.begin(), labels.end(), current) - labels.begin()) * 1000 + events[current].fired)));
    else script = xv::Rng(c.rng.next());
    auto n = script.below(event ? 5 : 3);
    if (!event && script.chance(2, 3)) n = 0;
    if (event && (events[current].fired > 12 || firings > limit)) { remove(current); n = 0; }
    if (extra && event && extra->chance(1, 5)) { if (running) { XV_COUNT("holds requested"); w_hold(extra->chance(1, 2)); } }
    if (event && jump && phase == Phase::AfterPre && handlers && style.changes) n = 0; // the time is set already
    (void)where;
    for (std::uint64_t k = 0; k < n && !bad(); k++) step(script, event);
    if (firings > 2 * limit && running) w_hold(true);
    if (!bad() && event) {
      const auto id = scheduler()->GetCurrentEventId();
      if (id != events[current].id) flag("current", "the current event is said to be " + std::to_string(id) + " instead of " + std::to_string(events[current].id));
    }
  }
  void step(xv::Rng &r, bool event) {
    int total = 0;
    for (int x : style.weight) total += x;
    int k = static_cast<int>(r.below(static_cast<std::uint64_t>(total)));
    int op = 0;
    while (k >= style.weight[op]) k -= style.weight[op++];
    nOps++;
    const bool have = !labels.empty();
    const auto which = have ? labels[r.below(labels.size())] : 0;
    const bool many = firings > limit || std::count_if(events.begin(), events.end(), [](const Event &e) { return e.alive && e.entry >= 0; }) > 25;
    switch (op) {
    case PostSim: if (!many) post(r, TimeKind::TK_SimulationTime, someDelay(r)); break;
    case PostNow: if (!many) post(r, TimeKind::TK_SimulationTime, 0, true); break;
    case PostMission: if (!many) post(r, TimeKind::TK_MissionTime, someDelay(r)); break;
    case PostEpoch: if (!many) post(r, TimeKind::TK_EpochTime, someDelay(r)); break;
    case BadPost: post(r, r.pick({TimeKind::TK_SimulationTime, TimeKind::TK_MissionTime, TimeKind::TK_EpochTime}), -unit * r.range(1, 3)); {
      const Wide cy = -unit * r.range(0, 3);
      if (now + unit > highest) break;
      attempt("post every " + num(cy), Refusal::Cycle, [&] { scheduler()->AddSimulationTimeEvent(entries[0], static_cast<std::int64_t>(unit), static_cast<std::int64_t>(cy), r.chance(1, 2) ? -1 : 2); });
      attempt("post in the past every " + num(cy), Refusal::TimeOrCycle, [&] { scheduler()->AddSimulationTimeEvent(entries[0], static_cast<std::int64_t>(-unit), static_cast<std::int64_t>(cy), 1); });
      break;
    }
    case Remove: if (have) remove(which); break;
    case RemoveSelf: if (event && r.chance(1, 3)) remove(current); break;
    case Move: if (have) move(r, which); break;
    case MoveSelf: if (event) move(r, current); break;
    case MoveWrong: if (have && events[which].alive && !past(events[which])) {
      const auto &e = events[which];
      if (e.kind != TimeKind::TK_SimulationTime) attempt("move #" + std::to_string(which) + " by simulation time", Refusal::Id, [&] { scheduler()->SetEventSimulationTime(e.id, 1); });
      if (e.kind != TimeKind::TK_MissionTime) attempt("move #" + std::to_string(which) + " by mission time", Refusal::Id, [&] { scheduler()->SetEventMissionTime(e.id, static_cast<std::int64_t>(clockOf(TimeKind::TK_MissionTime))); });
      if (e.kind != TimeKind::TK_EpochTime) attempt("move #" + std::to_string(which) + " by epoch time", Refusal::Id, [&] { scheduler()->SetEventEpochTime(e.id, static_cast<std::int64_t>(clockOf(TimeKind::TK_EpochTime))); });
      attempt("move #" + std::to_string(which) + " by zulu time", Refusal::Id, [&] { scheduler()->SetEventZuluTime(e.id, w.clock()->GetZuluTime() + 1000000000); });
    } break;
    case Cycle: if (have) cycle(r, which); break;
    case Repeat: if (have) repeat(r, which); break;
    case CycleSelf: if (event) cycle(r, current); break;
    case RepeatSelf: if (event) repeat(r, current); break;
    case HoldNow: if (style.holds && running) { w_hold(true); XV_COUNT("immediate holds"); } break;
    case HoldLater: if (style.holds && running && phase != Phase::AfterPre) { w_hold(false); XV_COUNT("deferred holds"); } break;
    case Clock: changeClock(r); break;
    case Query: {
      const Wide n = scheduler()->GetNextScheduledEventTime();
      if (n != nextTime()) flag("next", "the next event is said to be due at " + num(n) + " instead of " + num(nextTime()));
      if (idle && scheduler()->GetCurrentEventId() != -1) flag("current", "an event is said to be executed");
      XV_COUNT("next times compared");
      break;
    }
    case BadId: {
      EventId id = r.chance(1, 2) ? static_cast<EventId>(r.range(-20, 1000)) : static_cast<EventId>(r.next());
      if (id == -2 || find(id) != SIZE_MAX || (holdAfter != SIZE_MAX && id >= 0 && id < 2000)) break;
      attempt("remove " + std::to_string(id), Refusal::Id, [&] { scheduler()->RemoveEvent(id); });
      attempt("cycle of " + std::to_string(id), Refusal::Id, [&] { scheduler()->SetEventCycleTime(id, 1); });
      attempt("repeat of " + std::to_string(id), Refusal::Id, [&] { scheduler()->SetEventRepeat(id, 1); });
      attempt("move " + std::to_string(id), Refusal::Id, [&] { scheduler()->SetEventSimulationTime(id, 1); });
      attempt("move " + std::to_string(id), Refusal::Id, [&] { scheduler()->SetEventMissionTime(id, 1); });
      attempt("move " + std::to_string(id), Refusal::Id, [&] { scheduler()->SetEventEpochTime(id, 1); });
      attempt("move " + std::to_string(id), Refusal::Id, [&] { scheduler()->SetEventZuluTime(id, w.clock()->GetZuluTime() + 1000000); });
      break;
    }
    case Throw: if (event && r.chance(1, 20)) { XV_COUNT("aborts"); c.op("throw"); running = false; aborted = true; throw std::runtime_error("event"); } break;
    default: break;
    }
  }
  void run(Wide duration, bool endless = false) {
    c.op(endless ? "run" : "run for " + num(duration));
    if (w.sim.GetState() != S::SSK_Standby) return;
    if (!endless) {
      if (now + duration > highest) return;
      holdAfter = events.size();
      events.push_back({-1, TimeKind::TK_SimulationTime, now + duration, 0, 0, -1});
    }
    running = true;
    phase = Phase::Start;
    holdAtPre = false;
    const auto before = firings;
    if (endless) w.sim.Run(); else w.sim.Run(static_cast<std::int64_t>(duration));
    if (bad()) return;
    const auto want = expected();
    if (running) return flag("stopped-early", "the run is over where " + show(want) + " is due");
    checkTime("the standby", now);
    if (!aborted && w.sim.GetState() != S::SSK_Standby) return flag("state", "the simulator is not in standby after the run");
    XV_COUNT("runs");
    if (firings > before) c.nontrivial = true;
  }
  /// something done while the simulation is on hold
  void outside(std::uint64_t n) {
    xv::Rng r(c.rng.next());
    idle = true;
    for (std::uint64_t k = 0; k < n && !bad(); k++) step(r, false);
    idle = false;
  }
};

void history(xv::Case &c, Style style) {
  Engine e(c, style, c.rng.next());
  e.jump = c.rng.chance(3, 4);
  e.unit = e.jump ? c.rng.pick({Wide{1}, Wide{1}, Wide{10}, Wide{1000000007}, Wide{1} << 55}) : 1;
  e.limit = 100;
  c.op(std::string(e.jump ? "jumping" : "waiting") + " in steps of " + num(e.unit));
  e.outside(3 + c.rng.below(8));
  const auto runs = 1 + c.rng.below(5);
  for (std::uint64_t i = 0; i < runs && c.flagged.empty() && !e.aborted; i++) {
    if (e.jump && style.weight[Clock] == 0 && c.rng.chance(1, 10)) e.run(0, true);
    else e.run(e.unit * c.rng.range(0, 20));
    if (c.flagged.empty() && !e.aborted) e.outside(c.rng.below(5));
    e.steps = 0;
  }
  // nothing fires outside of a run
  if (c.flagged.empty() && !e.aborted) { e.outside(2); }
}
Style weights(std::initializer_list<std::pair<Op, int>> l) {
  Style s;
  for (auto [o, n] : l) s.weight[o] = n;
  return s;
}
XV_SCENARIO_NOLEAK(C34, order, 2500, 40000) {
  history(c, weights({{PostSim, 10}, {PostNow, 4}, {Query, 2}, {HoldNow, 1}, {HoldLater, 1}, {BadPost, 1}, {Throw, 1}}));
}
XV_SCENARIO_NOLEAK(C35, cycles, 2500, 40000) {
  auto s = weights({{PostSim, 6}, {PostMission, 1}, {PostEpoch, 1}, {Cycle, 3}, {Repeat, 3}, {CycleSelf, 3}, {RepeatSelf, 3}, {Query, 1}, {HoldNow, 1}, {BadPost, 1}, {BadId, 1}});
  s.cyclic = true;
  history(c, s);
}
XV_SCENARIO_NOLEAK(C36, changes, 3000, 50000) {
  auto s = weights({{PostSim, 8}, {PostNow, 4}, {PostMission, 2}, {PostEpoch, 2}, {Remove, 6}, {RemoveSelf, 3}, {Move, 6}, {MoveSelf, 3}, {MoveWrong, 1}, {Cycle, 1}, {Repeat, 1}, {CycleSelf, 1}, {RepeatSelf, 1}, {Query, 2}, {BadId, 1}, {HoldNow, 1}});
  s.cyclic = c.rng.chance(1, 2);
  history(c, s);
}
XV_SCENARIO_NOLEAK(C38, otherclocks, 2500, 40000) {
  auto s = weights({{PostSim, 3}, {PostMission, 6}, {PostEpoch, 6}, {Clock, 7}, {Query, 2}, {BadPost, 1}, {Move, 2}, {MoveSelf, 1}, {MoveWrong, 1}, {Remove, 1}, {HoldNow, 1}});
  s.cyclic = true;
  history(c, s);
}
XV_SCENARIO_NOLEAK(C37, holds, 1500, 25000) {
  auto s = weights({{PostSim, 8}, {PostNow, 3}, {PostMission, 1}, {PostEpoch, 1}, {Remove, 2}, {RemoveSelf, 1}, {Move, 2}, {MoveSelf, 1}, {Cycle, 1}, {Repeat, 1}});
  s.cyclic = c.rng.chance(1, 2);
  s.changes = false;
  const auto seed = c.rng.next(), setup = c.rng.next();
  const Wide unit = c.rng.pick({Wide{1}, Wide{7}, Wide{1000000007}});
  const bool jump = unit > 7 || c.rng.chance(1, 2);
  const Wide end = unit * c.rng.range(1, 40);
  auto prepare = [&](Engine &e) {
    e.jump = jump;
    e.unit = unit;
    e.limit = 200;
    xv::Rng r(setup);
    const auto n = 3 + r.below(8);
    for (std::uint64_t k = 0; k < n; k++) e.step(r, false);
  };
  std::vector<std::pair<std::size_t, Wide>> once;
  bool complete = false;
  {
    c.op("without holds");
    Engine e(c, s, seed);
    prepare(e);
    xv::Rng never(1);
    e.steps = 0;
    e.limit = 400;
    e.run(end);
    once = e.fired;
    complete = e.now == end && e.firings <= 400;
  }
  if (!c.flagged.empty()) return;
  for (int variant = 0; variant < 2 && c.flagged.empty(); variant++) {
    c.op("with holds");
    Engine e(c, s, seed);
    xv::Rng holds(c.rng.next());
    if (variant == 0 || c.rng.chance(1, 2)) e.extra = &holds;
    prepare(e);
    e.limit = 400;
    int pieces = 0;
    while (c.flagged.empty() && e.now < end && pieces++ < 500) e.run(std::min(end - e.now, unit * holds.range(0, pieces > 300 ? 40 : 8)));
    e.extra = nullptr;
    // complete the last instant
    if (c.flagged.empty() && e.now == end) e.run(0);
    XV_COUNT("held runs compared");
    XV_COUNT("runs compared");
    if (!complete || e.now != end || e.firings > 400) { XV_COUNT("runs too long to compare"); continue; }
    if (c.flagged.empty() && e.fired != once) {
      std::size_t k = 0;
      while (k < e.fired.size() && k < once.size() && e.fired[k] == once[k]) k++;
      XV_FAIL("sequence", "firing " << k << " of the held run is " << (k < e.fired.size() ? "label " + std::to_string(e.fired[k].first) + " at " + num(e.fired[k].second) : "missing") << " instead of " << (k < once.size() ? "label " + std::to_string(once[k].first) + " at " + num(once[k].second) : "none"));
    }
  }
}

// ---------------------------------------------------------------- C39
/// what happens to one event posted by one thread
struct Posted {
  enum class What { Once, Now, Cyclic, Mission, Epoch, Zulu, ZuluCyclic } what{};
  std::int64_t earliest = 0, latest = 0, at = 0, cycle = 0, repeat = 0; // when it is due
  bool accepted = false, refusedPast = false, moved = false, certain = true;
  bool removed = false, removedInTime = false;
  int extra = 0; // firings more that may have been in progress
  EventId id = -1;
  std::string history;
  std::atomic<int> begun{0}, ended{0};
  std::atomic<std::int64_t> time[8]{}; // of the firings
  std::atomic<bool> early{false}, wrongClock{false}, wrongCurrent{false};
  std::unique_ptr<::Xsmp::EntryPoint> entry;
};
XV_SCENARIO_NOLEAK(C39, threads, 400, 6000) {
  World w;
  const delays::Scope delays(c.rng.pick({0u, 0u, 10u, 40u, 150u}));
  auto *scheduler = w.scheduler();
  auto *clock = w.clock();
  const auto nThreads = 2 + c.rng.below(3);
  const bool holds = c.rng.chance(1, 2), clocks = c.rng.chance(1, 4);
  std::atomic<int> inside{0}, together{0}, done{0}, holdsAsked{0};
  std::atomic<bool> stop{false}, holding{false};
  std::vector<std::deque<Posted>> all(nThreads);
  std::atomic<std::int64_t> lastTime{0};
  std::atomic<bool> backwards{false};
  auto make = [&](std::deque<Posted> &mine, Posted::What what) -> Posted & {
    auto &p = mine.emplace_back();
    p.what = what;
    p.entry = std::make_unique<::Xsmp::EntryPoint>("event", "", &w.sim, [&, q = &p] {
      if (inside.exchange(1, std::memory_order_relaxed) != 0) together.store(1, std::memory_order_relaxed);
      const auto k = q->begun.fetch_add(1, std::memory_order_relaxed);
      const bool zulu = q->what == Posted::What::Zulu || q->what == Posted::What::ZuluCyclic;
      const auto t = zulu ? clock->GetZuluTime() : clock->GetSimulationTime();
      if (!zulu && t < lastTime.exchange(t, std::memory_order_relaxed)) backwards.store(true, std::memory_order_relaxed);
      if (k < 8) q->time[k].store(t, std::memory_order_relaxed);
      if (q->what == Posted::What::Mission && clock->GetMissionTime() != q->at) q->wrongClock.store(true, std::memory_order_relaxed);
      if (q->what == Posted::What::Epoch && clock->GetEpochTime() != q->at) q->wrongClock.store(true, std::memory_order_relaxed);
      inside.store(0, std::memory_order_relaxed);
      q->ended.fetch_add(1, std::memory_order_relaxed);
    });
    return p;
  };
  std::vector<std::thread> threads;
  const auto ops = c.thorough ? 120 : 60;
  for (std::uint64_t n = 0; n < nThreads; n++) threads.emplace_back([&, n, rng = xv::Rng(c.rng.next())]() mutable {
    auto &mine = all[n];
    for (int k = 0; k < ops; k++) {
      const auto in = static_cast<std::int64_t>(rng.chance(1, 4) ? 0 : rng.below(200000));
      const auto which = rng.below(14);
      if (which < 2) {
        auto &p = make(mine, Posted::What::Once);
        p.earliest = clock->GetSimulationTime() + in;
        p.id = scheduler->AddSimulationTimeEvent(p.entry.get(), in);
        p.latest = clock->GetSimulationTime() + in;
        p.accepted = true;
      } else if (which == 2) {
        auto &p = make(mine, Posted::What::Now);
        p.earliest = clock->GetSimulationTime();
        p.id = scheduler->AddImmediateEvent(p.entry.get());
        p.latest = clock->GetSimulationTime();
        p.accepted = true;
      } else if (which == 3) {
        auto &p = make(mine, Posted::What::Cyclic);
        p.cycle = 1 + static_cast<std::int64_t>(rng.below(20000));
        p.repeat = static_cast<std::int64_t>(rng.below(6));
        p.earliest = clock->GetSimulationTime() + in;
        p.id = scheduler->AddSimulationTimeEvent(p.entry.get(), in, p.cycle, p.repeat);
        p.latest = clock->GetSimulationTime() + in;
        p.accepted = true;
      } else if (which < 6) {
        const bool mission = which == 4;
        auto &p = make(mine, mission ? Posted::What::Mission : Posted::What::Epoch);
        p.certain = !clocks;
        p.at = (mission ? clock->GetMissionTime() : clock->GetEpochTime()) + in;
        try {
          p.id = mission ? scheduler->AddMissionTimeEvent(p.entry.get(), p.at) : scheduler->AddEpochTimeEvent(p.entry.get(), p.at);
          p.accepted = true;
        } catch (const InvalidEventTime &) {
          p.refusedPast = (mission ? clock->GetMissionTime() : clock->GetEpochTime()) > p.at;
        }
      } else if (which < 8) {
        const bool cyclic = which == 7;
        auto &p = make(mine, cyclic ? Posted::What::ZuluCyclic : Posted::What::Zulu);
        p.cycle = cyclic ? 1 + static_cast<std::int64_t>(rng.below(300000)) : 0;
        p.repeat = cyclic ? static_cast<std::int64_t>(rng.below(6)) : 0;
        p.at = clock->GetZuluTime() + (rng.chance(1, 8) ? 0 : static_cast<std::int64_t>(rng.below(2000000)));
        p.earliest = p.latest = p.at;
        try {
          p.id = scheduler->AddZuluTimeEvent(p.entry.get(), p.at, p.cycle, p.repeat);
          p.accepted = true;
        } catch (const InvalidEventTime &) {
          p.refusedPast = clock->GetZuluTime() > p.at;
        }
      } else if (which < 12 && !mine.empty()) {
        auto &p = mine[mine.size() - 1 - rng.below(std::min<std::size_t>(mine.size(), 4))];
        if (!p.accepted || p.removed || p.what == Posted::What::Cyclic || p.what == Posted::What::ZuluCyclic) continue;
        const bool simple = p.what == Posted::What::Once || p.what == Posted::What::Now, zulu = p.what == Posted::What::Zulu;
        if (which < 10) {
          // an event that has been executed before it is removed was not removed
          const int before = p.ended.load(std::memory_order_relaxed);
          try {
            scheduler->RemoveEvent(p.id);
            p.removed = true;
            const auto now = zulu ? clock->GetZuluTime() : clock->GetSimulationTime();
            p.removedInTime = (simple || zulu) && (p.what != Posted::What::Now || p.moved) && now < p.earliest;
            (void)before;
          } catch (const InvalidEventId &) {
            if (p.certain && p.begun.load() < 1) c.flag("refused", "an event that has not been executed yet is unknown to RemoveEvent (kind " + std::to_string(static_cast<int>(p.what)) + ")");
          }
        } else if (simple || zulu) {
          const auto wasEarliest = p.earliest;
          const auto base = zulu ? clock->GetZuluTime() : clock->GetSimulationTime();
          const auto later = zulu ? 100000 + static_cast<std::int64_t>(rng.below(2000000)) : in;
          try {
            // the firings to come may be of before or after the move
            if (zulu) { p.at = base + later; scheduler->SetEventZuluTime(p.id, p.at); } else scheduler->SetEventSimulationTime(p.id, in);
            const auto after = zulu ? clock->GetZuluTime() : clock->GetSimulationTime();
            const bool inTime = after < wasEarliest && (p.what != Posted::What::Now || p.moved);
            if (zulu && after >= p.at) { p.certain = false; } // too late: it is gone
            if (inTime) { p.earliest = base + later; p.latest = zulu ? p.at : after + later; }
            else { p.extra++; p.earliest = std::min(p.earliest, base + later); p.latest = std::max(p.latest, (zulu ? p.at : after + later)); }
            p.moved = true;
          } catch (const InvalidEventId &) {
            if (p.certain && p.begun.load() < 1) c.flag("refused", "an event that has not been executed yet is unknown to SetEventTime (kind " + std::to_string(static_cast<int>(p.what)) + ")");
          }
        }
      } else if (which == 12) {
        const auto before = clock->GetSimulationTime();
        if (scheduler->GetNextScheduledEventTime() < before && !clocks) c.flag("next", "the next event is said to be due in the past");
        (void)scheduler->GetCurrentEventId();
      } else if (clocks) {
        switch (rng.below(3)) {
        case 0: clock->SetMissionStartTime(static_cast<std::int64_t>(rng.below(100000))); break;
        case 1: clock->SetMissionTime(static_cast<std::int64_t>(rng.below(100000))); break;
        default: clock->SetEpochTime(static_cast<std::int64_t>(rng.below(100000))); break;
        }
      } else std::this_thread::sleep_for(std::chrono::microseconds(rng.below(300)));
      if (rng.chance(1, 8)) std::this_thread::yield();
    }
    done++;
  });
  std::thread holder;
  if (holds) holder = std::thread([&, rng = xv::Rng(c.rng.next())]() mutable {
    while (!stop) {
      std::this_thread::sleep_for(std::chrono::microseconds(20 + rng.below(400)));
      holding = true;
      if (w.sim.GetState() == S::SSK_Executing) { w.sim.Hold(rng.chance(1, 2)); holdsAsked.fetch_add(1, std::memory_order_relaxed); }
      holding = false;
    }
  });
  int runs = 0;
  auto run = [&](std::int64_t d) {
    while (holding) std::this_thread::yield();
    if (w.sim.GetState() == S::SSK_Standby) { w.sim.Run(d); runs++; }
  };
  while (done < static_cast<int>(nThreads)) run(static_cast<std::int64_t>(c.rng.below(300000)));
  for (auto &t : threads) t.join();
  stop = true;
  if (holder.joinable()) holder.join();
  // what is left
  auto left = [&] {
    for (auto &mine : all) for (auto &p : mine) if (p.accepted && p.certain && !p.removed && p.ended.load() < 1 + p.repeat) return true;
    return false;
  };
  run(3000000);
  const auto deadline = std::chrono::steady_clock::now() + std::chrono::seconds(20);
  while (left() && std::chrono::steady_clock::now() < deadline) { run(100000); std::this_thread::sleep_for(std::chrono::milliseconds(1)); }
  // and nothing more
  run(3000000);
  static const char *const names[] = {"event", "immediate event", "cyclic event", "mission time event", "epoch time event", "zulu event", "cyclic zulu event"};
  if (together) c.flag("together", "two events were executed at the same time");
  if (backwards) c.flag("backwards", "the simulation time seen by the events went back");
  std::uint64_t fired = 0, zulus = 0, removed = 0;
  for (auto &mine : all) for (auto &p : mine) {
    const std::string name = names[static_cast<int>(p.what)];
    const int f = p.ended.load();
    fired += static_cast<std::uint64_t>(f);
    if (p.what >= Posted::What::Zulu) zulus += static_cast<std::uint64_t>(f);
    removed += p.removed;
    if (!p.accepted) {
      if (!p.refusedPast && p.certain) c.flag("refused", "the post of a " + name + " is refused though its time is not past");
      if (f != 0) c.flag("refused", "a refused " + name + " has been executed");
      continue;
    }
    const int most = static_cast<int>(1 + p.repeat) + p.extra;
    if (f > most) c.flag("fired-again", "a " + name + " has been executed " + std::to_string(f) + " times instead of " + std::to_string(most));
    if (!p.removed && p.certain && f < 1 + p.repeat) c.flag("lost", "a " + name + " has been executed " + std::to_string(f) + " times instead of " + std::to_string(1 + p.repeat));
    if (p.removedInTime && f > p.extra) c.flag("removed", "a " + name + " removed before its time has been executed");
    if (p.wrongClock && p.certain) c.flag("clock", "a " + name + " is executed when its clock does not show its time");
    const bool zulu = p.what >= Posted::What::Zulu, other = p.what == Posted::What::Mission || p.what == Posted::What::Epoch;
    for (int k = 0; k < std::min(f, 8) && !other; k++) {
      const auto t = p.time[k].load();
      const auto lo = p.what == Posted::What::Cyclic || p.what == Posted::What::ZuluCyclic ? p.earliest + k * p.cycle : p.earliest;
      const auto hi = p.what == Posted::What::Cyclic ? p.latest + k * p.cycle : p.latest;
      if (t < lo) c.flag("early", "firing " + std::to_string(k) + " of a " + name + " at " + num(t) + " though it is due at " + num(lo) + " at the earliest");
      if (!zulu && t > hi) c.flag("late", "firing " + std::to_string(k) + " of a " + name + " at " + num(t) + " though it is due at " + num(hi) + " at the latest");
      if (k > 0 && p.what == Posted::What::Cyclic && t - p.time[k - 1].load() != p.cycle) c.flag("cycle", "two firings of a " + name + " are " + num(t - p.time[k - 1].load()) + " apart instead of " + num(p.cycle));
    }
  }
  xv::count("firings in threads' runs", fired);
  xv::count("zulu firings", zulus);
  xv::count("removals by threads", removed);
  xv::count("holds by threads", static_cast<std::uint64_t>(holdsAsked.load()));
  xv::count("runs beside threads", static_cast<std::uint64_t>(runs));
  c.op(std::to_string(nThreads) + " threads, " + std::to_string(runs) + " runs, " + std::to_string(fired) + " firings, seed " + std::to_string(c.rng.next()));
  c.nontrivial = fired > 0;
  w.sim.Exit();
}
/// real-time events that move, change and remove themselves and each other:
/// their handlers are executed one after the other, so that each of them knows
/// what is to come
XV_SCENARIO_NOLEAK(C39, zulu, 80, 2000) {
  World w;
  const delays::Scope delays(c.rng.pick({0u, 0u, 10u, 40u, 150u}));
  auto *scheduler = w.scheduler();
  auto *clock = w.clock();
  struct Z {
    std::atomic<EventId> id{-1};
    std::int64_t due = 0, cycle = 0, repeat = 0; // next firing, firings after it
    bool alive = true, certain = true, moved = false;
    int fired = 0, total = 0;
    std::unique_ptr<::Xsmp::EntryPoint> entry;
  };
  std::deque<Z> all;
  std::mutex mutex; // of the model
  std::atomic<int> alive{0}, simulated{0}, posted{0};
  std::vector<std::string> wrong;
  int moves = 0, changes = 0, removals = 0, firings = 0;
  ::Xsmp::EntryPoint plain{"plain", "", &w.sim, [&] { simulated++; }};
  xv::Rng inner(c.rng.next());
  auto end = [&](Z &z) { if (z.alive) { z.alive = false; alive--; } };
  auto handler = [&](Z &z) {
    while (z.id == -1) std::this_thread::yield();
    const std::scoped_lock l(mutex);
    const auto now = clock->GetZuluTime();
    firings++;
    z.fired++;
    if (z.certain && !z.alive) { wrong.push_back("an event that is over has been executed again (" + std::to_string(z.fired) + " of " + std::to_string(z.total) + ")"); return; }
    if (z.certain && now < z.due) wrong.push_back("an event is executed " + num(z.due - now) + " ns before it is due");
    if (scheduler->GetCurrentEventId() != z.id) wrong.push_back("GetCurrentEventId() in a real-time event is " + num(scheduler->GetCurrentEventId()) + " instead of " + num(z.id));
    z.moved = false;
    // what the handler does, to itself or to another one
    for (auto n = inner.below(3); n > 0; n--) {
      auto &o = inner.chance(1, 2) ? z : all[inner.below(all.size())];
      if (o.id == -1) continue;
      const auto what = inner.below(7);
      try {
        if (what == 0) { // all of them are over some time
          scheduler->RemoveEvent(o.id);
          if (o.certain && !o.alive) wrong.push_back("an event that is over can be removed");
          removals++;
          end(o);
          if (&o == &z) break;
        } else if (what <= 2) {
          const auto at = clock->GetZuluTime() + 1000000 + static_cast<std::int64_t>(inner.below(2000000));
          scheduler->SetEventZuluTime(o.id, at);
          if (o.certain && !o.alive) wrong.push_back("an event that is over can be moved");
          if (clock->GetZuluTime() >= at) o.certain = false;
          moves++;
          o.due = at;
          o.moved = true;
        } else if (what == 3) {
          const auto r = static_cast<std::int64_t>(inner.below(4));
          if (o.cycle == 0) continue;
          scheduler->SetEventRepeat(o.id, r);
          if (o.certain && !o.alive) wrong.push_back("an event that is over can be changed");
          changes++;
          o.repeat = r;
        } else if (what == 4) {
          const auto cycle = 1 + static_cast<std::int64_t>(inner.below(400000));
          scheduler->SetEventCycleTime(o.id, cycle);
          if (o.certain && !o.alive) wrong.push_back("an event that is over can be changed");
          changes++;
          o.cycle = cycle;
        } else if (what == 5) {
          scheduler->AddImmediateEvent(&plain);
          posted++;
        } else {
          scheduler->AddSimulationTimeEvent(&plain, static_cast<std::int64_t>(inner.below(1000)));
          posted++;
        }
      } catch (const InvalidEventId &) {
        if (o.certain && o.alive) wrong.push_back("an event that is to be executed again is unknown");
      }
    }
    if (!z.alive) return;
    if (z.repeat == 0) { if (!z.moved) end(z); }
    else { z.repeat--; if (!z.moved) z.due += z.cycle; }
  };
  const auto n = 2 + c.rng.below(6);
  {
    for (std::uint64_t k = 0; k < n; k++) {
      auto &z = all.emplace_back();
      z.entry = std::make_unique<::Xsmp::EntryPoint>("event", "", &w.sim, [&handler, q = &z] { handler(*q); });
    }
    alive = static_cast<int>(n);
  }
  std::string text;
  for (auto &z : all) {
    EventId id = -1;
    {
      const std::scoped_lock l(mutex);
      z.cycle = c.rng.chance(1, 3) ? 0 : 1 + static_cast<std::int64_t>(c.rng.below(400000));
      z.repeat = z.cycle == 0 ? 0 : static_cast<std::int64_t>(c.rng.below(6));
      z.total = static_cast<int>(1 + z.repeat);
    }
    for (bool ok = false; !ok;) try {
      std::int64_t at;
      {
        const std::scoped_lock l(mutex);
        at = z.due = clock->GetZuluTime() + 200000 + static_cast<std::int64_t>(c.rng.below(3000000));
      }
      id = scheduler->AddZuluTimeEvent(z.entry.get(), at, z.cycle, z.total - 1);
      ok = true;
    } catch (const InvalidEventTime &) { XV_COUNT("real-time posts that came too late"); }
    const std::scoped_lock l(mutex); // the others may already change this one
    z.id = id;
    text += " " + num(z.total) + "x" + num(z.cycle);
  }
  c.op("real-time events that change each other:" + text);
  const auto deadline = std::chrono::steady_clock::now() + std::chrono::seconds(15);
  const bool runs = c.rng.chance(2, 3);
  auto over = [&] {
    const std::scoped_lock l(mutex);
    for (auto &z : all) if (z.alive && z.certain) return false;
    return true;
  };
  while (!over() && std::chrono::steady_clock::now() < deadline) {
    if (runs) w.sim.Run(static_cast<std::int64_t>(c.rng.below(100000)));
    std::this_thread::sleep_for(std::chrono::microseconds(c.rng.below(500)));
  }
  std::this_thread::sleep_for(std::chrono::microseconds(1500));
  // what the handlers have posted is executed in a run
  w.sim.Run(2000);
  {
    const std::scoped_lock l(mutex);
    for (auto &m : wrong) c.flag("zulu", m);
    for (auto &z : all) if (z.alive && z.certain) c.flag("lost", "a real-time event that has been executed " + std::to_string(z.fired) + " times is not executed any more though " + num(z.repeat + 1) + " firings are left");
    xv::count("zulu events that move themselves or others", static_cast<std::uint64_t>(moves));
    xv::count("zulu events that change or remove themselves or others", static_cast<std::uint64_t>(changes + removals));
    c.nontrivial = firings > 0;
  }
  if (simulated != posted) c.flag("posted", std::to_string(simulated) + " of " + std::to_string(posted) + " events posted by real-time events have been executed");
  w.sim.Exit();
}
/// the thread of the real-time events waits for one that is far away while
/// others are posted, moved and removed
XV_SCENARIO_NOLEAK(C39, far, 100, 2000) {
  World w;
  const delays::Scope delays(c.rng.pick({0u, 0u, 10u, 40u, 150u}));
  auto *scheduler = w.scheduler();
  auto *clock = w.clock();
  struct Z {
    EventId id = -1;
    bool alive = true, near = false, gone = false; // to be executed soon, no more to be executed
    std::atomic<int> fired{0};
    std::unique_ptr<::Xsmp::EntryPoint> entry;
  };
  std::deque<Z> all;
  const std::int64_t hour = 3600000000000;
  const auto pause = [&] { std::this_thread::sleep_for(std::chrono::microseconds(c.rng.below(400))); };
  const auto soon = [&] { return clock->GetZuluTime() + 300000 + static_cast<std::int64_t>(c.rng.below(1500000)); };
  const auto away = [&] { return clock->GetZuluTime() + hour * (1 + static_cast<std::int64_t>(c.rng.below(1000))); };
  const auto deadline = std::chrono::steady_clock::now() + std::chrono::seconds(15);
  const auto n = 3 + c.rng.below(12);
  for (std::uint64_t k = 0; k < n; k++) {
    const auto which = all.empty() ? 0 : c.rng.below(6);
    if (which < 3) {
      auto &z = all.emplace_back();
      z.entry = std::make_unique<::Xsmp::EntryPoint>("event", "", &w.sim, [&z] { z.fired++; });
      z.near = which != 0 && c.rng.chance(1, 2);
      c.op(std::string("post #") + std::to_string(all.size() - 1) + (z.near ? ", near" : ", far"));
      try {
        z.id = scheduler->AddZuluTimeEvent(z.entry.get(), z.near ? soon() : away(), c.rng.chance(1, 4) ? hour : 0, 0);
      } catch (const InvalidEventTime &) { z.gone = true; continue; } // too late
      if (z.near) XV_COUNT("real-time events posted before far ones");
    } else {
      const auto i = c.rng.below(all.size());
      auto &z = all[i];
      if (z.near || z.gone) continue;
      if (which == 3) {
        c.op("remove #" + std::to_string(i));
        scheduler->RemoveEvent(z.id);
        z.gone = true;
      } else if (which == 4) {
        c.op("move #" + std::to_string(i) + " near");
        const auto at = soon();
        scheduler->SetEventZuluTime(z.id, at);
        z.near = true;
        XV_COUNT("far real-time events moved near");
        if (clock->GetZuluTime() >= at) { z.near = false; z.gone = true; } // may be too late
        if (z.gone) z.alive = false;
      } else {
        c.op("move #" + std::to_string(i) + " far");
        scheduler->SetEventZuluTime(z.id, away());
      }
    }
    if (c.rng.chance(1, 2)) pause();
  }
  const auto left = [&] { for (auto &z : all) if (z.near && z.fired == 0) return true; return false; };
  const bool runs = c.rng.chance(1, 2);
  while (left() && std::chrono::steady_clock::now() < deadline) {
    if (runs) w.sim.Run(static_cast<std::int64_t>(c.rng.below(100000)));
    else pause();
  }
  pause();
  for (std::size_t i = 0; i < all.size(); i++) {
    auto &z = all[i];
    if (z.near && z.fired != 1) c.flag("late", "real-time event #" + std::to_string(i) + " has been executed " + std::to_string(z.fired) + " times long after its time");
    if (!z.near && z.alive && z.fired != 0) c.flag("early", "real-time event #" + std::to_string(i) + " is executed an hour before its time");
    if (z.fired) c.nontrivial = true;
  }
  w.sim.Exit();
}
} // namespace
