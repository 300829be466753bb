// The pace of a run: the clocks and the timed waits of the thread that runs the
// simulation are replaced by a virtual time, which only advances when the
// scheduler waits, reads a clock or executes something. Each firing is compared
// with the time at which it is due, and other threads are played at random
// moments within the waits.
#include "sim.h"
#include <Xsmp/Services/XsmpScheduler.h>
#include <cerrno>
#include <cmath>
#include <condition_variable>
#include <deque>
#include <dlfcn.h>
#include <limits>
#include <mutex>
#include <pthread.h>
#include <sys/syscall.h>
#include <thread>
#include <time.h>
#include <unistd.h>

namespace vt {
constexpr std::int64_t tick = 20; // each reading of a clock takes this long
thread_local bool on = false;
std::int64_t now = 0, origin = 0; // since 1970
std::uint64_t calls = 0, waits = 0;
std::function<void()> reading;            // before each reading of a clock
bool busy = false;
std::function<bool(std::int64_t)> during; // at each wait until a time: whether it is woken up for no reason
pthread_cond_t *waiting = nullptr;
bool notified = false;
std::int64_t zulu(clockid_t clock, const timespec *t) {
  const auto v = static_cast<std::int64_t>(t->tv_sec) * 1000000000 + t->tv_nsec;
  return clock == CLOCK_REALTIME ? v : v + origin;
}
/// another thread may act, then the time passes
bool pass(std::int64_t until) {
  waits++;
  const bool woken = during && during(until);
  if (woken || notified) return true;
  now = std::max(now, until);
  return false;
}
int wait(pthread_cond_t *cond, pthread_mutex_t *mutex, std::int64_t until) {
  notified = false;
  waiting = cond;
  pthread_mutex_unlock(mutex);
  const bool woken = pass(until);
  pthread_mutex_lock(mutex);
  waiting = nullptr;
  return woken ? 0 : ETIMEDOUT;
}
template <typename F> F next(const char *name) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, name)); }
} // namespace vt
extern "C" {
int clock_gettime(clockid_t clock, timespec *t) noexcept {
  if (!vt::on || (clock != CLOCK_REALTIME && clock != CLOCK_MONOTONIC)) return static_cast<int>(syscall(SYS_clock_gettime, clock, t));
  if (vt::reading && !vt::busy) {
    vt::busy = true;
    vt::reading();
    vt::busy = false;
  }
  vt::calls++;
  vt::now += vt::tick;
  const auto v = clock == CLOCK_REALTIME ? vt::now : vt::now - vt::origin;
  t->tv_sec = v / 1000000000;
  t->tv_nsec = v % 1000000000;
  return 0;
}
int pthread_cond_clockwait(pthread_cond_t *cond, pthread_mutex_t *mutex, clockid_t clock, const timespec *t) {
  static const auto real = vt::next<int (*)(pthread_cond_t *, pthread_mutex_t *, clockid_t, const timespec *)>("pthread_cond_clockwait");
  return vt::on ? vt::wait(cond, mutex, vt::zulu(clock, t)) : real(cond, mutex, clock, t);
}
int pthread_cond_timedwait(pthread_cond_t *cond, pthread_mutex_t *mutex, const timespec *t) {
  static const auto real = vt::next<int (*)(pthread_cond_t *, pthread_mutex_t *, const timespec *)>("pthread_cond_timedwait");
  return vt::on ? vt::wait(cond, mutex, vt::zulu(CLOCK_REALTIME, t)) : real(cond, mutex, t);
}
int pthread_cond_signal(pthread_cond_t *cond) noexcept {
  static const auto real = vt::next<int (*)(pthread_cond_t *)>("pthread_cond_signal");
  if (vt::on && vt::waiting == cond) { vt::notified = true; return 0; }
  return real(cond);
}
int pthread_cond_broadcast(pthread_cond_t *cond) noexcept {
  static const auto real = vt::next<int (*)(pthread_cond_t *)>("pthread_cond_broadcast");
  if (vt::on && vt::waiting == cond) { vt::notified = true; return 0; }
  return real(cond);
}
int clock_nanosleep(clockid_t clock, int flags, const timespec *t, timespec *left) {
  if (!vt::on) return static_cast<int>(-syscall(SYS_clock_nanosleep, clock, flags, t, left));
  vt::notified = false;
  vt::pass(flags & TIMER_ABSTIME ? vt::zulu(clock, t) : vt::now + vt::zulu(CLOCK_REALTIME, t));
  return 0;
}
int nanosleep(const timespec *t, timespec *left) {
  if (!vt::on) return static_cast<int>(syscall(SYS_nanosleep, t, left));
  return clock_nanosleep(CLOCK_MONOTONIC, 0, t, left);
}
}

namespace {
using namespace smpx;
using E = ::Smp::Services::IEventManager;
using ::Smp::Services::EventId;

struct Virtual {
  explicit Virtual(std::int64_t start) {
    vt::now = start;
    vt::origin = start - 5000000000;
    vt::calls = vt::waits = 0;
    vt::on = true;
  }
  ~Virtual() { vt::on = false; vt::during = nullptr; vt::reading = nullptr; vt::busy = false; }
};

struct Pace {
  struct Event {
    std::int64_t due, cycle, repeat;
    EventId id;
    bool alive = true, immediate = false, current = false;
    std::unique_ptr<::Xsmp::EntryPoint> entry;
  };
  xv::Case &c;
  World w;
  ::Xsmp::Services::XsmpScheduler *scheduler = dynamic_cast<::Xsmp::Services::XsmpScheduler *>(w.scheduler());
  std::vector<std::unique_ptr<Event>> events;
  double speed = 100.;
  std::int64_t simNow = 0, end = 0, idle = 0, held = 0, begun = 0;
  std::uint64_t idleCalls = 0, advances = 0, firings = 0;
  long double due = 0; // the real time of the simulation time, as the pace goes
  bool running = false, holding = false, costs = false, jumps = false, follow = true;
  double unit; // of the real time between events
  ::Xsmp::EntryPoint pre{"pre", "", static_cast<::Smp::IObject *>(nullptr), [this] { timeChanges(); }};
  ::Xsmp::EntryPoint post{"post", "", static_cast<::Smp::IObject *>(nullptr), [this] { timeChanged(); }};

  Pace(xv::Case &cs) : c(cs) {
    w.events()->Subscribe(E::SMP_PreSimTimeChangeId, &pre);
    w.events()->Subscribe(E::SMP_PostSimTimeChangeId, &post);
  }
  std::string at() const { return " at simulation time " + std::to_string(w.sim.GetTimeKeeper()->GetSimulationTime()) + ", " + std::to_string(vt::now - begun) + " ns after the start"; }
  std::int64_t later(int parts) { return static_cast<std::int64_t>(c.rng.unit() * unit * speed * parts); }
  void rest() { idle = vt::now; idleCalls = vt::calls; }
  /// something takes time
  void spend() {
    if (costs && c.rng.chance(1, 3)) {
      const auto t = static_cast<std::int64_t>(c.rng.unit() * unit * (c.rng.chance(1, 5) ? 3 : 0.5));
      vt::now += t;
      c.op("takes " + std::to_string(t) + " ns");
      XV_COUNT("slow executions");
    }
    rest();
  }
  long double tolerance() const { return static_cast<long double>(advances) + 5 + 1e-14L * static_cast<long double>(std::llabs(vt::now - begun)) + 1e-14L * static_cast<long double>(std::fabs(static_cast<double>(due) - static_cast<double>(begun))); }
  /// the simulation time is t at this moment
  void check(std::int64_t t, const char *what) {
    if (t < simNow) { c.flag("backwards", std::string(what) + " after simulation time " + std::to_string(simNow) + at()); return; }
    if (t > simNow) {
      due += static_cast<long double>(t - simNow) / static_cast<long double>(speed);
      simNow = t;
      advances++;
    }
    if (!follow) return;
    const auto v = static_cast<long double>(vt::now);
    if (v < due - tolerance()) c.flag("early", std::string(what) + " " + std::to_string(static_cast<double>(due - v)) + " ns before its time" + at());
    const auto limit = std::max(due, static_cast<long double>(idle)) + static_cast<long double>((vt::calls - idleCalls) * vt::tick) + 1000 + tolerance();
    if (v > limit) c.flag("late", std::string(what) + " " + std::to_string(static_cast<double>(v - std::max(due, static_cast<long double>(idle)))) + " ns after its time" + at());
    if (due - static_cast<long double>(idle) > 3.6e12L) XV_COUNT("waits of more than an hour");
    if (due > static_cast<long double>(idle)) XV_COUNT("times waited for"); else XV_COUNT("times already past");
  }
  void timeChanges() {
    if (!running || !c.flagged.empty()) return;
    const auto t = w.clock()->GetSimulationTime();
    if (holding) return;
    if (jumps && t < end && c.rng.chance(1, 4)) {
      const auto next = scheduler->GetNextScheduledEventTime();
      if (next > t && next <= end) {
        const auto to = c.rng.chance(1, 3) ? next : t + static_cast<std::int64_t>(c.rng.unit() * static_cast<double>(next - t));
        c.op("jump to " + std::to_string(to));
        w.clock()->SetSimulationTime(to);
        simNow = w.clock()->GetSimulationTime();
        XV_COUNT("jumps");
      }
    }
    spend();
  }
  void timeChanged() {
    if (!running || !c.flagged.empty()) return;
    check(w.clock()->GetSimulationTime(), "the time is changed");
    spend();
  }
  void fire(Event &e, std::size_t k) {
    if (!running || !c.flagged.empty()) return;
    const auto t = w.clock()->GetSimulationTime();
    c.op("#" + std::to_string(k) + " fires" + at());
    firings++;
    if (holding) { c.flag("held", "event #" + std::to_string(k) + " fires after the hold" + at()); return; }
    if (!e.alive || (!e.immediate && t != e.due)) { c.flag("time", "event #" + std::to_string(k) + " fires at " + std::to_string(t) + " instead of " + (e.alive ? std::to_string(e.due) : std::string("never"))); return; }
    check(t, "an event fires");
    if (e.immediate || e.repeat == 0) e.alive = false;
    else { e.repeat--; e.due += e.cycle; }
    e.current = true;
    if (c.rng.chance(1, 3)) act(false);
    e.current = false;
    spend();
  }
  Event &make() {
    const auto k = events.size();
    events.push_back(std::make_unique<Event>());
    auto *e = events.back().get();
    e->entry = std::make_unique<::Xsmp::EntryPoint>(("e" + std::to_string(k)).c_str(), "", static_cast<::Smp::IObject *>(nullptr), [this, e, k] { fire(*e, k); });
    return *e;
  }
  void post_(bool cyclic) {
    if (events.size() > 60) return;
    auto &e = make();
    const auto in = c.rng.chance(1, 8) ? 0 : later(4);
    e.due = w.clock()->GetSimulationTime() + in;
    e.cycle = cyclic ? later(3) + 1 : 0;
    e.repeat = cyclic ? c.rng.range(1, 5) : 0;
    c.op("post #" + std::to_string(events.size() - 1) + " for " + std::to_string(e.due) + (cyclic ? " every " + std::to_string(e.cycle) : std::string()));
    e.id = scheduler->AddSimulationTimeEvent(e.entry.get(), in, e.cycle, e.repeat);
    XV_COUNT("events posted");
  }
  void postNow() {
    if (events.size() > 60) return;
    auto &e = make();
    e.immediate = true;
    e.due = w.clock()->GetSimulationTime();
    e.cycle = e.repeat = 0;
    c.op("post #" + std::to_string(events.size() - 1) + " immediately");
    e.id = scheduler->AddImmediateEvent(e.entry.get());
  }
  void act(bool waiting) {
    switch (c.rng.below(waiting ? 7 : 8)) {
    case 0: case 1: post_(c.rng.chance(1, 3)); break;
    case 2: postNow(); break;
    case 3: case 4: { // move
      const auto k = some();
      if (k == events.size()) break;
      const auto in = later(3);
      auto &e = *events[k];
      e.due = w.clock()->GetSimulationTime() + in;
      c.op("move #" + std::to_string(k) + " to " + std::to_string(e.due));
      scheduler->SetEventSimulationTime(e.id, in);
      XV_COUNT("events moved");
      break;
    }
    case 5: {
      const auto k = some();
      if (k == events.size()) break;
      c.op("remove #" + std::to_string(k));
      events[k]->alive = false;
      scheduler->RemoveEvent(events[k]->id);
      XV_COUNT("events removed");
      break;
    }
    case 6:
      if (!running || !c.rng.chance(1, 4)) break;
      c.op("hold" + at());
      w.sim.Hold(true);
      holding = true;
      held = vt::now;
      XV_COUNT("holds");
      break;
    default: setSpeed(); break; // not while waiting
    }
  }
  /// a pending event that is not being executed
  std::size_t some() {
    std::vector<std::size_t> v;
    for (std::size_t k = 0; k < events.size(); k++) if (events[k]->alive && !events[k]->immediate && !events[k]->current) v.push_back(k);
    return v.empty() ? events.size() : c.rng.pick(v);
  }
  void setSpeed() {
    constexpr double inf = std::numeric_limits<double>::infinity();
    const double v = c.rng.chance(1, 4) ? c.rng.pick({0., -1., .009999, 100.0001, 1e300, -1e300, inf, -inf, std::nan(""), -0., 1e-300}) : c.rng.chance(1, 3) ? c.rng.pick({.01, 100., 1., 2., .5, 10.}) : std::exp(c.rng.unit() * 9.2 - 4.6);
    c.op("target speed " + std::to_string(v));
    scheduler->SetTargetSpeed(v);
    const double got = scheduler->GetTargetSpeed();
    if (std::isnan(v)) {
      if (!(got >= .01 && got <= 100.)) { c.flag("speed", "the target speed is " + std::to_string(got)); return; }
    } else if (got != std::min(std::max(v, .01), 100.)) { c.flag("speed", "the target speed is " + std::to_string(got) + " after it is set to " + std::to_string(v)); return; }
    speed = got;
    XV_COUNT("speeds set");
    if (!(v >= .01 && v <= 100.)) XV_COUNT("speeds out of range");
  }
  bool waits(std::int64_t until) {
    if (!running || holding || !c.flagged.empty() || until <= vt::now) return false;
    XV_COUNT("waits");
    if (w.clock()->GetSimulationTime() != simNow) { c.flag("waiting", "the simulation time is no longer " + std::to_string(simNow) + " while waiting" + at()); return false; }
    if (!c.rng.chance(1, 3) || events.size() > 60) return false;
    vt::now += static_cast<std::int64_t>(c.rng.unit() * static_cast<double>(until - vt::now));
    if (c.rng.chance(1, 4)) { XV_COUNT("spurious wake-ups"); c.op("wake up" + at()); rest(); return true; }
    c.op("meanwhile" + at());
    XV_COUNT("changes while waiting");
    act(true);
    rest();
    return false;
  }
  void run(std::int64_t duration) {
    end = w.clock()->GetSimulationTime() + duration;
    simNow = end - duration;
    c.op("run for " + std::to_string(duration) + at());
    holding = false;
    running = true;
    rest();
    begun = vt::now;
    due = begun;
    advances = 0;
    w.sim.Run(duration);
    running = false;
    const auto now = w.clock()->GetSimulationTime();
    XV_COUNT("runs");
    if (!c.flagged.empty()) return;
    if (w.sim.GetState() != ::Smp::SimulatorStateKind::SSK_Standby) { c.flag("standby", std::string("the simulator is in state ") + stateName(w.sim.GetState()) + " after the run"); return; }
    if (holding) {
      if (now != simNow) c.flag("hold", "the simulation time is " + std::to_string(now) + " after a hold at " + std::to_string(simNow));
      const auto limit = std::max(held, idle) + static_cast<std::int64_t>((vt::calls - idleCalls) * vt::tick) + 1000;
      if (vt::now > limit) c.flag("hold", "the run ends " + std::to_string(vt::now - held) + " ns after the hold" + at());
      return;
    }
    if (now != end) { c.flag("end", "the run ends at simulation time " + std::to_string(now) + " instead of " + std::to_string(end)); return; }
    check(now, "the run ends");
    for (std::size_t k = 0; k < events.size(); k++)
      if (events[k]->alive && (events[k]->immediate || events[k]->due <= now)) { c.flag("missing", "event #" + std::to_string(k) + " due at " + std::to_string(events[k]->due) + " has not fired" + at()); return; }
    XV_COUNT("runs to their end");
  }
};
} // namespace

XV_SCENARIO_NOLEAK(C54, pace, 6000, 120000) {
  Pace p(c);
  XV_CHECK(p.scheduler, "scheduler", "the scheduler is no XsmpScheduler");
  XV_EQ(p.scheduler->GetTargetSpeed(), 100., "speed", "default target speed");
  p.unit = c.rng.pick({1e5, 1e6, 1e8, 1e9, 6e10, 3.6e12, 3e13});
  p.costs = c.rng.chance(1, 2);
  p.jumps = c.rng.chance(1, 4);
  Virtual v(static_cast<std::int64_t>(c.rng.unit() * 4e18) + 1000000000);
  vt::during = [&](std::int64_t until) { return p.waits(until); };
  c.op("real time unit " + std::to_string(p.unit));
  if (c.rng.chance(3, 4)) p.setSpeed();
  const auto runs = c.rng.range(1, 5);
  for (int k = 0; k < runs && c.flagged.empty(); k++) {
    for (auto n = c.rng.below(6); n > 0; n--) p.post_(c.rng.chance(1, 3));
    for (auto n = c.rng.chance(1, 3) ? 1 + c.rng.below(2) : 0; n > 0; n--) p.postNow();
    if (c.rng.chance(1, 4)) vt::now += static_cast<std::int64_t>(c.rng.unit() * p.unit * 10);
    p.run(c.rng.chance(1, 12) ? 0 : p.later(10));
    if (c.rng.chance(1, 3)) p.setSpeed();
  }
  xv::count("events fired", p.firings);
  c.nontrivial = p.firings > 0;
}

/// a thread that does something at a given moment of the virtual time. When it
/// has to wait for a lock, the virtual time goes on
struct Beside {
  std::mutex m;
  std::condition_variable cv;
  std::function<void()> job;
  bool quit = false;
  std::thread t{[this] {
    std::unique_lock<std::mutex> l(m);
    for (;;) {
      cv.wait(l, [this] { return quit || job; });
      if (!job) return;
      l.unlock();
      job();
      l.lock();
      job = nullptr;
      cv.notify_all();
    }
  }};
  bool post(std::function<void()> f) {
    const bool on = vt::on;
    vt::on = false;
    bool done = false;
    {
      std::unique_lock<std::mutex> l(m);
      if (!job) {
        job = std::move(f);
        cv.notify_all();
        done = cv.wait_for(l, std::chrono::microseconds(500), [this] { return !job; });
      }
    }
    vt::on = on;
    return done;
  }
  void finish() {
    const bool on = vt::on;
    vt::on = false;
    { std::unique_lock<std::mutex> l(m); cv.wait(l, [this] { return !job; }); }
    vt::on = on;
  }
  ~Beside() {
    vt::on = false;
    { std::lock_guard<std::mutex> l(m); quit = true; }
    cv.notify_all();
    t.join();
  }
};
/// another thread sets the other clocks at any moment of a run
XV_SCENARIO_NOLEAK(C54, clocks, 2000, 40000) {
  Pace p(c);
  p.unit = c.rng.pick({1e5, 1e8, 6e10});
  p.costs = c.rng.chance(1, 3);
  p.follow = false;
  auto *clock = p.w.clock();
  struct Other {
    bool mission;
    std::int64_t time;
    std::atomic<int> fired{0};
    EventId id = -1;
    std::unique_ptr<::Xsmp::EntryPoint> entry;
  };
  std::deque<Other> others;
  Beside beside;
  Virtual v(static_cast<std::int64_t>(c.rng.unit() * 4e18) + 1000000000);
  vt::reading = [&] { // some event becomes due at another simulation time
    if (!p.running || others.empty() || !c.rng.chance(1, 25)) return;
    auto &o = c.rng.pick(others);
    const auto in = c.rng.chance(1, 4) ? c.rng.range(-1, 3) : p.later(3);
    if (o.fired > 0) return;
    c.op("the " + std::string(o.mission ? "mission" : "epoch") + " clock is set to " + std::to_string(o.time - in));
    XV_COUNT("clocks set");
    c.nontrivial = true;
    if (beside.post([&o, clock, to = o.time - in] { if (o.mission) clock->SetMissionTime(to); else clock->SetEpochTime(to); })) XV_COUNT("clocks set at once");
  };
  const auto runs = c.rng.range(1, 4);
  for (int k = 0; k < runs && c.flagged.empty(); k++) {
    for (auto n = c.rng.below(5); n > 0; n--) {
      auto &o = others.emplace_back();
      o.mission = c.rng.chance(1, 2);
      o.entry = std::make_unique<::Xsmp::EntryPoint>(("o" + std::to_string(others.size())).c_str(), "", static_cast<::Smp::IObject *>(nullptr), [&o] { o.fired++; });
      o.time = (o.mission ? clock->GetMissionTime() : clock->GetEpochTime()) + p.later(6);
      o.id = o.mission ? p.scheduler->AddMissionTimeEvent(o.entry.get(), o.time) : p.scheduler->AddEpochTimeEvent(o.entry.get(), o.time);
    }
    for (auto n = c.rng.below(3); n > 0; n--) p.post_(c.rng.chance(1, 3));
    p.run(p.later(8));
    beside.finish();
    for (auto &o : others)
      if (o.fired > 1) c.flag("again", "an event fires " + std::to_string(o.fired) + " times");
  }
  xv::count("events fired", p.firings);
}
