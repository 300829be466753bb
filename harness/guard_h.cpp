// C07: guarded shared data
#include "delays.h"
#include "xv.h"
#include <Xsmp/ThreadSafeData.h>
#include <chrono>
#include <condition_variable>
#include <deque>
#include <memory>
#include <optional>
#include <thread>
#include <utility>
using xv::Case;
namespace {
struct Data {
  long a = 0, b = 0; // always equal while no writer is inside
  std::vector<long> history;
  Data() = default;
  Data(long x, long y) : a(x), b(y) {}
};
using Guarded = Xsmp::ThreadSafeData<Data>;
using R = Guarded::ReadLock;
using W = Guarded::WriteLock;

/// a worker executes closures one at a time; the coordinator decides the global order
struct Worker {
  std::mutex m;
  std::condition_variable cv;
  std::deque<std::function<void()>> q;
  std::size_t submitted = 0, done = 0;
  bool stop = false;
  std::thread t{[this] {
    std::unique_lock<std::mutex> l(m);
    for (;;) {
      cv.wait(l, [this] { return stop || !q.empty(); });
      if (q.empty()) return;
      auto f = std::move(q.front());
      q.pop_front();
      l.unlock();
      f();
      l.lock();
      ++done;
      cv.notify_all();
    }
  }};
  void post(std::function<void()> f) { std::lock_guard<std::mutex> l(m); q.push_back(std::move(f)); ++submitted; cv.notify_all(); }
  void wait() { std::unique_lock<std::mutex> l(m); cv.wait(l, [this] { return done == submitted; }); }
  bool idleWithin(std::chrono::milliseconds d) { std::unique_lock<std::mutex> l(m); return cv.wait_for(l, d, [this] { return done == submitted; }); }
  void run(std::function<void()> f) { post(std::move(f)); wait(); }
  ~Worker() { { std::lock_guard<std::mutex> l(m); stop = true; cv.notify_all(); } t.join(); }
};
struct Holder { // what one worker holds
  std::unique_ptr<R> r;
  std::unique_ptr<W> w;
  bool locked = false; // the handle currently owns the lock
};
} // namespace
// Sequentially ordered histories over several threads, compared with a reader/writer lock model.
XV_SCENARIO_NOLEAK(C07, ordered, 900, 20000) {
  auto &rng = c.rng;
  const std::size_t n = 2 + rng.below(3);
  auto data = std::make_unique<Guarded>(7L, 7L);
  std::vector<Holder> h(n);
  std::vector<std::unique_ptr<Worker>> w;
  for (std::size_t i = 0; i < n; ++i) w.push_back(std::make_unique<Worker>());
  long value = 7;
  struct Cleanup { std::vector<std::unique_ptr<Worker>> &w; std::vector<Holder> &h; ~Cleanup() { for (std::size_t i = 0; i < w.size(); ++i) w[i]->run([&, i] { h[i].r.reset(); h[i].w.reset(); }); } } cleanup{w, h};
  auto readers = [&] { int k = 0; for (auto &x : h) k += x.r && x.locked; return k; };
  auto writers = [&] { int k = 0; for (auto &x : h) k += x.w && x.locked; return k; };
  const std::size_t steps = 8 + rng.below(30);
  for (std::size_t k = 0; k < steps; ++k) {
    const std::size_t i = rng.below(n);
    Holder &x = h[i];
    const int rd = readers(), wr = writers();
    const std::string who = std::to_string(i) + ": ";
    if (!x.r && !x.w) {
      switch (rng.below(4)) {
      case 0: { bool ok = false; w[i]->run([&] { if (auto o = data->try_read()) { x.r = std::make_unique<R>(std::move(*o)); ok = true; } });
        c.op(who + "try_read -> " + (ok ? "yes" : "no")); x.locked = ok;
        XV_EQ(ok, wr == 0, "try-read", "try_read with " << rd << " readers and " << wr << " writers"); if (!ok) { c.nontrivial = true; XV_COUNT("refused try-locks"); } break; }
      case 1: { bool ok = false; w[i]->run([&] { if (auto o = data->try_write()) { x.w = std::make_unique<W>(std::move(*o)); ok = true; } });
        c.op(who + "try_write -> " + (ok ? "yes" : "no")); x.locked = ok;
        XV_EQ(ok, wr == 0 && rd == 0, "try-write", "try_write with " << rd << " readers and " << wr << " writers"); if (!ok) { c.nontrivial = true; XV_COUNT("refused try-locks"); } break; }
      case 2: if (wr == 0) { w[i]->run([&] { x.r = std::make_unique<R>(data->read()); }); x.locked = true; c.op(who + "read"); if (rd) XV_COUNT("shared reads"); } break;
      default: if (wr == 0 && rd == 0) { w[i]->run([&] { x.w = std::make_unique<W>(data->write()); }); x.locked = true; c.op(who + "write"); } break;
      }
    } else {
      switch (rng.below(5)) {
      case 0: w[i]->run([&] { x.r.reset(); x.w.reset(); }); x.locked = false; c.op(who + "leave scope"); break;
      case 1: if (x.locked) { w[i]->run([&] { if (x.r) x.r->unlock(); else x.w->unlock(); }); x.locked = false; c.op(who + "unlock"); } break;
      case 2: if (!x.locked && wr == 0 && (x.r || rd == 0)) { w[i]->run([&] { if (x.r) x.r->lock(); else x.w->lock(); }); x.locked = true; c.op(who + "lock again"); XV_COUNT("re-locks"); } break;
      case 3: w[i]->run([&] { if (x.r) { auto y = std::make_unique<R>(std::move(*x.r)); x.r = std::move(y); } else { auto y = std::make_unique<W>(std::move(*x.w)); x.w = std::move(y); } }); c.op(who + "move handle"); break;
      default: if (x.locked && x.w) { ++value; w[i]->run([&] { x.w->get().a = value; x.w->get().b = value; x.w->get().history.push_back(value); }); c.op(who + "update"); } break;
      }
    }
    if (x.locked) {
      long a = 0, b = 0;
      w[i]->run([&] { const Data &d = x.r ? x.r->get() : x.w->get(); a = d.a; b = d.b; });
      XV_CHECK(a == value && b == value, "lost-update", "thread " << i << " sees " << a << "," << b << " instead of " << value);
    }
    XV_COUNT("lock operations");
  }
}
// a conflicting blocking lock does not return while the other is held, and returns once it is released
XV_SCENARIO_NOLEAK(C07, blocking, 64, 600) {
  auto &rng = c.rng;
  auto data = std::make_unique<Guarded>();
  const bool holdWrite = rng.chance(1, 2), wantWrite = !holdWrite || rng.chance(1, 2);
  const int how = static_cast<int>(rng.below(4)); // of the waiter: fresh, re-lock; of the holder: scope, unlock
  c.op(std::string(holdWrite ? "writer" : "reader") + " holds, " + (wantWrite ? "writer" : "reader") + " waits, mode " + std::to_string(how));
  c.nontrivial = true;
  std::atomic<bool> got{false};
  std::unique_ptr<R> hr; std::unique_ptr<W> hw;
  if (holdWrite) { hw = std::make_unique<W>(data->write()); if (how & 1) { hw->unlock(); hw->lock(); } hw->get().a = 5; }
  else { hr = std::make_unique<R>(data->read()); if (how & 1) { hr->unlock(); hr->lock(); } }
  long seen = -1;
  std::thread t([&] {
    if (wantWrite) { auto l = data->write(); got = true; seen = l.get().a; l.get().b = 1; }
    else { auto l = data->read(); got = true; seen = l.get().a; }
  });
  for (int i = 0; i < 20 && !got; ++i) std::this_thread::sleep_for(std::chrono::milliseconds(1));
  const bool early = got;
  if (!early && hw) hw->get().a = 9;
  if (how & 2) { hr.reset(); hw.reset(); } else if (hr) hr->unlock(); else hw->unlock();
  t.join(); // a lock that is never granted shows as a hang
  XV_CHECK(!early, "exclusion", "a conflicting lock was granted while the other was held");
  XV_CHECK(seen == (holdWrite ? 9 : 0), "lost-update", "the waiter saw " << seen);
  XV_COUNT("blocked acquisitions");
}
// free-running threads; the guarded data itself carries the exclusion monitor
XV_SCENARIO_NOLEAK(C07, stress, 64, 1500) {
  const delays::Scope delays(c.rng.pick({0u, 0u, 10u, 40u, 150u}));
  const int threads = 2 + static_cast<int>(c.rng.below(5)), rounds = c.thorough ? 800 : 250;
  Guarded data;
  std::atomic<int> inReaders{0}, inWriters{0}, maxReaders{0};
  std::atomic<long> writes{0}, refused{0}, reads{0};
  std::atomic<const char *> bad{nullptr};
  const std::uint64_t seed = c.rng.next();
  c.op(std::to_string(threads) + " threads " + std::to_string(seed % 1000)); c.nontrivial = true;
  auto pause = [](xv::Rng &r) { if (r.chance(1, 3)) std::this_thread::yield(); else if (r.chance(1, 20)) std::this_thread::sleep_for(std::chrono::microseconds(r.below(60))); };
  auto readBody = [&](const Data &d, xv::Rng &r) {
    const int k = ++inReaders;
    int m = maxReaders; while (k > m && !maxReaders.compare_exchange_weak(m, k)) {}
    if (inWriters != 0) bad = "a reader is inside together with a writer";
    const long a = d.a; pause(r); const long b = d.b;
    if (a != b || d.history.size() != static_cast<std::size_t>(a)) bad = "a reader saw a half-made update";
    ++reads;
    --inReaders;
  };
  auto writeBody = [&](Data &d, xv::Rng &r) {
    if (++inWriters != 1 || inReaders != 0) bad = "a writer is inside together with another lock holder";
    d.a++; pause(r); d.history.push_back(d.a); d.b++;
    ++writes;
    --inWriters;
  };
  std::vector<std::thread> v;
  for (int t = 0; t < threads; ++t)
    v.emplace_back([&, t] {
      xv::Rng r(seed + static_cast<std::uint64_t>(t));
      for (int i = 0; i < rounds; ++i) {
        switch (r.below(8)) {
        case 0: { auto l = data.write(); writeBody(l.get(), r); break; }
        case 1: { auto l = data.write(); writeBody(l.get(), r); l.unlock(); pause(r); l.lock(); writeBody(l.get(), r); break; }
        case 2: { if (auto l = data.try_write()) { writeBody(l->get(), r); if (r.chance(1, 2)) { l->unlock(); } } else ++refused; break; }
        case 3: { if (auto l = data.try_read()) { readBody(l->get(), r); if (r.chance(1, 2)) { l->unlock(); pause(r); l->lock(); readBody(l->get(), r); } } else ++refused; break; }
        case 4: { auto l = data.read(); auto m = std::move(l); readBody(m.get(), r); break; }
        case 5: { auto l = data.write(); auto m = std::move(l); writeBody(m.get(), r); break; }
        default: { auto l = data.read(); readBody(l.get(), r); l.unlock(); pause(r); l.lock(); readBody(l.get(), r); break; }
        }
      }
    });
  for (auto &t : v) t.join();
  XV_CHECK(bad == nullptr, "exclusion", bad.load());
  auto l = data.read();
  XV_EQ(l.get().a, writes.load(), "lost-update", "updates counted");
  XV_EQ(l.get().b, writes.load(), "lost-update", "updates counted");
  xv::count("stress writes", static_cast<std::uint64_t>(writes)); xv::count("stress reads", static_cast<std::uint64_t>(reads)); xv::count("stress refused", static_cast<std::uint64_t>(refused));
  if (maxReaders > 1) xv::count("runs with overlapping readers");
}
