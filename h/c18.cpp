// C18: yaclib_std locks, condition variables, threads and thread-locals under the FIBER backend.
// Every scheduler choice, random number and (in the /inject tests) every injected yield is decided by the explorer.
#include "mc.h"

#include <yaclib/config.hpp>
#include <yaclib/fault/config.hpp>
#include <yaclib/fault/detail/fiber/bidirectional_intrusive_list.hpp>
#include <yaclib/fault/detail/fiber/fiber_base.hpp>
#include <yaclib/fault/detail/fiber/scheduler.hpp>

#include <fault/util.hpp>
#include <yaclib_std/chrono>
#include <yaclib_std/condition_variable>
#include <yaclib_std/mutex>
#include <yaclib_std/shared_mutex>
#include <yaclib_std/thread>
#include <yaclib_std/thread_local>

#include <deque>
#include <memory>
#include <string>
#include <vector>

// Fiber stacks are pooled and thread-local defaults kept in heap blocks that outlive an execution.
bool mc_snapshot_heap = true;

namespace {

namespace yd = yaclib::detail;
using namespace std::chrono_literals;
using Clock = yaclib_std::chrono::steady_clock;
using ns = std::chrono::nanoseconds;

// ---- the explorer's side of the hooks -----------------------------------------------------------
struct Ctl {
  std::size_t pick = 0;        // size of the list the next draw picks from
  bool picking = false;
  bool raw = false;            // enumerate the raw positions instead of the elements
  int inject_left = 0;         // injected yields left
  bool inject = false;
} ctl;

void on_pick(const void* l) {
  auto& list = *static_cast<const yd::fiber::BiList*>(l);
  ctl.pick = 0;
  ctl.picking = true;
  if (list.Empty()) return;
  auto* first = list.GetElement(0, false);
  std::size_t n = 1;
  // the list is circular through its head, which GetElement never returns
  auto* last = list.GetElement(0, true);
  for (auto* x = first; x != last && n < 64; x = x->next) ++n;
  ctl.pick = n;
}
std::uint64_t on_random(std::uint64_t max) {
  if (ctl.picking) {
    ctl.picking = false;
    if (ctl.raw) return mc::choose(int(max), "raw position");
    if (ctl.pick <= 1) return 0;
    return mc::choose(int(ctl.pick), "next fiber");   // position in the list, below the pick width
  }
  return max <= 1 ? 0 : mc::choose(int(max), "random number");
}
bool on_inject() {
  if (!ctl.inject || ctl.inject_left == 0) return false;
  if (mc::choose(2, "inject a yield") == 0) return false;
  --ctl.inject_left;
  return true;
}

long long now() {
  return Clock::now().time_since_epoch().count();
}
void yield() {
  yaclib_std::this_thread::yield();
}

struct Cfg {
  int fibers = 2;
  int sections = 1;
  int inject = 0;       // injected yields allowed in one execution
  int tick = 10;
  int extra = 1;        // SetFaultSleepTime: random extra sleep 0..extra-1
  bool raw = false;
  unsigned kinds = ~0u;
  int recurse = 1;      // times the owner of a recursive mutex locks it again
  bool hold = true;     // a fiber may end without releasing
};

template <class F>
void run_fibers(const Cfg& c, F body) {
  static const bool pooled = [] {   // in the warm-up: enough pooled stacks for every execution
    auto& a = yd::fiber::FiberBase::GetAllocator();
    yd::fiber::Allocation s[8];
    for (auto& x : s) x = a.Allocate();
    for (auto& x : s) a.Release(x);
    return true;
  }();
  (void)pooled;
  ctl = Ctl{};
  ctl.inject = c.inject > 0;
  ctl.inject_left = c.inject;
  ctl.raw = c.raw;
  yd::verif::random = on_random;
  yd::verif::pick = on_pick;
  yd::verif::inject = on_inject;
  yaclib::SetFaultSleepTime(c.extra);
  yaclib::fiber::SetFaultTickLength(c.tick);
  if (c.raw) yaclib::fiber::SetFaultRandomListPick(2);
  yaclib::fault::Scheduler sched;
  yaclib::fault::Scheduler::Set(&sched);
  // The root only starts the fibers (they begin to run when it has ended).
  yaclib_std::thread root{[&] { body(); }};
  root.detach();
  yaclib::fault::Scheduler::Set(nullptr);
  yd::verif::random = nullptr;
  yd::verif::pick = nullptr;
  yd::verif::inject = nullptr;
}

// ---- locks ------------------------------------------------------------------------------------------
enum Kind : int { kLock, kTry, kForShort, kForLong, kUntil, kForZero, kShLock, kShTry, kShForShort, kShForLong, kShUntil, Kinds };
const char* const kKind[] = {"lock", "try_lock", "try_lock_for(short)", "try_lock_for(long)", "try_lock_until", "try_lock_for(0)", "lock_shared",
                             "try_lock_shared", "try_lock_shared_for(short)", "try_lock_shared_for(long)", "try_lock_shared_until"};
constexpr bool shared_kind(int k) {
  return k >= kShLock;
}
constexpr bool timed_kind(int k) {
  return (k >= kForShort && k <= kForZero) || (k >= kShForShort && k <= kShUntil);
}
constexpr long long kShort = 25, kLong = 1000, kUntilAt = 40;

template <class M>
struct Traits;
#define TRAITS(T, REC, TIMED, SH)                                          \
  template <>                                                              \
  struct Traits<yaclib_std::T> {                                           \
    static constexpr bool rec = REC, timed = TIMED, shared = SH;           \
    static constexpr const char* name = #T;                                \
  }
TRAITS(mutex, false, false, false);
TRAITS(timed_mutex, false, true, false);
TRAITS(recursive_mutex, true, false, false);
TRAITS(recursive_timed_mutex, true, true, false);
TRAITS(shared_mutex, false, false, true);
TRAITS(shared_timed_mutex, false, true, true);

template <class M>
struct Locks {
  using T = Traits<M>;
  struct Fiber {
    int want = -1;         // kind it is acquiring
    bool overlapped = false;   // (injection) an incompatible fiber was between the start of its acquisition and the end of its release
    int ex = 0, sh = 0;    // held
    int zone_ex = 0, zone_sh = 0;   // held or being acquired or released
    bool done = false;
    bool relock = false;   // acquiring a lock it owns
    bool keeps = false;    // ended holding
  };
  M m;
  std::deque<Fiber> f;
  Cfg c;
  std::string log;

  bool compatible(int me, bool sh) {
    for (int i = 0; i != int(f.size()); ++i) {
      if (i == me) continue;
      if (f[i].ex || (!sh && f[i].sh)) return false;
    }
    return true;
  }
  void overlap() {
    for (int i = 0; i != int(f.size()); ++i) {
      if (f[i].want < 0) continue;
      for (int j = 0; j != int(f.size()); ++j) {
        if (j != i && (f[j].zone_ex || (!shared_kind(f[i].want) && f[j].zone_sh))) f[i].overlapped = true;
      }
    }
  }
  bool call(int k, long long& deadline) {
    deadline = -1;
    if (k == kLock) return m.lock(), true;
    if (k == kTry) return m.try_lock();
    if constexpr (T::timed) {
      auto at = now();
      switch (k) {
        case kForShort: deadline = at + kShort; return m.try_lock_for(ns{kShort});
        case kForLong: deadline = at + kLong; return m.try_lock_for(ns{kLong});
        case kForZero: deadline = at; return m.try_lock_for(ns{0});
        case kUntil: deadline = kUntilAt; return m.try_lock_until(Clock::time_point{ns{kUntilAt}});
      }
    }
    if constexpr (T::shared) {
      if (k == kShLock) return m.lock_shared(), true;
      if (k == kShTry) return m.try_lock_shared();
      if constexpr (T::timed) {
        auto at = now();
        switch (k) {
          case kShForShort: deadline = at + kShort; return m.try_lock_shared_for(ns{kShort});
          case kShForLong: deadline = at + kLong; return m.try_lock_shared_for(ns{kLong});
          case kShUntil: deadline = kUntilAt; return m.try_lock_shared_until(Clock::time_point{ns{kUntilAt}});
        }
      }
    }
    mc::fail("harness: kind %d", k);
    return false;
  }
  int pick_kind() {
    int ks[Kinds], n = 0;
    for (int k = 0; k != Kinds; ++k) {
      if (!(c.kinds >> k & 1)) continue;
      if (timed_kind(k) && !T::timed) continue;
      if (shared_kind(k) && !T::shared) continue;
      ks[n++] = k;
    }
    return ks[mc::choose(n, "acquisition")];
  }
  bool acquire(int me, int k) {
    auto& s = f[me];
    const bool sh = shared_kind(k);
    const bool free_before = compatible(me, sh);
    s.want = k;
    s.overlapped = false;
    (sh ? s.zone_sh : s.zone_ex)++;
    overlap();
    long long deadline = -1;
    const bool ok = call(k, deadline);
    s.want = -1;
    if (ok) {
      for (int i = 0; i != int(f.size()); ++i) {
        MC_CHECK(i == me || !(f[i].ex || (!sh && f[i].sh)), "%s: %s admitted a fiber while another one holds the lock %s", T::name, kKind[k],
                 f[i].ex ? "exclusively" : "shared");
      }
      (sh ? s.sh : s.ex)++;
      // It is really held: nobody else gets it.
    } else {
      (sh ? s.zone_sh : s.zone_ex)--;
      MC_CHECK(k != kLock && k != kShLock);
      if (timed_kind(k)) {
        const bool passed = now() >= deadline;
        MC_CHECK(passed, "%s: %s gave up at %lld, before its deadline %lld", T::name, kKind[k], now(), deadline);
        if (c.inject == 0 && free_before && deadline > 0 && k != kForZero && k != kUntil && k != kShUntil) {
          mc::fail("%s: %s failed although the lock was available", T::name, kKind[k]);
        }
      } else if (c.inject == 0) {
        MC_CHECK(!free_before, "%s: %s failed although the lock was available", T::name, kKind[k]);
      } else {
        MC_CHECK(s.overlapped, "%s: %s failed although no other fiber was using the lock", T::name, kKind[k]);
      }
    }
    return ok;
  }
  void release(int me, bool sh) {
    auto& s = f[me];
    (sh ? s.sh : s.ex)--;
    if constexpr (T::shared) {
      if (sh) {
        m.unlock_shared();
      } else {
        m.unlock();
      }
    } else {
      m.unlock();
    }
    (sh ? s.zone_sh : s.zone_ex)--;
  }
  void section(int me, bool first, bool last) {
    if (!first) yield();   // (the fibers start in every order)
    const int k = pick_kind();
    if (!acquire(me, k)) return;
    yield();
    for (int n = 0; T::rec && n != c.recurse && mc::choose(2, "recursive") == 1; ++n) {
      const int k2 = pick_kind();
      // relocking by the owner never waits and never fails
      f[me].relock = true;
      const bool ok = acquire(me, k2);
      f[me].relock = false;
      MC_CHECK(ok, "%s: %s by the owner failed", T::name, kKind[k2]);
      if (!ok) return;
      yield();
      release(me, false);
      yield();
    }
    if (c.hold && last && mc::choose(2, "release|keep") == 1) {
      f[me].keeps = true;
      return;
    }
    release(me, shared_kind(k));
  }
  // at quiescence
  void verdict() {
    bool writer_waits = false;
    for (auto& s : f) writer_waits |= !s.done && s.want >= 0 && !shared_kind(s.want);
    for (int i = 0; i != int(f.size()); ++i) {
      auto& s = f[i];
      if (s.done) continue;
      MC_CHECK(s.want >= 0, "fiber %d never finished", i);
      MC_CHECK(!timed_kind(s.want), "%s: %s never returned", T::name, kKind[s.want]);
      MC_CHECK(!s.relock, "%s: %s by the owner blocked", T::name, kKind[s.want]);
      const bool sh = shared_kind(s.want);
      bool free = compatible(i, sh);
      if (sh && writer_waits) {
        free = true;   // (preferring a waiting writer would be a policy: blocked only if somebody holds it at all)
        for (auto& o : f) free = free && !o.ex && !o.sh;
      }
      MC_CHECK(!free, "%s: a fiber blocked in %s was not woken although the lock is available", T::name, kKind[s.want]);
    }
  }
};

template <class M>
void lock_program(const Cfg& c) {
  auto l = std::make_unique<Locks<M>>();
  l->c = c;
  l->f.resize(c.fibers);
  run_fibers(c, [&] {
    for (int i = 0; i != c.fibers; ++i) {
      yaclib_std::thread t{[&, i] {
        for (int s = 0; s != c.sections; ++s) l->section(i, s == 0, s + 1 == c.sections);
        l->f[i].done = true;
      }};
      t.detach();
    }
  });
  l->verdict();
  bool all = true;
  for (auto& s : l->f) all = all && s.done;
  mc::outcome("%s", all ? "all" : "some blocked");
  if (!all) l.release();   // parked fibers refer to it
}

// 2 fibers each using two locks in every combination is left to deadlock-free orders: A then B.
template <class M>
void locks(const char* name) {
  const std::string n = name;
  auto add = [&](std::string s, Cfg c, bool thorough = false, double w = 1) {
    mc::add_test(n + "/" + s, mc::Opts{.max_steps = 100000, .weight = w, .thorough = thorough}, [c] { lock_program<M>(c); });
  };
  constexpr bool timed = Traits<M>::timed;
  constexpr unsigned few = 1u << kLock | 1u << kTry | 1u << kForShort | 1u << kForLong | 1u << kShLock | 1u << kShForShort;
  constexpr unsigned fewer = 1u << kLock | 1u << kForShort | 1u << kShLock;
  constexpr unsigned shfew = 1u << kLock | 1u << kForLong | 1u << kShLock | 1u << kShForLong;
  add("2x1", Cfg{.fibers = 2, .sections = 1});
  add("2x2", Cfg{.fibers = 2, .sections = 2, .kinds = few, .recurse = 0});
  add("3x1", Cfg{.fibers = 3, .sections = 1, .kinds = few, .recurse = 0});
  add("2x1-raw", Cfg{.fibers = 2, .sections = 1, .raw = true, .kinds = fewer, .recurse = 0});
  add("2x1-inject2", Cfg{.fibers = 2, .sections = 1, .inject = 2, .recurse = 0});
  add("3x1-inject1", Cfg{.fibers = 3, .sections = 1, .inject = 1, .kinds = fewer, .recurse = 0});
  if (Traits<M>::shared) {
    add("3x1-shared", Cfg{.fibers = 3, .sections = 1, .kinds = shfew});
    add("4x1-shared", Cfg{.fibers = 4, .sections = 1, .kinds = shfew, .hold = false}, true);
  }
  if (Traits<M>::rec) {
    add("3x1-rec", Cfg{.fibers = 3, .sections = 1, .kinds = 1u << kLock | 1u << kForShort, .hold = false});
    add("2x2-rec", Cfg{.fibers = 2, .sections = 2, .kinds = 1u << kLock | 1u << kForShort, .hold = false});
    add("2x1-rec2", Cfg{.fibers = 2, .sections = 1, .kinds = few, .recurse = 2});
    add("3x1-rec-all", Cfg{.fibers = 3, .sections = 1}, true);
  }
  constexpr bool big = timed && (Traits<M>::rec || Traits<M>::shared);
  add("2x2-all", Cfg{.fibers = 2, .sections = 2}, big);
  add("3x1-all", Cfg{.fibers = 3, .sections = 1, .recurse = 0}, false);
  add("2x1-raw-all", Cfg{.fibers = 2, .sections = 1, .raw = true}, timed || Traits<M>::rec);
  add("2x3", Cfg{.fibers = 2, .sections = 3, .kinds = few, .recurse = 0}, true);
  add("3x2", Cfg{.fibers = 3, .sections = 2, .kinds = fewer, .recurse = 0, .hold = false}, true);
  add("4x1", Cfg{.fibers = 4, .sections = 1, .kinds = fewer, .recurse = 0, .hold = false}, false);
  if (timed) {
    for (int tick : {0, 1, 5, 25}) {
      add("2x1-tick" + std::to_string(tick), Cfg{.fibers = 2, .sections = 1, .tick = tick, .recurse = 0});
    }
    add("2x1-sleep3", Cfg{.fibers = 2, .sections = 1, .extra = 3, .recurse = 0});
    add("3x1-tick5", Cfg{.fibers = 3, .sections = 1, .tick = 5, .kinds = few, .recurse = 0}, true);
    add("3x1-tick25", Cfg{.fibers = 3, .sections = 1, .tick = 25, .kinds = few, .recurse = 0}, true);
    add("3x1-sleep2", Cfg{.fibers = 3, .sections = 1, .extra = 2, .kinds = fewer, .recurse = 0}, true);
  }
  add("2x2-inject2", Cfg{.fibers = 2, .sections = 2, .inject = 2, .kinds = fewer, .recurse = 0}, timed || Traits<M>::shared);
  add("2x1-inject3", Cfg{.fibers = 2, .sections = 1, .inject = 3, .kinds = few}, true);
}

// ---- condition variables ---------------------------------------------------------------------------
enum WKind : int { wWait, wPred, wForShort, wForLong, wUntil, wForPred, wUntilPred, WKinds };
const char* const kWKind[] = {"wait", "wait(pred)", "wait_for(short)", "wait_for(long)", "wait_until", "wait_for(pred)", "wait_until(pred)"};
constexpr bool wtimed(int k) {
  return k >= wForShort;
}
enum NKind : int { nOne, nAll, nOneLocked, nAllLocked, nSetOne, nSetAll, nSleepOne, NKinds };

struct CvState {
  yaclib_std::mutex m;
  yaclib_std::condition_variable cv;
  int holder = -1;
  bool flag = false;
  struct W {
    bool blocked = false, done = false;
    bool really = false;   // somebody else got the mutex while it was blocked: it is past the unlock in wait
    int kind = 0;
  };
  std::deque<W> w;
  // What each notification still owes. While one of `must` (blocked when it was issued and since) is blocked, it has to have
  // woken one of `may` (blocked at some time during the notification).
  struct Owed {
    unsigned must, may;
    bool open;
  };
  std::deque<Owed> owed;
  int n_done = 0;
  bool inject = false;
  unsigned wkinds = ~0u, nkinds = ~0u;
  static int pick(unsigned mask, int n, const char* why) {
    int ks[16], m = 0;
    for (int k = 0; k != n; ++k) {
      if (mask >> k & 1) ks[m++] = k;
    }
    return ks[mc::choose(m, why)];
  }
  unsigned blocked() const {
    unsigned set = 0;
    for (std::size_t i = 0; i != w.size(); ++i) {
      if (w[i].blocked && (!inject || w[i].really)) set |= 1u << i;
    }
    return set;
  }
  // waiter i is not blocked anymore: a wake-up pays for the oldest notification that it was blocked at
  void unblocked(int i, bool notified) {
    w[i].blocked = false;
    for (auto& o : owed) {
      const bool in = o.may >> i & 1;
      o.must &= ~(1u << i);
      o.may &= ~(1u << i);
      if (in && notified) {
        o.must = 0;   // paid
        o.may = 0;
        notified = false;
      }
    }
  }
  int unpaid() const {
    int n = 0;
    for (auto& o : owed) n += o.must != 0;
    return n;
  }
  void enter(int who) {
    MC_CHECK(holder == -1, "mutex held by %d is given to %d", holder, who);
    holder = who;
    for (int i = 0; i != int(w.size()); ++i) w[i].really = w[i].really || (i != who && w[i].blocked);
  }
  void leave() {
    holder = -1;
  }
};

void cv_waiter(CvState& s, int i) {
  std::unique_lock lock{s.m};
  s.enter(i);
  auto& w = s.w[i];
  w.kind = s.pick(s.wkinds, WKinds, "wait form");
  auto start = now();
  long long deadline = -1;
  auto blk = [&] {
    w.blocked = true;
    w.really = false;
    for (auto& o : s.owed) o.may |= o.open && o.must ? 1u << i : 0;
    s.leave();
  };
  // The predicate runs with the mutex held; returning false is the moment it blocks again.
  bool in = true;
  auto pred = [&] {
    if (!in) {
      s.enter(i);
      in = true;
      if (w.blocked) s.unblocked(i, true);   // (at the deadline it may have timed out instead)
    }
    if (s.flag) return true;
    blk();
    in = false;
    return false;
  };
  std::cv_status st = std::cv_status::no_timeout;
  bool r = true;
  switch (w.kind) {
    case wWait: blk(); s.cv.wait(lock); break;
    case wPred: s.cv.wait(lock, pred); break;
    case wForShort: deadline = start + kShort; blk(); st = s.cv.wait_for(lock, ns{kShort}); break;
    case wForLong: deadline = start + kLong; blk(); st = s.cv.wait_for(lock, ns{kLong}); break;
    case wUntil: deadline = kUntilAt; blk(); st = s.cv.wait_until(lock, Clock::time_point{ns{kUntilAt}}); break;
    case wForPred: deadline = start + kShort; r = s.cv.wait_for(lock, ns{kShort}, pred); break;
    case wUntilPred: deadline = kUntilAt; r = s.cv.wait_until(lock, Clock::time_point{ns{kUntilAt}}, pred); break;
  }
  MC_CHECK(lock.owns_lock(), "%s returned without the lock", kWKind[w.kind]);
  const bool withp = w.kind == wPred || w.kind == wForPred || w.kind == wUntilPred;
  if (!withp) {
    s.enter(i);
    s.unblocked(i, st == std::cv_status::no_timeout);
    if (st != std::cv_status::no_timeout) {
      MC_CHECK(now() >= deadline, "%s timed out at %lld before its deadline %lld", kWKind[w.kind], now(), deadline);
    }
  } else {
    if (!in) {   // left by a predicate call that returned false: a timeout
      s.enter(i);
      s.unblocked(i, false);
    }
    MC_CHECK(r == s.flag, "%s returned %d, the predicate is %d", kWKind[w.kind], r, s.flag);
    if (w.kind == wPred) {
      MC_CHECK(s.flag, "wait(pred) returned while the predicate is false");
    } else if (!r) {
      MC_CHECK(now() >= deadline, "%s timed out at %lld before its deadline %lld", kWKind[w.kind], now(), deadline);
    }
  }
  yield();
  s.leave();
  w.done = true;
  lock.unlock();
}

void cv_notifier(CvState& s, int me, int ops) {
  for (int i = 0; i != ops; ++i) {
    if (i != 0) yield();
    const int k = s.pick(s.nkinds, NKinds, "notify form");
    if (k == nSleepOne) yaclib_std::this_thread::sleep_for(ns{33});
    const bool locked = k >= nOneLocked && k <= nSetAll;
    std::unique_lock lock{s.m, std::defer_lock};
    if (locked) {
      lock.lock();
      s.enter(me);
      if (k >= nSetOne) s.flag = true;
    }
    const unsigned b = s.blocked();
    const auto from = s.owed.size();
    if (k == nAll || k == nAllLocked || k == nSetAll) {
      for (unsigned x = b; x != 0; x &= x - 1) s.owed.push_back({x & -x, x & -x, false});
      s.cv.notify_all();
    } else {
      unsigned all = 0;
      for (std::size_t j = 0; j != s.w.size(); ++j) all |= s.w[j].blocked ? 1u << j : 0;
      if (b != 0) s.owed.push_back({b, all, true});
      s.cv.notify_one();
    }
    if (from < s.owed.size()) s.owed[from].open = false;
    if (locked) {
      s.leave();
      lock.unlock();
    }
    ++s.n_done;
  }
}

void cv_program(const Cfg& c, int waiters, int notifiers, int ops, unsigned wk, unsigned nk) {
  auto s = std::make_unique<CvState>();
  s->w.resize(waiters);
  s->inject = c.inject > 0;
  s->wkinds = wk;
  s->nkinds = nk;
  run_fibers(c, [&] {
    for (int i = 0; i != waiters; ++i) {
      yaclib_std::thread t{[&, i] { cv_waiter(*s, i); }};
      t.detach();
    }
    for (int i = 0; i != notifiers; ++i) {
      yaclib_std::thread t{[&, i] { cv_notifier(*s, 100 + i, ops); }};
      t.detach();
    }
  });
  MC_CHECK(s->n_done == notifiers * ops, "a notifier did not finish");
  bool all = true;
  for (auto& w : s->w) {
    if (w.done) continue;
    all = false;
    MC_CHECK(!wtimed(w.kind), "%s never returned", kWKind[w.kind]);
    MC_CHECK(w.blocked, "a waiter is neither blocked nor finished");
  }
  MC_CHECK(s->unpaid() == 0, "%d notification(s) issued while waiters were blocked woke nobody", s->unpaid());
  mc::outcome("%s", all ? "all" : "some blocked");
  if (!all) s.release();
}

// ---- threads -----------------------------------------------------------------------------------------
void thread_program(const Cfg& c) {
  struct S {
    int finished[3] = {};
    int slept = 0;
    bool root = false;
  } s;
  run_fibers(c, [&] {
    auto root_id = yaclib_std::this_thread::get_id();
    yaclib_std::thread none;
    MC_CHECK(!none.joinable(), "a default constructed thread is joinable");
    std::vector<yaclib_std::thread> t;
    const int n = 1 + mc::choose(c.fibers, "threads");
    for (int i = 0; i != n; ++i) {
      t.emplace_back([&, i] {
        MC_CHECK(yaclib_std::this_thread::get_id() != root_id);
        int how = mc::choose(4, "body");
        if (how == 1) yield();
        if (how == 2) {
          auto at = now();
          yaclib_std::this_thread::sleep_for(ns{kShort});
          MC_CHECK(now() >= at + kShort, "sleep_for ended after %lld of %lld", now() - at, kShort);
        }
        if (how == 3) {
          yaclib_std::this_thread::sleep_until(Clock::time_point{ns{kUntilAt}});
          MC_CHECK(now() >= kUntilAt, "sleep_until ended at %lld", now());
        }
        s.finished[i] = 1;
      });
      MC_CHECK(t.back().joinable(), "a started thread is not joinable");
      if (mc::choose(2, "yield between") == 1) yield();
    }
    for (int i = 0; i != n; ++i) {
      for (int j = 0; j != i; ++j) MC_CHECK(t[i].get_id() != t[j].get_id());
    }
    const int order = mc::choose(2, "join order");
    const int detach = mc::choose(n + 1, "detach one");
    for (int k = 0; k != n; ++k) {
      const int i = order ? n - 1 - k : k;
      if (i == detach) {
        t[i].detach();
      } else {
        auto id = t[i].get_id();
        if (mc::choose(2, "move") == 1) {
          yaclib_std::thread other{std::move(t[i])};
          MC_CHECK(other.get_id() == id && other.joinable());
          MC_CHECK(!t[i].joinable(), "a moved-from thread is joinable");
          other.join();
          MC_CHECK(!other.joinable(), "a joined thread is joinable");
        } else {
          t[i].join();
          MC_CHECK(!t[i].joinable(), "a joined thread is joinable");
        }
        MC_CHECK(s.finished[i] == 1, "join returned before the thread function");
      }
    }
    s.root = true;
  });
  MC_CHECK(s.root, "join never returned");
}

// ---- thread-local pointers ------------------------------------------------------------------------------
int g_vals[8];
long g_longs[8];
YACLIB_THREAD_LOCAL_PTR(int) tls_a;
YACLIB_THREAD_LOCAL_PTR(int) tls_b = &g_vals[7];
YACLIB_THREAD_LOCAL_PTR(long) tls_l;

void tls_program(const Cfg& c, int ops) {
  int done = 0;
  run_fibers(c, [&] {
    for (int i = 0; i != c.fibers; ++i) {
      yaclib_std::thread t{[&, i] {
        int* a = nullptr;
        int* b = &g_vals[7];
        long* l = nullptr;
        auto check = [&](const char* when) {
          MC_CHECK(tls_a.Get() == a, "tls_a of fiber %d %s", i, when);
          MC_CHECK(tls_b.Get() == b, "tls_b of fiber %d %s", i, when);
          MC_CHECK(tls_l.Get() == l, "tls_l of fiber %d %s", i, when);
          MC_CHECK((tls_a == nullptr) == (a == nullptr) && bool(tls_b) == (b != nullptr) && (tls_a == tls_b) == (a == b));
        };
        check("at start");
        for (int k = 0; k != ops; ++k) {
          switch (mc::choose(7, "operation")) {
            case 0: tls_a = a = &g_vals[i]; break;
            case 1: tls_b = b = &g_vals[3 + i]; break;
            case 2: tls_l = l = &g_longs[i]; break;
            case 3: tls_a = a = nullptr; break;
            case 4: tls_a = tls_b; a = b; break;
            case 5: tls_b = tls_a; b = a; break;
            case 6: tls_b = b = nullptr; break;
          }
          check("after an operation");
          yield();
          check("after a switch");
        }
        ++done;
      }};
      t.detach();
    }
  });
  MC_CHECK(done == c.fibers);
}

// ---- the run queue ----------------------------------------------------------------------------------------
struct QNode : yd::fiber::Node {
  int id = 0;
};
void list_program() {
  // BiList against a deque: every sequence of operations up to length 5.
  auto nodes = std::make_unique<QNode[]>(6);
  yd::fiber::BiList a, b;
  std::deque<int> ra, rb;
  for (int i = 0; i != 6; ++i) {
    nodes[i].id = i;
    nodes[i].prev = nodes[i].next = nullptr;
  }
  int next = 0;
  auto check = [&](yd::fiber::BiList& l, std::deque<int>& r) {
    MC_CHECK(l.Empty() == r.empty());
    for (std::size_t p = 0; p != 8; ++p) {
      for (int rev = 0; rev != 2; ++rev) {
        auto* e = static_cast<QNode*>(l.GetElement(p, rev == 1));
        if (r.empty()) {
          MC_CHECK(e == nullptr);
          continue;
        }
        bool in = false;
        for (int x : r) in = in || (e == &nodes[x]);
        MC_CHECK(in, "GetElement(%zu,%d) of a list of %zu is not in the list", p, rev, r.size());
        if (p < r.size()) {
          int want = rev ? r[r.size() - 1 - p] : r[p];
          MC_CHECK(e == &nodes[want], "GetElement(%zu,%d) of a list of %zu", p, rev, r.size());
        }
      }
    }
  };
  for (int k = 0; k != 6; ++k) {
    switch (mc::choose(6, "operation")) {
      case 0:
        if (next < 6) {
          a.PushBack(&nodes[next]);
          ra.push_back(next++);
        }
        break;
      case 1:
        if (next < 6) {
          b.PushBack(&nodes[next]);
          rb.push_back(next++);
        }
        break;
      case 2:
        a.PushAll(std::move(b));
        for (int x : rb) ra.push_back(x);
        rb.clear();
        break;
      case 3:
        if (!ra.empty()) {
          auto* e = static_cast<QNode*>(a.PopBack());
          MC_CHECK(e == &nodes[ra.back()]);
          ra.pop_back();
        }
        break;
      case 4:
        if (!rb.empty()) break;
        b = std::move(a);
        rb.swap(ra);
        break;
      case 5:
        if (!ra.empty()) {
          int p = mc::choose(int(ra.size()), "erase");
          MC_CHECK(nodes[ra[p]].Erase());
          MC_CHECK(!nodes[ra[p]].Erase(), "erased twice");
          ra.erase(ra.begin() + p);
        }
        break;
    }
    check(a, ra);
    check(b, rb);
  }
}

MC_TESTS {
  locks<yaclib_std::mutex>("mutex");
  locks<yaclib_std::timed_mutex>("timed_mutex");
  locks<yaclib_std::recursive_mutex>("recursive_mutex");
  locks<yaclib_std::recursive_timed_mutex>("recursive_timed_mutex");
  locks<yaclib_std::shared_mutex>("shared_mutex");
  locks<yaclib_std::shared_timed_mutex>("shared_timed_mutex");
  auto cv = [](std::string n, Cfg c, int w, int nt, int ops, bool th = false, unsigned wk = ~0u, unsigned nk = ~0u) {
    mc::add_test("cv/" + n, mc::Opts{.max_steps = 100000, .thorough = th}, [=] { cv_program(c, w, nt, ops, wk, nk); });
  };
  cv("1w1n1", Cfg{}, 1, 1, 1);
  cv("1w1n2", Cfg{}, 1, 1, 2);
  cv("2w1n1", Cfg{}, 2, 1, 1);
  constexpr unsigned wf = 1u << wWait | 1u << wForShort | 1u << wForPred, nf = 1u << nOne | 1u << nAll | 1u << nSetOne | 1u << nSleepOne;
  cv("2w1n2", Cfg{}, 2, 1, 2, false, wf, nf);
  cv("2w1n2-all", Cfg{}, 2, 1, 2);
  cv("2w2n1-all", Cfg{}, 2, 2, 1);
  cv("3w1n1", Cfg{}, 3, 1, 1, false, wf, nf);
  cv("1w2n1", Cfg{}, 1, 2, 1);
  cv("2w2n1", Cfg{}, 2, 2, 1, false, wf, nf);
  cv("3w1n1-all", Cfg{}, 3, 1, 1, true);
  cv("3w1n2", Cfg{}, 3, 1, 2, true);
  cv("2w2n2", Cfg{}, 2, 2, 2, true);
  cv("1w1n2-tick0", Cfg{.tick = 0}, 1, 1, 2);
  cv("1w1n2-tick1", Cfg{.tick = 1}, 1, 1, 2);
  cv("1w1n2-tick5", Cfg{.tick = 5}, 1, 1, 2);
  cv("1w1n2-tick25", Cfg{.tick = 25}, 1, 1, 2);
  cv("1w1n2-sleep3", Cfg{.extra = 3}, 1, 1, 2);
  cv("2w1n1-sleep2", Cfg{.extra = 2}, 2, 1, 1);
  cv("2w1n1-tick5", Cfg{.tick = 5}, 2, 1, 1);
  cv("1w1n1-inject2", Cfg{.inject = 2}, 1, 1, 1);
  cv("2w1n1-inject1", Cfg{.inject = 1}, 2, 1, 1, false, wf, nf);
  cv("1w1n2-inject3", Cfg{.inject = 3}, 1, 1, 2, true);
  cv("2w1n1-raw", Cfg{.raw = true}, 2, 1, 1, true);
  for (int n = 1; n <= 3; ++n) {
    mc::add_test("threads/" + std::to_string(n), mc::Opts{.max_steps = 100000, .thorough = n == 3}, [n] { thread_program(Cfg{.fibers = n}); });
  }
  mc::add_test("threads/2-tick0", mc::Opts{.max_steps = 100000}, [] { thread_program(Cfg{.fibers = 2, .tick = 0}); });
  mc::add_test("tls/2x2", mc::Opts{.max_steps = 100000}, [] { tls_program(Cfg{.fibers = 2}, 2); });
  mc::add_test("tls/2x3", mc::Opts{.max_steps = 100000, .thorough = true}, [] { tls_program(Cfg{.fibers = 2}, 3); });
  mc::add_test("tls/3x1", mc::Opts{.max_steps = 100000}, [] { tls_program(Cfg{.fibers = 3}, 1); });
  mc::add_test("list", mc::Opts{.max_steps = 100000}, [] { list_program(); });
};

}  // namespace
