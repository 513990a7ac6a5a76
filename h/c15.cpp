// C15: coroutine SharedMutex<FIFO, ReadersFIFO>: writers exclude all, readers share, nobody is forgotten.
#include "coro.hpp"
#include "jobs.hpp"

#include <yaclib/coro/shared_mutex.hpp>

using namespace yaclib;
using namespace h;

namespace {

#ifndef MC_MASK
#  define MC_MASK mc::kAll
#endif
constexpr unsigned kMask = MC_MASK;

// how to acquire: W writer, R reader
enum LockK { WLock, WTry, WGuard, WTryGuard, WDefer, WTryDefer, RLock, RTry, RGuard, RTryGuard, RDefer, RTryDefer, LKinds };
const char* const kLock[] = {"W", "Wtry", "Wguard", "Wtryguard", "Wdefer", "Wtrydefer", "R", "Rtry", "Rguard", "Rtryguard", "Rdefer", "Rtrydefer"};
bool is_read(LockK l) {
  return l >= RLock;
}
bool is_try(LockK l) {
  return l % 6 == WTry || l % 6 == WTryGuard || l % 6 == WTryDefer;
}
enum UnlockK { UHere, UDtor };

struct Op {
  LockK l;
  UnlockK u = UHere;
  bool yield = false;
  std::string name() const {
    return std::string(kLock[l]) + (u == UDtor ? "~" : "") + (yield ? "y" : "");
  }
};

constexpr int kMaxA = 8;
struct World {
  int x = 0, y = 0;            // protected, plain
  Cnt writers, readers, grants, fails;
  Cnt maxr;
  Cnt done[kMaxA];
  ExecBase* own = nullptr;

  void enter(bool r) {
    if (r) {
      int n = readers.inc();
      if (n > maxr.get()) maxr.set(n);
      MC_CHECK(writers.get() == 0, "reader admitted while a writer holds the lock");
      MC_CHECK(x == y);
    } else {
      MC_CHECK(writers.inc() == 1, "two writers at once");
      MC_CHECK(readers.get() == 0, "writer admitted while %d readers hold the lock", readers.get());
      MC_CHECK(x == y);
      x += 1;
    }
    grants.inc();
  }
  void exit(bool r) {
    if (r) {
      MC_CHECK(writers.get() == 0, "writer admitted while a reader holds the lock");
      MC_CHECK(x == y);
      readers.dec();
    } else {
      MC_CHECK(writers.get() == 1 && readers.get() == 0, "someone else was admitted while a writer holds the lock");
      y += 1;
      writers.dec();
    }
  }
};

template <typename M>
Future<> actor(World& w, M& m, int i, std::vector<Op> ops) {
  Box life{8};
  if (w.own != nullptr) co_await On(*w.own);
  for (auto& op : ops) {
    const bool r = is_read(op.l);
    switch (op.l) {
      case WLock:
      case RLock:
      case WTry:
      case RTry: {
        if (op.l == WLock) co_await m.Lock();
        if (op.l == RLock) co_await m.LockShared();
        if ((op.l == WTry && !m.TryLock()) || (op.l == RTry && !m.TryLockShared())) {
          w.fails.inc();
          continue;
        }
        w.enter(r);
        if (op.yield) co_await Yield();
        w.exit(r);
        if (op.u == UHere) {
          r ? m.UnlockHereShared() : m.UnlockHere();
        } else if (r) {
          SharedGuard<M> g{m, std::adopt_lock};
          MC_CHECK(g.OwnsLock());
        } else {
          UniqueGuard<M> g{m, std::adopt_lock};
          MC_CHECK(g.OwnsLock());
        }
        break;
      }
      case WGuard:
      case WTryGuard:
      case WDefer:
      case WTryDefer: {
        UniqueGuard<M> g;
        if (op.l == WGuard) g = co_await m.Guard();
        if (op.l == WTryDefer) {
          if (op.u == UHere) {
            g = UniqueGuard<M>{m, std::defer_lock};
            MC_CHECK(!g);
            bool ok = g.TryLock();
            MC_CHECK(ok == g.OwnsLock());
          } else {
            g = UniqueGuard<M>{m, std::try_to_lock};
          }
        }
        if (op.l == WTryGuard) g = m.TryGuard();
        if (op.l == WDefer) {
          g = UniqueGuard<M>{m, std::defer_lock};
          co_await g.Lock();
        }
        if (!g) {
          MC_CHECK(op.l == WTryGuard || op.l == WTryDefer);
          MC_CHECK(g.Mutex() == &m);
          w.fails.inc();
          continue;
        }
        w.enter(r);
        if (op.yield) co_await Yield();
        w.exit(r);
        if (op.u == UHere) {
          g.UnlockHere();
          MC_CHECK(!g);
        } else if (op.l != WGuard && op.l != RGuard) {
          g = {};   // assigned over while it owns the lock
          MC_CHECK(!g && g.Mutex() == nullptr);
        }
        break;
      }
      default: {
        SharedGuard<M> g;
        if (op.l == RGuard) g = co_await m.GuardShared();
        if (op.l == RTryDefer) {
          if (op.u == UHere) {
            g = SharedGuard<M>{m, std::defer_lock};
            MC_CHECK(!g);
            bool ok = g.TryLock();
            MC_CHECK(ok == g.OwnsLock());
          } else {
            g = SharedGuard<M>{m, std::try_to_lock};
          }
        }
        if (op.l == RTryGuard) g = m.TryGuardShared();
        if (op.l == RDefer) {
          g = SharedGuard<M>{m, std::defer_lock};
          co_await g.Lock();
        }
        if (!g) {
          MC_CHECK(op.l == RTryGuard || op.l == RTryDefer);
          MC_CHECK(g.Mutex() == &m);
          w.fails.inc();
          continue;
        }
        w.enter(r);
        if (op.yield) co_await Yield();
        w.exit(r);
        if (op.u == UHere) {
          g.UnlockHere();
          MC_CHECK(!g);
        } else if (op.l != WGuard && op.l != RGuard) {
          g = {};   // assigned over while it owns the lock
          MC_CHECK(!g && g.Mutex() == nullptr);
        }
      }
    }
    MC_CHECK(val(life) == 8);
  }
  MC_CHECK(w.done[i].inc() == 1);
  co_return{};
}

enum Held { HNone, HWrite, HRead, HRead2 };
const char* const kHeld[] = {"free", "heldW", "heldR", "heldRR"};
enum Ex { XInline, XHere, XSpawn };
struct Cfg {
  std::vector<std::vector<std::vector<Op>>> threads;
  Held held = HNone;
  Ex ex = XInline;
};

// the lock is free at rest
template <typename M>
void at_rest(World& w, M& m) {
  MC_CHECK(w.writers.get() == 0 && w.readers.get() == 0);
  MC_CHECK(m.TryLock(), "still locked after every holder released it");
  MC_CHECK(!m.TryLock(), "TryLock succeeded while locked");
  MC_CHECK(!m.TryLockShared(), "TryLockShared succeeded while locked exclusively");
  MC_CHECK(!m.TryGuard() && !m.TryGuardShared());
  m.UnlockHere();
  MC_CHECK(m.TryLockShared(), "not available to readers at rest");
  MC_CHECK(!m.TryLock(), "TryLock succeeded while locked shared");
  MC_CHECK(m.TryLockShared(), "a second reader was refused");
  m.UnlockHereShared();
  MC_CHECK(!m.TryGuard(), "TryGuard succeeded while locked shared");
  m.UnlockHereShared();
  MC_CHECK(m.TryLock());
  m.UnlockHere();
}

template <typename M>
void run(const Cfg& c) {
  World w;
  HereExec here{1};
  SpawnExec spawn{3};
  w.own = c.ex == XInline ? nullptr : c.ex == XHere ? static_cast<ExecBase*>(&here) : &spawn;
  M m;
  std::vector<Future<>> fs(kMaxA);
  if (c.held == HWrite) {
    MC_CHECK(m.TryLock());
    w.writers.inc();
  } else if (c.held != HNone) {
    MC_CHECK(m.TryLockShared());
    w.readers.inc();
    if (c.held == HRead2) {
      MC_CHECK(m.TryLockShared());
      w.readers.inc();
    }
  }
  int n = 0, locks = 0, total = 0;
  for (auto& t : c.threads) {
    const int base = n;
    for (auto& a : t) {
      for (auto& op : a) {
        locks += !is_try(op.l);
        ++total;
      }
    }
    n += int(t.size());
    mc::spawn([&, base, &t = t] {
      for (size_t k = 0; k < t.size(); ++k) fs[base + k] = actor(w, m, base + int(k), t[k]);
    });
  }
  if (c.held == HWrite) {
    w.x += 1;
    w.y += 1;
    MC_CHECK(w.writers.get() == 1 && w.readers.get() == 0, "admitted while main holds the lock");
    w.writers.dec();
    m.UnlockHere();
  } else if (c.held != HNone) {
    MC_CHECK(w.x == w.y && w.writers.get() == 0, "writer admitted while main holds the lock");
    w.readers.dec();
    m.UnlockHereShared();
    if (c.held == HRead2) {
      MC_CHECK(w.x == w.y && w.writers.get() == 0);
      w.readers.dec();
      m.UnlockHereShared();
    }
  }
  mc::join_all();
  for (int i = 0; i < n; ++i) {
    MC_CHECK(fs[i].Ready(), "actor %d is parked forever", i);
    MC_CHECK(w.done[i].get() == 1);
    MC_CHECK(std::as_const(fs[i]).Touch().State() == ResultState::Value);
  }
  MC_CHECK(w.grants.get() >= locks && w.grants.get() + w.fails.get() == total, "%d grants", w.grants.get());
  at_rest(w, m);
  mc::outcome("g%d r%d", w.grants.get(), w.maxr.get());
}

// Everybody on one single-thread executor
template <typename M>
void pool(const std::vector<std::vector<Op>>& actors, Held held) {
  World w;
  PoolExec pe{1};
  w.own = &pe;
  M m;
  std::vector<Future<>> fs;
  if (held == HWrite) MC_CHECK(m.TryLock());
  if (held == HRead) MC_CHECK(m.TryLockShared());
  for (size_t i = 0; i < actors.size(); ++i) fs.push_back(actor(w, m, int(i), actors[i]));
  pe.drain();
  if (held == HWrite) m.UnlockHere();
  if (held == HRead) m.UnlockHereShared();
  pe.drain();
  for (size_t i = 0; i < actors.size(); ++i) {
    MC_CHECK(fs[i].Ready(), "actor %zu is parked forever", i);
    MC_CHECK(w.done[i].get() == 1);
  }
  at_rest(w, m);
}

// Every sequence of operations issued by one thread that never blocks: requests queue up, releases hand over.
// State of the reference: holders; requests pending. Steps: 0 W request, 1 R request, 2 try W, 3 try R, 4 release oldest holder,
// 5 release newest holder.
template <typename M>
void sequence(int len) {
  struct Act {
    Future<> f;
    int kind;          // 0 W, 1 R
    bool started = false, granted = false, released = false;
    Promise<> release;
  };
  World w;
  M m;
  std::vector<Act> as(len + 1);
  int used = 0;
  auto holder = [&](int i) -> Future<> {
    auto& a = as[i];
    if (a.kind == 0) {
      co_await m.Lock();
    } else {
      co_await m.LockShared();
    }
    a.granted = true;
    w.enter(a.kind == 1);
    auto [f, p] = MakeContract<>();
    a.release = std::move(p);
    co_await Await(f);
    w.exit(a.kind == 1);
    a.released = true;
    a.kind == 1 ? m.UnlockHereShared() : m.UnlockHere();
    co_return{};
  };
  std::vector<int> tries;       // holders through Try*: 0 W, 1 R
  auto holders = [&](int kind) {
    int n = 0;
    for (int i = 0; i < used; ++i) n += as[i].kind == kind && as[i].granted && !as[i].released;
    for (int t : tries) n += t == kind;
    return n;
  };
  auto release_some = [&](bool newest) {
    int pick = -1;
    for (int i = 0; i < used; ++i) {
      if (as[i].granted && !as[i].released) {
        pick = i;
        if (!newest) break;
      }
    }
    if (pick >= 0) {
      std::move(as[pick].release).Set();
      MC_CHECK(as[pick].released);
      return true;
    }
    if (!tries.empty()) {
      int t = tries.back();
      tries.pop_back();
      w.exit(t == 1);
      t == 1 ? m.UnlockHereShared() : m.UnlockHere();
      return true;
    }
    return false;
  };
  auto pending = [&] {
    int n = 0;
    for (int i = 0; i < used; ++i) n += !as[i].granted;
    return n;
  };
  std::string hist;
  for (int s = 0; s < len; ++s) {
    const int free = holders(0) + holders(1);
    int st = mc::choose(free == 0 ? 4 : free == 1 ? 5 : 6, "step");
    if (st < 2) {
      const int hw = holders(0), hr = holders(1), p = pending();
      int i = used++;
      as[i].kind = st;
      as[i].f = holder(i);
      if (hw + hr == 0 && p == 0) MC_CHECK(as[i].granted, "request on a free mutex not granted at once");
    } else if (st < 4) {
      const bool r = st == 3;
      const int hw = holders(0), hr = holders(1), p = pending();
      bool ok = r ? m.TryLockShared() : m.TryLock();
      MC_CHECK(!ok || hw == 0, "Try succeeded while a writer holds the lock");
      MC_CHECK(!ok || r || hr == 0, "TryLock succeeded while readers hold the lock");
      if (hw + hr == 0 && p == 0) MC_CHECK(ok, "Try failed on a free mutex");
      if (ok) {
        w.enter(r);
        tries.push_back(r ? 1 : 0);
      }
    } else {
      const bool any = release_some(st == 5);
      if (!any) {
        MC_CHECK(pending() == 0, "nobody holds the mutex but %d requests wait", pending());
      }
    }
    // no lost wake-up: with no holder there is no pending request
    MC_CHECK(holders(0) + holders(1) > 0 || pending() == 0, "nobody holds the mutex but %d requests wait", pending());
  }
  while (release_some(false)) {
  }
  MC_CHECK(pending() == 0, "%d requests parked forever", pending());
  for (int i = 0; i < used; ++i) MC_CHECK(as[i].f.Ready());
  at_rest(w, m);
}

template <typename M>
void add(const std::string& mn) {
  std::vector<Op> ks;
  for (int l = 0; l < LKinds; ++l) {
    ks.push_back({LockK(l)});
    if (l % 6 != 1) ks.push_back({LockK(l), UDtor});
  }
  auto reg = [](std::string name, mc::Opts o, Cfg c) {
    mc::add_test(name, o, [c] {
      run<M>(c);
    });
  };
  for (size_t a = 0; a < ks.size(); ++a) {
    for (size_t b = a; b < ks.size(); ++b) {
      for (int held = 0; held < 4; ++held) {
        for (int ex = 0; ex < 2; ++ex) {
          mc::Opts o{.mask = kMask};
          o.weak_fail = held == 0 && ex == 0 ? 1 : 0;
          o.thorough = ex == 1 && held > 0;
          reg(mn + "/two/" + ks[a].name() + "+" + ks[b].name() + "/" + kHeld[held] + (ex ? "/here" : ""), o,
              Cfg{{{{ks[a]}}, {{ks[b]}}}, Held(held), Ex(ex)});
        }
      }
      mc::Opts o{.mask = kMask};
      o.thorough = !(ks[a].u == UHere && ks[b].u == UHere && !is_try(ks[a].l) && !is_try(ks[b].l));
      reg(mn + "/spawn/" + ks[a].name() + "+" + ks[b].name(), o, Cfg{{{{ks[a]}}, {{ks[b]}}}, HWrite, XSpawn});
    }
  }
  const std::vector<Op> red{{WLock}, {RLock}, {WTry}, {RTry}};
  for (auto& a : red) {
    for (auto& b : red) {
      for (auto& d : red) {
        auto nm = a.name() + "+" + b.name() + "+" + d.name();
        for (int held = 0; held < 4; ++held) {
          const int tries = is_try(a.l) + is_try(b.l) + is_try(d.l);
          if (&a <= &b && &b <= &d) {
            mc::Opts o{.mask = kMask};
            o.thorough = held >= HRead || (tries > 1 && held > 0);
            reg(mn + "/three/" + nm + "/" + kHeld[held], o, Cfg{{{{a}}, {{b}}, {{d}}}, Held(held)});
          }
          if (&b <= &d) {
            mc::Opts o{.mask = kMask};
            o.thorough = (tries > 0 && held != 1) || held == HRead2;
            reg(mn + "/1x2/" + nm + "/" + kHeld[held], o, Cfg{{{{a}}, {{b}, {d}}}, Held(held)});   // one thread, two actors
          }
          if (held < 3) {
            mc::Opts o{.mask = kMask};
            o.thorough = tries > 0 || held > 0;
            reg(mn + "/1+2ops/" + nm + "/" + kHeld[held], o, Cfg{{{{a}}, {{b, d}}}, Held(held)});  // one actor, two operations
          }
          for (auto& e : red) {
            if (!(&a <= &b && &b <= &d && &d <= &e) || is_try(e.l)) continue;
            mc::Opts o{.mask = kMask};
            o.thorough = true;
            reg(mn + "/four/" + nm + "+" + e.name() + "/" + kHeld[held], o, Cfg{{{{a}}, {{b}}, {{d}}, {{e}}}, Held(held)});
          }
          if (tries == 0) {   // one thread queues three actors, another comes and goes
            for (auto& e : {red[0], red[1]}) {
              mc::Opts o{.mask = kMask};
              o.thorough = held != 1;
              reg(mn + "/3+1/" + nm + "+" + e.name() + "/" + kHeld[held], o, Cfg{{{{a}, {b}, {d}}, {{e}}}, Held(held)});
              o.thorough = true;
              reg(mn + "/2+2/" + nm + "+" + e.name() + "/" + kHeld[held], o, Cfg{{{{a}, {b}}, {{d}, {e}}}, Held(held)});
            }
          }
        }
      }
    }
  }
  for (auto& a : ks) {
    for (auto& b : ks) {
      for (int held = 0; held < 3; ++held) {
        Op ay = a, by = b;
        ay.yield = by.yield = true;
        mc::add_test(mn + "/pool/" + a.name() + "+" + b.name() + "/" + kHeld[held], {.mask = kMask}, [=] {
          pool<M>({{ay}, {b}, {by, a}, {ay}}, Held(held));
        });
      }
    }
  }
  for (int len = 1; len <= 10; ++len) {
    mc::Opts o{.mask = kMask};
    o.thorough = len > 7;
    o.weight = len > 6 ? 5 : 1;
    mc::add_test(mn + "/sequence/" + std::to_string(len), o, [=] {
      sequence<M>(len);
    });
  }
}

MC_TESTS {
  add<SharedMutex<false, false>>("plain");
  add<SharedMutex<true, false>>("FIFO");
  add<SharedMutex<false, true>>("RFIFO");
  add<SharedMutex<true, true>>("FIFO-RFIFO");
};

}  // namespace
