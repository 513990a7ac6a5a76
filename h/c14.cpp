// C14: coroutine Mutex<Batching, FIFO>: mutual exclusion, every request granted exactly once, FIFO order, visibility.
#include "coro.hpp"
#include "jobs.hpp"

#include <yaclib/coro/guard_sticky.hpp>
#include <yaclib/coro/mutex.hpp>

using namespace yaclib;
using namespace h;

namespace {

#ifndef MC_MASK
#  define MC_MASK mc::kAll
#endif
constexpr unsigned kMask = MC_MASK;

enum LockK { LLock, LTry, LGuard, LTryGuard, LSticky, LDefer, LAdopt, LStickyDefer, LKinds };
const char* const kLock[] = {"Lock", "TryLock", "Guard", "TryGuard", "GuardSticky", "Guard(defer)", "Lock+adopt", "Sticky(defer)"};
enum UnlockK { UUnlock, UOn, UHere, UDtor, UKinds };
const char* const kUnlock[] = {"Unlock", "UnlockOn", "UnlockHere", "~Guard"};

struct Op {
  LockK l;
  UnlockK u;
  bool yield = false;    // co_await Yield() inside the critical section
  std::string name() const {
    return std::string(kLock[l]) + "-" + kUnlock[u] + (yield ? "-y" : "");
  }
};
bool valid(LockK l, UnlockK u) {
  return !(u == UDtor && (l == LLock || l == LTry));
}

constexpr int kMaxA = 8;
struct World {
  int x = 0;                   // protected, plain
  Cnt active, grants, tries_failed;
  Cnt granted[kMaxA];          // grants per actor
  Cnt done[kMaxA];
  // FIFO
  bool fifo = false;
  mc::Ghost<int> clock{0};
  Cnt req[kMaxA], susp[kMaxA], waiting[kMaxA];
  ExecBase* own[kMaxA] = {};   // executor of actor i (null: inline)
  ExecBase* on = nullptr;      // executor named by UnlockOn

  int tick() {
    return fifo ? clock.add(1) + 1 : 0;
  }
  void enter(int i) {
    MC_CHECK(active.inc() == 1, "actor %d granted while the mutex is held", i);
    if (fifo) {
      for (int j = 0; j < kMaxA; ++j) {
        if (j != i && waiting[j].get() == 1 && susp[j].get() != 0 && susp[j].get() < req[i].get()) {
          mc::fail("FIFO: actor %d granted before actor %d which was already waiting when it arrived", i, j);
        }
      }
    }
    waiting[i].set(0);
    grants.inc();
    granted[i].inc();
  }
  void exit() {
    active.dec();
  }
  void section() {
    x += 1;
    MC_CHECK(active.get() == 1, "two holders");
  }
};

template <typename M>
Future<> actor(World& w, M& m, int i, std::vector<Op> ops) {
  Life life{*[]() -> Cnt* {
    static Cnt c;
    return &c;
  }()};
  if (w.own[i] != nullptr) co_await On(*w.own[i]);
  bool first = true;
  for (auto& op : ops) {
    w.req[i].set(w.tick());
    w.waiting[i].set(std::exchange(first, false) ? 1 : 0);   // susp[i] is about the first request
    const bool on = op.u == UOn;
    if (op.l == LLock || op.l == LTry || op.l == LAdopt) {
      if (op.l != LTry) {
        co_await m.Lock();
      } else if (!m.TryLock()) {
        w.waiting[i].set(0);
        w.tries_failed.inc();
        continue;
      }
      w.enter(i);
      w.section();
      if (op.yield) {
        co_await Yield();
        w.section();
      }
      life.use();
      if (op.l == LAdopt) {
        UniqueGuard<M> g0{m, std::adopt_lock};
        UniqueGuard<M> g{std::move(g0)};
        MC_CHECK(g.OwnsLock() && !g0.OwnsLock() && g.Mutex() == &m);
        w.exit();
        if (op.u == UUnlock) co_await g.Unlock();
        if (op.u == UOn) co_await g.UnlockOn(*w.on);
        if (op.u == UHere) g.UnlockHere();
        if (op.u == UDtor) {
          UniqueGuard<M> g2;
          g2.Swap(g);
          MC_CHECK(g2 && !g);
        }
        MC_CHECK(!g);
      } else {
        w.exit();
        if (op.u == UUnlock) co_await m.Unlock();
        if (op.u == UOn) co_await m.UnlockOn(*w.on);
        if (op.u == UHere) m.UnlockHere();
      }
    } else if (op.l == LStickyDefer) {
      StickyGuard<M> g{m, std::defer_lock};
      MC_CHECK(!g.OwnsLock() && g.Mutex() == &m);
      co_await g.Lock();
      MC_CHECK(g.OwnsLock());
      w.enter(i);
      w.section();
      if (op.yield) {
        co_await Yield();
        w.section();
      }
      life.use();
      w.exit();
      if (op.u == UUnlock) {
        co_await g.Unlock();
        MC_CHECK(w.own[i] == nullptr || where() == w.own[i]->id(), "sticky unlock left the coroutine in %d", where());
      }
      if (op.u == UOn) co_await g.UnlockOn(*w.on);
      if (op.u == UHere) g.UnlockHere();
      if (op.u == UDtor) {
        g = StickyGuard<M>{m, std::defer_lock};   // assigned over while it owns the lock
      }
      MC_CHECK(!g.OwnsLock());
    } else if (op.l == LSticky) {
      auto g = co_await m.GuardSticky();
      MC_CHECK(g.OwnsLock());
      w.enter(i);
      w.section();
      if (op.yield) {
        co_await Yield();
        w.section();
      }
      life.use();
      w.exit();
      if (op.u == UUnlock) {
        co_await g.Unlock();
        MC_CHECK(w.own[i] == nullptr || where() == w.own[i]->id(), "sticky unlock left the coroutine in %d", where());
      }
      if (op.u == UOn) co_await g.UnlockOn(*w.on);
      if (op.u == UHere) g.UnlockHere();
      if (op.u == UDtor) {
        StickyGuard<M> g2{std::move(g)};
        MC_CHECK(g2.OwnsLock());
      }
      MC_CHECK(!g.OwnsLock());
    } else {
      UniqueGuard<M> g;
      if (op.l == LGuard) {
        g = co_await m.Guard();
      } else if (op.l == LDefer) {
        g = UniqueGuard<M>{m, std::defer_lock};
        MC_CHECK(!g.OwnsLock());
        co_await g.Lock();
      } else {
        g = m.TryGuard();
        if (!g) {
          w.waiting[i].set(0);
          w.tries_failed.inc();
          if (g.TryLock()) {
            w.enter(i);
            w.section();
            w.exit();
            g.UnlockHere();
          }
          continue;
        }
      }
      MC_CHECK(g.OwnsLock());
      w.enter(i);
      w.section();
      if (op.yield) {
        co_await Yield();
        w.section();
      }
      life.use();
      w.exit();
      if (op.u == UUnlock) co_await g.Unlock();
      if (op.u == UOn) co_await g.UnlockOn(*w.on);
      if (op.u == UHere) g.UnlockHere();
      if (op.u == UDtor && op.l != LGuard) {
        g = UniqueGuard<M>{};   // assigned over while it owns the lock
        MC_CHECK(g.Mutex() == nullptr);
      }
      MC_CHECK((op.u == UDtor && op.l == LGuard) || !g.OwnsLock());
    }
    if (on) MC_CHECK(where() == w.on->id(), "UnlockOn resumed in %d", where());
  }
  w.done[i].inc();
  co_return{};
}

enum Ex { XInline, XHere, XSpawn };
const char* const kEx[] = {"inline", "here", "spawn"};
struct Cfg {
  std::vector<std::vector<std::vector<Op>>> threads;   // per thread: actors started one after another, each a list of operations
  bool held = false;      // main holds the mutex at first and releases it concurrently
  Ex ex = XInline;        // executor of the actors
  Ex on = XHere;          // executor named by UnlockOn
  bool fifo = false;      // check arrival order
};

template <typename M>
void run(const Cfg& c) {
  World w;
  w.fifo = c.fifo;
  HereExec here{1}, on_here{2};
  SpawnExec spawn{3}, on_spawn{4};
  for (auto& o : w.own) o = c.ex == XInline ? nullptr : c.ex == XHere ? static_cast<ExecBase*>(&here) : &spawn;
  w.on = c.on == XSpawn ? static_cast<ExecBase*>(&on_spawn) : &on_here;
  {
    M m;
    std::vector<Future<>> fs(kMaxA);
    if (c.held) MC_CHECK(m.TryLock(), "TryLock on a free mutex");
    int total = 0, n = 0, lock_ops = 0;
    for (auto& t : c.threads) {
      const int base = n;
      for (auto& a : t) {
        total += int(a.size());
        for (auto& op : a) lock_ops += op.l != LTry && op.l != LTryGuard;
      }
      n += int(t.size());
      mc::spawn([&, base, &t = t] {
        for (size_t k = 0; k < t.size(); ++k) {
          fs[base + k] = actor(w, m, base + int(k), t[k]);
          w.susp[base + k].set(w.tick());
        }
      });
    }
    if (c.held) {
      w.x += 1;
      MC_CHECK(w.active.get() == 0, "granted while held by main");
      m.UnlockHere();
    }
    mc::join_all();
    for (int i = 0; i < n; ++i) {
      MC_CHECK(fs[i].Ready(), "actor %d waits forever", i);
      MC_CHECK(w.done[i].get() == 1, "actor %d finished %d times", i, w.done[i].get());
      MC_CHECK(std::as_const(fs[i]).Touch().State() == ResultState::Value);
    }
    MC_CHECK(w.grants.get() >= lock_ops && w.grants.get() + w.tries_failed.get() >= total, "%d grants for %d requests", w.grants.get(),
             lock_ops);
    MC_CHECK(w.x >= w.grants.get());
    MC_CHECK(m.TryLock(), "the mutex is still locked after every holder released it");
    MC_CHECK(!m.TryLock(), "TryLock succeeded on a locked mutex");
    {
      auto g = m.TryGuard();
      MC_CHECK(!g.OwnsLock(), "TryGuard succeeded on a locked mutex");
    }
    m.UnlockHere();
    {
      auto g = m.TryGuard();
      MC_CHECK(g.OwnsLock());
    }
    mc::outcome("g%d f%d", w.grants.get(), w.tries_failed.get());
  }
}

// Everybody on one single-thread executor: waiting must not occupy its thread.
template <typename M>
void pool(const std::vector<std::vector<Op>>& actors, bool foreign) {
  World w;
  PoolExec pe{1};
  HereExec on{2};
  for (auto& o : w.own) o = &pe;
  w.on = &pe;
  M m;
  std::vector<Future<>> fs;
  if (foreign) MC_CHECK(m.TryLock());
  for (size_t i = 0; i < actors.size(); ++i) fs.push_back(actor(w, m, int(i), actors[i]));
  pe.drain();
  if (foreign) {
    for (auto& f : fs) (void)f;
    MC_CHECK(w.grants.get() == 0);
    m.UnlockHere();
    pe.drain();
  }
  for (size_t i = 0; i < actors.size(); ++i) {
    MC_CHECK(fs[i].Ready(), "actor %zu waits forever on a single-thread executor", i);
    MC_CHECK(w.done[i].get() == 1);
  }
  MC_CHECK(m.TryLock());
  m.UnlockHere();
}

std::vector<Op> kinds() {
  std::vector<Op> r;
  for (int l = 0; l < LKinds; ++l)
    for (int u = 0; u < UKinds; ++u)
      if (valid(LockK(l), UnlockK(u))) r.push_back({LockK(l), UnlockK(u)});
  return r;
}

template <typename M>
void add(const std::string& mn) {
  const bool is_fifo = mn.find("FIFO") != std::string::npos;
  auto ks = kinds();
  auto reg = [](std::string name, mc::Opts o, Cfg c) {
    mc::add_test(name, o, [c] {
      run<M>(c);
    });
  };
  // A: two actors, one operation each, every pair of kinds, free or held at first
  for (size_t a = 0; a < ks.size(); ++a) {
    for (size_t b = a; b < ks.size(); ++b) {
      for (int held = 0; held < 2; ++held) {
        for (int ex = 0; ex < 2; ++ex) {
          Cfg c{{{{ks[a]}}, {{ks[b]}}}, held == 1, Ex(ex), XHere, false};
          mc::Opts o{.mask = kMask};
          o.weak_fail = held ? 0 : 1;
          o.thorough = ex == 1 || (ks[b].l == LStickyDefer && ks[a].l != LStickyDefer && ks[a].l != LLock);
          reg(mn + "/two/" + ks[a].name() + "+" + ks[b].name() + (held ? "/held/" : "/free/") + kEx[ex], o, c);
        }
        if (ks[a].u == UOn || ks[b].u == UOn) {
          Cfg c{{{{ks[a]}}, {{ks[b]}}}, held == 1, XInline, XSpawn, false};
          mc::Opts o{.mask = kMask};
          o.thorough = ks[a].l != ks[b].l;
          reg(mn + "/two/" + ks[a].name() + "+" + ks[b].name() + (held ? "/held/" : "/free/") + "on-spawn", o, c);
        }
      }
    }
  }
  // B: three actors / C: two operations per actor, reduced kinds
  const std::vector<Op> red{{LLock, UUnlock}, {LLock, UOn}, {LLock, UHere}, {LGuard, UDtor}, {LSticky, UUnlock}, {LTry, UHere}};
  for (auto& a : red) {
    for (auto& b : red) {
      for (auto& d : red) {
        auto nm = a.name() + "+" + b.name() + "+" + d.name();
        if (&a <= &b && &b <= &d) {
          mc::Opts o{.mask = kMask};
          o.thorough = !(d.l == LLock || a.l == b.l);
          reg(mn + "/three/" + nm, o, Cfg{{{{a}}, {{b}}, {{d}}}, false, XInline, XHere, false});
          o.thorough = true;
          reg(mn + "/three-held/" + nm, o, Cfg{{{{a}}, {{b}}, {{d}}}, true, XInline, XHere, false});
        }
        // one thread starts two actors while main holds the mutex, another thread a third
        mc::Opts o{.mask = kMask};
        if (a.l != LTry && b.l != LTry && d.l != LTry) {
          o.thorough = !((a.l == b.l && a.u == b.u && b.u == d.u) || (a.u == UUnlock && b.u == UHere && d.u == UOn));
          reg(mn + "/order21/" + nm, o, Cfg{{{{a}, {b}}, {{d}}}, true, XInline, XHere, is_fifo});
          o.thorough = false;
          reg(mn + "/order3/" + nm, o, Cfg{{{{a}, {b}, {d}}}, true, XInline, XHere, is_fifo});
          if (&d == &red[0]) {
            o.thorough = true;
            reg(mn + "/order3+1/" + nm, o, Cfg{{{{a}, {b}, {d}}, {{d}}}, true, XInline, XHere, is_fifo});
          }
        }
      }
      mc::Opts o{.mask = kMask};
      auto nm = a.name() + "+" + b.name();
      o.thorough = a.l != LLock && a.l != LSticky;
      reg(mn + "/two2/" + nm, o, Cfg{{{{a, b}}, {{b, a}}}, false, XInline, XHere, false});
      o.thorough = a.u != b.u || b.l != LLock;
      reg(mn + "/two2-held/" + nm, o, Cfg{{{{a, b}}, {{b}}}, true, XInline, XHere, is_fifo});
      Op ay = a, by = b;
      ay.yield = by.yield = true;
      o.thorough = false;
      reg(mn + "/spawn2/" + nm, o, Cfg{{{{a}}, {{b}}}, true, XSpawn, XHere, false});
      o.thorough = a.l != b.l || a.u != b.u;
      reg(mn + "/yield2/" + nm, o, Cfg{{{{ay}}, {{by}}}, true, XSpawn, XHere, false});
    }
  }
  // E: one single-thread executor
  for (auto& a : ks) {
    for (auto& b : ks) {
      Op ay = a;
      ay.yield = true;
      for (int foreign = 0; foreign < 2; ++foreign) {
        mc::add_test(mn + "/pool/" + a.name() + "+" + b.name() + (foreign ? "/held" : ""), {.mask = kMask}, [=] {
          pool<M>({{ay}, {b}, {ay, b}}, foreign);
        });
      }
    }
  }
}

MC_TESTS {
  add<Mutex<false, false>>("plain");
  add<Mutex<false, true>>("FIFO");
  add<Mutex<true, false>>("Batching");
  add<Mutex<true, true>>("Batching-FIFO");
};

}  // namespace
