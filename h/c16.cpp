// C16: WaitGroup and OneShotEvent: nobody is released before the count reaches zero, everybody is released then, once.
#include "coro.hpp"
#include "jobs.hpp"

#include <yaclib/algo/one_shot_event.hpp>
#include <yaclib/algo/wait_group.hpp>

using namespace yaclib;
using namespace h;
using namespace std::chrono_literals;

namespace {

#ifndef MC_MASK
#  define MC_MASK mc::kAll
#endif
constexpr unsigned kMask = MC_MASK;

using F = Future<Box, Err>;
using P = Promise<Box, Err>;

enum WaitK { WWait, WFor, WUntil, WFor0, WInline, WShort, WSticky, WOn, WNone, WKinds };
const char* const kWait[] = {"Wait", "WaitFor", "WaitUntil", "WaitFor0", "AwaitInline", "co_await", "AwaitSticky", "AwaitOn", "none"};

// Everything a released waiter may rely on.
struct World {
  int total = 0;              // matched operations needed before the count is zero
  Cnt begun;                  // operations that have begun
  int data[6] = {};           // written (plainly) by each operation before it counts down
  Cnt released;               // waiters released (or timed out)
  Cnt timed_out;
  Cnt resumed;                // coroutine waiters resumed
  ExecBase* exec = nullptr;   // executor named by AwaitOn
  ExecBase* own = nullptr;    // executor of the coroutine itself (sticky)

  void count_down(int i) {
    data[i] = 10 + i;
    begun.inc();
  }
  void check_released(const char* who) {
    MC_CHECK(begun.get() == total, "%s released when only %d of %d operations had begun", who, begun.get(), total);
    for (int i = 0; i < total; ++i) {
      MC_CHECK(data[i] == 10 + i, "%s does not see what was written before operation %d", who, i);
    }
    released.inc();
  }
};

template <typename Ev>
Future<> waiter_coro(World& w, Ev& ev, WaitK k) {
  Box local{5};
  if (w.own != nullptr) co_await On(*w.own);
  switch (k) {
    case WInline:
      co_await ev.AwaitInline();
      break;
    case WShort:
      co_await ev;
      break;
    case WSticky:
      co_await ev.AwaitSticky();
      MC_CHECK(w.own == nullptr || where() == w.own->id(), "sticky waiter resumed outside its executor (in %d)", where());
      break;
    default:
      co_await ev.AwaitOn(*w.exec);
      MC_CHECK(where() == w.exec->id(), "AwaitOn resumed in %d", where());
      break;
  }
  MC_CHECK(val(local) == 5);
  MC_CHECK(w.resumed.inc() <= 8);
  w.check_released(kWait[k]);
  co_return{};
}

constexpr long long kDur = 100;

// One waiter on the calling thread. Coroutine waiters are started and their future is collected by join.
template <typename Ev>
void wait_one(World& w, Ev& ev, WaitK k) {
  switch (k) {
    case WWait:
      ev.Wait();
      w.check_released("Wait");
      break;
    case WFor:
    case WUntil:
    case WFor0: {
      const long long t0 = mc::now_ns();
      const long long d = k == WFor0 ? 0 : kDur;
      bool ok = k == WUntil ? ev.WaitUntil(std::chrono::steady_clock::now() + 100ns)
                            : ev.WaitFor(std::chrono::nanoseconds{d});
      if (ok) {
        w.check_released(kWait[k]);
      } else {
        MC_CHECK(mc::now_ns() >= t0 + d, "%s timed out early", kWait[k]);
        w.timed_out.inc();
        w.released.inc();
      }
      break;
    }
    case WNone:
      w.released.inc();
      break;
    default: {
      auto f = waiter_coro(w, ev, k);
      auto r = std::move(f).Get();
      MC_CHECK(r.State() == ResultState::Value, "waiter did not finish normally");
    }
  }
}

// ---- operations that bring the count to zero ----------------------------------------------------
enum OpK { ODone, OAddDone, OAttach, OConsume, OAttachIt, OConsumeIt, OAttachMixed, OConsumeExc, OAttachDrop, ODone2, OKinds };
const char* const kOp[] = {"Done",         "Add+Done+Done", "Attach",      "Consume",    "Attach-range",
                           "Consume-count", "Attach-mixed",  "Consume-exc", "Attach-drop", "Done(2)"};
int weight(OpK k) {
  return k == OAddDone || k == OAttachIt || k == OConsumeIt || k == OAttachMixed || k == ODone2 ? 2 : 1;
}

enum Exec { EHere, ESpawn };

struct Cfg {
  std::vector<OpK> ops;           // each runs on a thread of its own (or all on one)
  std::vector<WaitK> ws;          // first one on main, the others on threads of their own
  bool one_thread = false;        // all operations on one thread
  bool need_add = true;           // implicit Add in Attach / Consume, or an explicit one before
  Exec ex = EHere;
  int again = 0;                  // after the end: 1: a late waiter, 2: Reset and a second round
};

void run(const Cfg& c) {
  World w;
  SpawnExec se{1};
  HereExec he{2}, own{3};
  w.exec = c.ex == ESpawn ? static_cast<ExecBase*>(&se) : &he;
  w.own = &own;
  for (auto o : c.ops) w.total += weight(o);
  {
    WaitGroup<> wg{1};            // one count held by main until everything is registered: Add must not race with zero
    int id = 0;
    std::vector<std::vector<F>> kept(c.ops.size());
    std::vector<std::function<void()>> todo;
    std::vector<P> proms(8);
    std::vector<Cnt> pbegun(8);
    std::vector<std::vector<int>> pidx(c.ops.size());
    int np = 0;
    auto contract = [&](std::vector<F>& fs, std::vector<int>& idx) {
      auto [f, p] = MakeContract<Box, Err>();
      fs.push_back(std::move(f));
      proms[np] = std::move(p);
      idx.push_back(np++);
    };
    w.total += 1;
    w.count_down(id++);   // main's own count, data slot 0
    w.begun.dec();
    for (size_t o = 0; o < c.ops.size(); ++o) {
      auto& fs = kept[o];
      auto& ix = pidx[o];
      const int base = id;
      switch (c.ops[o]) {
        case ODone:
          wg.Add();
          id += 1;
          todo.push_back([&w, &wg, base] {
            w.count_down(base);
            wg.Done();
          });
          break;
        case ODone2:
          wg.Add(2);
          id += 2;
          todo.push_back([&w, &wg, base] {
            w.count_down(base);
            w.count_down(base + 1);
            wg.Done(2);
          });
          break;
        case OAddDone:
          wg.Add();
          id += 2;
          todo.push_back([&w, &wg, base] {
            wg.Add();
            w.count_down(base);
            wg.Done();
            w.count_down(base + 1);
            wg.Done();
          });
          break;
        default: {
          const bool consume = c.ops[o] == OConsume || c.ops[o] == OConsumeIt || c.ops[o] == OConsumeExc;
          const int n = weight(c.ops[o]);
          id += n;
          for (int i = 0; i < n; ++i) contract(fs, ix);
          if (c.ops[o] == OAttachMixed) {   // the first one is already complete
            w.count_down(base);
            std::move(proms[ix[0]]).Set(Box{70 + ix[0]});
            pbegun[ix[0]].set(1);
          }
          if (!c.need_add) wg.Add(n);
          if (c.ops[o] == OAttachIt) {
            c.need_add ? wg.Attach(fs.begin(), fs.end()) : wg.Attach<false>(fs.begin(), fs.end());
          } else if (c.ops[o] == OConsumeIt) {
            c.need_add ? wg.Consume(fs.begin(), std::size_t(n)) : wg.Consume<false>(fs.begin(), std::size_t(n));
          } else if (n == 2) {
            c.need_add ? wg.Attach(fs[0], fs[1]) : wg.Attach<false>(fs[0], fs[1]);
          } else if (consume) {
            c.need_add ? wg.Consume(std::move(fs[0])) : wg.Consume<false>(std::move(fs[0]));
          } else {
            c.need_add ? wg.Attach(fs[0]) : wg.Attach<false>(fs[0]);
          }
          if (consume) {
            for (auto& f : fs) MC_CHECK(!f.Valid(), "consumed future still valid");
            fs.clear();
          }
          auto k = c.ops[o];
          todo.push_back([&w, &proms, &pbegun, ix, base, k, n] {
            for (int i = k == OAttachMixed ? 1 : 0; i < n; ++i) {
              w.count_down(base + i);
              pbegun[ix[i]].set(1);
              if (k == OConsumeExc) {
                std::move(proms[ix[i]]).Set(std::make_exception_ptr(Exc{3}));
              } else if (k == OAttachDrop) {
                auto d = std::move(proms[ix[i]]);
              } else {
                std::move(proms[ix[i]]).Set(Box{70 + ix[i]});
              }
            }
          });
        }
      }
    }
    if (c.one_thread) {
      mc::spawn([&todo] {
        for (auto& t : todo) t();
      });
    } else {
      for (auto& t : todo) {
        mc::spawn([&t] {
          t();
        });
      }
    }
    for (size_t i = 1; i < c.ws.size(); ++i) {
      mc::spawn([&w, &wg, k = c.ws[i]] {
        wait_one(w, wg, k);
      });
    }
    w.begun.inc();
    wg.Done();                    // main's own count: from here on zero is reached by the last operation
    // attached futures: valid, and Ready only once complete, then readable
    auto peek = [&](bool must) {
      for (size_t o = 0; o < kept.size(); ++o) {
        for (size_t i = 0; i < kept[o].size(); ++i) {
          auto& f = kept[o][i];
          MC_CHECK(f.Valid());
          if (f.Ready()) {
            MC_CHECK(pbegun[pidx[o][i]].get() == 1, "attached future Ready before it completed");
            int cd = code(std::as_const(f).Touch());
            MC_CHECK(cd == (c.ops[o] == OAttachDrop ? kStop : 70 + pidx[o][i]), "attached future holds %d", cd);
          } else {
            MC_CHECK(!must, "attached future not Ready after the wait");
          }
        }
      }
    };
    if (c.ws[0] == WNone || c.ws[0] == WFor) peek(false);
    const int before = w.timed_out.get();
    wait_one(w, wg, c.ws[0]);
    if (c.ws[0] != WNone && w.timed_out.get() == before) peek(true);
    if (w.timed_out.get() != before) peek(false);
    if (c.again == 1) {           // released waiter, then one more that arrives late
      wg.Wait();
      w.check_released("second Wait");
      w.released.dec();
    }
    mc::join_all();
    MC_CHECK(w.released.get() == int(c.ws.size()), "%d of %zu waiters released", w.released.get(), c.ws.size());
    peek(true);
    MC_CHECK(wg.Count() == 0, "count is %zu", wg.Count());
    // late arrivals return at once
    wait_one(w, wg, WWait);
    wait_one(w, wg, WFor);
    MC_CHECK(w.timed_out.get() <= int(c.ws.size()), "late WaitFor timed out");
    const int to = w.timed_out.get();
    wait_one(w, wg, WFor0);
    MC_CHECK(w.timed_out.get() == to, "late WaitFor(0) returned false");
    wait_one(w, wg, WInline);
    wait_one(w, wg, WSticky);
    if (c.again == 2) {
      w.begun.set(0);
      w.total = 1;
      wg.Reset(1);
      MC_CHECK(wg.Count() == 1);
      mc::spawn([&] {
        w.count_down(0);
        wg.Done();
      });
      wait_one(w, wg, WWait);
      mc::join_all();
    }
    // owners go on using their attached futures
    for (size_t o = 0; o < kept.size(); ++o) {
      for (size_t i = 0; i < kept[o].size(); ++i) {
        int e = c.ops[o] == OAttachDrop ? kStop : 70 + pidx[o][i];
        if (i == 0) {
          MC_CHECK(code(std::move(kept[o][i]).Get()) == e);
        } else {
          int hit = 0;
          std::move(kept[o][i]).DetachInline([&](Result<Box, Err>&& r) {
            MC_CHECK(code(r) == e);
            ++hit;
          });
          MC_CHECK(hit == 1);
        }
      }
    }
    mc::outcome("t%d", w.timed_out.get());
  }
}

// The waiter destroys the WaitGroup as soon as it is released.
void destroy(WaitK k, int ops) {
  World w;
  HereExec he{2};
  w.exec = &he;
  w.own = nullptr;
  w.total = ops;
  auto* wg = new WaitGroup<>{std::size_t(ops)};
  for (int i = 0; i < ops; ++i) {
    mc::spawn([&w, wg, i] {
      w.count_down(i);
      wg->Done();
    });
  }
  wait_one(w, *wg, k);
  if (w.timed_out.get() == 0) {
    delete wg;
    wg = nullptr;
  }
  mc::join_all();
  delete wg;
}

// ---- OneShotEvent ---------------------------------------------------------------------------------
struct TJob : Job {
  World* w = nullptr;
  Cnt calls;
  void Call() noexcept final {
    MC_CHECK(calls.inc() == 1, "job called twice");
    MC_CHECK(w->begun.get() == w->total, "job called before Set");
    MC_CHECK(w->data[0] == 10);
  }
  void Drop() noexcept final {
    mc::fail("job dropped");
  }
  void IncRef() noexcept final {
  }
  void DecRef() noexcept final {
  }
};

enum EvK { ETry = 100, EReady };

void event_actor(World& w, OneShotEvent& ev, int k, TJob& job) {
  if (k == ETry) {
    job.w = &w;
    bool ok = ev.TryAdd(job);
    if (!ok) {
      MC_CHECK(w.begun.get() == w.total, "TryAdd refused before Set");
      MC_CHECK(w.data[0] == 10);
      MC_CHECK(job.calls.get() == 0, "refused job called");
      job.calls.inc();   // accounted for
    }
    w.released.inc();
  } else if (k == EReady) {
    if (ev.Ready()) {
      MC_CHECK(w.begun.get() == w.total, "Ready before Set");
      MC_CHECK(w.data[0] == 10);
      ev.Wait();
    }
    w.released.inc();
  } else {
    wait_one(w, ev, WaitK(k));
  }
}

void event(const std::vector<int>& ks, bool ex_spawn, bool with_reset) {
  World w;
  SpawnExec se{1};
  HereExec he{2}, own{3};
  w.exec = ex_spawn ? static_cast<ExecBase*>(&se) : &he;
  w.own = &own;
  w.total = 1;
  OneShotEvent ev;
  std::vector<TJob> jobs(8);
  for (int round = 0; round < (with_reset ? 2 : 1); ++round) {
    mc::spawn([&] {
      w.count_down(0);
      ev.Set();
    });
    for (size_t i = 1; i < ks.size(); ++i) {
      mc::spawn([&, i] {
        event_actor(w, ev, ks[i], jobs[i + round * 4]);
      });
    }
    event_actor(w, ev, ks[0], jobs[round * 4]);
    mc::join_all();
    MC_CHECK(w.released.get() == int(ks.size()), "%d of %zu released", w.released.get(), ks.size());
    for (size_t i = 0; i < ks.size(); ++i) {
      if (ks[i] == ETry) {
        MC_CHECK(jobs[i + round * 4].calls.get() == 1, "accepted job called %d times", jobs[i + round * 4].calls.get());
      }
    }
    MC_CHECK(ev.Ready());
    TJob late;
    late.w = &w;
    MC_CHECK(!ev.TryAdd(late), "TryAdd accepted after Set");
    wait_one(w, ev, WWait);
    const int to = w.timed_out.get();
    wait_one(w, ev, WFor0);
    MC_CHECK(w.timed_out.get() == to);
    wait_one(w, ev, WShort);
    if (with_reset) {
      ev.Reset();
      MC_CHECK(!ev.Ready());
      w.begun.set(0);
      w.released.set(0);
    }
  }
}

// Call(): everybody registered so far is called once, the event is not set.
void call_event(int n) {
  World w;
  w.total = 1;
  OneShotEvent ev;
  std::vector<TJob> jobs(n);
  w.count_down(0);
  Cnt added;
  for (int i = 0; i < n; ++i) {
    mc::spawn([&, i] {
      jobs[i].w = &w;
      MC_CHECK(ev.TryAdd(jobs[i]));
    });
  }
  ev.Call();
  MC_CHECK(!ev.Ready());
  mc::join_all();
  ev.Set();
  for (auto& j : jobs) MC_CHECK(j.calls.get() == 1, "called %d times", j.calls.get());
}

// The waiter destroys the event as soon as it is released.
void event_destroy(int k) {
  World w;
  HereExec he{2};
  w.exec = &he;
  w.total = 1;
  auto* ev = new OneShotEvent;
  mc::spawn([&w, ev] {
    w.count_down(0);
    ev->Set();
  });
  wait_one(w, *ev, WaitK(k));
  if (w.timed_out.get() == 0) {
    delete ev;
    ev = nullptr;
  }
  mc::join_all();
  delete ev;
}

std::string wn(int k) {
  return k == ETry ? "TryAdd" : k == EReady ? "Ready" : kWait[k];
}

MC_TESTS {
  // one operation kind x one waiter kind
  for (int o = 0; o < OKinds; ++o) {
    for (int k = 0; k < WKinds; ++k) {
      for (int na = 0; na < 2; ++na) {
        if (na == 0 && (o == ODone || o == OAddDone || o == ODone2)) continue;
        for (int again = 0; again < 3; ++again) {
          if (again == 1 && (k == WWait || k == WNone)) continue;
          for (int ex = 0; ex < (k == WOn ? 2 : 1); ++ex) {
            Cfg c{{OpK(o)}, {WaitK(k)}, false, na == 1, Exec(ex), again};
            mc::Opts op{.mask = kMask, .weak_fail = 1};
            mc::add_test(std::string("wg/") + kOp[o] + "/" + kWait[k] + (na ? "" : "/explicit-add") + "/again" + std::to_string(again) +
                           (ex ? "/spawn" : ""),
                         op, [c] {
                           run(c);
                         });
          }
        }
      }
    }
  }
  // two operations, two waiters
  for (int o1 = 0; o1 < OKinds; ++o1) {
    for (int o2 = o1; o2 < OKinds; ++o2) {
      for (int k1 = 0; k1 < WKinds; ++k1) {
        for (int k2 = 0; k2 <= WKinds; ++k2) {
          for (int one = 0; one < 2; ++one) {
            if (k2 == WNone) continue;
            if (k1 == WNone && k2 == WKinds) continue;
            Cfg c{{OpK(o1), OpK(o2)}, {WaitK(k1)}, one == 1, true, k1 == WOn && k2 != WOn ? ESpawn : EHere, 0};
            if (k2 != WKinds) c.ws.push_back(WaitK(k2));
            mc::Opts op{.mask = kMask};
            const bool simple = o2 == ODone || (o1 == ODone && (o2 == OAttach || o2 == OConsume)) || (o1 == OAttach && o2 == OConsume);
            op.thorough = k2 != WKinds && (one == 0 || !simple) && !(simple && k1 == WWait);
            if (k2 != WKinds && !simple && (k1 == WShort || k2 == WShort || k1 == WUntil || k2 == WUntil)) continue;
            mc::add_test(std::string("wg2/") + kOp[o1] + "+" + kOp[o2] + (one ? "/1thr/" : "/2thr/") + wn(k1) +
                           (k2 != WKinds ? "+" + wn(k2) : ""),
                         op, [c] {
                           run(c);
                         });
          }
        }
      }
    }
  }
  for (int k = 0; k < WKinds - 1; ++k) {
    for (int n = 1; n <= 3; ++n) {
      mc::add_test("wg-destroy/" + wn(k) + "/" + std::to_string(n), {.mask = kMask}, [=] {
        destroy(WaitK(k), n);
      });
    }
    mc::add_test("event-destroy/" + wn(k), {.mask = kMask}, [=] {
      event_destroy(k);
    });
  }
  std::vector<int> all;
  for (int k = 0; k < WKinds - 1; ++k) all.push_back(k);
  all.push_back(ETry);
  all.push_back(EReady);
  for (int a : all) {
    for (int rs = 0; rs < 2; ++rs) {
      for (int ex = 0; ex < (a == WOn ? 2 : 1); ++ex) {
        mc::add_test("event/" + wn(a) + (rs ? "/reset" : "") + (ex ? "/spawn" : ""), {.mask = kMask, .weak_fail = 1}, [=] {
          event({a}, ex, rs);
        });
      }
    }
    for (int b : all) {
      mc::add_test("event/" + wn(a) + "+" + wn(b), {.mask = kMask, .weak_fail = a == ETry && b == ETry ? 1 : 0}, [=] {
        event({a, b}, false, false);
      });
      for (int d : all) {
        if (d < b || b == WShort || d == WShort || a == WShort || b == WUntil || d == WUntil || a == WUntil) continue;
        mc::Opts op{.mask = kMask};
        op.thorough = !(a == ETry || b == ETry) || a == WOn || a == WFor0;
        mc::add_test("event/" + wn(a) + "+" + wn(b) + "+" + wn(d), op, [=] {
          event({a, b, d}, false, false);
        });
      }
    }
  }
  for (int n = 1; n <= 3; ++n) {
    mc::add_test("event-call/" + std::to_string(n), {.mask = kMask, .weak_fail = n < 3 ? 1 : 0}, [=] {
      call_event(n);
    });
  }
};

}  // namespace
