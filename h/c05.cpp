// C05: every job is Called xor Dropped, and steps run where they were told: real executors under concurrency.
// (Where the steps of a pipeline run, which executor they inherit and what a refusing executor does to a chain is
// enumerated by pipe.cpp.)
#include "coro.hpp"
#include "jobs.hpp"

using namespace yaclib;
using namespace h;

namespace {

#ifndef MC_MASK
#  define MC_MASK mc::kAll
#endif
constexpr unsigned kMask = MC_MASK;

enum Ex { xInline, xStopped, xManual, xPool1, xPool2, xStrand, xStrand2, xStrandSpawn, xSpawn, Exs };
const char* const kEx[] = {"Inline", "Inline(stop)", "Manual", "Pool1", "Pool2", "Strand(Pool1)", "Strand(Strand(Pool1))", "Strand(Spawn)",
                           "Spawn"};
enum Stop { oNone, oStop, oSoft, oHard, Stops };
const char* const kStopN[] = {"run", "Stop", "SoftStop", "HardStop"};

// result values of a step as seen at the end of its chain
struct Seen {
  Cnt calls;
  int where_ok = 1;
  int code = -1;
};

struct Env {
  Ex x;
  IntrusivePtr<FairThreadPool> pool;
  SpawnExec spawn{7};
  SpawnExec other{8};
  IExecutorPtr e;
  int workers = 0;

  explicit Env(Ex k) : x(k) {
    switch (k) {
      case xInline:
        e = &MakeInline();
        break;
      case xStopped:
        e = &MakeInline(StopTag{});
        break;
      case xManual:
        e = MakeManual();
        break;
      case xPool1:
      case xPool2:
        workers = k == xPool1 ? 1 : 2;
        pool = MakeFairThreadPool(workers);
        e = pool;
        break;
      case xStrand:
      case xStrand2:
        workers = 1;
        pool = MakeFairThreadPool(1);
        e = MakeStrand(pool);
        if (k == xStrand2) e = MakeStrand(e);
        break;
      case xStrandSpawn:
        e = MakeStrand(IExecutorPtr{&spawn});
        break;
      default:
        e = &spawn;
    }
  }
  // is the caller running inside e?
  bool inside() const {
    switch (x) {
      case xPool1:
      case xPool2:
      case xStrand:
      case xStrand2:
        return mc::self() >= 1 && mc::self() <= workers;   // the pool's threads are created first
      case xStrandSpawn:
      case xSpawn:
        return where() == 7;
      default:
        return true;
    }
  }
  bool strand() const {
    return x == xStrand || x == xStrand2 || x == xStrandSpawn;
  }
  void stop(Stop s) {
    if (!pool) return;
    switch (s) {
      case oStop:
        pool->Stop();
        break;
      case oSoft:
        pool->SoftStop();
        break;
      case oHard:
        pool->HardStop();
        break;
      default:
        break;
    }
  }
  void drain() {
    if (x == xManual) std::ignore = static_cast<ManualExecutor&>(*e).Drain();
  }
  void finish() {
    drain();
    if (pool) {
      pool->Stop();
      pool->Wait();
    }
    mc::join_all();
  }
};

// jobs made from functions: the functor is destroyed exactly once whether called or dropped
struct Fn {
  Env* env;
  Life life;
  Cnt* called;
  Cnt* active;
  int* data;
  int* pre;
  void operator()() {
    life.use();
    called->inc();
    MC_CHECK(env->inside(), "a job ran outside its executor");
    MC_CHECK(*pre == 9);
    if (env->strand() || env->x == xPool1) {
      MC_CHECK(active->inc() == 1);
      *data += 1;
      active->dec();
    }
  }
};

void jobs(Ex x, Stop s, int threads, int per) {
  Env env{x};
  Cnt live, active;
  Cnt called[4];
  int data = 0;
  int pre[2] = {0, 0};
  mc::Ghost<int> stopped{0};
  Mon mon;
  mon.exclusive = env.strand() || x == xPool1;
  MJob mj[2];
  auto work = [&](int t) {
    pre[t] = 9;
    for (int i = 0; i < per; ++i) {
      Submit(*env.e, Fn{&env, Life{live}, &called[t * 2 + i], &active, &data, &pre[t]});
    }
    mj[t].arm(mon, t);
    env.e->Submit(mj[t]);
  };
  if (s != oNone) {
    mc::spawn([&] {
      env.stop(s);
    });
  }
  int t2 = 0;
  if (threads == 2) {
    t2 = mc::spawn([&] {
      work(1);
    });
  }
  work(0);
  env.drain();
  if (t2 != 0) mc::join(t2);
  if (env.pool && s == oNone) env.pool->SoftStop();
  mc::join_all();
  env.finish();
  int n = 0;
  for (int t = 0; t < threads; ++t) {
    for (int i = 0; i < per; ++i) {
      int c = called[t * 2 + i].get();
      MC_CHECK(c <= 1, "a job was called %d times", c);
      n += c;
      if (s == oNone && x != xStopped) MC_CHECK(c == 1, "a job was not called");
      if (x == xStopped) MC_CHECK(c == 0);
    }
    MC_CHECK(mj[t].calls.get() + mj[t].drops.get() == 1, "a job was called %d and dropped %d times", mj[t].calls.get(), mj[t].drops.get());
    if (s == oNone && x != xStopped) MC_CHECK(mj[t].drops.get() == 0, "a job was dropped although the executor was not stopped");
  }
  MC_CHECK(live.get() == 0, "%d functors not destroyed", live.get());
  mc::outcome("%d", n);
}

// chains: one step on e between two steps in place
enum StepK { kThenV, kThenR, kDetach, kRun, kRunThen, kOn, kOnYield, kOnOther, kShared, kContractOn, kLazy, StepKs };
const char* const kStepN[] = {"Then(V)", "Then(Result)", "Detach", "Run", "Run.Then", "On", "On+Yield", "On(other)+On+Yield", "Shared.Then", "ContractOn.Then",
                              "Schedule"};

Future<int> coro_on(Env* env, Cnt* ran, Life life, Future<int> f, bool yield, bool other) {
  int v = co_await std::move(f);
  if (other) {
    co_await On(env->other);
    MC_CHECK(where() == 8, "a coroutine was resumed outside the executor it asked for");
  }
  co_await On(*env->e);
  MC_CHECK(env->inside(), "a coroutine was resumed outside the executor it asked for");
  if (other) {
    MC_CHECK(&co_await CurrentExecutor() == env->e.Get(), "a coroutine does not know the executor it asked for");
  }
  if (yield) {
    co_await Yield();
    MC_CHECK(env->inside(), "a coroutine was resumed outside the executor it asked for");
  }
  life.use();
  ran->inc();
  co_return v + 1;
}

void chain(Ex x, Stop s, StepK k, bool two) {
  Env env{x};
  Cnt live;
  Cnt ran[2], last[2];
  int code_[2] = {-1, -1};
  Cnt active;
  int data = 0;   // touched inside the strand
  int before = 0;
  auto value = [&](int i) {
    return [&, i, life = Life{live}](int v) {
      life.use();
      MC_CHECK(env.inside(), "a step ran outside its executor");
      MC_CHECK(ran[i].inc() == 1, "a step ran twice");
      MC_CHECK(before == 1);
      if (env.strand()) {
        MC_CHECK(active.inc() == 1, "two jobs of a strand at once");
        data += 1;
        active.dec();
      }
      return v + 1;
    };
  };
  auto nothing = [&](int i) {
    return [&, i, f = value(i)] {
      return f(5);
    };
  };
  auto end = [&](int i) {
    return [&, i, life = Life{live}](Result<int>&& r) {
      life.use();
      MC_CHECK(last[i].inc() == 1, "the rest of the chain ran twice");
      code_[i] = code(r);
    };
  };
  auto one = [&](int i) {
    auto [f, p] = MakeContract<int>();
    switch (k) {
      case kThenV:
        std::move(f).Then(*env.e, value(i)).DetachInline(end(i));
        break;
      case kThenR:
        std::move(f)
          .Then(*env.e,
                [&, i, g = value(i)](Result<int>&& r) mutable -> Result<int> {
                  if (!r) return std::move(r);
                  return g(std::move(r).Value());
                })
          .DetachInline(end(i));
        break;
      case kDetach:
        std::move(f).Detach(*env.e, [&, i, g = value(i)](Result<int>&& r) mutable {
          int c = r ? g(std::as_const(r).Value()) : code(r);
          MC_CHECK(last[i].inc() == 1);
          code_[i] = c;
        });
        break;
      case kRun:
        Run(*env.e, nothing(i)).On(nullptr).DetachInline(end(i));
        break;
      case kRunThen:
        Run(*env.e,
            [] {
              return 5;
            })
          .Then(value(i))
          .DetachInline(end(i));
        break;
      case kOn:
      case kOnYield:
      case kOnOther:
        coro_on(&env, &ran[i], Life{live}, std::move(f), k != kOn, k == kOnOther).DetachInline(end(i));
        break;
      case kShared: {
        auto [sf, sp] = MakeSharedContract<int>();
        sf.Then(*env.e, value(i)).DetachInline(end(i));
        std::move(sp).Set(5);
        break;
      }
      case kContractOn: {
        auto [fo, po] = MakeContractOn<int>(*env.e);
        std::move(fo).Then(value(i)).DetachInline(end(i));
        std::move(po).Set(5);
        break;
      }
      case kLazy:
        Schedule(*env.e, nothing(i)).Then(*env.e, [life = Life{live}](int v) {
          life.use();
          return v;
        }).ToFuture().DetachInline(end(i));
        break;
      default:
        break;
    }
    std::move(p).Set(5);
  };
  before = 1;
  if (s != oNone) {
    mc::spawn([&] {
      env.stop(s);
    });
  }
  int t2 = 0;
  if (two) {
    t2 = mc::spawn([&] {
      one(1);
    });
  }
  one(0);
  env.drain();
  if (t2 != 0) mc::join(t2);
  if (env.pool && s == oNone) env.pool->SoftStop();
  mc::join_all();
  env.finish();
  for (int i = 0; i < (two ? 2 : 1); ++i) {
    MC_CHECK(last[i].get() == 1, "the rest of the chain did not complete");
    if (ran[i].get() == 1 && code_[i] == kStop) {
      MC_CHECK(k == kLazy || (k == kOnYield && s != oNone) || (k == kOnOther && env.pool), "the step ran but its result is lost");
    } else if (ran[i].get() == 1) {
      MC_CHECK(code_[i] == 6, "the step ran but the chain got %d", code_[i]);
    } else {
      MC_CHECK(code_[i] == kStop, "the step did not run and the chain got %d", code_[i]);
      // (with a detour over the other executor the pool may have stopped meanwhile)
      MC_CHECK(s != oNone || x == xStopped || (k == kOnOther && env.pool), "the step did not run although its executor was not stopped");
    }
  }
  MC_CHECK(live.get() == 0, "%d functors not destroyed", live.get());
  mc::outcome("%d %d", code_[0], code_[1]);
}

// a ManualExecutor: everything submitted, also while draining, runs in Drain and nowhere else
void manual(int n, int nested) {
  auto e = MakeManual();
  Cnt ran, live;
  bool draining = false;
  for (int i = 0; i < n; ++i) {
    Submit(*e, [&, i, life = Life{live}] {
      life.use();
      MC_CHECK(draining, "a job of a ManualExecutor ran outside Drain");
      MC_CHECK(ran.inc() == i + 1, "jobs ran out of order");
      if (i < nested) {
        Submit(*e, [&, life = Life{live}] {
          life.use();
          MC_CHECK(draining);
          ran.inc();
        });
      }
    });
  }
  MC_CHECK(ran.get() == 0);
  draining = true;
  std::size_t k = static_cast<ManualExecutor&>(*e).Drain();
  draining = false;
  MC_CHECK(static_cast<int>(k) == n + nested && ran.get() == n + nested, "Drain ran %d of %d jobs", ran.get(), n + nested);
  MC_CHECK(static_cast<ManualExecutor&>(*e).Drain() == 0);
  MC_CHECK(live.get() == 0);
}

MC_TESTS {
  mc::Opts o;
  o.mask = kMask;
  for (int x = 0; x < Exs; ++x) {
    bool pool = x >= xPool1 && x <= xStrand2;
    bool conc = x >= xPool1;
    for (int s = 0; s < (pool ? Stops : 1); ++s) {
      std::string b = std::string{kEx[x]} + "/" + kStopN[s];
      for (int t = 1; t <= (conc ? 2 : 1); ++t) {
        for (int per = 0; per <= 1; ++per) {
          o.thorough = t == 2 && per == 1 && (x == xPool2 || x == xStrand2 || x == xStrandSpawn || s != oNone);
          mc::add_test("jobs/" + b + "/" + std::to_string(t) + "x" + std::to_string(per + 1), o, [=] {
            jobs(static_cast<Ex>(x), static_cast<Stop>(s), t, per);
          });
        }
      }
      for (int k = 0; k < StepKs; ++k) {
        for (int two = 0; two <= (conc ? 1 : 0); ++two) {
          if (x == xManual && k == kOnOther) continue;   // the other thread would submit while this one drains
          o.thorough = two && (x == xPool2 || x == xStrand2 || s != oNone || k == kRun || k == kOnYield || k == kOnOther || k == kRunThen || k == kLazy);
          mc::add_test(std::string{"chain/"} + b + "/" + kStepN[k] + (two ? "x2" : ""), o, [=] {
            chain(static_cast<Ex>(x), static_cast<Stop>(s), static_cast<StepK>(k), two);
          });
        }
      }
    }
  }
  o.thorough = false;
  for (int n = 0; n <= 3; ++n) {
    for (int m = 0; m <= n; ++m) {
      mc::add_test("manual/" + std::to_string(n) + "+" + std::to_string(m), o, [=] {
        manual(n, m);
      });
    }
  }
};

}  // namespace
