// C20: combinators over plain futures allocate a constant number of blocks; waiting, Get, submitting an existing job to a Strand and
// co_await of futures allocate nothing.  (Allocations per pipeline step: pipe.cpp.)
#include "coro.hpp"
#include "jobs.hpp"

#include <tuple>
#include <vector>

using namespace yaclib;
using namespace h;
using namespace std::chrono_literals;

namespace {

constexpr unsigned kMask = mc::kBasic;

using F = Future<Num, Err>;
using P = Promise<Num, Err>;
using R = Result<Num, Err>;

// ---- combinators ---------------------------------------------------------------------------------
enum Comb { kAllFF, kAllNone, kAnyLast, kAnyFirst, kAnyNone, kJoinFF, kJoinNone, Combs };
const char* const kCombN[] = {"All/FirstFail", "All/None", "Any/LastFail", "Any/FirstFail", "Any/None", "Join/FirstFail", "Join/None"};

template <typename Fut>
void consume(Fut f, int how) {
  if (how == 0) {
    std::ignore = std::move(f).Get();
  } else {
    auto drop = std::move(f);
  }
}

template <typename... A>
void combine(Comb c, int how, std::vector<P>& ps, int order, int fail, A&&... a) {
  auto fulfil = [&] {
    int n = static_cast<int>(ps.size());
    for (int i = 0; i < n; ++i) {
      int k = order == 0 ? i : n - 1 - i;
      if (!ps[k].Valid()) continue;
      bool bad = fail == 1 ? k == n / 2 : fail == 2;
      if (bad) {
        std::move(ps[k]).Set(Err{k});
      } else {
        std::move(ps[k]).Set(Num{k});
      }
    }
  };
  auto run = [&](auto f) {
    fulfil();
    consume(std::move(f), how);
  };
  switch (c) {
    case kAllFF:
      return run(WhenAll<FailPolicy::FirstFail>(std::forward<A>(a)...));
    case kAllNone:
      return run(WhenAll<FailPolicy::None>(std::forward<A>(a)...));
    case kAnyLast:
      return run(WhenAny<FailPolicy::LastFail>(std::forward<A>(a)...));
    case kAnyFirst:
      return run(WhenAny<FailPolicy::FirstFail>(std::forward<A>(a)...));
    case kAnyNone:
      return run(WhenAny<FailPolicy::None>(std::forward<A>(a)...));
    case kJoinFF:
      return run(Join<FailPolicy::FirstFail>(std::forward<A>(a)...));
    default:
      return run(Join<FailPolicy::None>(std::forward<A>(a)...));
  }
}

struct Shape {
  Comb c;
  int order, fail, ready, how;   // ready: every k-th input already completed (0: none)
  bool on;                       // FutureOn inputs
};

// allocations of one combinator over n inputs; form 0: (it, n), 1: (begin, end), 2: variadic
std::size_t count(const Shape& s, int n, int form) {
  std::vector<P> ps;
  std::vector<F> fs;
  std::vector<decltype(std::declval<F>().Then(MakeInline(), [](Num v) { return v; }))> fo;
  {
    mc::NoTrack nt;
    for (int i = 0; i < n; ++i) {
      auto [f, p] = MakeContract<Num, Err>();
      if (s.ready != 0 && i % s.ready == 0) {
        std::move(p).Set(Num{i});
        p = P{};
      }
      ps.push_back(std::move(p));
      if (s.on) {
        fo.push_back(std::move(f).ThenInline([](Num v) { return v; }).Then(MakeInline(), [](Num v) { return v; }));
      } else {
        fs.push_back(std::move(f));
      }
    }
  }
  std::size_t before = mc::total_allocs();
  auto go = [&](auto& v) {
    if (form == 0) {
      combine(s.c, s.how, ps, s.order, s.fail, v.begin(), static_cast<std::size_t>(n));
    } else if (form == 1) {
      combine(s.c, s.how, ps, s.order, s.fail, v.begin(), v.end());
    } else {
      switch (n) {
        case 1:
          return combine(s.c, s.how, ps, s.order, s.fail, std::move(v[0]));
        case 2:
          return combine(s.c, s.how, ps, s.order, s.fail, std::move(v[0]), std::move(v[1]));
        case 3:
          return combine(s.c, s.how, ps, s.order, s.fail, std::move(v[0]), std::move(v[1]), std::move(v[2]));
        case 8:
          return combine(s.c, s.how, ps, s.order, s.fail, std::move(v[0]), std::move(v[1]), std::move(v[2]), std::move(v[3]), std::move(v[4]),
                         std::move(v[5]), std::move(v[6]), std::move(v[7]));
        default:
          return combine(s.c, s.how, ps, s.order, s.fail, std::move(v[0]), std::move(v[1]), std::move(v[2]), std::move(v[3]), std::move(v[4]),
                         std::move(v[5]), std::move(v[6]), std::move(v[7]), std::move(v[8]), std::move(v[9]), std::move(v[10]),
                         std::move(v[11]), std::move(v[12]), std::move(v[13]), std::move(v[14]), std::move(v[15]));
      }
    }
  };
  if (s.on) {
    go(fo);
  } else {
    go(fs);
  }
  return mc::total_allocs() - before;
}

constexpr std::size_t kMost = 8;   // a constant no sensible implementation exceeds

void combinator(Comb c, int form) {
  Shape s{c, 0, 0, 0, 0, false};
  s.order = mc::choose(2, "order");
  s.fail = mc::choose(3, "fail");
  s.ready = mc::choose(3, "ready");
  s.how = mc::choose(2, "how");
  s.on = mc::choose(2, "on") != 0;
  std::size_t at[8];
  static const int kN[] = {1, 2, 3, 8, 16, 64, 150};
  int sizes = form == 2 ? 5 : 7;
  for (int i = 0; i < sizes; ++i) {
    at[i] = count(s, kN[i], form);
    MC_CHECK(at[i] <= kMost, "%s of %d inputs made %zu allocations", kCombN[c], kN[i], at[i]);
  }
  MC_CHECK(at[sizes - 1] <= at[sizes - 2], "%s: %zu allocations for %d inputs, %zu for %d", kCombN[c], at[sizes - 2], kN[sizes - 2],
           at[sizes - 1], kN[sizes - 1]);
  mc::outcome("%zu", at[sizes - 1]);
}

// ---- waiting -----------------------------------------------------------------------------------
enum Op {
  oWait,
  oWaitFor,
  oWaitUntil,
  oWaitIt,
  oWaitItN,
  oWaitForIt,
  oWaitUntilIt,
  oGet,
  oTouch,
  oAwait,
  oAwaitIt,
  oAwaitInline,
  oAwaitSticky,
  oAwaitOn,
  oCoFuture,
  oCoShared,
  oCoTask,
  Ops
};
const char* const kOp[] = {"Wait",  "WaitFor",     "WaitUntil",   "Wait(range)", "Wait(it,n)", "WaitFor(range)", "WaitUntil(range)", "Get", "Wait+Touch",
                           "Await", "Await(it,n)", "AwaitInline", "AwaitSticky", "AwaitOn",    "co_await Future", "co_await SharedFuture",
                           "co_await Task"};

struct Probe {
  std::size_t at = 0;
  void start() {
    at = mc::total_allocs();
  }
  void stop(const char* what) {
    std::size_t n = mc::total_allocs() - at;
    MC_CHECK(n == 0, "%s made %zu allocations", what, n);
  }
};

Future<int, Err> coro(Op op, int n, std::vector<F> fs, SharedFuture<Num, Err> sf, Probe* pr, IExecutor* e) {
  // the frame is allocated; nothing else may be
  pr->start();
  switch (op) {
    case oAwait:
      if (n == 1) {
        co_await Await(fs[0]);
      } else if (n == 2) {
        co_await Await(fs[0], fs[1]);
      } else {
        co_await Await(fs[0], fs[1], fs[2]);
      }
      break;
    case oAwaitIt:
      co_await Await(fs.begin(), fs.size());
      break;
    case oAwaitInline:
      if (n == 1) {
        co_await AwaitInline(fs[0]);
      } else if (n == 2) {
        co_await AwaitInline(fs[0], fs[1]);
      } else {
        co_await AwaitInline(fs[0], fs[1], fs[2]);
      }
      break;
    case oAwaitSticky:
      if (n == 1) {
        co_await AwaitSticky(fs[0]);
      } else if (n == 2) {
        co_await AwaitSticky(fs[0], fs[1]);
      } else {
        co_await AwaitSticky(fs[0], fs[1], fs[2]);
      }
      break;
    case oAwaitOn:
      if (n == 1) {
        co_await AwaitOn(*e, fs[0]);
      } else if (n == 2) {
        co_await AwaitOn(*e, fs[0], fs[1]);
      } else {
        co_await AwaitOn(*e, fs[0], fs[1], fs[2]);
      }
      break;
    case oCoFuture:
      for (auto& f : fs) std::ignore = co_await std::move(f);
      break;
    case oCoShared:
      std::ignore = co_await sf;
      break;
    default:
      break;
  }
  pr->stop(kOp[op]);
  co_return 1;
}

Future<int, Err> co_task(Task<Num, Err> t, Probe* pr) {
  pr->start();
  std::ignore = co_await std::move(t);
  pr->stop("co_await Task");
  co_return 1;
}

void wait(Op op, int n) {
  std::vector<F> fs;
  std::vector<P> ps;
  int first_pending = mc::choose(n + 1, "ready");   // inputs before it are ready
  for (int i = 0; i < n; ++i) {
    auto [f, p] = MakeContract<Num, Err>();
    if (i < first_pending) {
      std::move(p).Set(Num{i});
    } else {
      ps.push_back(std::move(p));
    }
    fs.push_back(std::move(f));
  }
  auto [sf, sp] = MakeSharedContract<Num, Err>();
  if (op == oCoShared && first_pending == n) {
    std::move(sp).Set(Num{1});
  } else {
    first_pending = -1;
  }
  HereExec e{7};
  Probe pr;
  // the completing thread allocates nothing either
  mc::spawn([&] {
    for (auto& p : ps) std::move(p).Set(Num{3});
    if (op == oCoShared && sp.Valid()) std::move(sp).Set(Num{2});
  });
  const auto at = std::chrono::steady_clock::now() + 100ns;
  switch (op) {
    case oWait:
      pr.start();
      if (n == 1) {
        Wait(fs[0]);
      } else if (n == 2) {
        Wait(fs[0], fs[1]);
      } else {
        Wait(fs[0], fs[1], fs[2]);
      }
      break;
    case oWaitFor:
      pr.start();
      if (n == 1) {
        std::ignore = WaitFor(100ns, fs[0]);
      } else if (n == 2) {
        std::ignore = WaitFor(100ns, fs[0], fs[1]);
      } else {
        std::ignore = WaitFor(100ns, fs[0], fs[1], fs[2]);
      }
      break;
    case oWaitUntil:
      pr.start();
      if (n == 1) {
        std::ignore = WaitUntil(at, fs[0]);
      } else if (n == 2) {
        std::ignore = WaitUntil(at, fs[0], fs[1]);
      } else {
        std::ignore = WaitUntil(at, fs[0], fs[1], fs[2]);
      }
      break;
    case oWaitIt:
      pr.start();
      Wait(fs.begin(), fs.end());
      break;
    case oWaitItN:
      pr.start();
      Wait(fs.begin(), fs.size());
      break;
    case oWaitForIt:
      pr.start();
      std::ignore = WaitFor(100ns, fs.begin(), fs.end());
      break;
    case oWaitUntilIt:
      pr.start();
      std::ignore = WaitUntil(at, fs.begin(), fs.size());
      break;
    case oGet:
      pr.start();
      for (auto& f : fs) std::ignore = std::move(f).Get();
      break;
    case oTouch:
      pr.start();
      for (auto& f : fs) {
        Wait(f);
        std::ignore = std::move(f).Touch();
      }
      break;
    case oCoTask: {
      auto t = MakeTask<Num, Err>(Num{5}).ThenInline([](Num v) {
        return v;
      });
      MC_CHECK(co_task(std::move(t), &pr).Get().State() == ResultState::Value);
      mc::join_all();
      return;
    }
    default: {
      auto f = coro(op, n, std::move(fs), sf, &pr, &e);
      MC_CHECK(std::move(f).Get().State() == ResultState::Value);
      mc::join_all();
      return;
    }
  }
  pr.stop(kOp[op]);
  mc::join_all();
  pr.stop(kOp[op]);
}

// ---- strand -------------------------------------------------------------------------------------
void strand(int base, int jobs, bool two, bool nested) {
  HereExec here{7};
  auto manual = MakeManual();
  IntrusivePtr<FairThreadPool> pool;
  IExecutorPtr e;
  switch (base) {
    case 0:
      e = &here;
      break;
    case 1:
      e = manual;
      break;
    default:
      pool = MakeFairThreadPool(1);
      e = pool;
      break;
  }
  auto s = MakeStrand(e);
  if (nested) s = MakeStrand(s);
  Mon mon;
  MJob j[4];
  for (int i = 0; i < 4; ++i) j[i].arm(mon, i);
  Probe pr;
  auto submit = [&](int from) {
    for (int i = 0; i < jobs; ++i) s->Submit(j[from + i]);
  };
  if (two) {
    mc::spawn([&] {
      submit(2);
    });
  }
  pr.start();
  submit(0);
  if (base == 1) std::ignore = static_cast<ManualExecutor&>(*manual).Drain();
  if (pool) {
    pool->Stop();
    pool->Wait();
  }
  mc::join_all();
  pr.stop("Strand::Submit");
  if (base == 1) std::ignore = static_cast<ManualExecutor&>(*manual).Drain();
}

MC_TESTS {
  mc::Opts o;
  o.mask = kMask;
  o.max_steps = 40000;
  for (int c = 0; c < Combs; ++c) {
    for (int form = 0; form < 3; ++form) {
      static const char* const kForm[] = {"it,n", "begin,end", "variadic"};
      mc::add_test(std::string{"combinator/"} + kCombN[c] + "/" + kForm[form], o, [=] {
        combinator(static_cast<Comb>(c), form);
      });
    }
  }
  o.max_steps = 4000;
  for (int op = 0; op < Ops; ++op) {
    for (int n = 1; n <= 3; ++n) {
      if ((op == oCoShared || op == oCoTask) && n > 1) continue;
      mc::add_test(std::string{"wait/"} + kOp[op] + "/" + std::to_string(n), o, [=] {
        wait(static_cast<Op>(op), n);
      });
    }
  }
  for (int base = 0; base < 3; ++base) {
    for (int jobs = 1; jobs <= 2; ++jobs) {
      for (int two = 0; two < 2; ++two) {
        for (int nested = 0; nested < 2; ++nested) {
          if (base == 1 && two) continue;   // a ManualExecutor belongs to one thread
          static const char* const kB[] = {"here", "manual", "pool"};
          o.thorough = two && jobs == 2 && (nested || base == 2);
          mc::add_test(std::string{"strand/"} + kB[base] + "/" + std::to_string(jobs) + (two ? "x2" : "") + (nested ? "/nested" : ""), o, [=] {
            strand(base, jobs, two != 0, nested != 0);
          });
        }
      }
    }
  }
};

}  // namespace
