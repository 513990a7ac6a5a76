// C13: coroutines resume once, after the awaited event, with its outcome, where asked.
#include "coro.hpp"
#include "jobs.hpp"

using namespace yaclib;
using namespace h;

namespace {

#ifndef MC_MASK
#  define MC_MASK mc::kAll
#endif
constexpr unsigned kMask = MC_MASK;
#ifdef LITE   // the second configuration explores a part of the tests in the quick tier
constexpr bool kLite = true;
#else
constexpr bool kLite = false;
#endif

using F = Future<Box, Err>;
using P = Promise<Box, Err>;
using SF = SharedFuture<Box, Err>;
using SP = SharedPromise<Box, Err>;
using T = Task<Box, Err>;
using R = Result<Box, Err>;

enum Out { OVal, OErr, OExc, ODrop };
const char* const kOut[] = {"v", "e", "x", "d"};

// one awaited object
struct Src {
  Out o = OVal;
  bool pre = false;   // already complete when the coroutine starts
  F f;
  FutureOn<Box, Err> fo;
  P p;
  SF sf;
  SP sp;
  int id = 0;
  int data = 0;       // written (plainly) just before completion
  Cnt begun;
  int expect() const {
    switch (o) {
      case OVal:
        return 100 + id;
      case OErr:
        return 1000 + id + 1;
      case OExc:
        return 2000 + id + 1;
      default:
        return kStop;
    }
  }
  template <typename Pr>
  void fulfil(Pr&& pr) {
    Pr p2 = std::move(pr);
    data = 10 + id;
    begun.inc();
    switch (o) {
      case OVal:
        std::move(p2).Set(Box{100 + id});
        break;
      case OErr:
        std::move(p2).Set(Err{id + 1});
        break;
      case OExc:
        std::move(p2).Set(std::make_exception_ptr(Exc{id + 1}));
        break;
      case ODrop:
        break;
    }
  }
  R result() {   // for functions computing the outcome (a dropped promise becomes StopError)
    data = 10 + id;
    begun.inc();
    switch (o) {
      case OVal:
        return Box{100 + id};
      case OErr:
        return Err{id + 1};
      case OExc:
        throw Exc{id + 1};
      default:
        return StopTag{};
    }
  }
  void check(const char* who) const {
    MC_CHECK(begun.get() == 1, "%s resumed before input %d completed (or it completed twice)", who, id);
    MC_CHECK(data == 10 + id, "%s does not see what was written before input %d completed", who, id);
  }
};

enum Kind { KOn1, KOn2, KYield, KYieldF, KCur, KFut, KFutOn, KShared, KTask, KAwTask, KAw };
enum Mode { MInline, MShort, MSticky, MOn };
const char* const kMode[] = {"AwaitInline", "Await", "AwaitSticky", "AwaitOn"};
enum Form { FU, FS, FUU, FUS, FSS, FUUS, FItU, FItEndU, FItS, FItEndS, Forms };
const char* const kForm[] = {"u", "s", "uu", "us", "ss", "uus", "[uu,n]", "[uu,end]", "[ss,n]", "[ss,end]"};
const char* const kShape[] = {"u", "s", "uu", "us", "ss", "uus", "uu", "uu", "ss", "ss"};
enum TaskK { TReady, TSchedule, TScheduleOn, TLazy, TLazyLate, TCoro, TCoroAwait, TChain, TChainOn, TStep, TaskKinds };
const char* const kTask[] = {"MakeTask",  "Schedule",   "Schedule(e)",  "LazyContract", "LazyContract-late",
                             "coroutine", "coro-await", "Schedule.Then", "Schedule.Then(e)", "MakeTask.Then"};

struct St {
  Kind k = KCur;
  Mode m = MInline;
  Form f = FU;
  TaskK t = TReady;
  int in = 0;   // first input
  std::string name() const {
    switch (k) {
      case KOn1:
        return "On(a)";
      case KOn2:
        return "On(b)";
      case KYield:
        return "kYield";
      case KYieldF:
        return "Yield()";
      case KCur:
        return "Current";
      case KFut:
        return "co_await-Future";
      case KFutOn:
        return "co_await-FutureOn";
      case KShared:
        return "co_await-SharedFuture";
      case KTask:
        return std::string("co_await-") + kTask[t];
      case KAwTask:
        return std::string(m == MShort ? "AwaitShort-" : "Await-") + kTask[t];
      default:
        return std::string(kMode[m]) + "(" + kForm[f] + ")";
    }
  }
  std::string shape() const {
    switch (k) {
      case KFut:
        return "u";
      case KFutOn:
        return "o";
      case KShared:
        return "s";
      case KTask:
      case KAwTask:
        return t == TCoroAwait ? "u" : "t";
      case KAw:
        return kShape[f];
      default:
        return "";
    }
  }
};

enum Ex { XInline, XHere, XSpawn };
const char* const kEx[] = {"inline", "here", "spawn"};

struct World {
  Src src[5];
  int n = 0;
  std::vector<F> fs;   // contiguous storage for the iterator forms
  ExecBase* a = nullptr;
  ExecBase* b = nullptr;
  Cnt task_drops;        // inner tasks whose own executor refused them
  // what an inner task has to give
  int task_expect(const Src& s, TaskK t) {
    if ((t == TScheduleOn || t == TChainOn) && s.begun.get() == 0) {
      MC_CHECK(b->drops() > task_drops.get(), "inner task did not run although its executor accepted it");
      task_drops.inc();
      return kStop;
    }
    s.check("coroutine");
    return s.expect();
  }
  // jobs executor e was given so far
  int given(int e) const {
    return e == a->id() ? a->submits() : e == b->id() ? b->submits() : 0;
  }
  int id(const IExecutor& e) const {
    return &e == a ? a->id() : &e == b ? b->id() : 0;
  }
};

struct Co {
  World* w;
  std::vector<St> prog;
  bool escape = false;   // let failures escape
  int start_where = -1;  // where the body has to start, -1: anywhere
  Cnt steps;             // steps begun
  Cnt resumed;           // steps finished
  Cnt locals, done;
};

T task_sync(Src& s) {
  Box keep{3};
  auto r = s.result();
  MC_CHECK(val(keep) == 3);
  co_return r;
}
T task_await(Src& s) {
  Box keep{3};
  auto f = std::move(s.f);
  co_await Await(f);
  MC_CHECK(val(keep) == 3);
  s.check("inner coroutine");
  co_return std::move(f).Touch();
}

T make_task(World& w, Src& s, TaskK k) {
  switch (k) {
    case TReady: {
      if (s.o == OExc) {
        s.data = 10 + s.id;
        s.begun.inc();
        return MakeTask<Box, Err>(std::make_exception_ptr(Exc{s.id + 1}));
      }
      auto r = s.result();
      return MakeTask<Box, Err>(std::move(r));
    }
    case TSchedule:
      return Schedule<Err>([&s, k = Box{1}] {
        return s.result();
      });
    case TScheduleOn:
      return Schedule<Err>(*w.b, [&w, &s, k = Box{1}] {
        MC_CHECK(where() == w.b->id(), "scheduled step runs in %d", where());
        return s.result();
      });
    case TLazy:
      return LazyContract<Box, Err>([&s, k = Box{1}](P p) {
        s.fulfil(std::move(p));
      });
    case TLazyLate:
      return LazyContract<Box, Err>([&s, k = Box{1}](P p) {
        s.p = std::move(p);
        mc::spawn([&s] {
          s.fulfil(std::move(s.p));
        });
      });
    case TCoro:
      return task_sync(s);
    case TCoroAwait:
      return task_await(s);
    case TChain:
      return Schedule<Err>([k = Box{1}] {
             })
        .ThenInline([&s, k = Box{2}](Result<void, Err>) {
          return s.result();
        });
    case TChainOn:
      return Schedule<Err>([k = Box{1}] {
             })
        .Then(*w.b, [&w, &s, k = Box{2}](Result<void, Err>) {
          MC_CHECK(where() == w.b->id(), "step runs in %d", where());
          return s.result();
        });
    default:
      return MakeTask<Box, Err>(Box{1}).ThenInline([&s, k = Box{2}](R r) {
        MC_CHECK(code(r) == 1);
        return s.result();
      });
  }
}

#define AW_(m, exec, ...)                      \
  switch (m) {                                 \
    case MInline:                              \
      co_await AwaitInline(__VA_ARGS__);       \
      break;                                   \
    case MShort:                               \
      co_await Await(__VA_ARGS__);             \
      break;                                   \
    case MSticky:                              \
      co_await AwaitSticky(__VA_ARGS__);       \
      break;                                   \
    case MOn:                                  \
      co_await AwaitOn(exec, __VA_ARGS__);     \
      break;                                   \
  }

// The coroutine under test interprets a program of awaits.
template <typename Ret>
Ret body(Co& c) {
  Life local{c.locals};
  Box keep{5};
  World& w = *c.w;
  MC_CHECK(c.start_where < 0 || where() == c.start_where, "coroutine started in %d", where());
  for (const St& s : c.prog) {
    const int at = c.steps.inc();
    const auto nm = [&] {
      mc::NoTrack nt;
      return s.name();
    };
    Src* in = &w.src[s.in];
    int sticky = 0;
    if (s.k == KAw && s.m == MSticky) sticky = w.id(co_await CurrentExecutor());
    const int before = where(), self = mc::self();
    switch (s.k) {
      case KOn1:
        co_await On(*w.a);
        MC_CHECK(where() == w.a->id(), "after On: in %d", where());
        MC_CHECK(w.id(co_await CurrentExecutor()) == w.a->id(), "current executor is not the one named by On");
        break;
      case KOn2:
        co_await On(*w.b);
        MC_CHECK(where() == w.b->id(), "after On: in %d", where());
        MC_CHECK(w.id(co_await CurrentExecutor()) == w.b->id(), "current executor is not the one named by On");
        break;
      case KYield: {
        const int e = w.id(co_await CurrentExecutor());
        const int given = w.given(e);
        co_await kYield;
        MC_CHECK(e == 0 || w.given(e) > given, "Yield did not go through executor %d", e);
        MC_CHECK(where() == e || e == 0, "after Yield: in %d, executor %d", where(), e);
        break;
      }
      case KYieldF: {
        const int e = w.id(co_await CurrentExecutor());
        const int given = w.given(e);
        const int e2 = w.id(co_await Yield());
        MC_CHECK(e == 0 || w.given(e) > given, "Yield did not go through executor %d", e);
        MC_CHECK(e == e2, "Yield() reports executor %d, not %d", e2, e);
        MC_CHECK(where() == e || e == 0, "after Yield: in %d, executor %d", where(), e);
        break;
      }
      case KCur: {
        const int e = w.id(co_await CurrentExecutor());
        MC_CHECK(before == where() && self == mc::self(), "CurrentExecutor moved the coroutine");
        MC_CHECK(e == 0 || e == before || at > 1, "current executor %d, running in %d", e, before);
        break;
      }
      case KFut:
      case KFutOn:
      case KShared:
      case KTask: {
        int got = 0;
        std::exception_ptr err;
        try {
          if (s.k == KShared) {
            const SF sf = in->sf;
            auto v = co_await sf;
            got = val(v);
          } else if (s.k == KFut) {
            auto v = co_await std::move(in->f);
            got = val(v);
          } else if (s.k == KFutOn) {
            auto v = co_await std::move(in->fo);
            got = val(v);
          } else {
            auto v = co_await make_task(w, *in, s.t);
            got = val(v);
          }
        } catch (...) {
          got = caught_code<Err>();
          err = std::current_exception();
        }
        int want = 0;
        if (s.k == KTask) {
          want = w.task_expect(*in, s.t);
        } else {
          in->check("coroutine");
          want = in->expect();
        }
        MC_CHECK(got == want, "%s gave %d, expected %d", nm().c_str(), got, want);
        if (err && c.escape) {
          c.resumed.inc();
          std::rethrow_exception(err);
        }
        break;
      }
      case KAwTask: {
        auto t = make_task(w, *in, s.t);
        co_await Await(t);
        const int want = w.task_expect(*in, s.t);
        MC_CHECK(t.Valid() && t.Ready(), "task not ready after Await");
        MC_CHECK(code(std::as_const(t).Touch()) == want);
        if (s.m == MShort) {
          MC_CHECK(code(std::move(t).Touch()) == want);
        }
        break;
      }
      case KAw: {
        int n = 0;
        switch (s.f) {
          case FU:
            AW_(s.m, *w.b, in[0].f);
            break;
          case FS: {
            SF sf = in[0].sf;
            AW_(s.m, *w.b, sf);
            break;
          }
          case FUU:
            AW_(s.m, *w.b, in[0].f, in[1].f);
            break;
          case FUS:
            AW_(s.m, *w.b, in[0].f, in[1].sf);
            break;
          case FSS: {
            SF s0 = in[0].sf, s1 = in[1].sf;
            AW_(s.m, *w.b, s0, s1);
            break;
          }
          case FUUS:
            AW_(s.m, *w.b, in[0].f, in[1].f, in[2].sf);
            break;
          case FItU:
          case FItEndU: {
            std::vector<F> v;
            v.reserve(2);
            v.push_back(std::move(in[0].f));
            v.push_back(std::move(in[1].f));
            if (s.f == FItU) {
              AW_(s.m, *w.b, v.begin(), 2);
            } else {
              AW_(s.m, *w.b, v.begin(), v.end());
            }
            in[0].f = std::move(v[0]);
            in[1].f = std::move(v[1]);
            break;
          }
          default: {
            std::vector<SF> v{in[0].sf, in[1].sf};
            if (s.f == FItS) {
              AW_(s.m, *w.b, v.begin(), 2);
            } else {
              AW_(s.m, *w.b, v.begin(), v.end());
            }
            break;
          }
        }
        n = static_cast<int>(std::char_traits<char>::length(kShape[s.f]));
        for (int i = 0; i < n; ++i) {
          in[i].check("coroutine");
          if (kShape[s.f][i] == 'u') {
            MC_CHECK(in[i].f.Valid() && in[i].f.Ready(), "awaited future %d not ready", i);
            MC_CHECK(code(std::as_const(in[i].f).Touch()) == in[i].expect(), "wrong result in awaited future");
          } else {
            const SF sf = in[i].sf;
            MC_CHECK(sf.Valid() && sf.Ready(), "awaited future %d not ready", i);
            MC_CHECK(code(sf.Touch()) == in[i].expect(), "wrong result in awaited future");
          }
        }
        if (s.m == MOn) {
          MC_CHECK(where() == w.b->id(), "AwaitOn resumed in %d", where());
          MC_CHECK(w.id(co_await CurrentExecutor()) == w.b->id(), "current executor is not the one named by AwaitOn");
        } else if (s.m == MSticky && sticky != 0) {
          MC_CHECK(where() == sticky || (where() == before && self == mc::self()),
                   "AwaitSticky resumed in %d, own executor is %d", where(), sticky);
        }
        break;
      }
    }
    MC_CHECK(val(keep) == 5);
    local.use();
    MC_CHECK(c.resumed.inc() == at, "step %d finished twice", at);
  }
  c.done.inc();
  co_return Box{500};
}

enum RetK { RFuture, RTask, RShared };
const char* const kRet[] = {"Future", "Task", "SharedFuture"};
enum ConsK { CGet, CThen, CDrop, CAwait, CUnwrap, CToFuture, CToFutureOn, CDetachOn, ConsKinds };
const char* const kCons[] = {"Get", "Then", "drop", "co_await", "returned", "ToFuture", "ToFuture(a)", "Detach(a)"};

struct Got {
  Cnt calls;
  int c = 0;
};

template <typename Ret>
Future<int, Err> outer(Co& c) {
  Box keep{6};
  int got = 0;
  try {
    if constexpr (std::is_same_v<Ret, SF>) {
      auto inner = body<Ret>(c);
      auto v = co_await inner;
      got = val(v);
    } else {
      auto v = co_await body<Ret>(c);
      got = val(v);
    }
  } catch (const yaclib::ResultError<Err>& e) {
    // the failure of the coroutine, or an escaped ResultError stored as its exception
    auto copy = e;
    got = -(1000 + ev(copy.Get()));
  } catch (const Exc& e) {
    got = 2000 + e.v;
  } catch (...) {
    got = 2999;
  }
  MC_CHECK(val(keep) == 6);
  co_return int{got};
}

// Starts the coroutine and consumes its result; true when the result was observed (code in g).
template <typename Ret>
bool consume(Co& c, World& w, ConsK how, Got& g) {
  auto see = [&g](int x) {
    MC_CHECK(g.calls.inc() == 1, "result observed twice");
    g.c = x;
  };
  switch (how) {
    case CGet: {
      auto f = body<Ret>(c);
      auto r = std::move(f).Get();
      see(code(r));
      return true;
    }
    case CThen: {
      auto f = body<Ret>(c);
      if constexpr (std::is_same_v<Ret, T>) {
        std::move(f).ThenInline([see, k = Box{1}](R&& r) {
                      see(code(r));
                    })
          .Detach();
      } else if constexpr (std::is_same_v<Ret, F>) {
        std::move(f).DetachInline([see, k = Box{1}](R&& r) {
          see(code(r));
        });
      } else {
        f.SubscribeInline([see, k = Box{1}](const R& r) {
          see(code(r));
        });
      }
      return true;
    }
    case CDrop: {
      auto f = body<Ret>(c);
      return false;
    }
    case CAwait: {
      auto r = outer<Ret>(c).Get();
      MC_CHECK(r.State() == ResultState::Value);
      see(std::move(r).Value());
      return true;
    }
    case CUnwrap: {
      auto r = MakeFuture<void, Err>()
                 .ThenInline([&c, k = Box{1}] {
                   return body<Ret>(c);
                 })
                 .Get();
      see(code(r));
      return true;
    }
    default:
      if constexpr (std::is_same_v<Ret, T>) {
        auto t = body<Ret>(c);
        MC_CHECK(c.steps.get() == 0 && c.locals.get() == 0, "lazy coroutine ran before it was started");
        if (how == CToFuture) {
          see(code(std::move(t).ToFuture().Get()));
          return true;
        }
        c.start_where = w.a->id();
        if (how == CToFutureOn) {
          see(code(std::move(t).ToFuture(*w.a).Get()));
          return true;
        }
        std::move(t).Detach(*w.a);
      }
      return false;
  }
}

struct Cfg {
  std::vector<St> prog;
  std::vector<Out> outs;
  std::vector<bool> pre;
  bool one_thread = false;   // all inputs completed by one thread
  RetK ret = RFuture;
  ConsK cons = CGet;
  Ex a = XHere, b = XHere;
  int rej_a = -1, rej_b = -1;
  bool escape = false;
  int twins = 0;             // further coroutines running the same program on other threads (shared inputs only)
};

void run(const Cfg& cfg) {
  World w;
  SpawnExec sa{1, cfg.rej_a}, sb{2, cfg.rej_b};
  HereExec ha{3, cfg.rej_a}, hb{4, cfg.rej_b};
  w.a = cfg.a == XSpawn ? static_cast<ExecBase*>(&sa) : &ha;
  w.b = cfg.b == XSpawn ? static_cast<ExecBase*>(&sb) : &hb;
  std::vector<Co> cos(1 + cfg.twins);
  std::vector<Got> gots(cos.size());
  {
    // inputs
    std::vector<int> pend;
    for (const St& s : cfg.prog) {
      for (char ch : s.shape()) {
        const int i = w.n++;
        Src& x = w.src[i];
        x.id = i;
        x.o = i < static_cast<int>(cfg.outs.size()) ? cfg.outs[i] : OVal;
        const bool pre = i < static_cast<int>(cfg.pre.size()) && cfg.pre[i];
        if (ch == 't') continue;
        if (ch == 'u') {
          auto [f, p] = MakeContract<Box, Err>();
          x.f = std::move(f);
          x.p = std::move(p);
          if (pre) x.fulfil(std::move(x.p));
        } else if (ch == 'o') {
          auto [f, p] = MakeContractOn<Box, Err>(*w.b);
          x.fo = std::move(f);
          x.p = std::move(p);
          if (pre) x.fulfil(std::move(x.p));
        } else {
          auto [f, p] = MakeSharedContract<Box, Err>();
          x.sf = std::move(f);
          x.sp = std::move(p);
          if (pre) x.fulfil(std::move(x.sp));
        }
        if (!pre) pend.push_back(i);
      }
    }
    auto go = [&w](int i) {
      Src& x = w.src[i];
      if (x.p.Valid()) {
        x.fulfil(std::move(x.p));
      } else {
        x.fulfil(std::move(x.sp));
      }
    };
    if (cfg.one_thread) {
      mc::spawn([&] {
        for (int i : pend) go(i);
      });
    } else {
      for (int i : pend) {
        mc::spawn([&go, i] {
          go(i);
        });
      }
    }
    std::vector<char> seen(cos.size());
    auto start = [&](size_t k) {
      Co& c = cos[k];
      switch (cfg.ret) {
        case RFuture:
          seen[k] = consume<F>(c, w, cfg.cons, gots[k]);
          break;
        case RTask:
          seen[k] = consume<T>(c, w, cfg.cons, gots[k]);
          break;
        default:
          seen[k] = consume<SF>(c, w, cfg.cons, gots[k]);
      }
    };
    for (size_t k = 0; k < cos.size(); ++k) {
      cos[k].w = &w;
      cos[k].prog = cfg.prog;
      cos[k].escape = cfg.escape;
    }
    for (size_t k = 1; k < cos.size(); ++k) {
      mc::spawn([&start, k] {
        start(k);
      });
    }
    start(0);
    mc::join_all();
    const int drops = w.a->drops() + w.b->drops() - w.task_drops.get();
    int stopped = 0;
    for (size_t k = 0; k < cos.size(); ++k) {
      Co& c = cos[k];
      Got& g = gots[k];
      MC_CHECK(c.locals.get() == 0, "%d coroutine locals alive after completion", c.locals.get());
      MC_CHECK(g.calls.get() == seen[k], "result observed %d times", g.calls.get());
      if (cfg.ret == RTask && cfg.cons == CDrop) {
        MC_CHECK(c.steps.get() == 0 && c.done.get() == 0, "a dropped Task ran");
        continue;
      }
      // expected outcome
      int esc = 0;
      if (cfg.escape) {
        for (const St& s : cfg.prog) {
          if ((s.k == KFut || s.k == KFutOn || s.k == KShared || s.k == KTask) && w.src[s.in].o != OVal && esc == 0) {
            const int e = w.src[s.in].expect();
            esc = e >= 2000 ? e : cfg.cons == CAwait ? -e : e + 3000;   // an escaped ResultError is an exception
          }
        }
      }
      const bool full = c.done.get() == 1;
      const bool escaped = !full && esc != 0 && c.resumed.get() == c.steps.get();
      if (!full && !escaped) ++stopped;
      if (full || escaped) {
        MC_CHECK(c.resumed.get() == c.steps.get(), "begun %d, finished %d", c.steps.get(), c.resumed.get());
        MC_CHECK(!full || c.steps.get() == static_cast<int>(cfg.prog.size()));
        MC_CHECK(!full || esc == 0);
      } else {
        MC_CHECK(drops > 0, "coroutine never finished: %d of %d steps", c.resumed.get(), (int)cfg.prog.size());
      }
      if (seen[k]) {
        const int expect = full ? 500 : escaped ? esc : cfg.cons == CAwait ? -kStop : kStop;
        MC_CHECK(g.c == expect, "coroutine result %d, expected %d", g.c, expect);
      }
    }
    MC_CHECK(stopped <= drops && (cfg.twins > 0 || stopped == (drops > 0)), "%d drops, %d stopped coroutines", drops,
             stopped);
    // awaited futures stay with their owner
    for (const St& s : cfg.prog) {
      if (s.k != KAw || stopped > 0 || (cfg.ret == RTask && cfg.cons == CDrop)) continue;
      int i = s.in;
      for (char ch : s.shape()) {
        Src& x = w.src[i++];
        if (cfg.escape && !x.f.Valid() && !x.sf.Valid()) continue;
        if (ch == 'u') {
          MC_CHECK(x.f.Valid());
          MC_CHECK(code(std::move(x.f).Get()) == x.expect(), "future does not hold its result after Await");
        } else {
          MC_CHECK(x.sf.Valid());
          MC_CHECK(code(x.sf.Get()) == x.expect());
        }
      }
    }
    mc::outcome("stopped=%d steps=%d", stopped, cos[0].resumed.get());
  }
  for (Src& x : w.src) {   // whatever was not awaited because the coroutine was stopped
    x.f = {};
    x.fo = {};
    x.sf = {};
  }
  MC_CHECK(w.a->refs() == 0 && w.b->refs() == 0, "executor references left: %d %d", w.a->refs(), w.b->refs());
}

void reg(std::string n, mc::Opts o, Cfg c) {
  int in = 0;
  for (auto& s : c.prog) {
    s.in = in;
    in += static_cast<int>(s.shape().size());
  }
  o.mask = kMask;
  o.weak_fail = 0;
  mc::add_test(std::move(n), o, [c] {
    run(c);
  });
}

std::string pname(const std::vector<St>& p) {
  std::string r;
  for (auto& s : p) r += (r.empty() ? "" : "+") + s.name();
  return r;
}

std::vector<St> all_awaits() {
  std::vector<St> v;
  v.push_back({KFut});
  v.push_back({KFutOn});
  v.push_back({KShared});
  for (int m = 0; m < 4; ++m) {
    for (int f = 0; f < Forms; ++f) v.push_back({KAw, Mode(m), Form(f)});
  }
  return v;
}

MC_TESTS {
  const auto aw = all_awaits();
  std::vector<St> tasks;
  for (int t = 0; t < TaskKinds; ++t) {
    tasks.push_back({KTask, MInline, FU, TaskK(t)});
    tasks.push_back({KAwTask, MInline, FU, TaskK(t)});
    tasks.push_back({KAwTask, MShort, FU, TaskK(t)});
  }
  const Out outs[] = {OVal, OErr, OExc, ODrop};
  const St on{KOn1}, onb{KOn2}, yield{KYield}, yieldf{KYieldF}, cur{KCur};
  // A: every await x outcome x already complete, racing; every kind of coroutine
  for (auto& s : aw) {
    const int n = static_cast<int>(s.shape().size());
    for (int own = 0; own < 3; ++own) {   // own executor: inline, a (here), a (spawn)
      if (own > 0 && s.m == MShort) continue;
      for (int r = 0; r < 3; ++r) {
        for (int o = 0; o < 4; ++o) {
          for (int t = 0; t < 5; ++t) {   // timing: all pre, first pre, racing threads, one thread, last pre
            if (n == 1 && (t == 1 || t == 3 || t == 4)) continue;
            if (n == 3 && t == 2 && r != 0) continue;
            Cfg c;
            if (own > 0) c.prog.push_back(on);
            c.prog.push_back(s);
            if (own > 0 && s.k == KAw) c.prog.push_back(cur);
            c.ret = RetK(r);
            c.outs = {outs[o], outs[(o + 1) % 4], outs[(o + 2) % 4]};
            c.pre = t == 0 ? std::vector<bool>{true, true, true} : t == 1 ? std::vector<bool>{true} : t == 4 ? std::vector<bool>{false, true} : std::vector<bool>{};
            c.one_thread = t == 3;
            c.a = c.b = own == 2 ? XSpawn : XHere;
            c.escape = (r + own) % 2;
            mc::Opts op;
            op.thorough = (own > 0 && (r != 0 || (o != 0 && s.k == KAw))) || (n > 1 && o > 1) || (n == 3 && t == 2 && own == 2) || (kLite && o > 1);
            reg("one/" + pname(c.prog) + "/" + kRet[r] + "/" + kOut[o] + "/t" + std::to_string(t) + "/" + kEx[own], op, c);
          }
        }
      }
    }
  }
  // B: tasks
  for (auto& s : tasks) {
    for (int own = 0; own < 3; ++own) {
      for (int r = 0; r < 3; ++r) {
        for (int o = 0; o < 4; ++o) {
          for (int t = 0; t < 2; ++t) {
            if (t == 1 && s.t != TCoroAwait) continue;
            Cfg c;
            if (own > 0) c.prog.push_back(on);
            c.prog.push_back(s);
            c.ret = RetK(r);
            c.outs = {outs[o]};
            c.pre = {t == 1};
            c.a = c.b = own == 2 ? XSpawn : XHere;
            c.escape = (r + own) % 2;
            reg("task/" + pname(c.prog) + "/" + kRet[r] + "/" + kOut[o] + "/t" + std::to_string(t) + "/" + kEx[own], {}, c);
          }
        }
      }
    }
  }
  // C: every consumer x every kind of coroutine x kinds of await
  const std::vector<St> red{{KFut}, {KShared}, {KAw, MInline, FU}, {KAw, MSticky, FU}, {KAw, MOn, FU}, {KAw, MInline, FUU}, {KAw, MOn, FUS}, {KTask, MInline, FU, TLazyLate}, {KTask, MInline, FU, TCoroAwait}, on, yield};
  for (auto& s : red) {
    for (int r = 0; r < 3; ++r) {
      for (int k = 0; k < ConsKinds; ++k) {
        if (k >= CToFuture && r != RTask) continue;
        for (int o = 0; o < 4; ++o) {
          if (o > 0 && s.shape().empty()) continue;
          for (int x = 0; x < 2; ++x) {
            Cfg c;
            c.prog = {s};
            c.ret = RetK(r);
            c.cons = ConsK(k);
            c.outs = {outs[o], outs[(o + 1) % 4]};
            c.a = c.b = x ? XSpawn : XHere;
            c.escape = true;
            reg("use/" + pname(c.prog) + "/" + kRet[r] + "/" + kCons[k] + "/" + kOut[o] + "/" + kEx[x + 1], {}, c);
          }
        }
      }
    }
  }
  // D: two-step programs
  std::vector<St> steps = red;
  steps.push_back(onb);
  steps.push_back(yieldf);
  steps.push_back(cur);
  steps.push_back({KAw, MSticky, FUU});
  steps.push_back({KAwTask, MInline, FU, TScheduleOn});
  for (auto& s1 : steps) {
    for (auto& s2 : steps) {
      for (int x = 0; x < 2; ++x) {
        for (int head = 0; head < 2; ++head) {
          Cfg c;
          if (head) c.prog.push_back(on);
          c.prog.push_back(s1);
          c.prog.push_back(s2);
          c.a = c.b = x ? XSpawn : XHere;
          const int n = static_cast<int>(s1.shape().size() + s2.shape().size());
          c.one_thread = n > 2;
          mc::Opts op;
          op.thorough = n > 3 || (head == 0 && x == 0) || (kLite && x == 1);
          reg("two/" + pname(c.prog) + "/" + kEx[x + 1], op, c);
          for (int r = 1; r < 3; ++r) {
            c.ret = RetK(r);
            op.thorough = true;
            reg("two/" + pname(c.prog) + "/" + kRet[r] + "/" + kEx[x + 1], op, c);
          }
        }
      }
    }
  }
  // E: rejecting executors: every executor refuses from its k-th submission on
  std::vector<St> rej = steps;
  for (auto& s : aw) {
    bool have = false;
    for (auto& r : rej) have |= r.name() == s.name();
    if (!have && (s.m == MOn || s.m == MSticky)) rej.push_back(s);
  }
  for (auto& s : rej) {
    for (int k = 0; k < 3; ++k) {
      for (int r = 0; r < 3; ++r) {
        for (int cn = 0; cn < 5; ++cn) {
          for (int x = 0; x < 2; ++x) {
            for (int which = 0; which < 2; ++which) {
              Cfg c;
              c.prog = {on, s, yield};
              c.ret = RetK(r);
              c.cons = ConsK(cn);
              c.a = c.b = x ? XSpawn : XHere;
              (which ? c.rej_b : c.rej_a) = k;
              const int n = static_cast<int>(s.shape().size());
              c.one_thread = n > 2;
              mc::Opts op;
              op.thorough = ((r + cn + k) % 3 != 0 && n > 1) || (n > 1 && x && s.shape() != "uu") || (kLite && cn > 1);
              if (which && k == 2) continue;
              reg("reject/" + pname(c.prog) + "/" + kRet[r] + "/" + kCons[cn] + "/" + (which ? "b" : "a") +
                    std::to_string(k) + "/" + kEx[x + 1],
                  op, c);
            }
          }
        }
      }
    }
  }
  // F: several coroutines awaiting the same shared futures
  for (auto& s : aw) {
    if (s.shape() != "s" && s.shape() != "ss") continue;
    for (int tw = 1; tw < 3; ++tw) {
      for (int r = 0; r < 3; ++r) {
        for (int o = 0; o < 4; ++o) {
          for (int x = 0; x < 2; ++x) {
            for (int head = 0; head < 2; ++head) {
              Cfg c;
              if (head) c.prog.push_back(on);
              c.prog.push_back(s);
              c.ret = RetK(r);
              c.outs = {outs[o], outs[(o + 1) % 4]};
              c.twins = tw;
              c.one_thread = true;
              c.a = c.b = x ? XSpawn : XHere;
              c.escape = true;
              mc::Opts op;
              op.thorough = tw > 1 || (s.shape() == "ss" && (o > 0 || r > 0 || x > 0 || s.m == MSticky || head)) || (x && (r || o)) ||
                            (head && (r || o)) || (kLite && o > 0);
              reg("twins/" + std::to_string(tw) + "/" + pname(c.prog) + "/" + kRet[r] + "/" + kOut[o] + "/" + kEx[x + 1], op, c);
            }
          }
        }
      }
    }
  }
};

}  // namespace
