// Exhaustive pipeline enumerator shared by C02, C03, C05, C12 and C20.
//
// A pipeline is built step by step through the public API, every decision (source, kind of step, what the callback takes,
// what it returns, which executor, when promises are fulfilled, ...) being an mc::choose, so that the engine enumerates all of
// them.  What a callback does is chosen only when it is really invoked.  While the real pipeline is being built, `Ref`
// (the obvious sequential reading of the same chain) records what was attached; once everything is over it is evaluated
// against the log of the callbacks actually invoked and against the final Result.
#pragma once
#include "coro.hpp"

#include <yaclib/async/share.hpp>
#include <yaclib/async/split.hpp>
#include <yaclib/exe/strand.hpp>

#include <array>
#include <optional>
#include <variant>

namespace pl {

using namespace yaclib;
using namespace h;

#ifdef PIPE_PLAIN
using P = Num;
constexpr bool kPlain = true;
#else
using P = Box;
constexpr bool kPlain = false;
#endif

enum K : signed char { kVal, kErr, kExc };
struct Out {
  K k = kVal;
  int v = 0;
};
template <class E>
int code_of(Out o, bool is_void) {
  switch (o.k) {
    case kVal:
      return is_void ? 0 : o.v;
    case kErr:
      return std::is_same_v<E, StopError> ? kStop : 1000 + o.v;
    default:
      return 2000 + o.v;
  }
}
inline constexpr int kStopV = -7;   // payload of an error made from StopTag

template <class E>
E mk_err(int v) {
  if constexpr (std::is_same_v<E, StopError>) {
    return E{StopTag{}};
  } else {
    return v == kStopV ? E{StopTag{}} : E{v};
  }
}
template <class V, class E>
Result<V, E> mk_res(Out o) {
  switch (o.k) {
    case kVal:
      if constexpr (std::is_void_v<V>) {
        return Unit{};
      } else {
        return P{o.v};
      }
    case kErr:
      return mk_err<E>(o.v);
    default:
      return std::make_exception_ptr(Exc{o.v});
  }
}

// ---- counted capture ------------------------------------------------------------------------------
// Every functor handed to the library carries one: constructions and destructions are balanced at the end,
// a use after destruction (or of a moved-from copy) is a violation; in the heap mode it owns memory.
struct Tok {
  Cnt* live;
  int* p;
  explicit Tok(Cnt& c) : live(&c), p(kPlain ? reinterpret_cast<int*>(&c) : new int(42)) {
    live->inc();
  }
  Tok(const Tok& o) : live(o.live), p(o.p == nullptr || kPlain ? o.p : new int(42)) {
    live->inc();
  }
  Tok(Tok&& o) noexcept : live(o.live), p(std::exchange(o.p, nullptr)) {
    live->inc();
  }
  Tok& operator=(const Tok&) = delete;
  ~Tok() {
    live->dec();
    if (!kPlain) delete p;
    p = nullptr;
  }
  void use() const {
    MC_CHECK(p != nullptr && (kPlain || *p == 42), "a callback's captures were used after they were destroyed or moved away");
  }
};

// ---- world ----------------------------------------------------------------------------------------
// executes at once or when drained; counts submissions; may refuse from the k-th on
class QExec final : public ExecBase {
 public:
  using ExecBase::ExecBase;
  bool queue = false;
  void Accept(Job& job) noexcept final {
    if (!queue) {
      Run(job);
      return;
    }
    MC_CHECK(_n < 16);
    _q[_n++] = &job;
  }
  bool drain_one() {
    if (_i == _n) return false;
    Run(*_q[_i++]);
    return true;
  }

 private:
  Job* _q[16];
  int _n = 0, _i = 0;
};

struct Opt {
  bool inner_rich = true;     // every way to build an inner Future / Task, or a few
  bool pend = true;           // inner promises are fulfilled after the whole pipeline is built (otherwise at once)
};

template <class E>
struct World {
  QExec e1{1}, e2{2}, e3{3};   // e3: only used inside callbacks
  IExecutorPtr strand;         // over e2 (number kStrand), made on demand
  Cnt live;
  Opt opt;
  // library steps made so far: each may allocate one block
  std::size_t steps = 0;
  std::size_t base_alloc = 0;
  void alloc_step(int n = 1) {
    steps += n;
  }
  void check_alloc(const char* what) {
    if constexpr (kPlain) {
      MC_CHECK(mc::total_allocs() - base_alloc <= steps, "%s: %zu heap blocks for %zu pipeline steps", what,
               mc::total_allocs() - base_alloc, steps);
    }
  }
  // log of invoked callbacks
  struct Rec {
    int step, seen, where;
    Out out;
  };
  std::array<Rec, 24> log;
  int n_log = 0;
  Rec& add(int step, int seen) {
    MC_CHECK(n_log < 24);
    log[n_log] = Rec{step, seen, where(), Out{}};
    return log[n_log++];
  }
  // promises still to be fulfilled
  struct Pend {
    std::variant<std::monostate, Promise<void, E>, Promise<P, E>, SharedPromise<void, E>, SharedPromise<P, E>> p;
    Out o;
    bool drop = false;
  };
  std::array<Pend, 12> pend;
  int n_pend = 0, i_pend = 0;
  template <class Pr>
  void later(Pr&& p, Out o, bool drop = false) {
    if (!opt.pend) {
      std::decay_t<Pr> q = std::move(p);
      if (!drop) set(std::move(q), o);
      return;
    }
    MC_CHECK(n_pend < 12);
    pend[n_pend].p = std::move(p);
    pend[n_pend].o = o;
    pend[n_pend].drop = drop;
    ++n_pend;
  }
  bool fulfil_one() {
    if (i_pend == n_pend) return false;
    auto& x = pend[i_pend++];
    std::visit(
      [&](auto& p) {
        using T = std::decay_t<decltype(p)>;
        if constexpr (!std::is_same_v<T, std::monostate>) {
          T q = std::move(p);
          if (x.drop) return;
          set(std::move(q), x.o);
        }
      },
      x.p);
    x.p = std::monostate{};
    return true;
  }
  template <template <class, class> class Pr, class V>
  static void set(Pr<V, E>&& p, Out o) {
    switch (o.k) {
      case kVal:
        if constexpr (std::is_void_v<V>) {
          std::move(p).Set();
        } else {
          std::move(p).Set(P{o.v});
        }
        break;
      case kErr:
        std::move(p).Set(mk_err<E>(o.v));
        break;
      case kExc:
        std::move(p).Set(std::make_exception_ptr(Exc{o.v}));
        break;
    }
  }
  // shared futures kept by the owner until the end
  std::array<std::variant<std::monostate, SharedFuture<void, E>, SharedFuture<P, E>, SharedFutureOn<void, E>, SharedFutureOn<P, E>>, 16>
    kept;
  int n_kept = 0;
  template <class S>
  void keep(const S& s) {
    MC_CHECK(n_kept < 16);
    kept[n_kept++] = s;
  }
  void settle() {
    while (e1.drain_one() || e2.drain_one() || e3.drain_one() || fulfil_one()) {
    }
  }
  ~World() = default;
};

// ---- what callbacks return --------------------------------------------------------------------------
enum Rt { rVoid, rP, rResV, rResP, rFutV, rFutP, rShV, rShP, rTaskV, rTaskP, rFutOnV, rFutOnP, rShOnV, rShOnP, Rts };
inline const char* const kRt[] = {"void",  "P",     "ResV",  "ResP",   "FutV",   "FutP",  "ShV",
                                  "ShP",   "TaskV", "TaskP", "FutOnV", "FutOnP", "ShOnV", "ShOnP"};
constexpr bool rt_void(int r) {
  return r % 2 == 0;
}
constexpr bool rt_async(int r) {
  return r >= rFutV;
}
template <class E, int R>
struct RtT;
#define PIPE_RT(r, ...)     \
  template <class E>        \
  struct RtT<E, r> {        \
    using T = __VA_ARGS__;  \
  };
PIPE_RT(rVoid, void)
PIPE_RT(rP, P)
PIPE_RT(rResV, Result<void, E>)
PIPE_RT(rResP, Result<P, E>)
PIPE_RT(rFutV, Future<void, E>)
PIPE_RT(rFutP, Future<P, E>)
PIPE_RT(rFutOnV, FutureOn<void, E>)
PIPE_RT(rFutOnP, FutureOn<P, E>)
PIPE_RT(rShV, SharedFuture<void, E>)
PIPE_RT(rShP, SharedFuture<P, E>)
PIPE_RT(rShOnV, SharedFutureOn<void, E>)
PIPE_RT(rShOnP, SharedFutureOn<P, E>)
PIPE_RT(rTaskV, Task<void, E>)
PIPE_RT(rTaskP, Task<P, E>)

inline Out pick(int step, bool all = true) {
  K k = static_cast<K>(mc::choose(all ? 3 : 2, "outcome"));
  if (!all && k == kErr) k = kExc;
  return Out{k, k == kVal ? 10 + step : k == kErr ? 20 + step : 30 + step};
}

// bodies of inner asynchronous work; they are not steps of the pipeline but carry a counted capture
template <class E, class V>
struct InnerFn {
  World<E>* w;
  Out o;
  Tok tok;
  Result<V, E> operator()() {
    tok.use();
    return mk_res<V, E>(o);
  }
};
template <class E, class V>
struct InnerProm {
  World<E>* w;
  Out o;
  int how;   // 0: set at once, 1: later, 2: drop, 3: throw
  Tok tok;
  void operator()(Promise<V, E>&& p) {
    tok.use();
    if (how == 0) {
      World<E>::set(std::move(p), o);
    } else if (how == 1) {
      w->later(std::move(p), o);
    } else if (how == 3) {
      throw Exc{o.v};
    }
  }
};
template <class E, class V>
struct InnerPass {   // a step appended to an inner Task / Future: passes everything through
  Tok tok;
  Result<V, E> operator()(Result<V, E>&& r) {
    tok.use();
    return std::move(r);
  }
};
template <class E, class V>
Task<V, E> coro_task(Out o, Tok tok) {
  tok.use();
  if (o.k == kExc) throw Exc{o.v};
  co_return mk_res<V, E>(o);
}
template <class E, class V>
Future<V, E> coro_fut(Out o, Tok tok, Future<V, E> wait) {
  if (wait.Valid()) {
    if constexpr (std::is_void_v<V>) {
      co_await std::move(wait);
    } else {
      auto x = co_await std::move(wait);
      co_return std::move(x);
    }
    co_return Unit{};
  }
  tok.use();
  if (o.k == kExc) throw Exc{o.v};
  co_return mk_res<V, E>(o);
}

// decides what the callback does and does it; the chosen outcome is stored in `out`
template <class E, int R>
auto act(World<E>& w, int step, Out& out) -> typename RtT<E, R>::T {
  using V = std::conditional_t<rt_void(R), void, P>;
  const Opt& opt = w.opt;
  if constexpr (R == rVoid || R == rP) {
    bool thr = mc::choose(2, "return|throw") != 0;
    out = thr ? Out{kExc, 30 + step} : Out{kVal, 10 + step};
    if (thr) throw Exc{30 + step};
    if constexpr (R == rP) {
      return P{out.v};
    }
  } else if constexpr (R == rResV || R == rResP) {
    int c = mc::choose(4, "result");
    if (c == 3) {
      out = Out{kExc, 40 + step};
      throw Exc{40 + step};
    }
    out = Out{static_cast<K>(c), 10 * (c + 1) + step};
    return mk_res<V, E>(out);
  } else {
    // asynchronous: first how, then what
    constexpr bool kTask = R == rTaskV || R == rTaskP;
    constexpr bool kSh = R == rShV || R == rShP || R == rShOnV || R == rShOnP;
    constexpr bool kOn = R == rFutOnV || R == rFutOnP || R == rShOnV || R == rShOnP;
    if constexpr (kTask) {
      const int n = opt.inner_rich ? 14 : 3;
      int how = mc::choose(n + 1, "inner task");
      if (how == n) {
        out = Out{kExc, 40 + step};
        throw Exc{40 + step};
      }
      out = pick(step);
      if (how == 10 || how == 11) {
        out = Out{kErr, kStopV};   // dropped promise
      } else if (how == 12) {
        out = Out{kExc, out.v};
      } else if (how == 13) {
        out = Out{kErr, kStopV};   // refused by its executor
      }
      Tok tok{w.live};
      InnerFn<E, V> fn{&w, out, tok};
      w.alloc_step();
      switch (how) {
        case 0:   // MakeTask
          switch (out.k) {
            case kVal:
              if constexpr (std::is_void_v<V>) {
                return MakeTask<void, E>(Unit{});
              } else {
                return MakeTask<P, E>(P{out.v});
              }
            case kErr:
              return MakeTask<V, E>(mk_err<E>(out.v));
            default:
              return MakeTask<V, E>(std::make_exception_ptr(Exc{out.v}));
          }
        case 1:
          return Schedule<E>(w.e3, std::move(fn));
        case 2:
          w.alloc_step();
          return MakeTask<V, E>(mk_err<E>(3)).ThenInline([f = std::move(fn)](Result<V, E>) mutable {
            return f();
          });
        case 3:
          return Schedule<E>(std::move(fn));
        case 4:
          w.alloc_step();
          return Schedule<E>(w.e3, std::move(fn)).Then(InnerPass<E, V>{tok});
        case 5:
          w.alloc_step();
          return Schedule<E>(std::move(fn)).Then(w.e3, InnerPass<E, V>{tok});
        case 6:
          w.alloc_step(2);
          return Schedule<E>(w.e3, std::move(fn)).ThenInline(InnerPass<E, V>{tok}).ThenInline(InnerPass<E, V>{tok});
        case 7:
          return coro_task<E, V>(out, tok);
        case 8:
          return LazyContract<V, E>(InnerProm<E, V>{&w, out, 0, tok});
        case 9:
          return LazyContract<V, E>(w.e3, InnerProm<E, V>{&w, out, 1, tok});
        case 10:
          return LazyContract<V, E>(InnerProm<E, V>{&w, out, 2, tok});
        case 11:
          w.alloc_step();
          return LazyContract<V, E>(w.e3, InnerProm<E, V>{&w, out, 2, tok}).Then(InnerPass<E, V>{tok});
        case 12:
          return LazyContract<V, E>(w.e3, InnerProm<E, V>{&w, out, 3, tok});
        default: {
          return Schedule<E>(MakeInline(StopTag{}), std::move(fn));
        }
      }
    } else if constexpr (!kSh) {
      const int n = opt.inner_rich ? (kOn ? 5 : 7) : 2;
      int how = mc::choose(n + 1, "inner future");
      if (how == n) {
        out = Out{kExc, 40 + step};
        throw Exc{40 + step};
      }
      out = pick(step);
      Tok tok{w.live};
      w.alloc_step();
      if constexpr (kOn) {
        switch (how) {
          case 0: {
            auto [f, p] = MakeContractOn<V, E>(w.e3);
            World<E>::set(std::move(p), out);
            return std::move(f);
          }
          case 1: {
            auto [f, p] = MakeContractOn<V, E>(w.e3);
            w.later(std::move(p), out);
            return std::move(f);
          }
          case 2:
            return Run<E>(w.e3, InnerFn<E, V>{&w, out, tok});
          case 3: {
            auto [f, p] = MakeContractOn<V, E>(w.e3);
            w.later(std::move(p), out, true);
            out = Out{kErr, kStopV};
            return std::move(f);
          }
          default: {
            w.alloc_step();
            auto [f, p] = MakeContract<V, E>();
            w.later(std::move(p), out);
            return std::move(f).Then(w.e3, InnerPass<E, V>{tok});
          }
        }
      } else {
        switch (how) {
          case 0:
            switch (out.k) {
              case kVal:
                if constexpr (std::is_void_v<V>) {
                  return MakeFuture<void, E>(Unit{});
                } else {
                  return MakeFuture<P, E>(P{out.v});
                }
              case kErr:
                return MakeFuture<V, E>(mk_err<E>(out.v));
              default:
                return MakeFuture<V, E>(std::make_exception_ptr(Exc{out.v}));
            }
          case 1: {
            auto [f, p] = MakeContract<V, E>();
            w.later(std::move(p), out);
            return std::move(f);
          }
          case 2: {
            auto [f, p] = MakeContract<V, E>();
            w.later(std::move(p), out, true);
            out = Out{kErr, kStopV};
            return std::move(f);
          }
          case 3: {
            w.alloc_step();
            auto [f, p] = MakeContract<V, E>();
            w.later(std::move(p), out);
            return std::move(f).ThenInline(InnerPass<E, V>{tok});
          }
          case 4:
            return coro_fut<E, V>(out, tok, {});
          case 5: {
            w.alloc_step();
            auto [f, p] = MakeContract<V, E>();
            w.later(std::move(p), out);
            auto r = coro_fut<E, V>(out, tok, std::move(f));
            if (std::is_same_v<E, Err> || std::is_same_v<E, StopError>) {
              // a failure awaited by the coroutine is rethrown out of it: an error becomes ResultError
              if (out.k == kErr) out = Out{kExc, std::is_same_v<E, StopError> ? 2000 + kStopV : 2000 + out.v};
            }
            return r;
          }
          default:
            w.alloc_step(2);
            return Schedule<E>(w.e3, InnerFn<E, V>{&w, out, tok}).ThenInline(InnerPass<E, V>{tok}).ToFuture();
        }
      }
    } else {
      const int n = opt.inner_rich ? 6 : 2;
      int how = mc::choose(n + 1, "inner shared");
      if (how == n) {
        out = Out{kExc, 40 + step};
        throw Exc{40 + step};
      }
      out = pick(step);
      w.alloc_step();
      auto make = [&] {
        if constexpr (kOn) {
          return MakeSharedContractOn<V, E>(w.e3);
        } else {
          return MakeSharedContract<V, E>();
        }
      };
      if (how == 5) {   // computed by RunShared
        Tok tok{w.live};
        if constexpr (kOn) {
          return RunShared<E>(w.e3, InnerFn<E, V>{&w, out, tok});
        } else {
          return RunShared<E>(InnerFn<E, V>{&w, out, tok});
        }
      }
      auto [f, p] = make();
      switch (how) {
        case 0:   // ready, nobody else
          World<E>::set(std::move(p), out);
          break;
        case 1:   // pending, owner keeps a copy
          w.keep(f);
          w.later(std::move(p), out);
          break;
        case 2:   // ready, owner keeps a copy
          World<E>::set(std::move(p), out);
          w.keep(f);
          break;
        case 3:   // pending, nobody else
          w.later(std::move(p), out);
          break;
        case 4:
          w.later(std::move(p), out, true);
          out = Out{kErr, kStopV};
          break;
      }
      return std::move(f);
    }
  }
}

// ---- what callbacks take ----------------------------------------------------------------------------
enum Sg { sVal, sRes, sErr, sExc, Sgs };
inline const char* const kSg[] = {"value", "result", "error", "exception"};
enum Pa { pValue, pRvalue, pConst, Pas };   // how the parameter is declared
inline const char* const kPa[] = {"T", "T&&", "const T&"};

template <class T, int A>
using ParamT = std::conditional_t<A == pValue, T, std::conditional_t<A == pRvalue, T&&, const T&>>;

template <class E, class In, int S, int R, int A>
struct Fn;
#define PIPE_FN(S_, ARG_T, CODE)                                                 \
  template <class E, class In, int R, int A>                                     \
  struct Fn<E, In, S_, R, A> {                                                   \
    World<E>* w;                                                                 \
    int step;                                                                    \
    Tok tok;                                                                     \
    typename RtT<E, R>::T operator()(ParamT<ARG_T, A> x) {                       \
      tok.use();                                                                 \
      auto& r = w->add(step, CODE);                                              \
      return act<E, R>(*w, step, r.out);                                         \
    }                                                                            \
  };
using ResVal = void;
template <class In, class E>
int res_code(const Result<In, E>& r) {
  return code(r);
}
#define PIPE_COMMA ,
PIPE_FN(sRes, Result<In PIPE_COMMA E>, res_code(std::as_const(x)))
PIPE_FN(sErr, E, 1000 + ev(x))
PIPE_FN(sExc, std::exception_ptr, exc_code(x))
template <class E, int R, int A>
struct Fn<E, P, sVal, R, A> {
  World<E>* w;
  int step;
  Tok tok;
  typename RtT<E, R>::T operator()(ParamT<P, A> x) {
    tok.use();
    auto& r = w->add(step, val(x));
    return act<E, R>(*w, step, r.out);
  }
};
template <class E, int R>
struct Fn<E, void, sVal, R, pValue> {
  World<E>* w;
  int step;
  Tok tok;
  typename RtT<E, R>::T operator()() {
    tok.use();
    auto& r = w->add(step, 0);
    return act<E, R>(*w, step, r.out);
  }
};
template <class E, int R, int A>
struct Fn<E, void, sVal, R, A> {
  World<E>* w;
  int step;
  Tok tok;
  typename RtT<E, R>::T operator()(Unit) {
    tok.use();
    auto& r = w->add(step, 0);
    return act<E, R>(*w, step, r.out);
  }
};

// functor of AsyncContract / LazyContract used as a source: step number `step`, seen code 0
template <class E, class V, template <class, class> class Pr>
struct PromFn {
  World<E>* w;
  int step;
  Tok tok;
  void operator()(Pr<V, E>&& p) {
    tok.use();
    auto& r = w->add(step, 0);
    int how = mc::choose(5, "contract body");
    if (how < 3) r.out = pick(step);
    switch (how) {
      case 0:
        World<E>::set(std::move(p), r.out);
        break;
      case 1:
        w->later(std::move(p), r.out);
        break;
      case 2:   // already used when the functor throws: the exception is ignored
        World<E>::set(std::move(p), r.out);
        throw Exc{77};
      case 3:
        r.out = Out{kErr, kStopV};
        break;
      case 4:
        r.out = Out{kExc, 30 + step};
        throw Exc{30 + step};
    }
  }
};

// ---- reference reading --------------------------------------------------------------------------------
// Executors: 0 in place / inline, 1..3 those of the world, -1 always refuses, kInherit: whatever the chain has
inline constexpr int kInherit = 9;
inline constexpr int kStrand = 4;   // a Strand over executor 2
inline constexpr int kExecs = 5;
struct RefStep {
  int id = -1;         // number used in the log; -1: not a callback
  int sig = sRes;
  bool in_void = false;
  bool head = false;   // Run / Schedule / contract / coroutine body: its input is "success"
  int exec = 0;        // where it is submitted to (0: executed in place)
  int sets = -2;       // executor the chain has from here on (-2: follows from exec)
};
template <class E>
struct Ref {
  std::array<RefStep, 12> st;
  int n = 0;
  Out src;             // outcome of a source that is not a callback
  RefStep& add(RefStep s) {
    MC_CHECK(n < 12);
    st[n] = s;
    return st[n++];
  }
  // Evaluates the chain against the log; returns the final outcome's code.
  // refuse_from[e]: executor e refuses from that submission on (-1: never); submits[e]: counted here
  int eval(World<E>& w, bool out_void, const int* refuse_from, int* submits) {
    Out o = src;
    int li = 0;   // the log is in pipeline order
    int cur = 0;
    for (int i = 0; i < n; ++i) {
      const RefStep& s = st[i];
      int exec = s.exec == kInherit ? cur : s.exec;
      bool refused = exec < 0;
      if (exec > 0) {
        int k = submits[exec]++;
        refused = refuse_from[exec] >= 0 && k >= refuse_from[exec];
      }
      if (exec != 0) cur = exec;
      if (s.sets != -2 && !(refused && s.id >= 0)) cur = s.sets;
      if (s.head) o = Out{kVal, 0};
      if (refused) o = Out{kErr, kStopV};
      if (s.id < 0) continue;
      int seen = code_of<E>(o, s.in_void);
      bool runs = s.sig == sRes || (s.sig == sVal && o.k == kVal) || (s.sig == sErr && o.k == kErr) || (s.sig == sExc && o.k == kExc);
      if (!runs) continue;
      MC_CHECK(li < w.n_log, "step %d (takes %s) was not invoked, it should see %d", s.id, kSg[s.sig], seen);
      auto& r = w.log[li];
      MC_CHECK(r.step == s.id, "step %d (takes %s) was not invoked on input %d; instead step %d ran next", s.id, kSg[s.sig], seen,
               r.step);
      MC_CHECK(r.seen == seen, "step %d (takes %s) saw %d instead of %d", s.id, kSg[s.sig], r.seen, seen);
      if (exec > 0 && !refused) {
        MC_CHECK(r.where == (exec == kStrand ? 2 : exec), "step %d ran on executor %d, it was told to run on %d", s.id, r.where, exec);
      }
      ++li;
      o = r.out;
    }
    MC_CHECK(li == w.n_log, "step %d was invoked although its input does not match (or twice), seeing %d", w.log[li].step,
             w.log[li].seen);
    return code_of<E>(o, out_void);
  }
};

// ---- handles ------------------------------------------------------------------------------------------
#ifdef PIPE_STOP
using E = StopError;
#else
using E = Err;
#endif
using W = World<E>;
using H = std::variant<std::monostate, Future<void, E>, Future<P, E>, FutureOn<void, E>, FutureOn<P, E>, SharedFuture<void, E>,
                       SharedFuture<P, E>, SharedFutureOn<void, E>, SharedFutureOn<P, E>, Task<void, E>, Task<P, E>>;
template <int I>
using HAt = std::variant_alternative_t<I, H>;
template <class T>
struct HT;
template <template <class, class> class F, class V_>
struct HT<F<V_, E>> {
  using V = V_;
  using T = F<V_, E>;
  static constexpr bool kVoid = std::is_void_v<V_>;
  static constexpr bool kTask = is_task_v<T>;
  static constexpr bool kShared = is_shared_future_base_v<T>;
  static constexpr bool kOn = std::is_same_v<T, FutureOn<V_, E>> || std::is_same_v<T, SharedFutureOn<V_, E>>;
};

enum At { aInline, aExec, aInherit };
struct Step {      // one attachment
  int id = 0;
  int at = aInline;
  int exec = 1;    // for aExec
  int sig = sVal;
  int ret = rVoid;
};
// which kinds of steps are enumerated
struct Sel {
  unsigned at = 7;      // bit set of At
  unsigned sig = 15;    // bit set of Sg
  unsigned ret = 0x3ff; // bit set of Rt
  int execs = 1;        // number of executors to choose from
  bool inl = false;     // the executors to choose from also include MakeInline(), MakeInline(StopTag{}) and a Strand
  bool conv = false;    // Share / Split / Connect / On(nullptr) steps too
  bool keep = true;     // shared futures: also keep a copy alive
};
inline int choose_bit(unsigned bits, const char* why) {
  int n = __builtin_popcount(bits);
  MC_CHECK(n > 0);
  int c = mc::choose(n, why);
  for (int i = 0;; ++i) {
    if ((bits >> i & 1) && c-- == 0) return i;
  }
}
inline int choose_exec(const Sel& sel, int dflt) {
  int c = mc::choose(sel.execs + (sel.inl ? 3 : 0), "executor");
  return c < sel.execs ? dflt + c : c == sel.execs ? 0 : c == sel.execs + 1 ? -1 : kStrand;
}
inline IExecutor& exec_of(W& w, int e) {
  if (e == kStrand) {
    if (w.strand == nullptr) w.strand = MakeStrand(IExecutorPtr{&w.e2});
    return *w.strand;
  }
  return e == 1 ? static_cast<IExecutor&>(w.e1) : e == 2 ? static_cast<IExecutor&>(w.e2) : e == 3 ? static_cast<IExecutor&>(w.e3)
         : e < 0 ? MakeInline(StopTag{}) : MakeInline();
}

constexpr unsigned kVoidRets = 0x1555 & 0x3fff;
constexpr unsigned kPRets = 0x2aaa & 0x3fff;
constexpr unsigned rets_for(bool in_void, int sig, unsigned sel) {
  if (sig == sVal || sig == sRes) return sel;
  return sel & (in_void ? kVoidRets : kPRets);
}

// instantiates k with the functor type for (sig, ret)
#ifdef PIPE_ALLRT
constexpr int kRtN = Rts;
#else
constexpr int kRtN = rFutOnV;
#endif
template <class In, int S, int R = 0, class K>
void with_fn_r(W& w, const Step& s, K&& k) {
  if constexpr (R < kRtN) {
    if constexpr (S == sVal || S == sRes || rt_void(R) == std::is_void_v<In>) {
      if (s.ret == R) {
        k(Fn<E, In, S, R, pValue>{&w, s.id, Tok{w.live}});
        return;
      }
    }
    with_fn_r<In, S, R + 1>(w, s, std::forward<K>(k));
  } else {
    mc::fail("no such step");
  }
}
template <class In, class K>
void with_fn(W& w, const Step& s, K&& k) {
  switch (s.sig) {
    case sVal:
      return with_fn_r<In, sVal>(w, s, k);
    case sRes:
      return with_fn_r<In, sRes>(w, s, k);
    case sErr:
      return with_fn_r<In, sErr>(w, s, k);
    default:
      return with_fn_r<In, sExc>(w, s, k);
  }
}
// fills sig and ret of s by choice
template <bool InVoid>
void choose_fn(const Sel& sel, Step& s) {
  unsigned sigs = sel.sig;
  for (int i = 0; i < Sgs; ++i) {
    if (rets_for(InVoid, i, sel.ret) == 0) sigs &= ~(1u << i);
  }
  s.sig = choose_bit(sigs, "takes");
  s.ret = choose_bit(rets_for(InVoid, s.sig, sel.ret), "returns");
}

// implemented in pipe_step.cpp, one translation unit per handle type
template <int I>
H step_on(W& w, HAt<I>&& h, const Step& s);
// final callbacks (Detach / Subscribe), sig chosen in s
template <int I>
void detach_on(W& w, HAt<I>&& h, const Step& s);
// implemented in pipe_head.cpp: Run / RunShared / Schedule with a chosen functor
H head_run(W& w, const Step& s, bool inl);
H head_run_shared(W& w, const Step& s, bool inl);
H head_schedule(W& w, const Step& s, bool inl);
extern template H step_on<1>(W&, HAt<1>&&, const Step&);
extern template H step_on<2>(W&, HAt<2>&&, const Step&);
extern template H step_on<3>(W&, HAt<3>&&, const Step&);
extern template H step_on<4>(W&, HAt<4>&&, const Step&);
extern template H step_on<5>(W&, HAt<5>&&, const Step&);
extern template H step_on<6>(W&, HAt<6>&&, const Step&);
extern template H step_on<7>(W&, HAt<7>&&, const Step&);
extern template H step_on<8>(W&, HAt<8>&&, const Step&);
extern template H step_on<9>(W&, HAt<9>&&, const Step&);
extern template H step_on<10>(W&, HAt<10>&&, const Step&);

}  // namespace pl
