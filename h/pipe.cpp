// Driver of the pipeline enumerator: C02, C03, C05, C12, C20 (-DPROP=2|3|5|12|20).
#include "pipe.hpp"

#ifndef MC_MASK
#  define MC_MASK mc::kMem
#endif

namespace pl {
namespace {

constexpr unsigned kMask = MC_MASK;
#ifndef PROP
#  define PROP 2
#endif

enum Head {
  // eager, unique
  hMake, hContract, hContractOn, hRun, hRunE, hAsync, hAsyncE, hCoro,
  // eager, shared
  hShContract, hShContractOn, hRunSh, hRunShE, hAsyncSh, hAsyncShE, hCoroSh,
  // lazy
  hMakeTask, hSched, hSchedE, hLazy, hLazyE, hCoroTask,
  Heads
};
const char* const kHead[] = {"MakeFuture", "Contract", "ContractOn", "Run", "Run(e)", "AsyncContract", "AsyncContract(e)", "coroFuture",
                             "SharedContract", "SharedContractOn", "RunShared", "RunShared(e)", "AsyncSharedContract",
                             "AsyncSharedContract(e)", "coroShared", "MakeTask", "Schedule", "Schedule(e)", "LazyContract",
                             "LazyContract(e)", "coroTask"};
constexpr bool lazy(int h) {
  return h >= hMakeTask;
}
constexpr bool shared(int h) {
  return h >= hShContract && h < hMakeTask;
}

enum Fin {   // how the chain ends
  fGet, fDrop, fDetach, fConnect, fTouch,
  // lazy
  fToFuture, fToFutureE, fLDetach, fLDetachE, fCancel, fNever, fInner, fInnerAsync, fAwait, fAwaitTask, fStartDrop, Fins
};
const char* const kFin[] = {"Get", "drop", "Detach(f)", "Connect", "Touch", "ToFuture", "ToFuture(e)", "Detach", "Detach(e)", "Cancel",
                            "destroy", "returned", "returned-late", "co_await", "Await", "start-then-drop"};

struct Cfg {
  int head = hContract;
  int depth = 1;
  Sel first, rest;
  unsigned fins = 1u << fGet;
  bool pos = true;        // enumerate when the source is fulfilled
  bool refuse = false;    // executors refuse from the k-th submission, every k
  bool queue = false;     // executors run at once / only when drained
  bool rich = true;       // inner futures in every form
  bool inl = false;       // executors also: MakeInline(), MakeInline(StopTag{}), a Strand
  bool sync = false;      // everything is fulfilled at once
  int first_at = -1;      // fixed choices of the first step (to split the work)
  int first_sig = -1;
};

template <class V>
Future<V, E> coro_head(W* w, int step, Tok tok, Future<V, E> wait) {
  auto& r = w->add(step, 0);
  tok.use();
  bool aw = wait.Valid();
  if (aw) co_await Await(wait);
  int how = mc::choose(4, "coroutine ends");
  if (how == 3) {
    r.out = Out{kErr, kStopV};
    co_return StopTag{};
  }
  r.out = pick(step);
  if (r.out.k == kExc) throw Exc{r.out.v};
  if (r.out.k == kVal) {
    if constexpr (std::is_void_v<V>) {
      co_return Unit{};
    } else {
      co_return P{r.out.v};
    }
  }
  co_return mk_err<E>(r.out.v);
}
template <class V>
SharedFuture<V, E> coro_shared(W* w, int step, Tok tok, Future<V, E> wait) {
  auto& r = w->add(step, 0);
  tok.use();
  if (wait.Valid()) co_await Await(wait);
  r.out = pick(step);
  if (r.out.k == kExc) throw Exc{r.out.v};
  co_return mk_res<V, E>(r.out);
}
template <class V>
Task<V, E> coro_lazy(W* w, int step, Tok tok, Future<V, E> wait) {
  auto& r = w->add(step, 0);
  tok.use();
  if (wait.Valid()) co_await Await(wait);
  r.out = pick(step);
  if (r.out.k == kExc) throw Exc{r.out.v};
  co_return mk_res<V, E>(r.out);
}

struct Runner {
  const Cfg& c;
  W w;
  Ref<E> ref;
  H h;
  int refuse[kExecs] = {-1, -1, -1, -1, -1};
  int submits[kExecs] = {};
  bool has_src = false;
  typename W::Pend src;
  int n_steps = 0;

  explicit Runner(const Cfg& cfg) : c(cfg) {
    w.base_alloc = mc::total_allocs();
    w.opt.inner_rich = c.rich;
    w.opt.pend = !c.sync;
  }
  template <class T>
  void put(T&& t) {
    h.template emplace<std::decay_t<T>>(std::move(t));
  }
  template <class Pr>
  void source(Pr&& p) {
    has_src = true;
    src.drop = mc::choose(2, "set|drop") == 1;
    src.o = src.drop ? Out{kErr, kStopV} : pick(0);
    src.p = std::move(p);
    ref.src = src.o;
  }
  void fulfil_src() {
    if (!has_src) return;
    has_src = false;
    std::visit(
      [&](auto& p) {
        using T = std::decay_t<decltype(p)>;
        if constexpr (!std::is_same_v<T, std::monostate>) {
          T q = std::move(p);
          if (!src.drop) W::set(std::move(q), src.o);
        }
      },
      src.p);
    src.p = std::monostate{};
  }
  RefStep& callback(int sig, bool in_void, int exec) {
    RefStep s;
    s.id = n_steps++;
    s.sig = sig;
    s.in_void = in_void;
    s.exec = exec;
    return ref.add(s);
  }
  template <class V>
  Future<V, E> inner_wait() {   // what a coroutine source waits for, or nothing
    if (mc::choose(2, "runs through|waits") == 0) return {};
    w.alloc_step();
    auto [f, p] = MakeContract<V, E>();
    w.later(std::move(p), Out{kVal, 1});
    return std::move(f);
  }
  int some_exec(int dflt) {
    Sel sel;
    sel.inl = c.inl;
    return choose_exec(sel, dflt);
  }
  template <class V>
  void head_v() {
    constexpr bool kV = std::is_void_v<V>;
    RefStep s;
    w.alloc_step();
    const bool on = c.head == hContractOn || c.head == hShContractOn || c.head == hAsyncE || c.head == hAsyncShE || c.head == hLazyE;
    const int he = on ? some_exec(1) : 1;
    switch (c.head) {
      case hMake: {
        Out o = pick(0);
        ref.src = o;
        if (o.k == kVal) {
          if constexpr (kV) {
            put(MakeFuture<void, E>(Unit{}));
          } else {
            put(MakeFuture<P, E>(P{o.v}));
          }
        } else if (o.k == kErr) {
          put(MakeFuture<V, E>(mk_err<E>(o.v)));
        } else {
          put(MakeFuture<V, E>(std::make_exception_ptr(Exc{o.v})));
        }
        break;
      }
      case hMakeTask: {
        Out o = pick(0);
        ref.src = o;
        if (o.k == kVal) {
          if constexpr (kV) {
            put(MakeTask<void, E>(Unit{}));
          } else {
            put(MakeTask<P, E>(P{o.v}));
          }
        } else if (o.k == kErr) {
          put(MakeTask<V, E>(mk_err<E>(o.v)));
        } else {
          put(MakeTask<V, E>(std::make_exception_ptr(Exc{o.v})));
        }
        ref.add(s);
        break;
      }
      case hContract: {
        auto [f, p] = MakeContract<V, E>();
        put(std::move(f));
        source(std::move(p));
        break;
      }
      case hContractOn: {
        auto [f, p] = MakeContractOn<V, E>(exec_of(w, he));
        put(std::move(f));
        source(std::move(p));
        s.sets = he;
        ref.add(s);
        break;
      }
      case hShContract: {
        auto [f, p] = MakeSharedContract<V, E>();
        put(std::move(f));
        source(std::move(p));
        break;
      }
      case hShContractOn: {
        auto [f, p] = MakeSharedContractOn<V, E>(exec_of(w, he));
        put(std::move(f));
        source(std::move(p));
        s.sets = he;
        ref.add(s);
        break;
      }
      case hAsync:
        callback(sVal, true, 0).head = true;
        put(AsyncContract<V, E>(PromFn<E, V, Promise>{&w, 0, Tok{w.live}}));
        break;
      case hAsyncE:
        callback(sVal, true, he).head = true;
        put(AsyncContract<V, E>(exec_of(w, he), PromFn<E, V, Promise>{&w, 0, Tok{w.live}}));
        break;
      case hAsyncSh:
        callback(sVal, true, 0).head = true;
        put(AsyncSharedContract<V, E>(PromFn<E, V, SharedPromise>{&w, 0, Tok{w.live}}));
        break;
      case hAsyncShE:
        callback(sVal, true, he).head = true;
        put(AsyncSharedContract<V, E>(exec_of(w, he), PromFn<E, V, SharedPromise>{&w, 0, Tok{w.live}}));
        break;
      case hLazy:
        callback(sVal, true, 0).head = true;
        put(LazyContract<V, E>(PromFn<E, V, Promise>{&w, 0, Tok{w.live}}));
        break;
      case hLazyE:
        callback(sVal, true, he).head = true;
        put(LazyContract<V, E>(exec_of(w, he), PromFn<E, V, Promise>{&w, 0, Tok{w.live}}));
        break;
      case hCoro:
        callback(sVal, true, 0).head = true;
        put(coro_head<V>(&w, 0, Tok{w.live}, inner_wait<V>()));
        break;
      case hCoroSh:
        callback(sVal, true, 0).head = true;
        put(coro_shared<V>(&w, 0, Tok{w.live}, inner_wait<V>()));
        break;
      case hCoroTask:
      {
        auto& cb = callback(sVal, true, 0);
        cb.head = true;
        auto f = inner_wait<V>();
        // a coroutine resumed in place by what it awaited continues on the executor of that
        if (f.Valid() && !c.sync) cb.sets = 0;
        put(coro_lazy<V>(&w, 0, Tok{w.live}, std::move(f)));
      }
        break;
    }
  }
  void head() {
    switch (c.head) {
      case hRun:
      case hRunE:
      case hRunSh:
      case hRunShE:
      case hSched:
      case hSchedE: {
        Step s;
        bool inl = c.head == hRun || c.head == hRunSh || c.head == hSched;
        choose_fn<true>(c.first, s);
        s.exec = inl ? 1 : some_exec(1);
        s.id = n_steps;
        callback(s.sig, true, inl ? 0 : s.exec).head = true;
        w.alloc_step();
        h = c.head == hRun || c.head == hRunE     ? head_run(w, s, inl)
            : c.head == hRunSh || c.head == hRunShE ? head_run_shared(w, s, inl)
                                                    : head_schedule(w, s, inl);
        break;
      }
      default:
        mc::choose(2, "void|value") == 0 ? head_v<void>() : head_v<P>();
    }
    w.check_alloc("source");
  }

  void attach(const Sel& sel, bool first) {
    Step s;
    std::visit(
      [&](auto& x) {
        using X = std::decay_t<decltype(x)>;
        if constexpr (!std::is_same_v<X, std::monostate>) {
          using T = HT<X>;
          unsigned at = sel.at & (T::kOn || T::kTask ? 7 : 3);
          if (at == 0) at = 1 << aInline;
          s.at = first && c.first_at >= 0 ? c.first_at : choose_bit(at, "attach");
          if (s.at == aInherit && !(T::kOn || T::kTask)) s.at = aInline;
          if (s.at == aExec) s.exec = choose_exec(sel, 1);
          if (first && c.first_sig >= 0) {
            s.sig = c.first_sig;
            s.ret = choose_bit(rets_for(T::kVoid, s.sig, sel.ret), "returns");
          } else {
            choose_fn<T::kVoid>(sel, s);
          }
          s.id = n_steps;
          auto& cb = callback(s.sig, T::kVoid, s.at == aInline ? 0 : s.at == aExec ? s.exec : kInherit);
          if (s.at == aExec && s.exec == 0) cb.sets = 0;
          w.alloc_step();
          if constexpr (T::kShared) {
            if (sel.keep && mc::choose(2, "drop|keep") == 1) w.keep(x);
          }
        }
      },
      h);
    H old = std::move(h);
    h = std::monostate{};
    switch (old.index()) {
#define PIPE_CASE(i)                                    \
  case i:                                               \
    h = step_on<i>(w, std::move(std::get<i>(old)), s);  \
    break;
      PIPE_CASE(1)
      PIPE_CASE(2)
      PIPE_CASE(3)
      PIPE_CASE(4)
      PIPE_CASE(5)
      PIPE_CASE(6)
      PIPE_CASE(7)
      PIPE_CASE(8)
      PIPE_CASE(9)
      PIPE_CASE(10)
    }
    w.check_alloc("attaching a step");
  }
  // Share, Split, Connect, On(nullptr)
  void convert() {
    int pick_ = mc::choose(h.index() >= 9 ? 2 : 5, "conversion");
    if (pick_ == 0) return;
    H old = std::move(h);
    h = std::monostate{};
    std::visit(
      [&](auto& x) {
        using X = std::decay_t<decltype(x)>;
        if constexpr (!std::is_same_v<X, std::monostate>) {
          using T = HT<X>;
          using V = typename T::V;
          RefStep s;
          if constexpr (T::kTask) {
            put(std::move(x).On(nullptr));
            return;
          } else {
            switch (pick_) {
              case 1:   // to the other kind
                w.alloc_step();
                if constexpr (T::kShared) {
                  if (mc::choose(2, "drop|keep") == 1) w.keep(x);
                  put(Share(x));
                } else {
                  put(Split(std::move(x)));
                }
                break;
              case 2:   // Connect to a unique promise
                w.alloc_step();
                {
                  auto [f, p] = MakeContract<V, E>();
                  if constexpr (T::kShared) {
                    if (mc::choose(2, "drop|keep") == 1) w.keep(x);
                    Connect(x, std::move(p));
                  } else {
                    Connect(std::move(x), std::move(p));
                  }
                  put(std::move(f));
                }
                break;
              case 3:   // Connect to a shared promise / Share on an executor
                w.alloc_step();
                if (T::kShared && mc::choose(2, "Connect|Share(e)") == 1) {
                  if constexpr (T::kShared) {
                    if (mc::choose(2, "drop|keep") == 1) w.keep(x);
                    put(Share(x, w.e2));
                    s.sets = 2;
                    ref.add(s);
                  }
                } else {
                  auto [f, p] = MakeSharedContract<V, E>();
                  if constexpr (T::kShared) {
                    if (mc::choose(2, "drop|keep") == 1) w.keep(x);
                    Connect(x, std::move(p));
                  } else {
                    Connect(std::move(x), std::move(p));
                  }
                  put(std::move(f));
                }
                break;
              default:
                if constexpr (T::kOn) {
                  put(std::move(x).On(nullptr));
                } else {
                  put(std::move(x));
                }
            }
          }
        }
      },
      old);
    w.check_alloc("Share/Split/Connect");
  }

  int got = -1;
  bool out_void = true;
  bool observed = false;

  template <class X>
  void observe(X& x, bool touch) {
    using T = HT<X>;
    out_void = T::kVoid;
    w.settle();
    MC_CHECK(x.Ready(), "everything settled but the Future is not ready");
    auto before = mc::total_allocs();
    if constexpr (T::kShared) {
      if (touch) {
        got = code(std::as_const(x).Touch());
        MC_CHECK(code(std::as_const(x).Get()) == got);
        MC_CHECK(code(std::move(x).Touch()) == got);
      } else {
        bool move = mc::choose(2, "Get&|Get&&") == 1;
        got = move ? code(std::move(x).Get()) : code(std::as_const(x).Get());
      }
    } else if (touch) {
      got = code(std::as_const(x).Touch());
      MC_CHECK(std::as_const(x).Get() != nullptr && code(*std::as_const(x).Get()) == got);
      MC_CHECK(code(std::move(x).Touch()) == got);
    } else {
      got = code(std::move(x).Get());
    }
    if (kPlain) MC_CHECK(mc::total_allocs() == before, "Get allocated");
    observed = true;
  }

  // The ways to get rid of a handle: its destructor, or a move assignment over it.
  template <class X>
  static void drop_handle(X& x) {
    if (mc::choose(2, "destroyed|assigned over") == 0) {
      X gone = std::move(x);
    } else {
      x = X{};
    }
    MC_CHECK(!x.Valid());
  }

  void eager_end() {
    int fin = choose_bit(c.fins, "consume");
    std::visit(
      [&](auto& x) {
        using X = std::decay_t<decltype(x)>;
        if constexpr (!std::is_same_v<X, std::monostate>) {
          using T = HT<X>;
          if constexpr (!T::kTask) {
            switch (fin) {
              case fGet:
              case fTouch:
                fulfil_src();
                observe(x, fin == fTouch);
                break;
              case fDrop: {
                bool late = mc::choose(2, "drop before|after") == 1;
                if (late) {
                  fulfil_src();
                  w.settle();
                }
                drop_handle(x);
                break;
              }
              case fConnect: {
                w.alloc_step();
                auto [f, p] = MakeContract<typename T::V, E>();
                if constexpr (T::kShared) {
                  Connect(x, std::move(p));
                } else {
                  Connect(std::move(x), std::move(p));
                }
                fulfil_src();
                observe(f, false);
                break;
              }
              case fDetach: {
                Step s;
                s.at = choose_bit(T::kOn ? 7 : 3, "attach");
                s.exec = some_exec(2);
                s.sig = mc::choose(4, "takes");
                s.id = n_steps;
                callback(s.sig, T::kVoid, s.at == aInline ? 0 : s.at == aExec ? s.exec : kInherit);
                w.alloc_step();
                fin_step = s;
                break;
              }
            }
          }
        }
      },
      h);
    if (fin == fDetach) {
      H old = std::move(h);
      h = std::monostate{};
      switch (old.index()) {
#define PIPE_DCASE(i)                                      \
  case i:                                                  \
    detach_on<i>(w, std::move(std::get<i>(old)), fin_step); \
    break;
        PIPE_DCASE(1)
        PIPE_DCASE(2)
        PIPE_DCASE(3)
        PIPE_DCASE(4)
        PIPE_DCASE(5)
        PIPE_DCASE(6)
        PIPE_DCASE(7)
        PIPE_DCASE(8)
      }
      w.check_alloc("Detach");
    }
    h = std::monostate{};
    fulfil_src();
    w.settle();
  }
  Step fin_step;

  // a coroutine that awaits the task
  template <class V>
  static Future<V, E> awaits(W* w, Task<V, E> t, int mode, int* seen) {
    if (mode == 0) {
      if constexpr (std::is_void_v<V>) {
        co_await std::move(t);
        co_return Unit{};
      } else {
        auto x = co_await std::move(t);
        co_return std::move(x);
      }
    } else {
      co_await Await(t);
      MC_CHECK(t.Valid() && t.Ready(), "a Task is not ready after Await");
      int before = code(std::as_const(t).Touch());
      if (mode == 2) {   // left to the destructor of a completed Task
        int n = w->n_log;
        { Task<V, E> gone = std::move(t); }
        MC_CHECK(n == w->n_log, "destroying a completed Task ran something");
        *seen = before;
        throw Exc{9};
      }
      auto r = std::move(t).Touch();
      MC_CHECK(code(r) == before);
      co_return std::move(r);
    }
  }

  void lazy_end() {
    w.check_alloc("building a Task");
    MC_CHECK(w.n_log == 0, "step %d of a Task ran before the Task was started", w.log[0].step);
    MC_CHECK(w.e1.submits() == 0 && w.e2.submits() == 0 && w.e3.submits() == 0, "a Task submitted work before it was started");
    int fin = choose_bit(c.fins, "start");
    RefStep& hd = ref.st[0];
    std::visit(
      [&](auto& x) {
        using X = std::decay_t<decltype(x)>;
        if constexpr (!std::is_same_v<X, std::monostate>) {
          using T = HT<X>;
          using V = typename T::V;
          if constexpr (T::kTask) {
            MC_CHECK(x.Valid() && !x.Ready(), "a Task is ready before it was started");
            out_void = T::kVoid;
            switch (fin) {
              case fGet:
                got = code(std::move(x).Get());   // only with c.sync: nothing is left to be done by this very thread
                observed = true;
                break;
              case fToFuture: {
                auto f = std::move(x).ToFuture();
                observe(f, false);
                break;
              }
              case fToFutureE: {
                hd.exec = some_exec(2);
                auto f = std::move(x).ToFuture(exec_of(w, hd.exec));
                observe(f, false);
                break;
              }
              case fLDetach:
                std::move(x).Detach();
                break;
              case fLDetachE:
                hd.exec = some_exec(2);
                std::move(x).Detach(exec_of(w, hd.exec));
                break;
              case fCancel:
                hd.exec = -1;
                std::move(x).Cancel();
                break;
              case fNever:
                hd.exec = -1;
                drop_handle(x);
                break;
              case fStartDrop: {
                auto f = std::move(x).ToFuture();
                drop_handle(f);
                break;
              }
              case fInner:
              case fInnerAsync: {
                w.alloc_step(2);
                Tok tok{w.live};
                if (fin == fInner) {
                  auto f = MakeFuture<void, E>().ThenInline([t = std::move(x), tok = std::move(tok)]() mutable {
                    tok.use();
                    return std::move(t);
                  });
                  observe(f, false);
                } else {
                  auto [f, p] = MakeContract<void, E>();
                  auto g = std::move(f).ThenInline([t = std::move(x), tok = std::move(tok)]() mutable {
                    tok.use();
                    return std::move(t);
                  });
                  MC_CHECK(w.n_log == 0, "a Task ran before the step that returns it");
                  std::move(p).Set();
                  observe(g, false);
                }
                break;
              }
              case fAwait:
              case fAwaitTask: {
                w.alloc_step();
                int mode = fin == fAwait ? 0 : 1 + mc::choose(2, "take|destroy");
                auto f = awaits<V>(&w, std::move(x), mode, &aw_seen);
                observe(f, false);
                if (mode == 2) {
                  MC_CHECK(got == 2009, "exception lost");
                  got = aw_seen;
                }
                aw_mode = mode;
                break;
              }
            }
          }
        }
      },
      h);
    h = std::monostate{};
    w.settle();
  }
  int aw_mode = -1, aw_seen = -1;

  void run() {
    if (c.refuse) {
      for (int e = 1; e <= 2; ++e) {
        int k = mc::choose(4, "refuse from");
        refuse[e] = k == 3 ? -1 : k;
        exec(e).reject_from(refuse[e]);
      }
    }
    if (c.queue) {
      bool q = mc::choose(2, "at once|queued") == 1;
      w.e1.queue = w.e2.queue = q;
    }
    body();
  }
  void body() {
    int pos = -1;
    head();
    if (has_src && c.pos) pos = mc::choose(c.depth + 1, "fulfil before step");
    for (int i = 0; i < c.depth; ++i) {
      if (pos == i) fulfil_src();
      const Sel& sel = i == 0 && !has_functor_head() ? c.first : c.rest;
      if (sel.conv) convert();
      attach(sel, i == 0);
    }
    if (c.rest.conv) convert();
    if (lazy(c.head)) {
      lazy_end();
    } else {
      eager_end();
    }
    w.check_alloc("the whole pipeline");
    for (auto& k : w.kept) k = std::monostate{};
    int want = ref.eval(w, out_void, refuse, submits);
    if (observed) {
      if (aw_mode == 0 && want >= 900 && want < 2000) {   // an awaited error is rethrown as ResultError
        want = 4000 + (want - 1000);
      }
      MC_CHECK(got == want, "the Future holds %d, the chain computes %d", got, want);
    }
    for (int e = 1; e <= (w.strand == nullptr ? 2 : 1); ++e) {
      MC_CHECK(exec(e).submits() == submits[e], "executor %d got %d submissions, the chain makes %d", e, exec(e).submits(), submits[e]);
    }
    MC_CHECK(w.live.get() == 0, "%d captures of callbacks alive at the end (negative: destroyed too often)", w.live.get());
    mc::outcome("%d/%d", want, w.n_log);
  }
  QExec& exec(int e) {
    return e == 1 ? w.e1 : w.e2;
  }
  bool has_functor_head() const {
    return c.head == hRun || c.head == hRunE || c.head == hRunSh || c.head == hRunShE || c.head == hSched || c.head == hSchedE;
  }
};

void go(const Cfg& c) {
  Runner r{c};
  r.run();
}

void add(std::string name, Cfg c, bool thorough = false, double weight = 1) {
  mc::Opts o;
  o.mask = kMask;
  o.thorough = thorough;
  o.weight = weight;
  mc::add_test(std::move(name), o, [c] {
    go(c);
  });
}

const char* const kAt[] = {"inline", "exec", "inherit"};

constexpr unsigned kBasicRet = 0x3ff;
constexpr unsigned kEagerFins = 1u << fGet | 1u << fTouch | 1u << fDetach | 1u << fConnect | 1u << fDrop;
constexpr unsigned bit(int i) {
  return 1u << i;
}
// a few representatives: value, Result, Future, Task
constexpr unsigned kFewRet = bit(rVoid) | bit(rP) | bit(rResP) | bit(rFutV) | bit(rTaskP) | bit(rShP);
constexpr unsigned kValRet = bit(rVoid) | bit(rP) | bit(rResP);

constexpr bool functor_head(int h) {
  return h == hRun || h == hRunE || h == hRunSh || h == hRunShE || h == hSched || h == hSchedE;
}
constexpr bool has_exec(int h) {
  return h == hContractOn || h == hRunE || h == hAsyncE || h == hShContractOn || h == hRunShE || h == hAsyncSh || h == hAsyncShE ||
         lazy(h);
}

MC_TESTS {
#if PROP == 2
  for (int h = 0; h < hMakeTask; ++h) {
    Cfg c;
    c.head = h;
    const bool fn = functor_head(h);
    {   // every way to consume
      Cfg d = c;
      d.fins = kEagerFins;
      d.depth = 0;
      add(std::string{"d0/"} + kHead[h], d);
      d.depth = 1;
      d.rich = false;
      if (fn) d.first.ret = kValRet;
      d.rest.ret = fn ? kValRet : kBasicRet;
      add(std::string{"consume/"} + kHead[h], d);
    }
    {   // conversions around one step
      Cfg d = c;
      d.depth = 1;
      d.first.conv = d.rest.conv = true;
      d.first.ret = d.rest.ret = fn ? kValRet : kFewRet;
      d.first.at = d.rest.at = bit(aInline) | bit(aInherit);
      d.rich = false;
      add(std::string{"conv/"} + kHead[h], d);
    }
    // one step in every form
    for (int at = 0; at < 2; ++at) {
      Cfg d = c;
      d.depth = 1;
      if (!fn) d.first_at = at;
      if (fn) d.rest.at = bit(at);
      add(std::string{"d1/"} + kHead[h] + "/" + kAt[at], d, fn && shared(h));
    }
    if (shared(h) && fn) {
      Cfg d = c;
      d.depth = 1;
      d.rich = false;
      add(std::string{"d1s/"} + kHead[h], d);
    }
    for (int at = 0; at < 3; ++at) {
      if (at == aInherit && !has_exec(h)) continue;
      for (int sig = 0; sig < 4; ++sig) {
        for (int few = 0; few < 2; ++few) {
          Cfg d = c;
          d.depth = 2;
          d.first_at = at;
          d.first_sig = sig;
          d.rich = false;
          d.rest.at = bit(aInline) | bit(aExec);
          if (few) d.first.ret = d.rest.ret = fn ? kValRet : kFewRet;
          bool quick = few ? !fn && at != aExec : h == hContract && at == aInline;
          add(std::string{few ? "d2s/" : "d2/"} + kHead[h] + "/" + kAt[at] + "/" + kSg[sig], d, !quick);
        }
      }
    }
    for (int sig = 0; sig < 4; ++sig) {
      if (fn) continue;
      Cfg d = c;
      d.depth = 3;
      d.rich = false;
      d.pos = false;
      d.first_at = aInline;
      d.first_sig = sig;
      d.rest.at = bit(aInline);
      d.first.ret = d.rest.ret = bit(rP) | bit(rVoid) | bit(rFutP);
      d.rest.keep = d.first.keep = false;
      add(std::string{"d3/"} + kHead[h] + "/" + kSg[sig], d, h != hContract);
    }
  }
#elif PROP == 5
  // where steps run: executors, inherited executors, refusing executors
  for (int h = 0; h < Heads; ++h) {
    for (int q = 0; q < 2; ++q) {
      Cfg c;
      c.head = h;
      c.rich = false;
      c.refuse = q == 0;
      c.queue = q == 1;
      c.fins = lazy(h) ? bit(fToFuture) | bit(fToFutureE) | bit(fLDetachE) | bit(fInner) | bit(fAwait) : bit(fGet) | bit(fDetach);
      c.first.execs = c.rest.execs = 2;
      c.first.ret = functor_head(h) ? bit(rP) : bit(rP) | bit(rTaskP);
      c.rest.ret = bit(rP) | bit(rFutP);
      c.first.sig = c.rest.sig = bit(sVal) | bit(sRes) | bit(sErr);
      c.depth = 1;
      add(std::string{q ? "where/queue/" : "where/refuse/"} + kHead[h] + "/1", c);
      c.depth = 2;
      c.first.ret = c.rest.ret = bit(rP);
      c.first.keep = c.rest.keep = false;
      for (int at = 0; at < 3; ++at) {
        if (at == aInherit && !has_exec(h)) continue;
        if (functor_head(h)) {
          c.rest.at = bit(at);
        } else {
          c.first_at = at;
        }
        add(std::string{q ? "where/queue/" : "where/refuse/"} + kHead[h] + "/2/" + kAt[at], c);
      }
      c.depth = 3;
      c.pos = false;
      c.first_at = -1;
      c.rest.at = 7;
      c.first.execs = c.rest.execs = 1;
      c.first.sig = c.rest.sig = bit(sVal) | bit(sRes);
      c.fins = bit(lazy(h) ? fToFutureE : fGet);
      add(std::string{q ? "where/queue/" : "where/refuse/"} + kHead[h] + "/3", c, true);
    }
    for (int d = 0; d <= 2; ++d) {   // the library's own executors
      Cfg c;
      c.head = h;
      c.rich = false;
      c.inl = c.first.inl = c.rest.inl = true;
      c.queue = d == 0;
      c.depth = d;
      c.fins = d == 2 ? bit(lazy(h) ? fToFuture : fGet)
                      : lazy(h) ? bit(fToFuture) | bit(fToFutureE) | bit(fLDetachE) | bit(fInner) | bit(fAwait) : bit(fGet) | bit(fDetach);
      c.first.ret = c.rest.ret = functor_head(h) || d == 2 ? bit(rP) : bit(rP) | bit(rTaskP) | bit(rFutP);
      c.first.sig = c.rest.sig = d == 2 ? bit(sVal) | bit(sRes) : bit(sVal) | bit(sRes) | bit(sErr);
      add(std::string{"where/real/"} + kHead[h] + "/" + std::to_string(d), c);
    }
    Cfg c;
    c.head = h;
    c.rich = false;
    c.depth = 1;
    c.fins = bit(lazy(h) ? fToFuture : fGet);
    c.first.conv = c.rest.conv = true;
    c.first.ret = c.rest.ret = bit(rP);
    c.first.sig = c.rest.sig = bit(sVal);
    c.refuse = true;
    add(std::string{"where/conv/"} + kHead[h], c);
  }
#elif PROP == 12
  const unsigned kStarts = bit(fToFuture) | bit(fToFutureE) | bit(fLDetach) | bit(fLDetachE) | bit(fInner) | bit(fInnerAsync) | bit(fAwait) |
                           bit(fAwaitTask) | bit(fStartDrop);
  const unsigned kDrops = bit(fNever) | bit(fCancel);
  for (int h = hMakeTask; h < Heads; ++h) {
    const bool fn = functor_head(h);
    for (int queue = 0; queue < 2; ++queue) {
      Cfg c;
      c.head = h;
      c.queue = queue;
      std::string q = queue ? "queue/" : "";
      c.fins = kStarts | kDrops;
      c.depth = 0;
      add("lazy0/" + q + kHead[h], c);
      c.depth = 1;
      for (int f = 0; f < Fins; ++f) {
        if (((kStarts | kDrops) >> f & 1) == 0) continue;
        c.fins = bit(f);
        c.rich = true;
        c.first.ret = c.rest.ret = kBasicRet;
        if (fn) c.first.ret = kFewRet;
        add("lazy1/" + q + kFin[f] + "/" + kHead[h], c, queue && fn);
        c.rich = false;
        c.depth = 2;
        c.first.ret = c.rest.ret = fn ? bit(rP) | bit(rTaskP) : kFewRet;
        if (fn) c.first.sig = bit(sVal) | bit(sRes);
        add("lazy2/" + q + kFin[f] + "/" + kHead[h], c, queue);
        c.first.sig = 15;
        c.depth = 3;
        c.first.ret = c.rest.ret = bit(rP);
        add("lazy3/" + q + kFin[f] + "/" + kHead[h], c, true);
        c.depth = 1;
      }
    }
    Cfg c;
    c.head = h;
    c.sync = true;
    c.fins = bit(fGet);
    for (int d = 0; d < 3; ++d) {
      c.depth = d;
      c.rich = d < 2;
      if (d == 2) c.first.ret = c.rest.ret = fn ? kValRet : kFewRet;
      add("get" + std::to_string(d) + "/" + kHead[h], c);
    }
    c = Cfg{};
    c.head = h;
    c.refuse = true;
    c.rich = false;
    c.depth = 1;
    c.fins = kStarts;
    c.first.ret = c.rest.ret = bit(rP) | bit(rTaskP);
    add(std::string{"refuse/"} + kHead[h], c);
  }
#elif PROP == 3
  // everything is released: chains dropped at every stage, refused, cancelled, finished
  for (int h = 0; h < Heads; ++h) {
    const bool fn = functor_head(h);
    for (int f = 0; f < Fins; ++f) {
      const unsigned all = lazy(h) ? bit(fToFuture) | bit(fLDetachE) | bit(fCancel) | bit(fNever) | bit(fInner) | bit(fAwaitTask) | bit(fStartDrop)
                                   : bit(fGet) | bit(fDrop) | bit(fDetach) | bit(fConnect);
      if ((all >> f & 1) == 0) continue;
      Cfg c;
      c.head = h;
      c.fins = bit(f);
      c.refuse = true;
      c.rich = false;
      c.depth = 1;
      c.first.ret = fn ? bit(rP) : kFewRet;
      c.rest.ret = fn ? bit(rP) : f == fDetach ? bit(rP) | bit(rTaskP) : kFewRet;
      add(std::string{"own1/"} + kFin[f] + "/" + kHead[h], c);
      c.refuse = false;
      c.queue = true;
      c.depth = 2;
      c.pos = false;
      c.first.keep = c.rest.keep = f == fGet;
      c.first.ret = c.rest.ret = fn ? bit(rP) : bit(rP) | bit(rTaskP) | bit(rFutV);
      c.first.sig = c.rest.sig = bit(sVal) | bit(sRes);
      c.first.at = c.rest.at = bit(aExec) | bit(aInherit);
      if (f == fDetach) c.first.ret = c.rest.ret = bit(rP) | bit(fn ? rP : rTaskP);
      add(std::string{"own2/"} + kFin[f] + "/" + kHead[h], c);
      c.first = c.rest = Sel{};
      c.first.ret = c.rest.ret = fn ? bit(rP) : bit(rP) | bit(rTaskP) | bit(rFutV) | bit(rShP);
      add(std::string{"own2t/"} + kFin[f] + "/" + kHead[h], c, true);
    }
  }
#elif PROP == 20
  for (int h = 0; h < Heads; ++h) {
    const bool fn = functor_head(h);
    Cfg c;
    c.head = h;
    c.fins = lazy(h) ? bit(fToFuture) | bit(fToFutureE) | bit(fLDetach) | bit(fInner) | bit(fAwait) | bit(fAwaitTask) : kEagerFins;
    c.depth = 0;
    add(std::string{"alloc0/"} + kHead[h], c);
    c.depth = 1;
    c.fins = bit(lazy(h) ? fToFuture : fGet);
    if (fn) c.first.ret = kFewRet;
    c.first.keep = c.rest.keep = !fn;
    add(std::string{"alloc1/"} + kHead[h], c);
    c.rich = false;
    c.depth = 2;
    c.first.ret = c.rest.ret = fn ? bit(rP) : bit(rP) | bit(rTaskP) | bit(rShP);
    add(std::string{"alloc2/"} + kHead[h], c);
    c.depth = 1;
    c.first.ret = c.rest.ret = kValRet;
    c.first.conv = c.rest.conv = true;
    add(std::string{"allocC/"} + kHead[h], c);
  }
#endif
};

}  // namespace
}  // namespace pl
