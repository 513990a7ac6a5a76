// C02: one step, every way to declare the callback and its parameter, every value type (copyable, move-only, void).
#include "coro.hpp"

#include <functional>
#include <memory>

using namespace yaclib;
using namespace h;

#ifndef MC_MASK
#  define MC_MASK mc::kMem
#endif

namespace {

using E = Err;

struct MoveOnly {
  std::unique_ptr<int> p;
  MoveOnly(int v) : p(new int(v)) {
  }
  MoveOnly(MoveOnly&&) noexcept = default;
  MoveOnly& operator=(MoveOnly&&) noexcept = default;
  int get() const {
    return p ? *p : -1;
  }
};
int val(const MoveOnly& m) {
  return m.get();
}
using h::val;

enum { tVal = 1, tRes = 2, tErr = 4, tExc = 8 };

struct Log {
  int n = 0;
  int seen = 0;
};
Log* g_log;
MC_NOINSTR void saw(int v) {
  ++g_log->n;
  g_log->seen = v;
}
template <class V>
int rc(const Result<V, E>& r) {
  switch (r.State()) {
    case ResultState::Value:
      if constexpr (std::is_void_v<V>) {
        return 0;
      } else {
        return val(r.Value());
      }
    case ResultState::Error:
      return 1000 + r.Error().v;
    case ResultState::Exception:
      return exc_code(r.Exception());
    default:
      return 9999;
  }
}

template <class V>
Result<V, E> mk(int k) {
  switch (k) {
    case 0:
      if constexpr (std::is_void_v<V>) {
        return Unit{};
      } else {
        return V{5};
      }
    case 1:
      return E{6};
    default:
      return std::make_exception_ptr(Exc{7});
  }
}
template <class V>
constexpr int kCode(int k) {
  return k == 0 ? (std::is_void_v<V> ? 0 : 5) : k == 1 ? 1006 : 2007;
}

// functions rather than functors
void fn_void() {
  saw(0);
}
template <class V>
V fn_val(V v) {
  saw(val(v));
  return V{77};
}
template <class V>
V fn_cref(const V& v) {
  saw(val(v));
  return V{77};
}
template <class V>
V fn_res(Result<V, E> r) {
  saw(rc(r));
  if constexpr (!std::is_void_v<V>) {
    return V{77};
  }
}
template <class V>
V fn_err(E e) {
  saw(1000 + e.v);
  if constexpr (!std::is_void_v<V>) {
    return V{77};
  }
}
template <class V>
V fn_exc(std::exception_ptr e) {
  saw(exc_code(e));
  if constexpr (!std::is_void_v<V>) {
    return V{77};
  }
}

// operator() overloaded on the value category of the functor
template <class V>
struct Cat {
  Box own{3};
  V operator()(Result<V, E> r) & {
    saw(rc(r));
    MC_CHECK(own.get() == 3);
    return out();
  }
  V operator()(Result<V, E> r) const& {
    saw(rc(r));
    MC_CHECK(own.get() == 3);
    return out();
  }
  V operator()(Result<V, E> r) && {
    saw(rc(r));
    Box b = std::move(own);
    MC_CHECK(b.get() == 3);
    return out();
  }
  static V out() {
    if constexpr (!std::is_void_v<V>) {
      return V{77};
    }
  }
};

enum Src { kUniquePre, kUniquePost, kUniqueDrop, kLazy, kSharedPre, kSharedPost, Srcs };
const char* const kSrc[] = {"ready", "set-later", "dropped", "lazy", "shared-ready", "shared-set-later"};

// takes: which inputs invoke the callback; returns value 77 / void
template <class V, class F>
void one(int src, int at, int k, int takes, F&& cb) {
  Log log;
  g_log = &log;
  HereExec e{1};
  int want_in = src == kUniqueDrop ? 1000 - 7 : kCode<V>(k);
  if (src == kUniqueDrop) k = 1;
  bool runs = (takes & tRes) || (k == 0 && (takes & tVal)) || (k == 1 && (takes & tErr)) || (k == 2 && (takes & tExc));
  int want = runs ? (std::is_void_v<V> ? 0 : 77) : want_in;
  int got = -1;
  auto step = [&](auto&& f) {
    if (at == 0) {
      return std::move(f).ThenInline(std::forward<F>(cb)).On(nullptr);
    } else {
      return std::move(f).Then(e, std::forward<F>(cb)).On(nullptr);
    }
  };
  auto step_f = [&](auto&& f) {
    if (at == 0) {
      return std::move(f).ThenInline(std::forward<F>(cb));
    } else {
      return std::move(f).Then(e, std::forward<F>(cb)).On(nullptr);
    }
  };
  switch (src) {
    case kLazy: {
      auto t = step(Task<V, E>{detail::UniqueCorePtr<V, E>{MakeUnique<detail::ReadyCore<V, E>>(mk<V>(k))}});
      MC_CHECK(log.n == 0);
      got = rc(std::move(t).Get());
      break;
    }
    case kSharedPre:
    case kSharedPost:
      if constexpr (std::is_void_v<V> || std::is_copy_constructible_v<V>) {
        auto [f, p] = MakeSharedContract<V, E>();
        if (src == kSharedPre) std::move(p).Set(mk<V>(k));
        auto g = step_f(SharedFuture<V, E>{f});
        if (src == kSharedPost) std::move(p).Set(mk<V>(k));
        got = rc(std::move(g).Get());
        MC_CHECK(rc(std::as_const(f).Get()) == want_in, "the step changed the shared value");
      }
      break;
    default: {
      auto [f, p] = MakeContract<V, E>();
      if (src == kUniquePre) std::move(p).Set(mk<V>(k));
      auto g = step_f(std::move(f));
      MC_CHECK(src == kUniquePre || log.n == 0, "the callback ran before the result exists");
      if (src == kUniquePost) std::move(p).Set(mk<V>(k));
      if (src == kUniqueDrop) {
        auto q = std::move(p);
      }
      got = rc(std::move(g).Get());
    }
  }
  MC_CHECK(log.n == (runs ? 1 : 0), "callback invoked %d times", log.n);
  if (runs) MC_CHECK(log.seen == want_in, "callback saw %d instead of %d", log.seen, want_in);
  MC_CHECK(got == want, "result is %d instead of %d", got, want);
}

template <class V, class F>
void add(const std::string& name, bool shared_ok, int takes, F make) {
  mc::Opts o;
  o.mask = MC_MASK;
  mc::add_test(name, o, [=] {
    int src = mc::choose(shared_ok ? Srcs : kSharedPre, "source");
    int at = mc::choose(2, "inline|exec");
    int k = src == kUniqueDrop ? 1 : mc::choose(3, "outcome");
    make([&](auto&& cb) {
      one<V>(src, at, k, takes, std::forward<decltype(cb)>(cb));
    });
  });
}
#define RET                              \
  if constexpr (!std::is_void_v<V>) {    \
    return V{77};                        \
  }

template <class V>
void common(const std::string& v) {
  constexpr bool kCopy = std::is_void_v<V> || std::is_copy_constructible_v<V>;
  // result
  add<V>("param/" + v + "/Result", kCopy, tRes, [](auto k) {
    k([](Result<V, E> r) -> V {
      saw(rc(r));
      RET
    });
  });
  add<V>("param/" + v + "/constResult&", kCopy, tRes, [](auto k) {
    k([](const Result<V, E>& r) -> V {
      saw(rc(r));
      RET
    });
  });
  add<V>("param/" + v + "/E", kCopy, tErr, [](auto k) {
    k([](E e) -> V {
      saw(1000 + e.v);
      RET
    });
  });
  add<V>("param/" + v + "/constE&", kCopy, tErr, [](auto k) {
    k([](const E& e) -> V {
      saw(1000 + e.v);
      RET
    });
  });
  add<V>("param/" + v + "/exception_ptr", kCopy, tExc, [](auto k) {
    k([](std::exception_ptr e) -> V {
      saw(exc_code(e));
      RET
    });
  });
  add<V>("param/" + v + "/constexception_ptr&", kCopy, tExc, [](auto k) {
    k([](const std::exception_ptr& e) -> V {
      saw(exc_code(e));
      RET
    });
  });
  // categories of the functor
  add<V>("functor/" + v + "/rvalue", kCopy, tRes, [](auto k) {
    k(Cat<V>{});
  });
  add<V>("functor/" + v + "/lvalue", kCopy, tRes, [](auto k) {
    Cat<V> c;
    k(c);
    MC_CHECK(c.own.get() == 3, "an lvalue functor was modified");
  });
  add<V>("functor/" + v + "/const-lvalue", kCopy, tRes, [](auto k) {
    const Cat<V> c;
    k(c);
    MC_CHECK(c.own.get() == 3, "an lvalue functor was modified");
  });
  add<V>("functor/" + v + "/mutable", kCopy, tRes, [](auto k) {
    k([own = Box{3}](const Result<V, E>& r) mutable -> V {
      saw(rc(r));
      MC_CHECK(own.get() == 3);
      own = Box{4};
      RET
    });
  });
  add<V>("functor/" + v + "/move-only", kCopy, tRes, [](auto k) {
    k([own = MoveOnly{3}](const Result<V, E>& r) -> V {
      saw(rc(r));
      MC_CHECK(own.get() == 3);
      RET
    });
  });
  add<V>("functor/" + v + "/function&", kCopy, tRes, [](auto k) {
    k(fn_res<V>);
  });
  add<V>("functor/" + v + "/function*", kCopy, tRes, [](auto k) {
    k(&fn_res<V>);
  });
  add<V>("functor/" + v + "/errfunction&", kCopy, tErr, [](auto k) {
    k(fn_err<V>);
  });
  add<V>("functor/" + v + "/excfunction*", kCopy, tExc, [](auto k) {
    k(&fn_exc<V>);
  });
  if constexpr (kCopy) {
    add<V>("functor/" + v + "/std::function", kCopy, tRes, [](auto k) {
      std::function<V(Result<V, E>)> f = [](Result<V, E> r) -> V {
        saw(rc(r));
        RET
      };
      k(f);
      MC_CHECK(static_cast<bool>(f), "an lvalue functor was moved from");
    });
  }
}

template <class V>
void values(const std::string& v) {
  constexpr bool kCopy = std::is_copy_constructible_v<V>;
  add<V>("param/" + v + "/V", kCopy, tVal, [](auto k) {
    k([](V x) {
      saw(val(x));
      return V{77};
    });
  });
  add<V>("param/" + v + "/constV&", kCopy, tVal, [](auto k) {
    k([](const V& x) {
      saw(val(x));
      return V{77};
    });
  });
  add<V>("functor/" + v + "/valfunction&", kCopy, tVal, [](auto k) {
    k(fn_val<V>);
  });
  add<V>("functor/" + v + "/creffunction*", kCopy, tVal, [](auto k) {
    k(&fn_cref<V>);
  });
}

// parameters that bind to rvalues only
template <class V, class F>
void one_rv(int src, int at, int k, int takes, F&& cb) {
  Log log;
  g_log = &log;
  HereExec e{1};
  int want_in = src == kUniqueDrop ? 1000 - 7 : kCode<V>(k);
  if (src == kUniqueDrop) k = 1;
  bool runs = (takes & tRes) || (k == 0 && (takes & tVal)) || (k == 1 && (takes & tErr)) || (k == 2 && (takes & tExc));
  int want = runs ? (std::is_void_v<V> ? 0 : 77) : want_in;
  int got;
  if (src == kLazy) {
    Task<V, E> t{detail::UniqueCorePtr<V, E>{MakeUnique<detail::ReadyCore<V, E>>(mk<V>(k))}};
    got = rc(at == 0 ? std::move(t).ThenInline(std::move(cb)).Get() : std::move(t).Then(e, std::move(cb)).Get());
  } else {
    auto [f, p] = MakeContract<V, E>();
    if (src == kUniquePre) std::move(p).Set(mk<V>(k));
    auto g = at == 0 ? std::move(f).ThenInline(std::move(cb)) : std::move(f).Then(e, std::move(cb)).On(nullptr);
    if (src == kUniquePost) std::move(p).Set(mk<V>(k));
    if (src == kUniqueDrop) {
      auto q = std::move(p);
    }
    got = rc(std::move(g).Get());
  }
  MC_CHECK(log.n == (runs ? 1 : 0), "callback invoked %d times", log.n);
  if (runs) MC_CHECK(log.seen == want_in, "callback saw %d instead of %d", log.seen, want_in);
  MC_CHECK(got == want, "result is %d instead of %d", got, want);
}
template <class V, class F>
void add_rv(const std::string& name, int takes, F cb) {
  mc::Opts o;
  o.mask = MC_MASK;
  mc::add_test(name, o, [=] {
    int src = mc::choose(kSharedPre, "source");
    int at = mc::choose(2, "inline|exec");
    int k = src == kUniqueDrop ? 1 : mc::choose(3, "outcome");
    auto f = cb;
    one_rv<V>(src, at, k, takes, std::move(f));
  });
}
template <class V>
void rvalues(const std::string& v) {
  add_rv<V>("param/" + v + "/Result&&", tRes, [](Result<V, E>&& r) -> V {
    saw(rc(r));
    Result<V, E> own = std::move(r);
    RET
  });
  if constexpr (!std::is_void_v<V>) {
    add_rv<V>("param/" + v + "/V&&", tVal, [](V&& x) {
      saw(val(x));
      V own = std::move(x);
      return V{77};
    });
  }
}

MC_TESTS {
  common<Box>("Box");
  common<MoveOnly>("MoveOnly");
  common<void>("void");
  values<Box>("Box");
  values<MoveOnly>("MoveOnly");
  rvalues<Box>("Box");
  rvalues<MoveOnly>("MoveOnly");
  rvalues<void>("void");
  add<void>("param/void/()", true, tVal, [](auto k) {
    k([] {
      saw(0);
    });
  });
  add<void>("param/void/Unit", true, tVal, [](auto k) {
    k([](Unit) {
      saw(0);
    });
  });
  add<void>("functor/void/function&", true, tVal, [](auto k) {
    k(fn_void);
  });
};

}  // namespace
