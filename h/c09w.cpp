// C09 / C10, wide: many inputs, every mixture of input types and kinds, one state used by several inputs.
// Everything completes on one thread, so that at every moment the output is exactly determined.
#include "h.hpp"

#include <yaclib/async/join.hpp>
#include <yaclib/async/shared_contract.hpp>
#include <yaclib/async/shared_future.hpp>
#include <yaclib/async/shared_promise.hpp>
#include <yaclib/async/when_all.hpp>
#include <yaclib/async/when_any.hpp>

#include <optional>
#include <tuple>
#include <variant>
#include <vector>

using namespace yaclib;
using namespace h;

namespace {

#ifndef MC_MASK
#  define MC_MASK mc::kAll
#endif

enum Out { OVal, OErr, OExc, ODrop };

template <typename V>
int want_value(int i) {
  if constexpr (std::is_void_v<V>) {
    return 0;
  } else if constexpr (std::is_same_v<V, bool>) {
    return i % 2;
  } else {
    return 10 + i;
  }
}
int want_fail(Out o, int i) {
  return o == OErr ? 1200 + i : o == OExc ? 2200 + i : kStop;
}
template <typename V>
int want(Out o, int i) {
  return o == OVal ? want_value<V>(i) : want_fail(o, i);
}
template <typename V, typename P>
void fulfil(P p, Out o, int i) {
  if (o == OVal) {
    if constexpr (std::is_void_v<V>) {
      std::move(p).Set();
    } else {
      std::move(p).Set(V(want_value<V>(i)));
    }
  } else if (o == OErr) {
    std::move(p).Set(Err{200 + i});
  } else if (o == OExc) {
    std::move(p).Set(std::make_exception_ptr(Exc{200 + i}));
  } else {
    auto drop = std::move(p);
  }
}

// ---- the inputs -----------------------------------------------------------------------------------
template <typename V>
struct U {
  using Value = V;
  static constexpr bool kShared = false;
  Future<V, Err> f;
  Promise<V, Err> p;
  explicit U(HereExec&) {
    auto [x, y] = MakeContract<V, Err>();
    f = std::move(x);
    p = std::move(y);
  }
  void check(Out, int) {
  }
};
template <typename V>
struct O {
  using Value = V;
  static constexpr bool kShared = false;
  std::optional<FutureOn<V, Err>> fo;
  FutureOn<V, Err> f;
  Promise<V, Err> p;
  explicit O(HereExec& e) {
    auto [x, y] = MakeContractOn<V, Err>(e);
    f = std::move(x);
    p = std::move(y);
  }
  void check(Out, int) {
  }
};
template <typename V>
struct S {
  using Value = V;
  static constexpr bool kShared = true;
  SharedFuture<V, Err> f, keep;
  SharedPromise<V, Err> p;
  explicit S(HereExec&) {
    auto [x, y] = MakeSharedContract<V, Err>();
    f = std::move(x);
    keep = f;
    p = std::move(y);
  }
  void check(Out o, int i) {
    MC_CHECK(keep.Ready() && code(std::as_const(keep).Touch()) == want<V>(o, i), "shared input damaged");
  }
};
// a shared input nobody else keeps: the combinator may move out of it
template <typename V>
struct L : S<V> {
  explicit L(HereExec& e) : S<V>{e} {
    this->keep = {};
  }
  void check(Out, int) {
  }
};

enum Comb { CAllFirst, CAllNone, CJoinFirst, CJoinNone, CAnyLast, CAnyFirst, CAnyNone, CKinds };
const char* const kComb[] = {"WhenAll", "WhenAll<None>", "Join<FirstFail>", "Join<None>", "WhenAny", "WhenAny<FirstFail>", "WhenAny<None>"};

template <Comb C, typename... A>
auto combine(A&&... a) {
  if constexpr (C == CAllFirst) {
    return WhenAll(std::forward<A>(a)...);
  } else if constexpr (C == CAllNone) {
    return WhenAll<FailPolicy::None>(std::forward<A>(a)...);
  } else if constexpr (C == CJoinFirst) {
    return Join<FailPolicy::FirstFail>(std::forward<A>(a)...);
  } else if constexpr (C == CJoinNone) {
    return Join(std::forward<A>(a)...);
  } else if constexpr (C == CAnyLast) {
    return WhenAny(std::forward<A>(a)...);
  } else if constexpr (C == CAnyFirst) {
    return WhenAny<FailPolicy::FirstFail>(std::forward<A>(a)...);
  } else {
    return WhenAny<FailPolicy::None>(std::forward<A>(a)...);
  }
}

// ---- the reference --------------------------------------------------------------------------------
struct Ref {
  Comb comb;
  std::vector<Out> out;      // per state
  std::vector<int> order;    // completion order of the states
  int ready = 0;             // states completed before the combinator is built
  int done = 0;              // completed so far

  bool decided() const {
    int nv = 0;
    for (int k = 0; k < done; ++k) nv += out[order[k]] == OVal;
    const bool all = done == int(order.size());
    switch (comb) {
      case CAllFirst:
      case CJoinFirst:
        return all || nv < done;
      case CAllNone:
      case CJoinNone:
        return all;
      case CAnyNone:
        return done > 0;
      default:
        return all || nv > 0;
    }
  }
  // the states whose outcome the output may carry; empty: it carries all of them
  std::vector<int> winners() const {
    std::vector<int> r;
    auto first = [&](auto pred) {   // what was complete before the combinator saw it has no order
      for (int k = 0; k < int(order.size()); ++k) {
        if (!pred(order[k])) continue;
        if (k >= ready && !r.empty()) break;
        r.push_back(order[k]);
        if (k >= ready) break;
      }
    };
    auto fails = [&](int s) {
      return out[s] != OVal;
    };
    auto vals = [&](int s) {
      return out[s] == OVal;
    };
    auto any = [](int) {
      return true;
    };
    switch (comb) {
      case CAllFirst:
      case CJoinFirst:
        first(fails);
        break;
      case CAllNone:
      case CJoinNone:
        break;
      case CAnyNone:
        first(any);
        break;
      case CAnyFirst:
        first(vals);
        if (r.empty()) first(any);
        break;
      default:
        first(vals);
        if (r.empty()) {
          if (ready == int(order.size())) {
            r = order;
          } else {
            r.push_back(order.back());
          }
        }
    }
    return r;
  }
};

// ---- decoding the output: one code per slot, or a single code -------------------------------------
template <typename T>
struct IsVec : std::false_type {};
template <typename T>
struct IsVec<std::vector<T>> : std::true_type {};
template <typename T>
struct IsTuple : std::false_type {};
template <typename... T>
struct IsTuple<std::tuple<T...>> : std::true_type {};
template <typename T>
struct IsVariant : std::false_type {};
template <typename... T>
struct IsVariant<std::variant<T...>> : std::true_type {};
template <typename T>
struct IsResult : std::false_type {};
template <typename V>
struct IsResult<Result<V, Err>> : std::true_type {};

template <typename X>
int slot(const X& x) {
  if constexpr (IsResult<X>::value) {
    return code(x);
  } else {
    return val(x);
  }
}
template <typename V>
void decode(const Result<V, Err>& r, std::vector<int>& many, int& one) {
  if (r.State() != ResultState::Value) {
    one = r.State() == ResultState::Error      ? 1000 + ev(r.Error())
          : r.State() == ResultState::Exception ? exc_code(r.Exception())
                                                : 9999;
    return;
  }
  if constexpr (std::is_void_v<V>) {
    one = 0;
  } else if constexpr (IsVec<V>::value) {
    using X = typename V::value_type;
    for (std::size_t i = 0; i < r.Value().size(); ++i) {
      if constexpr (std::is_same_v<X, bool>) {
        many.push_back(r.Value()[i]);
      } else {
        many.push_back(slot(r.Value()[i]));
      }
    }
    one = -100;
  } else if constexpr (IsTuple<V>::value) {
    std::apply(
      [&](const auto&... x) {
        (many.push_back(slot(x)), ...);
      },
      r.Value());
    one = -100;
  } else if constexpr (IsVariant<V>::value) {
    one = std::visit(
      [](const auto& x) {
        return val(x);
      },
      r.Value());
  } else {
    one = val(r.Value());
  }
}

struct Seen {
  int n = 0;
  std::vector<int> many;
  int one = -1;
};
template <typename V>
void check_output(const Ref& ref, const std::vector<int>& want_codes, const std::vector<int>& state_of, Seen& s) {
  auto w = ref.winners();
  if (w.empty()) {
    if constexpr (std::is_void_v<V>) {
      MC_CHECK(s.one == 0, "got %d", s.one);
    } else {
      MC_CHECK(s.one == -100 && s.many.size() == state_of.size(), "got %d, %zu slots", s.one, s.many.size());
      for (std::size_t i = 0; i < state_of.size() && i < s.many.size(); ++i) {
        MC_CHECK(s.many[i] == want_codes[i], "slot %zu holds %d instead of %d", i, s.many[i], want_codes[i]);
      }
    }
    return;
  }
  bool ok = false;
  for (std::size_t i = 0; i < state_of.size(); ++i) {
    for (int x : w) ok |= x == state_of[i] && want_codes[i] == s.one;
  }
  MC_CHECK(ok, "outcome %d is not that of the deciding input", s.one);
}

// Builds with `build`, completes the remaining states with `complete`, checking the output at every moment.
template <typename Build, typename Complete>
void drive(Ref& ref, const std::vector<int>& want_codes, const std::vector<int>& state_of, int obs, Build&& build, Complete&& complete) {
  const int n = int(ref.order.size());
  for (; ref.done < ref.ready; ++ref.done) complete(ref.order[ref.done]);
  auto out = build();
  MC_CHECK(out.Valid());
  using F = decltype(out);
  using V = typename F::Core::Value;
  using R = Result<V, Err>;
  Seen seen;
  if (obs == 1) {
    std::move(out).DetachInline([&seen](R&& r) {
      ++seen.n;
      decode(r, seen.many, seen.one);
    });
  } else if (obs == 2) {
    auto drop = std::move(out);
  }
  for (;;) {
    if (obs == 0) MC_CHECK(out.Ready() == ref.decided(), "after %d completions ready=%d", ref.done, int(out.Ready()));
    if (obs == 1) MC_CHECK(seen.n == int(ref.decided()), "after %d completions delivered %d times", ref.done, seen.n);
    if (ref.done == n) break;
    const int s = ref.order[ref.done];
    ++ref.done;
    complete(s);
  }
  if (obs == 0) {
    R r = std::move(out).Get();
    ++seen.n;
    decode(r, seen.many, seen.one);
  }
  if (obs != 2) check_output<V>(ref, want_codes, state_of, seen);
}

std::vector<int> permutation(int n) {
  std::vector<int> left, r;
  for (int i = 0; i < n; ++i) left.push_back(i);
  while (!left.empty()) {
    int k = left.size() > 1 ? mc::choose(int(left.size()), "next to complete") : 0;
    r.push_back(left[k]);
    left.erase(left.begin() + k);
  }
  return r;
}

// ---- static form ----------------------------------------------------------------------------------
template <Comb C, typename... In, std::size_t... I>
void run_static(int outs, std::index_sequence<I...>) {
  constexpr int n = sizeof...(In);
  HereExec ex{1};
  Ref ref{C};
  for (int i = 0; i < n; ++i) ref.out.push_back(Out(mc::choose(outs, "outcome")));
  ref.order = permutation(n);
  ref.ready = mc::choose(n + 1, "already complete");
  const int obs = mc::choose(n <= 4 ? 3 : 2, "observer");
  {
    std::tuple<In...> in{In{ex}...};
    std::vector<int> codes{want<typename In::Value>(ref.out[I], int(I))...};
    std::vector<int> state{int(I)...};
    drive(
      ref, codes, state, obs,
      [&] {
        return combine<C>(std::move(std::get<I>(in).f)...);
      },
      [&](int s) {
        ((int(I) == s ? fulfil<typename In::Value>(std::move(std::get<I>(in).p), ref.out[I], s) : void()), ...);
      });
    (std::get<I>(in).check(ref.out[I], int(I)), ...);
  }
  MC_CHECK(ex.submits() == 0, "a combinator submitted to an executor");
}

// ---- iterator form --------------------------------------------------------------------------------
// `states` states, input i uses state i % states (several inputs per state only for shared futures)
template <Comb C, typename In>
void run_iter(Ref ref, int states, int inputs, bool range, int obs) {
  HereExec ex{1};
  {
    std::vector<In> in;
    in.reserve(states);
    for (int s = 0; s < states; ++s) in.emplace_back(ex);
    std::vector<decltype(in[0].f)> fs;
    fs.reserve(inputs);
    std::vector<int> codes, state;
    for (int i = 0; i < inputs; ++i) {
      const int s = i % states;
      if constexpr (In::kShared) {
        fs.push_back(in[s].f);
      } else {
        fs.push_back(std::move(in[s].f));
      }
      codes.push_back(want<typename In::Value>(ref.out[s], s));
      state.push_back(s);
    }
    if constexpr (In::kShared) {
      for (auto& x : in) x.f = {};
    }
    drive(
      ref, codes, state, obs,
      [&] {
        if (range) {
          return combine<C>(fs.begin(), fs.end());
        } else {
          return combine<C>(fs.begin(), fs.size());
        }
      },
      [&](int s) {
        fulfil<typename In::Value>(std::move(in[s].p), ref.out[s], s);
      });
    for (int s = 0; s < states; ++s) in[s].check(ref.out[s], s);
  }
}
template <Comb C, typename In>
void iter_small(int states, int inputs, int outs) {
  Ref ref{C};
  for (int i = 0; i < states; ++i) ref.out.push_back(Out(mc::choose(outs, "outcome")));
  ref.order = permutation(states);
  ref.ready = mc::choose(states + 1, "already complete");
  const bool range = mc::choose(2, "form");
  run_iter<C, In>(ref, states, inputs, range, mc::choose(3, "observer"));
}
template <Comb C, typename In>
void iter_big(int n) {
  Ref ref{C};
  // one input differs from all the others (or none does)
  const Out base = Out(mc::choose(3, "outcome of the others"));
  const Out odd = Out(mc::choose(3, "outcome of the odd one"));
  const int spots[] = {0, 1, n / 2, n - 2, n - 1};
  const int at = spots[mc::choose(5, "odd one")];
  for (int i = 0; i < n; ++i) ref.out.push_back(i == at ? odd : base);
  const int fam = mc::choose(4, "order");
  for (int i = 0; i < n; ++i) {
    ref.order.push_back(fam == 0 ? i : fam == 1 ? n - 1 - i : fam == 2 ? (i + n / 2) % n : i < (n + 1) / 2 ? 2 * i : 2 * (i - (n + 1) / 2) + 1);
  }
  const int readies[] = {0, 1, n / 2, n - 1, n};
  ref.ready = readies[mc::choose(5, "already complete")];
  run_iter<C, In>(ref, n, n, true, mc::choose(2, "observer"));
}

template <Comb C, typename... In>
void add_static(const char* name, int outs, bool thorough = false) {
  mc::Opts o{.mask = MC_MASK, .weak_fail = 0};
  o.max_steps = 20000;
  o.thorough = thorough;
  o.weight = 4;
  mc::add_test(std::string("static/") + kComb[C] + "/" + name, o, [outs] {
    run_static<C, In...>(outs, std::index_sequence_for<In...>{});
  });
}
template <Comb C>
void add() {
  constexpr bool any = C >= CAnyLast;
#ifdef ONLY_ANY
  if constexpr (any)
#elif defined(ONLY_ALL)
  if constexpr (!any)
#endif
  {
    add_static<C, U<int>, U<Box>, S<int>>("Ui,Ub,Si", 4);
    add_static<C, U<int>, U<Box>, S<int>, S<Box>>("Ui,Ub,Si,Sb", 3);
    add_static<C, L<Box>, U<int>, S<Box>, U<Box>, L<int>>("Lb,Ui,Sb,Ub,Li", 2, true);
    add_static<C, O<int>, U<int>, S<Box>>("Oi,Ui,Sb", 3);
    add_static<C, O<Box>, S<Box>, U<Box>>("Ob,Sb,Ub", 3);
    add_static<C, L<Box>, L<int>, U<Box>>("Lb,Li,Ub", 3);
    add_static<C, U<Box>, S<Box>, U<Box>, S<Box>>("Ub,Sb,Ub,Sb", 2);
    add_static<C, U<Box>, S<Box>, U<Box>, L<Box>, S<Box>>("Ub,Sb,Ub,Lb,Sb", 2, true);
    add_static<C, U<Box>, U<Box>, U<Box>, U<Box>>("Ub^4", 3);
    add_static<C, U<Box>, U<Box>, U<Box>, U<Box>, U<Box>>("Ub^5", 2, true);
    add_static<C, S<Box>, L<Box>, S<Box>, L<Box>>("Sb,Lb,Sb,Lb", 2);
    add_static<C, U<bool>, U<bool>, U<bool>>("Uf^3", 2);
    add_static<C, S<bool>, U<bool>, L<bool>>("Sf,Uf,Lf", 2);
    add_static<C, U<void>, U<void>, U<void>>("Uv^3", 3);
    add_static<C, U<void>, S<void>, O<void>>("Uv,Sv,Ov", 3);
    if constexpr (!any) {
      add_static<C, U<void>, U<int>, S<void>>("Uv,Ui,Sv", 3);
      add_static<C, U<int>, S<void>, U<Box>, S<int>>("Ui,Sv,Ub,Si", 2);
    }
    mc::Opts o{.mask = MC_MASK, .weak_fail = 0};
    o.max_steps = 20000;
    o.weight = 4;
    auto small = [&](const char* name, auto tag, int states, int inputs, int outs, bool th = false) {
      using In = typename decltype(tag)::type;
      o.thorough = th;
      mc::add_test(std::string("iter/") + kComb[C] + "/" + name + "/" + std::to_string(inputs) + "of" + std::to_string(states), o,
                   [=] {
                     iter_small<C, In>(states, inputs, outs);
                   });
    };
    auto t = [](auto* p) {
      struct R {
        using type = std::remove_pointer_t<decltype(p)>;
      };
      return R{};
    };
    small("Ub", t((U<Box>*)nullptr), 3, 3, 4);
    small("Ub", t((U<Box>*)nullptr), 4, 4, 3);
    small("Ub", t((U<Box>*)nullptr), 5, 5, 2, true);
    small("Ob", t((O<Box>*)nullptr), 3, 3, 3);
    small("Sb", t((S<Box>*)nullptr), 4, 4, 2);
    small("Lb", t((L<Box>*)nullptr), 4, 4, 2);
    small("Uv", t((U<void>*)nullptr), 3, 3, 3);
    small("Sv", t((S<void>*)nullptr), 3, 3, 3);
    small("Uf", t((U<bool>*)nullptr), 3, 3, 2);
    // one state behind several inputs
    small("Sb", t((S<Box>*)nullptr), 1, 2, 4);
    small("Lb", t((L<Box>*)nullptr), 1, 2, 4);
    small("Lb", t((L<Box>*)nullptr), 1, 3, 4);
    small("Sb", t((S<Box>*)nullptr), 2, 4, 4);
    small("Lb", t((L<Box>*)nullptr), 2, 5, 4);
    small("Lb", t((L<Box>*)nullptr), 3, 5, 3);
    for (int n : {6, 8, 17, 33, 64, 100}) {
      o.thorough = n > 33;
      mc::add_test(std::string("big/") + kComb[C] + "/Ub/" + std::to_string(n), o, [n] {
        iter_big<C, U<Box>>(n);
      });
      mc::add_test(std::string("big/") + kComb[C] + "/Lb/" + std::to_string(n), o, [n] {
        iter_big<C, L<Box>>(n);
      });
      o.thorough = n > 17;
      mc::add_test(std::string("big/") + kComb[C] + "/Sb/" + std::to_string(n), o, [n] {
        iter_big<C, S<Box>>(n);
      });
    }
  }
}

MC_TESTS {
  add<CAllFirst>();
  add<CAllNone>();
  add<CJoinFirst>();
  add<CJoinNone>();
  add<CAnyLast>();
  add<CAnyFirst>();
  add<CAnyNone>();
};

}  // namespace
