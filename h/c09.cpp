// C09 / C10: WhenAll, Join, WhenAny over every fail policy, form, input kind and completion pattern.
#include "coro.hpp"

#include <algorithm>
#include <tuple>

using namespace yaclib;
using namespace h;

namespace {

#ifndef MC_MASK
#  define MC_MASK mc::kAll
#endif
constexpr unsigned kMask = MC_MASK;

enum Out { OVal, OErr, OExc, ODrop, OKinds };
const char* const kOut[] = {"v", "e", "x", "d"};
// code of input i with outcome o
int want(Out o, int i) {
  return o == OVal ? 10 + i : o == OErr ? 1050 + i : o == OExc ? 2060 + i : kStop;
}
template <typename P>
void fulfil(P&& p, Out o, int i) {
  switch (o) {
    case OVal:
      std::move(p).Set(Box{10 + i});
      break;
    case OErr:
      std::move(p).Set(Err{50 + i});
      break;
    case OExc:
      std::move(p).Set(std::make_exception_ptr(Exc{60 + i}));
      break;
    default: {
      auto drop = std::move(p);
    }
  }
}

using R = Result<Box, Err>;
using F = Future<Box, Err>;
using P = Promise<Box, Err>;
using SF = SharedFuture<Box, Err>;
using SP = SharedPromise<Box, Err>;

enum Comb { CAllFirst, CAllNone, CJoinFirst, CJoinNone, CTupleFirst, CTupleNone, CAnyLast, CAnyFirst, CAnyNone, CKinds };
const char* const kComb[] = {"WhenAll", "WhenAll<None>", "Join", "Join<None>", "WhenAll-tuple", "WhenAll-tuple<None>",
                             "WhenAny", "WhenAny<FirstFail>", "WhenAny<None>"};
enum Form { FStatic, FIter, FForms };
const char* const kForm[] = {"static", "iter"};
enum Kind { KUnique, KShared, KMixed, KKinds };
const char* const kKind[] = {"unique", "shared", "mixed"};
enum Obs { BGet, BThen, BDropOut, BKinds };
const char* const kObs[] = {"Get", "Then", "drop"};

struct Cfg {
  Comb comb;
  Form form = FStatic;
  Kind kind = KUnique;
  Obs obs = BGet;
  int n = 2;
  int ready = 0;          // inputs already completed when the combinator is built
  int threads = 1;        // 1: one thread completes all in `order`; n: one thread each
  int order = 0;          // permutation index for the single-thread case
  std::vector<Out> out;
  bool rt = false;        // track real time
};

// What the property allows, given the observed completion order is unknown to the harness: a set of codes.
struct World {
  const Cfg* c;
  mc::Ghost<int> decided{0};       // the output has been observed
  Cnt obs_code;
  Cnt obs_n;
  // completion bookkeeping: begun[i] set right before input i is set, done[i] right after it returned
  Cnt begun[4], done[4];
  // real time order (cfg.rt only): a logical clock, read by visible operations
  mc::Ghost<int> clock{0};
  Cnt beg_t[4], end_t[4];
  Cnt built_t;     // 0: not yet built and observed

  int tick() {
    return c->rt ? clock.add(1) + 1 : 0;
  }
  // input i reached the combinator before input j did, in every reading of the documentation
  bool before(int i, int j) const {
    return c->rt && end_t[i].get() != 0 && beg_t[j].get() != 0 && built_t.get() != 0 && end_t[i].get() < beg_t[j].get() &&
           built_t.get() < beg_t[j].get();
  }
  bool decided_by_done() const;
  void moment();
};

bool World::decided_by_done() const {
  int nd = 0, nv = 0;
  for (int i = 0; i < c->n; ++i) {
    if (done[i].get()) {
      ++nd;
      nv += c->out[i] == OVal;
    }
  }
  switch (c->comb) {
    case CAllFirst:
    case CJoinFirst:
    case CTupleFirst:
      return nd == c->n || nv < nd;
    case CAllNone:
    case CJoinNone:
    case CTupleNone:
      return nd == c->n;
    case CAnyNone:
      return nd > 0;
    default:
      return nv > 0 || nd == c->n;
  }
}
// With a continuation attached and no completion under way, the output must have been delivered iff it is decided.
void World::moment() {
  if (!c->rt || c->obs != BThen || built_t.get() == 0) return;
  for (int i = 0; i < c->n; ++i) {
    if (begun[i].get() != done[i].get()) return;
  }
  MC_CHECK(obs_n.get() == int(decided_by_done()), "output delivered %d times at a moment when decided=%d", obs_n.get(),
           int(decided_by_done()));
}

void check_all(World& w, const std::vector<int>& got, bool none) {
  const Cfg& c = *w.c;
  MC_CHECK(int(got.size()) == c.n, "output has %zu entries", got.size());
  for (int i = 0; i < c.n; ++i) {
    MC_CHECK(w.begun[i].get() == 1, "completed before input %d", i);
    MC_CHECK(got[i] == want(c.out[i], i), "slot %d holds %d", i, got[i]);
    MC_CHECK(none || c.out[i] == OVal, "input %d failed but the output is a value", i);
  }
}
int perm(int n, int k, int i) {   // i-th element of the k-th permutation of 0..n-1
  std::vector<int> v;
  for (int j = 0; j < n; ++j) v.push_back(j);
  int f = 1;
  for (int j = 2; j < n; ++j) f *= j;
  for (int j = 0; j <= i; ++j) {
    int q = n - 1 - j > 0 ? k / f : 0;
    if (j == i) return v[q];
    k %= f;
    v.erase(v.begin() + q);
    if (n - 1 - j > 1) f /= (n - 1 - j);
  }
  return 0;
}
int fact(int n) {
  return n <= 1 ? 1 : n * fact(n - 1);
}

void delivered(World& w, int cd) {
  const Cfg& c = *w.c;
  w.obs_n.inc();
  w.obs_code.set(cd);
  MC_CHECK(w.obs_n.get() == 1, "output delivered twice");
  auto is_val = [&](int i) {
    return c.out[i] == OVal;
  };
  auto any_of = [&](auto&& pred) {
    bool ok = false;
    for (int i = 0; i < c.n; ++i) {
      if (w.begun[i].get() == 1 && pred(i) && want(c.out[i], i) == cd) ok = true;
    }
    return ok;
  };
  // the outcome is that of an input satisfying pred which no other such input certainly preceded
  auto first = [&](auto&& pred) {
    bool ok = false;
    for (int i = 0; i < c.n; ++i) {
      if (!pred(i) || w.begun[i].get() == 0 || want(c.out[i], i) != cd) continue;
      bool early = true;
      for (int j = 0; j < c.n; ++j) early &= !(pred(j) && w.before(j, i));
      ok |= early;
    }
    return ok;
  };
  auto last = [&] {
    bool ok = false;
    for (int i = 0; i < c.n; ++i) {
      if (w.begun[i].get() == 0 || want(c.out[i], i) != cd) continue;
      bool late = true;
      for (int j = 0; j < c.n; ++j) late &= !w.before(i, j);
      ok |= late;
    }
    return ok;
  };
  auto fail_p = [&](int i) {
    return !is_val(i);
  };
  auto true_p = [](int) {
    return true;
  };
  int nval = 0;
  for (int i = 0; i < c.n; ++i) nval += is_val(i);
  switch (c.comb) {
    case CAnyLast:
      if (nval > 0) {
        MC_CHECK(any_of(is_val), "winner %d is not the value of a completed input", cd);
        MC_CHECK(first(is_val), "winner %d is not the first value", cd);
      } else {
        for (int i = 0; i < c.n; ++i) MC_CHECK(w.begun[i].get() == 1, "failed before every input failed");
        MC_CHECK(any_of(true_p), "got %d", cd);
        MC_CHECK(last(), "failure %d is not that of the last input", cd);
      }
      break;
    case CAnyFirst:
      if (nval > 0) {
        MC_CHECK(any_of(is_val), "winner %d is not the value of a completed input", cd);
        MC_CHECK(first(is_val), "winner %d is not the first value", cd);
      } else {
        for (int i = 0; i < c.n; ++i) MC_CHECK(w.begun[i].get() == 1, "failed before every input failed");
        MC_CHECK(any_of(true_p), "got %d", cd);
        MC_CHECK(first(true_p), "failure %d is not the first one", cd);
      }
      break;
    case CAnyNone:
      MC_CHECK(any_of(true_p), "got %d", cd);
      MC_CHECK(first(true_p), "outcome %d is not the first one", cd);
      break;
    default:   // failure of an All / Join
      MC_CHECK(any_of(fail_p), "failure %d belongs to no completed failing input", cd);
      MC_CHECK(first(fail_p), "failure %d is not the first one", cd);
  }
}

template <typename V>
std::vector<int> codes(const std::vector<V>& v) {
  std::vector<int> r;
  for (auto& x : v) {
    if constexpr (std::is_same_v<V, Box> || std::is_same_v<V, int>) {
      r.push_back(val(x));
    } else {
      r.push_back(code(x));
    }
  }
  return r;
}
template <typename T, std::size_t... I>
std::vector<int> tcodes(const T& t, std::index_sequence<I...>) {
  std::vector<int> r;
  auto one = [&](const auto& x) {
    using X = std::decay_t<decltype(x)>;
    if constexpr (std::is_same_v<X, Box>) {
      r.push_back(val(x));
    } else if constexpr (std::is_same_v<X, int>) {
      r.push_back(x);
    } else {
      r.push_back(code(x));
    }
  };
  (one(std::get<I>(t)), ...);
  return r;
}

template <typename T>
struct IsVec : std::false_type {};
template <typename T>
struct IsVec<std::vector<T>> : std::true_type {};

template <typename V>
void sink(World& w, Result<V, Err>&& r) {
  const Cfg& c = *w.c;
  if (r.State() != ResultState::Value) {
    delivered(w, code(Result<void, Err>{r.State() == ResultState::Error ? Result<void, Err>{std::as_const(r).Error()}
                                                                          : Result<void, Err>{std::as_const(r).Exception()}}));
    return;
  }
  if constexpr (std::is_void_v<V>) {
    MC_CHECK(w.obs_n.inc() == 1, "output delivered twice");
    for (int i = 0; i < c.n; ++i) {
      MC_CHECK(w.begun[i].get() == 1, "joined before input %d completed", i);
      MC_CHECK(c.comb == CJoinNone || c.out[i] == OVal, "input %d failed", i);
    }
    w.obs_code.set(0);
  } else if constexpr (IsVec<V>::value) {
    MC_CHECK(w.obs_n.inc() == 1, "output delivered twice");
    check_all(w, codes(std::as_const(r).Value()), c.comb == CAllNone || c.comb == CTupleNone);
    w.obs_code.set(1);
  } else if constexpr (std::is_same_v<V, Box>) {
    delivered(w, code(r));
  } else {
    MC_CHECK(w.obs_n.inc() == 1, "output delivered twice");
    check_all(w, tcodes(std::as_const(r).Value(), std::make_index_sequence<std::tuple_size_v<V>>{}),
              c.comb == CAllNone || c.comb == CTupleNone);
    w.obs_code.set(1);
  }
}

template <typename V>
void observe(World& w, Future<V, Err> f) {
  MC_CHECK(f.Valid());
  switch (w.c->obs) {
    case BGet:
      sink<V>(w, std::move(f).Get());
      break;
    case BThen:
      std::move(f).DetachInline([&w, life = Box{4}](Result<V, Err>&& r) {
        MC_CHECK(val(life) == 4);
        sink<V>(w, std::move(r));
      });
      break;
    default:
      w.obs_n.inc();
      break;
  }
}

template <Comb C, typename... Fs>
auto combine(Fs&&... fs) {
  if constexpr (C == CAllFirst || C == CTupleFirst) {
    return WhenAll(std::forward<Fs>(fs)...);
  } else if constexpr (C == CAllNone || C == CTupleNone) {
    return WhenAll<FailPolicy::None>(std::forward<Fs>(fs)...);
  } else if constexpr (C == CJoinFirst) {
    return Join<FailPolicy::FirstFail>(std::forward<Fs>(fs)...);
  } else if constexpr (C == CJoinNone) {
    return Join<FailPolicy::None>(std::forward<Fs>(fs)...);
  } else if constexpr (C == CAnyLast) {
    return WhenAny(std::forward<Fs>(fs)...);
  } else if constexpr (C == CAnyFirst) {
    return WhenAny<FailPolicy::FirstFail>(std::forward<Fs>(fs)...);
  } else {
    return WhenAny<FailPolicy::None>(std::forward<Fs>(fs)...);
  }
}

template <Comb C>
void run(const Cfg& c) {
  World w;
  w.c = &c;
  constexpr bool kTuple = C == CTupleFirst || C == CTupleNone;
  {
    std::vector<F> fs(c.n);
    std::vector<P> ps(c.n);
    std::vector<SF> sfs(c.n);
    std::vector<SP> sps(c.n);
    Future<int, Err> fi;      // the tuple forms have inputs of different types
    Promise<int, Err> pi;
    auto is_shared = [&](int i) {
      return c.kind == KShared || (c.kind == KMixed && i % 2 == 1);
    };
    auto is_int = [&](int i) {
      return kTuple && i == 0;
    };
    for (int i = 0; i < c.n; ++i) {
      if (is_int(i)) {
        auto [f, p] = MakeContract<int, Err>();
        fi = std::move(f);
        pi = std::move(p);
      } else if (is_shared(i)) {
        auto [f, p] = MakeSharedContract<Box, Err>();
        sfs[i] = std::move(f);
        sps[i] = std::move(p);
      } else {
        auto [f, p] = MakeContract<Box, Err>();
        fs[i] = std::move(f);
        ps[i] = std::move(p);
      }
    }
    auto complete = [&](int i) {
      w.beg_t[i].set(w.tick());
      w.begun[i].set(1);
      if (is_int(i)) {
        if (c.out[i] == OVal) {
          std::move(pi).Set(10 + i);
        } else if (c.out[i] == OErr) {
          std::move(pi).Set(Err{50 + i});
        } else if (c.out[i] == OExc) {
          std::move(pi).Set(std::make_exception_ptr(Exc{60 + i}));
        } else {
          auto d = std::move(pi);
        }
      } else if (is_shared(i)) {
        fulfil(std::move(sps[i]), c.out[i], i);
      } else {
        fulfil(std::move(ps[i]), c.out[i], i);
      }
      w.end_t[i].set(w.tick());
      w.done[i].set(1);
      w.moment();
    };
    for (int k = 0; k < c.ready; ++k) complete(perm(c.n, c.order, k));
    std::vector<SF> keep = c.kind == KShared && c.ready == 0 ? sfs : std::vector<SF>{};
    if (c.ready < c.n) {
      if (c.threads == 1) {
        mc::spawn([&] {
          for (int k = c.ready; k < c.n; ++k) {
            complete(perm(c.n, c.order, k));
          }
        });
      } else {
        for (int k = c.ready; k < c.n; ++k) {
          mc::spawn([&, i = perm(c.n, c.order, k)] {
            complete(i);
          });
        }
      }
    }
    auto go = [&](auto out) {
      for (auto& f : fs) MC_CHECK(!f.Valid(), "input not consumed");
      if (c.rt && c.obs == BGet) w.built_t.set(w.tick());
      observe(w, std::move(out));
      if (c.rt && c.obs != BGet) {
        w.built_t.set(w.tick());
        w.moment();
      }
    };
    if constexpr (kTuple) {
      if (c.n == 1) {
        go(combine<C>(std::move(fi)));
      } else if (c.n == 2) {
        if (is_shared(1)) {
          go(combine<C>(std::move(fi), std::move(sfs[1])));
        } else {
          go(combine<C>(std::move(fi), std::move(fs[1])));
        }
      } else {
        if (c.kind == KShared) {
          go(combine<C>(std::move(fi), std::move(sfs[1]), std::move(sfs[2])));
        } else if (c.kind == KMixed) {
          go(combine<C>(std::move(fi), std::move(sfs[1]), std::move(fs[2])));
        } else {
          go(combine<C>(std::move(fi), std::move(fs[1]), std::move(fs[2])));
        }
      }
    } else if (c.form == FIter) {
      if (c.kind == KShared) {
        go(combine<C>(sfs.begin(), sfs.end()));
      } else {
        go(combine<C>(fs.begin(), std::size_t(c.n)));
      }
    } else {
      if (c.kind == KUnique) {
        if (c.n == 1) {
          go(combine<C>(std::move(fs[0])));
        } else if (c.n == 2) {
          go(combine<C>(std::move(fs[0]), std::move(fs[1])));
        } else {
          go(combine<C>(std::move(fs[0]), std::move(fs[1]), std::move(fs[2])));
        }
      } else if (c.kind == KShared) {
        if (c.n == 1) {
          go(combine<C>(std::move(sfs[0])));
        } else if (c.n == 2) {
          go(combine<C>(std::move(sfs[0]), std::move(sfs[1])));
        } else {
          go(combine<C>(std::move(sfs[0]), std::move(sfs[1]), std::move(sfs[2])));
        }
      } else {
        if (c.n == 2) {
          go(combine<C>(std::move(fs[0]), std::move(sfs[1])));
        } else {
          go(combine<C>(std::move(fs[0]), std::move(sfs[1]), std::move(fs[2])));
        }
      }
    }
    mc::join_all();
    MC_CHECK(w.obs_n.get() == 1, "output delivered %d times", w.obs_n.get());
    for (auto& k : keep) {
      int i = int(&k - keep.data());
      if (is_int(i)) continue;
      MC_CHECK(k.Ready());
      MC_CHECK(code(std::as_const(k).Touch()) == want(c.out[i], i), "shared input damaged");
    }
    mc::outcome("%d", w.obs_code.get());
  }
}

// The right moment: the output becomes ready exactly when the deciding input completes (one thread, no races).
template <Comb C>
void moment(const Cfg& c) {
  std::vector<F> fs(c.n);
  std::vector<P> ps(c.n);
  for (int i = 0; i < c.n; ++i) {
    auto [f, p] = MakeContract<Box, Err>();
    fs[i] = std::move(f);
    ps[i] = std::move(p);
  }
  auto step = [&](auto out) {
    int nval = 0, nfail = 0;
    for (int k = 0; k <= c.n; ++k) {
      bool decided = false;
      switch (C) {
        case CAllFirst:
        case CJoinFirst:
          decided = k == c.n || nfail > 0;
          break;
        case CAllNone:
        case CJoinNone:
          decided = k == c.n;
          break;
        case CAnyNone:
          decided = k > 0;
          break;
        default:   // AnyLast, AnyFirst
          decided = nval > 0 || k == c.n;
      }
      MC_CHECK(out.Ready() == decided, "after %d completions: ready=%d", k, int(out.Ready()));
      if (k == c.n) break;
      int i = perm(c.n, c.order, k);
      fulfil(std::move(ps[i]), c.out[i], i);
      (c.out[i] == OVal ? nval : nfail)++;
    }
  };
  if (c.form == FIter) {
    step(combine<C>(fs.begin(), fs.end()));
  } else if (c.n == 1) {
    step(combine<C>(std::move(fs[0])));
  } else if (c.n == 2) {
    step(combine<C>(std::move(fs[0]), std::move(fs[1])));
  } else {
    step(combine<C>(std::move(fs[0]), std::move(fs[1]), std::move(fs[2])));
  }
}

template <Comb C>
void empty() {
  std::vector<F> fs;
  auto f = combine<C>(fs.begin(), fs.end());
  MC_CHECK(!f.Valid(), "empty input set must give an invalid future");
  auto g = combine<C>(fs.begin(), std::size_t{0});
  MC_CHECK(!g.Valid());
  std::vector<SF> sfs;
  auto k = combine<C>(sfs.begin(), sfs.end());
  MC_CHECK(!k.Valid());
}

// void inputs
void void_all(int ready, Out o0, Out o1, int comb) {
  auto [f0, p0] = MakeContract<void, Err>();
  auto [f1, p1] = MakeContract<void, Err>();
  auto set = [](auto& p, Out o, int i) {
    if (o == OVal) {
      std::move(p).Set();
    } else {
      std::move(p).Set(Err{50 + i});
    }
  };
  if (ready) set(p0, o0, 0);
  mc::spawn([&, p = &p1] {
    set(*p, o1, 1);
  });
  Result<void, Err> r{StopTag{}};
  Future<void, Err> f;
  if (comb == 0) {
    f = WhenAll(std::move(f0), std::move(f1));
  } else if (comb == 1) {
    f = Join<FailPolicy::FirstFail>(std::move(f0), std::move(f1));
  } else {
    f = WhenAny(std::move(f0), std::move(f1));
  }
  if (!ready) set(p0, o0, 0);
  int c = code(std::move(f).Get());
  if (comb < 2) {
    if (o0 == OVal && o1 == OVal) {
      MC_CHECK(c == 0);
    } else {
      MC_CHECK((o0 != OVal && c == 1050) || (o1 != OVal && c == 1051), "got %d", c);
    }
  } else if (o0 == OVal || o1 == OVal) {
    MC_CHECK(c == 0, "got %d", c);
  } else {
    MC_CHECK(c == 1050 || c == 1051);
  }
  mc::join_all();
}

template <Comb C>
void add_all() {
  const bool any = C >= CAnyLast;
#ifdef ONLY_ANY
  if (!any) return;
#endif
#ifdef ONLY_ALL
  if (any) return;
#endif
  const std::string cn = kComb[C];
  constexpr bool kTuple = C == CTupleFirst || C == CTupleNone;
  for (int form = 0; form < FForms; ++form) {
    if (kTuple && form == FIter) continue;
    for (int kind = 0; kind < KKinds; ++kind) {
      if (kind == KMixed && form == FIter) continue;
      for (int n = 1; n <= 3; ++n) {
        if (n == 1 && (kind == KMixed)) continue;
        int patterns = 1;
        for (int i = 0; i < n; ++i) patterns *= OKinds;
        for (int pat = 0; pat < patterns; ++pat) {
          std::vector<Out> out;
          std::string on;
          int x = pat;
          int drops = 0, excs = 0;
          for (int i = 0; i < n; ++i) {
            out.push_back(Out(x % OKinds));
            on += kOut[x % OKinds];
            drops += x % OKinds == ODrop;
            excs += x % OKinds == OExc;
            x /= OKinds;
          }
          if (drops > 0 && n > 1) continue;               // a dropped promise behaves as an error: n == 1 covers it
          if (n == 3 && excs > 0 && kind != KUnique) continue;
          for (int ready = 0; ready <= n; ++ready) {
            for (int thr = 1; thr <= n; thr += (n > 1 ? n - 1 : 1)) {
              if (thr > 1 && n - ready < 2) continue;
              for (int ord = 0; ord < (thr == 1 || ready > 0 ? fact(n) : 1); ++ord) {
                if (n == 3 && ready > 1 && ord > 2) continue;
                for (int obs = 0; obs < BKinds; ++obs) {
                  if (obs == BDropOut && (ord > 0 || (n == 3 && (thr > 1)))) continue;
                  Cfg c{C, Form(form), Kind(kind), Obs(obs), n, ready, thr, ord, out};
                  c.rt = thr == 1 || n == 2;
                  mc::Opts o{.mask = kMask};
                  o.weak_fail = n == 1 ? 1 : 0;
                  o.thorough = (n == 3 && obs != BGet && (ready % 3 != 0 || kind != KUnique)) || (n == 3 && form == FIter && kind == KShared) || n == 3 && ((thr > 1 && (kind == KMixed || excs > 0)) || ord > 3 || (excs > 0 && ord > 0) || (ready == 0 && thr == 1 && ord > 0) ||
                                          (thr > 1 && form == FIter && ready == 0));
                  std::string nm = cn + "/" + kForm[form] + "/" + kKind[kind] + "/" + on + "/ready" + std::to_string(ready) + "/thr" +
                                   std::to_string(thr) + "/ord" + std::to_string(ord) + "/" + kObs[obs];
                  mc::add_test(nm, o, [c] {
                    run<C>(c);
                  });
                }
              }
            }
          }
          if constexpr (!kTuple) {
            if (kind == KUnique) {
              for (int ord = 0; ord < fact(n); ++ord) {
                Cfg c{C, Form(form), KUnique, BGet, n, 0, 1, ord, out};
                mc::add_test("moment/" + cn + "/" + kForm[form] + "/" + on + "/ord" + std::to_string(ord), {.mask = kMask}, [c] {
                  moment<C>(c);
                });
              }
            }
          }
        }
      }
    }
  }
  if constexpr (!kTuple) {
    mc::add_test("empty/" + cn, {.mask = kMask}, [] {
      empty<C>();
    });
  }
}

MC_TESTS {
  add_all<CAllFirst>();
  add_all<CAllNone>();
  add_all<CJoinFirst>();
  add_all<CJoinNone>();
  add_all<CTupleFirst>();
  add_all<CTupleNone>();
  add_all<CAnyLast>();
  add_all<CAnyFirst>();
  add_all<CAnyNone>();
  for (int comb = 0; comb < 3; ++comb) {
#ifdef ONLY_ANY
    if (comb < 2) continue;
#endif
#ifdef ONLY_ALL
    if (comb == 2) continue;
#endif
    for (int ready = 0; ready < 2; ++ready) {
      for (int p = 0; p < 4; ++p) {
        mc::add_test("void/" + std::to_string(comb) + "/" + std::to_string(ready) + "/" + std::to_string(p), {.mask = kMask}, [=] {
          void_all(ready, Out(p % 2), Out(p / 2), comb);
        });
      }
    }
  }
};

}  // namespace
