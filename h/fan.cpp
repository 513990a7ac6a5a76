// C05 / C06: several continuations attached to one SharedFutureOn, each on its own, inherited or no executor.
#include "coro.hpp"

#include <vector>

using namespace yaclib;
using namespace h;

namespace {

#ifndef MC_MASK
#  define MC_MASK mc::kAll
#endif

using V = Box;
using R = Result<V, Err>;
using SFO = SharedFutureOn<V, Err>;

enum Att {
  AThen, AThenInline, AThenE, ASub, ASubInline, ASubE, AInlineThen, AThenThen, AThenEThen, AThenAsync, AShareE, AShareInline, AOnNull, ACopyThen,
  ACo, AttKinds
};
const char* const kAtt[] = {"Then",      "ThenInline",    "Then(e2)", "Subscribe", "SubscribeInline", "Subscribe(e2)", "ThenInline.Then", "Then.Then",
                            "Then(e2).Then", "Then-async.Then", "Share(e2).Then", "Share.ThenInline", "On(null).ThenInline", "copy.Then", "co_await"};
enum Src { SContract, SRun, SRunLater, SAsync, SrcKinds };
const char* const kSrc[] = {"SharedContractOn", "RunShared(e)", "RunShared(e)-async", "AsyncSharedContract(e)"};

template <typename Exec>
struct World {
  Exec e1{1}, e2{2};
  int exp = 0;
  bool reject = false;
  Cnt asked;                 // observations asked for
  Cnt hits;
  Cnt stops;                 // observations that saw StopError because their executor refused
  Cnt want1, want2;          // submissions asked for
  Cnt set_begun;

  // on: 0 - no executor of its own, 1/2 - that executor
  MC_NOINSTR void hit(int c, int on, Cnt& once) {
    MC_CHECK(set_begun.get() == 1, "ran before the value was set");
    MC_CHECK(once.inc() == 1, "one continuation ran twice");
    if (reject && c == kStop) {
      stops.inc();
    } else {
      MC_CHECK(c == exp, "saw %d instead of %d", c, exp);
      MC_CHECK(on == 0 || where() == on, "ran on %d instead of %d", where(), on);
    }
    hits.inc();
  }
};
Cnt g_once[64];
int g_nonce;
template <typename W>
MC_NOINSTR Cnt& fresh(W& w, int s1, int s2) {
  w.asked.inc();
  for (int i = 0; i < s1; ++i) w.want1.inc();
  for (int i = 0; i < s2; ++i) w.want2.inc();
  Cnt& c = g_once[g_nonce++ & 63];
  c.set(0);
  return c;
}
template <typename W>
Future<void, Err> co(W& w, Cnt& o, SFO sf) {
  int c;
  try {
    Box b = co_await sf;
    c = val(b);
  } catch (...) {
    c = caught_code<Err>();
  }
  w.hit(c, 0, o);
  co_return{};
}

template <typename W>
void attach(Att a, W& w, const SFO& sf) {
  auto cb = [&w](Cnt& o, int on) {
    return [&w, &o, on, life = Box{5}](const R& r) {
      MC_CHECK(val(life) == 5);
      w.hit(code(r), on, o);
      return R{r};   // passed on
    };
  };
  auto sub = [&w](Cnt& o, int on) {
    return [&w, &o, on, life = Box{5}](const R& r) {
      MC_CHECK(val(life) == 5);
      w.hit(code(r), on, o);
    };
  };
  switch (a) {
    case AThen:
      sf.Then(cb(fresh(w, 1, 0), 1)).Detach();
      break;
    case AThenInline:
      sf.ThenInline(cb(fresh(w, 0, 0), 0)).Detach();
      break;
    case AThenE:
      sf.Then(w.e2, cb(fresh(w, 0, 1), 2)).Detach();
      break;
    case ASub:
      sf.Subscribe(sub(fresh(w, 1, 0), 1));
      break;
    case ASubInline:
      sf.SubscribeInline(sub(fresh(w, 0, 0), 0));
      break;
    case ASubE:
      static_cast<const SharedFutureBase<V, Err>&>(sf).Subscribe(w.e2, sub(fresh(w, 0, 1), 2));
      break;
    case AInlineThen: {
      auto& o = fresh(w, 0, 0);
      auto& o2 = fresh(w, 1, 0);
      sf.ThenInline(cb(o, 0)).Then(cb(o2, 1)).Detach();
      break;
    }
    case AThenThen: {
      auto& o = fresh(w, 1, 0);
      auto& o2 = fresh(w, 1, 0);
      sf.Then(cb(o, 1)).Then(cb(o2, 1)).Detach();
      break;
    }
    case AThenEThen: {
      auto& o = fresh(w, 0, 1);
      auto& o2 = fresh(w, 0, 1);
      sf.Then(w.e2, cb(o, 2)).Then(cb(o2, 2)).Detach();
      break;
    }
    case AThenAsync: {
      auto& o = fresh(w, 1, 0);
      auto& o2 = fresh(w, 1, 0);
      sf.Then([&w, &o](const R& r) {
          w.hit(code(r), 1, o);
          auto [f, p] = MakeContract<V, Err>();
          std::move(p).Set(R{r});
          return std::move(f);
        })
        .Then(cb(o2, 1))
        .Detach();
      break;
    }
    case AShareE:
      Share(sf, w.e2).Then(cb(fresh(w, 0, 1), 2)).Detach();
      break;
    case AShareInline:
      Share(sf).ThenInline(cb(fresh(w, 0, 0), 0)).Detach();
      break;
    case AOnNull: {
      SFO copy = sf;
      std::move(copy).On(nullptr).ThenInline(cb(fresh(w, 0, 0), 0)).Detach();
      break;
    }
    case ACopyThen: {
      SFO copy = sf;
      copy.Then(cb(fresh(w, 1, 0), 1)).Detach();
      break;
    }
    default:
      co(w, fresh(w, 0, 0), sf).Detach();
  }
}

void fulfil(int ful, SharedPromise<V, Err>&& p) {
  switch (ful) {
    case 0: std::move(p).Set(Box{11}); break;
    case 1: std::move(p).Set(Err{5}); break;
    case 2: std::move(p).Set(std::make_exception_ptr(Exc{6})); break;
    default: { auto drop = std::move(p); }
  }
}
int want(int ful) {
  return ful == 0 ? 11 : ful == 1 ? 1005 : ful == 2 ? 2006 : kStop;
}
R result(int ful) {
  switch (ful) {
    case 0: return R{Box{11}};
    case 1: return R{Err{5}};
    case 2: return R{std::make_exception_ptr(Exc{6})};
    default: return R{StopTag{}};
  }
}

template <typename W>
void finish(W& w) {
  MC_CHECK(w.hits.get() == w.asked.get(), "%d of %d continuations ran", w.hits.get(), w.asked.get());
  MC_CHECK(w.e1.submits() == w.want1.get() && w.e2.submits() == w.want2.get(), "submitted %d/%d instead of %d/%d", w.e1.submits(), w.e2.submits(),
           w.want1.get(), w.want2.get());
  MC_CHECK(w.stops.get() >= w.e1.drops() + w.e2.drops(), "%d steps refused, %d saw it", w.e1.drops() + w.e2.drops(), w.stops.get());
}

// one thread: the value appears after `pos` of the attachments
template <typename Exec>
void run(Src src, const std::vector<Att>& as) {
  World<Exec> w;
  g_nonce = 0;
  const int n = int(as.size());
  const int pos = mc::choose(n + 1, "set after");
  const int ful = mc::choose(4, "outcome");
  const int rej = mc::choose(3, "first refused");
  const int drop = mc::choose(2, "drop the future before the value appears");
  w.exp = want(ful);
  if (rej > 0) {
    // the run itself (RunShared) is accepted
    w.e1.reject_from(rej - 1 + (src != SContract));
    w.e2.reject_from(rej - 1);
    w.reject = true;
  }
  {
    SFO sf;
    SharedPromise<V, Err> p;
    Promise<V, Err> inner;
    switch (src) {
      case SContract: {
        auto [f, q] = MakeSharedContractOn<V, Err>(w.e1);
        sf = std::move(f);
        p = std::move(q);
        break;
      }
      case SRun:
        w.want1.inc();
        w.set_begun.set(1);
        sf = RunShared<Err>(w.e1, [&] {
          MC_CHECK(where() == 1);
          return result(ful);
        });
        break;
      case SRunLater: {
        w.want1.inc();
        sf = RunShared<Err>(w.e1, [&] {
          MC_CHECK(where() == 1);
          auto [f, q] = MakeContract<V, Err>();
          inner = std::move(q);
          return std::move(f);
        });
        break;
      }
      default:
        w.want1.inc();
        sf = AsyncSharedContract<V, Err>(w.e1, [&](SharedPromise<V, Err> q) {
          MC_CHECK(where() == 1);
          p = std::move(q);
        });
    }
    for (int i = 0; i <= n; ++i) {
      if (i == pos && src != SRun) {
        w.set_begun.set(1);
        if (drop && i == n) sf = {};
        if (inner.Valid()) {
          if (ful == 3) {
            auto d = std::move(inner);
          } else {
            std::move(inner).Set(result(ful));
          }
        } else {
          fulfil(ful, std::move(p));
        }
      }
      if (i < n) attach(as[i], w, sf);
    }
  }
  finish(w);
}

// observers on their own threads, the value set by the main thread
void run_mt(const std::vector<Att>& as, int ful) {
  World<SpawnExec> w;
  g_nonce = 0;
  w.exp = want(ful);
  {
    auto [sf, p] = MakeSharedContractOn<V, Err>(w.e1);
    for (std::size_t i = 1; i < as.size(); ++i) {
      mc::spawn([&w, a = as[i], copy = sf] {
        attach(a, w, copy);
      });
    }
    attach(as[0], w, sf);
    sf = {};
    w.set_begun.set(1);
    fulfil(ful, std::move(p));
    mc::join_all();
  }
  finish(w);
}

MC_TESTS {
  for (int s = 0; s < SrcKinds; ++s) {
    for (int a = 0; a < AttKinds; ++a) {
      mc::Opts o{.mask = MC_MASK, .weak_fail = 0};
      const std::string pre = std::string("fan/") + kSrc[s] + "/" + kAtt[a];
      mc::add_test(pre, o, [=] {
        run<HereExec>(Src(s), {Att(a)});
      });
      for (int b = 0; b < AttKinds; ++b) {
        mc::add_test(pre + "," + kAtt[b], o, [=] {
          run<HereExec>(Src(s), {Att(a), Att(b)});
        });
        for (int c = 0; c < AttKinds; ++c) {
          o.thorough = s != SContract || c < b || b < a;
          mc::add_test(pre + "," + kAtt[b] + "," + kAtt[c], o, [=] {
            run<HereExec>(Src(s), {Att(a), Att(b), Att(c)});
          });
        }
        o.thorough = false;
      }
    }
  }
  for (int a = 0; a < AttKinds; ++a) {
    for (int b = 0; b < AttKinds; ++b) {
      mc::Opts o{.mask = MC_MASK, .weak_fail = 0};
      const bool heavy = (a == AThenThen || a == AThenEThen || a == AThenAsync) && (b == AThenThen || b == AThenEThen || b == AThenAsync);
      o.thorough = heavy;
      for (int ful = 0; ful < 2; ++ful) {
        mc::add_test(std::string("fan2/") + kAtt[a] + "|" + kAtt[b] + "/" + (ful ? "error" : "value"), o, [=] {
          run_mt({Att(a), Att(b)}, ful);
        });
      }
    }
  }
};

}  // namespace
