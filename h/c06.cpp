// C06: one SharedPromise, several observers on several threads, every kind of observation.
#include "coro.hpp"

using namespace yaclib;
using namespace h;

namespace {

#ifndef MC_MASK
#  define MC_MASK mc::kAll
#endif
constexpr unsigned kMask = MC_MASK;

using V = Box;
using R = Result<V, Err>;
using SF = SharedFuture<V, Err>;
using SP = SharedPromise<V, Err>;

enum Ful { FValue, FError, FExc, FDrop, FDropAssign, FMoveSet, FKinds };
const char* const kFul[] = {"value", "error", "exc", "drop", "assign over", "moved+value"};
int want(Ful f) {
  return f == FValue || f == FMoveSet ? 11 : f == FError ? 1005 : f == FExc ? 2006 : kStop;
}

enum Op {
  OThenInline, OThenE, OThenValue, OThenAsync, OThenSharedAsync, OSubInline, OSub, OShareGet, OShareE, OConnectP, OConnectSP,
  OWait, OGetConst, OReady, OCopyDrop, OCopyOver, OCoAwait, OAwait, OAwaitOn, OAwaitSticky, OWhenAll, OWhenAny, OAwaitTwo, OWaitTwo,
  OGetMove, OTouchMove, ODetach, OKinds
};
constexpr int kFirstConsuming = OGetMove;
const char* const kOp[] = {"ThenInline", "Then(e)", "ThenValue", "ThenAsync", "ThenSharedAsync", "SubscribeInline", "Subscribe(e)",
                           "Share+Get", "Share(e)+Then", "ConnectP", "ConnectSP", "Wait", "Get-const", "Ready+Touch", "CopyDrop", "CopyOver",
                           "co_await", "Await", "AwaitOn", "AwaitSticky", "WhenAll", "WhenAny", "Await2", "Wait2", "Get-move",
                           "Touch-move", "Detach"};

struct World {
  SpawnExec e{1};
  SpawnExec e2{2};
  mc::Ghost<int> set_begun{0};
  int exp = 0;
  Cnt hits;       // completed observations
  Cnt expected;   // observations asked for
  MC_NOINSTR void hit(int c, Cnt& once) {
    MC_CHECK(set_begun.peek() == 1, "observed before the value was set");
    MC_CHECK(once.inc() == 1, "one observer fired twice");
    MC_CHECK(c == exp, "observed %d instead of %d", c, exp);
    hits.inc();
  }
};

// each attached observer has its own once-counter
struct Once {
  Cnt* c;
};
Cnt g_once[64];
int g_nonce;
MC_NOINSTR Cnt& fresh(World& w) {
  w.expected.inc();
  Cnt& c = g_once[g_nonce++ & 63];
  c.set(0);
  return c;
}

Future<void, Err> coAwait(World& w, Cnt& o, const SF& sf) {
  int c;
  try {
    Box b = co_await sf;
    c = val(b);
  } catch (...) {
    c = caught_code<Err>();
  }
  w.hit(c, o);
  co_return{};
}
Future<void, Err> coAwaitPlain(World& w, Cnt& o, SF sf, int how) {
  if (how == 0) {
    co_await Await(sf);
  } else if (how == 1) {
    co_await AwaitOn(w.e, sf);
    MC_CHECK(where() == 1, "resumed on %d", where());
  } else {
    co_await On(w.e2);
    MC_CHECK(where() == 2);
    co_await AwaitSticky(sf);
    MC_CHECK(where() == 2, "resumed on %d", where());
  }
  MC_CHECK(sf.Ready());
  w.hit(code(std::as_const(sf).Touch()), o);
  co_return{};
}
Future<void, Err> coAwaitTwo(World& w, Cnt& o, SF sf, Future<V, Err> f) {
  SF sf2 = sf;
  co_await Await(sf, f, sf2);
  MC_CHECK(sf.Ready() && sf2.Ready() && f.Ready());
  w.hit(code(std::as_const(sf).Touch()), o);
  MC_CHECK(code(std::as_const(sf2).Touch()) == w.exp);
  MC_CHECK(code(std::as_const(f).Touch()) == w.exp);
  co_return{};
}

// returns after the observation was registered (or made, for the blocking kinds)
void observe(Op op, World& w, const SF& sf) {
  switch (op) {
    case OThenInline: {
      auto& o = fresh(w);
      auto f = sf.ThenInline([&w, &o, life = Box{5}](const R& r) {
        MC_CHECK(val(life) == 5);
        w.hit(code(r), o);
      });
      std::move(f).Detach();
      break;
    }
    case OThenE: {
      auto& o = fresh(w);
      auto f = sf.Then(w.e, [&w, &o, life = Box{5}](R r) {
        MC_CHECK(val(life) == 5);
        MC_CHECK(where() == 1, "ran on %d", where());
        w.hit(code(r), o);
        return 8;
      });
      MC_CHECK(code(std::move(f).Get()) == 8);
      break;
    }
    case OThenValue: {
      auto& o = fresh(w);
      auto f = sf.ThenInline([](Box b) {
        return val(b) + 100;
      });
      std::move(f).DetachInline([&w, &o](Result<int, Err>&& r) {
        int c = code(r);
        w.hit(r ? c - 100 : c, o);
      });
      break;
    }
    case OThenAsync: {
      auto& o = fresh(w);
      auto f = sf.ThenInline([&w, &o](const R& r) {
        w.hit(code(r), o);
        return MakeFuture<int, Err>(4);
      });
      MC_CHECK(code(std::move(f).Get()) == 4);
      break;
    }
    case OThenSharedAsync: {
      auto& o = fresh(w);
      auto f = sf.Then(w.e, [sf](const R&) {
        return sf;
      });
      w.hit(code(std::move(f).Get()), o);
      break;
    }
    case OSubInline: {
      auto& o = fresh(w);
      sf.SubscribeInline([&w, &o, life = Box{5}](const R& r) {
        MC_CHECK(val(life) == 5);
        w.hit(code(r), o);
      });
      break;
    }
    case OSub: {
      auto& o = fresh(w);
      sf.Subscribe(w.e, [&w, &o, life = Box{5}](const R& r) {
        MC_CHECK(val(life) == 5);
        MC_CHECK(where() == 1);
        w.hit(code(r), o);
      });
      break;
    }
    case OShareGet: {
      auto& o = fresh(w);
      w.hit(code(Share(sf).Get()), o);
      break;
    }
    case OShareE: {
      auto& o = fresh(w);
      Share(sf, w.e).Detach([&w, &o](R&& r) {
        MC_CHECK(where() == 1);
        w.hit(code(r), o);
      });
      break;
    }
    case OConnectP: {
      auto& o = fresh(w);
      auto [f, p] = MakeContract<V, Err>();
      std::move(f).DetachInline([&w, &o](R&& r) {
        w.hit(code(r), o);
      });
      Connect(sf, std::move(p));
      break;
    }
    case OConnectSP: {
      auto& o = fresh(w);
      auto [f, p] = MakeSharedContract<V, Err>();
      auto f2 = f;
      Connect(sf, std::move(p));
      f2.SubscribeInline([&w, &o](const R& r) {
        w.hit(code(r), o);
      });
      MC_CHECK(code(std::move(f).Get()) == w.exp);
      break;
    }
    case OWait: {
      auto& o = fresh(w);
      Wait(const_cast<SF&>(sf));
      MC_CHECK(sf.Ready());
      w.hit(code(sf.Touch()), o);
      break;
    }
    case OGetConst: {
      auto& o = fresh(w);
      const R& r = sf.Get();
      w.hit(code(r), o);
      break;
    }
    case OReady: {
      bool r = sf.Ready();
      if (r) {
        auto& o = fresh(w);
        w.hit(code(sf.Touch()), o);
        MC_CHECK(sf.Ready());
      }
      mc::outcome("%d", r);
      break;
    }
    case OCopyDrop: {
      SF c = sf;
      SF d = c;
      c = {};
      MC_CHECK(d.Valid() && !c.Valid());
      break;
    }
    case OCopyOver: {
      SF d = sf, c;
      {
        auto [other, p] = MakeSharedContract<V, Err>();
        SF keep = other;
        c = d;
        other = c;                      // copy over the last but one handle of another state
        keep = std::move(d);            // move over the last one
        { auto gone = std::move(d); }
        MC_CHECK(c.Valid() && other.Valid() && keep.Valid() && !d.Valid());
      }
      break;
    }
    case OCoAwait: {
      coAwait(w, fresh(w), sf).Detach();
      break;
    }
    case OAwait:
    case OAwaitOn:
    case OAwaitSticky: {
      coAwaitPlain(w, fresh(w), sf, op - OAwait).Detach();
      break;
    }
    case OWhenAll: {
      auto& o = fresh(w);
      auto f = WhenAll<FailPolicy::None>(sf, sf);
      std::move(f).DetachInline([&w, &o](Result<std::vector<R>, Err>&& r) {
        auto v = std::move(r).Ok();
        MC_CHECK(v.size() == 2);
        MC_CHECK(code(v[1]) == w.exp);
        w.hit(code(v[0]), o);
      });
      break;
    }
    case OWhenAny: {
      auto& o = fresh(w);
      auto f = WhenAny(sf, sf);
      w.hit(code(std::move(f).Get()), o);
      break;
    }
    case OAwaitTwo: {
      coAwaitTwo(w, fresh(w), sf, Share(sf)).Detach();
      break;
    }
    case OWaitTwo: {
      auto& o = fresh(w);
      SF sf2 = sf;
      auto f = Share(sf);
      Wait(const_cast<SF&>(sf), sf2, f);
      MC_CHECK(sf.Ready() && sf2.Ready() && f.Ready());
      w.hit(code(sf2.Touch()), o);
      MC_CHECK(code(std::move(f).Touch()) == w.exp);
      break;
    }
    default:
      MC_CHECK(false);
  }
}
// observation that uses up the observer's own copy
void consume(Op op, World& w, SF sf) {
  switch (op) {
    case OGetMove: {
      auto& o = fresh(w);
      w.hit(code(std::move(sf).Get()), o);
      break;
    }
    case OTouchMove: {
      if (sf.Ready()) {
        auto& o = fresh(w);
        w.hit(code(std::move(sf).Touch()), o);
        mc::outcome("t");
      }
      break;
    }
    case ODetach:
      std::move(sf).Detach();
      break;
    default:
      observe(op, w, sf);
  }
}

void fulfil(Ful f, SP p) {
  switch (f) {
    case FValue:
      std::move(p).Set(Box{11});
      break;
    case FError:
      std::move(p).Set(Err{5});
      break;
    case FExc:
      std::move(p).Set(std::make_exception_ptr(Exc{6}));
      break;
    case FDropAssign:
      p = SP{};
      MC_CHECK(!p.Valid());
      break;
    case FMoveSet: {
      // a SharedPromise that already had futures of its own takes over this one
      auto [sf0, q] = MakeSharedContract<V, Err>();
      q = std::move(p);
      { auto gone = std::move(p); }
      MC_CHECK(sf0.Ready() && code(std::as_const(sf0).Touch()) == kStop);
      std::move(q).Set(Box{11});
      break;
    }
    default:
      break;
  }
}

// plan: threads, each a list of ops; the last op of a thread may be consuming.
using Plan = std::vector<std::vector<Op>>;

enum Mode {
  MOwn,      // every thread owns a copy, main keeps none
  MKeep,     // every thread owns a copy, main keeps one until the end
  MRef,      // all threads use the same SharedFuture object (const operations only)
};

void finish(World& w) {
  mc::join_all();
  MC_CHECK(w.hits.get() == w.expected.get(), "%d of %d observers fired", w.hits.get(), w.expected.get());
}

void run_plan(const Plan& plan, Ful ful, Mode mode) {
  World w;
  g_nonce = 0;
  w.exp = want(ful);
  {
    auto [sf, p] = MakeSharedContract<V, Err>();
    std::vector<SF> own;
    {
      mc::NoTrack nt;
      own.reserve(plan.size());
    }
    if (mode != MRef) {
      for (std::size_t i = 0; i < plan.size(); ++i) own.push_back(sf);
      if (mode == MOwn) {
        if (plan.size() == 1) {
          SF drop = std::move(sf);
        } else {
          sf = SF{};
        }
        MC_CHECK(!sf.Valid());
      }
    }
    for (std::size_t i = 0; i < plan.size(); ++i) {
      mc::spawn([&w, &plan, i, mode, sf = mode == MRef ? &sf : nullptr, my = mode == MRef ? SF{} : std::move(own[i])]() mutable {
        for (std::size_t k = 0; k < plan[i].size(); ++k) {
          if (mode == MRef) {
            observe(plan[i][k], w, *sf);
          } else if (k + 1 == plan[i].size()) {
            consume(plan[i][k], w, std::move(my));
          } else {
            observe(plan[i][k], w, my);
          }
        }
      });
    }
    w.set_begun.poke(1);
    fulfil(ful, std::move(p));
    finish(w);
    if (mode != MOwn) {
      MC_CHECK(sf.Ready());
      MC_CHECK(code(std::as_const(sf).Touch()) == w.exp);
    }
    {
      mc::NoTrack nt;
      own = {};
    }
  }
}

// ---- sources: how the shared state came to be -----------------------------------------------------
enum Src { SSplit, SCoro, SPromiseOnly, SConnectSF, SOn, SKinds };
const char* const kSrc[] = {"split", "coro", "promise-only", "connect-sf", "on"};

SharedFuture<V, Err> coSrc(Future<V, Err> f) {
  co_return co_await std::move(f);
}
void run_src(Src s, Op op, Ful ful) {
  World w;
  g_nonce = 0;
  w.exp = want(ful);
  {
    SF sf;
    Promise<V, Err> up;
    SP sp;
    switch (s) {
      case SSplit: {
        auto [f, p] = MakeContract<V, Err>();
        sf = Split(std::move(f));
        up = std::move(p);
        break;
      }
      case SCoro: {
        if ((ful == FError || ful == FDrop || ful == FDropAssign) && op != OCoAwait) w.exp += 3000;   // rethrown by co_await, so it becomes an exception
        auto [f, p] = MakeContract<V, Err>();
        sf = coSrc(std::move(f));
        up = std::move(p);
        break;
      }
      case SPromiseOnly: {
        sp = MakeSharedPromise<V, Err>();
        sf = Split(sp);
        break;
      }
      case SConnectSF: {
        auto [f, p] = MakeSharedContract<V, Err>();
        auto [f2, p2] = MakeSharedContract<V, Err>();
        Connect(f, std::move(p2));
        sp = std::move(p);
        sf = std::move(f2);
        break;
      }
      default: {
        auto [f, p] = MakeSharedContractOn<V, Err>(w.e);
        sp = std::move(p);
        sf = std::move(f).On(nullptr);
      }
    }
    mc::spawn([&w, op, sf = std::move(sf)]() mutable {
      consume(op, w, std::move(sf));
    });
    w.set_begun.poke(1);
    if (up.Valid()) {
      switch (ful) {
        case FValue: std::move(up).Set(Box{11}); break;
        case FError: std::move(up).Set(Err{5}); break;
        case FExc: std::move(up).Set(std::make_exception_ptr(Exc{6})); break;
        case FDropAssign: up = {}; break;
        case FMoveSet: {
          auto [f0, q] = MakeContract<V, Err>();
          q = std::move(up);
          { auto gone = std::move(up); }
          MC_CHECK(code(std::move(f0).Get()) == kStop);
          std::move(q).Set(Box{11});
          break;
        }
        default: { auto drop = std::move(up); }
      }
    } else {
      fulfil(ful, std::move(sp));
    }
    finish(w);
  }
}

// ---- observers attached through the SharedPromise itself --------------------------------------------
void run_promise_side(int how, Op op, Ful ful) {
  World w;
  g_nonce = 0;
  w.exp = want(ful);
  {
    auto [sf, p] = MakeSharedContract<V, Err>();
    mc::spawn([&w, op, sf = std::move(sf)]() mutable {
      consume(op, w, std::move(sf));
    });
    Future<V, Err> f1;
    FutureOn<V, Err> f2;
    SF f3;
    Cnt& o = fresh(w);
    if (how == 0) {
      f1 = Share(p);
    } else if (how == 1) {
      f2 = Share(p, w.e);
    } else {
      auto [f, sp] = MakeSharedContract<V, Err>();
      Connect(p, std::move(sp));
      f3 = std::move(f);
    }
    w.set_begun.poke(1);
    fulfil(ful, std::move(p));
    if (how == 0) {
      MC_CHECK(f1.Ready());
      w.hit(code(std::move(f1).Touch()), o);
    } else if (how == 1) {
      std::move(f2).Detach([&](R&& r) {
        MC_CHECK(where() == 1);
        w.hit(code(r), o);
      });
    } else {
      MC_CHECK(f3.Ready());
      w.hit(code(std::move(f3).Touch()), o);
    }
    finish(w);
  }
}

// Ready() must not become true because someone registered an observer.
void ready_registered(Op op) {
  World w;
  g_nonce = 0;
  w.exp = 11;
  {
    auto [sf, p] = MakeSharedContract<V, Err>();
    consume(op, w, sf);
    MC_CHECK(!sf.Ready(), "Ready() before the value exists");
    w.set_begun.poke(1);
    fulfil(FValue, std::move(p));
    MC_CHECK(sf.Ready());
    MC_CHECK(code(std::as_const(sf).Touch()) == 11);
    finish(w);
  }
}

mc::Opts opt(int threads, bool thorough = false) {
  mc::Opts o{.mask = kMask};
  o.weak_fail = threads > 1 ? 0 : 1;
  o.thorough = thorough;
  return o;
}
bool blocking(Op o) {
  return o == OThenE || o == OThenAsync || o == OThenSharedAsync || o == OShareGet || o == OConnectSP || o == OWait ||
         o == OGetConst || o == OWhenAny || o == OWaitTwo || o == OGetMove || o == OTouchMove || o == ODetach || o == OReady ||
         o == OCopyDrop || o == OCopyOver;
}
// observers that are expensive to interleave: only in the thorough tier when three threads are involved
bool heavy(Op o) {
  return o == OCopyOver || o == OAwaitTwo || o == OWaitTwo || o == OThenSharedAsync || o == OWhenAll || o == OWhenAny || o == OConnectSP || o == OThenE || o == OShareE || o == OAwaitOn || o == OAwaitSticky || o == OSub;
}
std::string nm(Op o) {
  return kOp[o];
}

MC_TESTS {
  for (int a = 0; a < OKinds; ++a) {
    for (int f = 0; f < FKinds; ++f) {
      for (int m = 0; m < 3; ++m) {
        if (m == MRef && a >= kFirstConsuming) continue;
        const char* mn[] = {"own", "keep", "ref"};
        mc::add_test("one/" + nm(Op(a)) + "/" + kFul[f] + "/" + mn[m], opt(1), [a, f, m] {
          run_plan({{Op(a)}}, Ful(f), Mode(m));
        });
      }
      for (int s = 0; s < SKinds; ++s) {
        mc::add_test(std::string("src/") + kSrc[s] + "/" + nm(Op(a)) + "/" + kFul[f], opt(1), [a, f, s] {
          run_src(Src(s), Op(a), Ful(f));
        });
      }
      for (int h = 0; h < 3; ++h) {
        const char* hn[] = {"Share", "Share(e)", "Connect"};
        mc::add_test(std::string("promise-side/") + hn[h] + "/" + nm(Op(a)) + "/" + kFul[f], opt(1), [a, f, h] {
          run_promise_side(h, Op(a), Ful(f));
        });
      }
    }
    if (!blocking(Op(a))) {
      mc::add_test("ready/" + nm(Op(a)), opt(1), [a] {
        ready_registered(Op(a));
      });
    }
    for (int b = 0; b < OKinds; ++b) {
      // two ops by one thread
      if (a < kFirstConsuming) {
        mc::add_test("seq/" + nm(Op(a)) + "+" + nm(Op(b)), opt(2, heavy(Op(a)) && heavy(Op(b))), [a, b] {
          run_plan({{Op(a), Op(b)}}, FValue, MOwn);
        });
      }
      // two threads
      if (b >= a) {
        for (int m = 0; m < 3; ++m) {
          const char* mn[] = {"own", "keep", "ref"};
          if (m == MRef && b >= kFirstConsuming) continue;
          if (m == MKeep && b >= kFirstConsuming) continue;
          mc::add_test(std::string("par/") + mn[m] + "/" + nm(Op(a)) + "|" + nm(Op(b)), opt(2, m != MOwn || (heavy(Op(a)) && heavy(Op(b)))),
                       [a, b, m] {
                         run_plan({{Op(a)}, {Op(b)}}, FValue, Mode(m));
                       });
        }
        if (!heavy(Op(a)) && !heavy(Op(b))) {
          for (int c = b; c < OKinds; ++c) {
            if (heavy(Op(c))) continue;
            mc::add_test("par3/" + nm(Op(a)) + "|" + nm(Op(b)) + "|" + nm(Op(c)), opt(3, true), [a, b, c] {
              run_plan({{Op(a)}, {Op(b)}, {Op(c)}}, FValue, MOwn);
            });
          }
        }
      }
    }
  }
};

}  // namespace
