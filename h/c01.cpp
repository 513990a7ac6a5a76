// C01: every producer kind x every consumer kind, one producer thread, one consumer thread.
#include "h.hpp"

using namespace yaclib;
using namespace h;

namespace {

#ifndef MC_MASK
#  define MC_MASK mc::kAll
#endif
constexpr mc::Opts kO{.mask = MC_MASK};

enum Prod { PValue, PError, PExc, PDrop, PResult, PDropAssign, PMoveSet, PKinds };
const char* const kProd[] = {"value", "error", "exception", "drop", "result", "assign over", "moved+value"};
int expected(Prod p) {
  switch (p) {
    case PValue: return 11;
    case PError: return 1000 + 5;
    case PExc: return 2000 + 6;
    case PDrop:
    case PDropAssign: return kStop;
    default: return 12;
  }
}

template <typename V>
void produce(Prod k, Promise<V, Err> p) {
  switch (k) {
    case PValue:
      if constexpr (std::is_void_v<V>) {
        std::move(p).Set();
      } else {
        std::move(p).Set(V{11});
      }
      break;
    case PError:
      std::move(p).Set(Err{5});
      break;
    case PExc: {
      std::move(p).Set(std::make_exception_ptr(Exc{6}));
      break;
    }
    case PDrop:
      break;
    case PDropAssign:
      p = Promise<V, Err>{};
      MC_CHECK(!p.Valid());
      break;
    case PMoveSet: {
      // a Promise that already had a contract of its own takes over this one
      auto [f0, q] = MakeContract<V, Err>();
      q = std::move(p);
      MC_CHECK(q.Valid());
      { auto gone = std::move(p); }   // whatever the moved-from handle still owns
      MC_CHECK(code(std::move(f0).Get()) == kStop);
      if constexpr (std::is_void_v<V>) {
        std::move(q).Set(Result<V, Err>{Unit{}});
      } else {
        std::move(q).Set(Result<V, Err>{V{12}});
      }
      break;
    }
    default:
      if constexpr (std::is_void_v<V>) {
        std::move(p).Set(Result<V, Err>{Unit{}});
      } else {
        std::move(p).Set(Result<V, Err>{V{12}});
      }
  }
}
template <typename V>
int want(Prod p) {
  int e = expected(p);
  if (std::is_void_v<V> && e < 100) e = 0;
  return e;
}

// What one execution observed.
struct Obs {
  Cnt calls;
  Cnt seen;
  mc::Ghost<int> set_begun{0};
  MC_NOINSTR void hit(int c) {
    calls.inc();
    seen.set(c);
    MC_CHECK(set_begun.peek() == 1, "result delivered before the producer fulfilled");
  }
};

enum Cons {
  CThenInline, CThenExec, CThenExecInline, CDetach, CDetachInline, CDetachExec, CGet, CGetPoll, CWait, CConnect, CConnectThen, CDrop,
  CReadyTouch, CReadyThen, CMoveAssign, CThenChain, CThenThenExec, CDropAssign, CMoveAssignOver, CKinds
};
const char* const kCons[] = {"ThenInline", "Then(e)", "Then(inline)", "Detach", "DetachInline", "Detach(e)", "Get", "Get-const",
                             "Wait+Touch", "Connect", "Connect+Then", "drop", "Ready+Touch", "Ready+Then", "MoveAssign", "ThenInline^2",
                             "Then(e)^2", "assign over", "MoveAssign-over"};

template <typename V>
void consume(Cons c, Future<V, Err> f, Obs& o, ExecBase& e, int exp) {
  using R = Result<V, Err>;
  auto cb = [&o, life = Box{77}](R&& r) {
    MC_CHECK(val(life) == 77, "capture damaged");
    o.hit(code(r));
  };
  switch (c) {
    case CThenInline: {
      auto g = std::move(f).ThenInline(std::move(cb));
      MC_CHECK(!f.Valid());
      std::move(g).Detach();
      break;
    }
    case CThenExec: {
      auto g = std::move(f).Then(e, std::move(cb));
      Result<void, Err> r = std::move(g).Get();
      MC_CHECK(code(r) == 0, "got %d", code(r));
      MC_CHECK(o.calls.get() == 1, "Get returned before the continuation ran");
      break;
    }
    case CThenExecInline: {
      auto g = std::move(f).Then(MakeInline(), std::move(cb));
      Wait(g);
      MC_CHECK(g.Ready());
      MC_CHECK(o.calls.get() == 1, "Wait returned before the continuation ran");
      break;
    }
    case CDetach:
      std::move(f).Detach();
      break;
    case CDetachInline:
      std::move(f).DetachInline(std::move(cb));
      break;
    case CDetachExec:
      std::move(f).Detach(e, std::move(cb));
      break;
    case CGet: {
      R r = std::move(f).Get();
      o.hit(code(r));
      break;
    }
    case CGetPoll: {
      for (int i = 0; i < 2; ++i) {
        const R* r = std::as_const(f).Get();
        if (r != nullptr) {
          MC_CHECK(code(*r) == exp, "Get const saw %d", code(*r));
          MC_CHECK(f.Ready(), "Ready() is not stable");
        }
        mc::outcome("%c", r ? 'r' : '-');
      }
      o.hit(code(std::move(f).Get()));
      break;
    }
    case CWait: {
      Wait(f);
      MC_CHECK(f.Ready());
      MC_CHECK(code(std::as_const(f).Touch()) == exp);
      o.hit(code(std::move(f).Touch()));
      MC_CHECK(!f.Valid());
      break;
    }
    case CConnect: {
      auto [f2, p2] = MakeContract<V, Err>();
      Connect(std::move(f), std::move(p2));
      MC_CHECK(!f.Valid());
      MC_CHECK(!p2.Valid());
      o.hit(code(std::move(f2).Get()));
      break;
    }
    case CConnectThen: {
      auto [f2, p2] = MakeContract<V, Err>();
      auto f3 = std::move(f2).ThenInline(std::move(cb));
      Connect(std::move(f), std::move(p2));
      Wait(f3);
      MC_CHECK(f3.Ready());
      break;
    }
    case CDrop:
      break;
    case CReadyTouch: {
      bool r = f.Ready();
      if (r) {
        o.hit(code(std::move(f).Touch()));
      } else {
        o.hit(code(std::move(f).Get()));
      }
      mc::outcome("%d", r);
      break;
    }
    case CReadyThen: {
      bool r = f.Ready();
      auto g = std::move(f).ThenInline(std::move(cb));
      if (r) {
        MC_CHECK(o.calls.get() == 1, "continuation of a ready future must run at once");
      }
      mc::outcome("%d", r);
      std::ignore = std::move(g).Get();
      break;
    }
    case CMoveAssign: {
      Future<V, Err> g = std::move(f);
      MC_CHECK(!f.Valid());
      Future<V, Err> k;
      k = std::move(g);
      o.hit(code(std::move(k).Get()));
      break;
    }
    case CDropAssign:
      f = Future<V, Err>{};
      MC_CHECK(!f.Valid());
      break;
    case CMoveAssignOver: {
      auto g = MakeFuture<void, Err>(StopTag{}).ThenInline([](Result<void, Err>&&) -> Result<V, Err> {
        return Result<V, Err>{Err{9}};
      });
      g = std::move(f);
      { auto gone = std::move(f); }
      o.hit(code(std::move(g).Get()));
      break;
    }
    case CThenChain: {
      auto g = std::move(f).ThenInline(std::move(cb)).ThenInline([&o](Result<void, Err>&& r) {
        MC_CHECK(o.calls.get() == 1, "second step before first");
        MC_CHECK(code(r) == 0);
        return 31;
      });
      MC_CHECK(code(std::move(g).Get()) == 31);
      break;
    }
    case CThenThenExec: {
      auto g = std::move(f).Then(e, std::move(cb)).Then([&o](Result<void, Err>&& r) {
        MC_CHECK(o.calls.get() == 1, "second step before first");
        MC_CHECK(code(r) == 0);
        return 31;
      });
      MC_CHECK(code(std::move(g).Get()) == 31);
      break;
    }
    default:
      break;
  }
}

// The same two parties over a contract bound to an executor.
enum ConsOn { OThen, OThenInline, OThenExec, ODetach, ODetachInline, ODetachExec, OGet, OOnNull, OMove, ODrop, ODropAssign, OKinds };
const char* const kConsOn[] = {"Then", "ThenInline", "Then(e)", "Detach(f)", "DetachInline", "Detach(e,f)", "Get", "On(null)+ThenInline",
                               "MoveAssign-over", "drop", "assign over"};

template <typename V>
void consume_on(ConsOn c, FutureOn<V, Err> f, Obs& o, ExecBase& e, ExecBase& e2) {
  using R = Result<V, Err>;
  auto cb = [&o, life = Box{77}](R&& r) {
    MC_CHECK(val(life) == 77, "capture damaged");
    o.hit(code(r));
  };
  switch (c) {
    case OThen: {
      FutureOn<void, Err> g = std::move(f).Then(std::move(cb));
      MC_CHECK(code(std::move(g).Get()) == 0);
      MC_CHECK(o.calls.get() == 1, "Get returned before the continuation ran");
      MC_CHECK(e.submits() == 1);
      break;
    }
    case OThenInline: {
      FutureOn<int, Err> g = std::move(f).ThenInline(std::move(cb)).Then([] {
        return 3;
      });
      MC_CHECK(code(std::move(g).Get()) == 3);
      MC_CHECK(e.submits() == 1);
      break;
    }
    case OThenExec: {
      FutureOn<int, Err> g = std::move(f).Then(e2, std::move(cb)).Then([] {
        return 3;
      });
      MC_CHECK(code(std::move(g).Get()) == 3);
      MC_CHECK(e.submits() == 0 && e2.submits() == 2);
      break;
    }
    case ODetach:
      std::move(f).Detach(std::move(cb));
      break;
    case ODetachInline:
      std::move(f).DetachInline(std::move(cb));
      break;
    case ODetachExec:
      std::move(f).Detach(e2, std::move(cb));
      break;
    case OGet:
      o.hit(code(std::move(f).Get()));
      break;
    case OOnNull: {
      Future<V, Err> g = std::move(f).On(nullptr);
      auto k = std::move(g).ThenInline(std::move(cb));
      MC_CHECK(code(std::move(k).Get()) == 0);
      break;
    }
    case OMove: {
      auto [g, q] = MakeContractOn<V, Err>(e2);
      g = std::move(f);
      { auto gone = std::move(f); }
      { auto gone = std::move(q); }
      o.hit(code(std::move(g).Get()));
      break;
    }
    case ODropAssign:
      f = FutureOn<V, Err>{};
      break;
    default:
      break;
  }
  MC_CHECK(!f.Valid() || c == ODrop);
}

template <typename V>
void one_on(Prod pk, ConsOn ck) {
  SpawnExec e{1}, e2{2};
  {
    Obs o;
    auto [f, p] = MakeContractOn<V, Err>(e);
    MC_CHECK(f.Valid() && p.Valid() && !f.Ready());
    int exp = want<V>(pk);
    int t = mc::spawn([&, p = &p] {
      o.set_begun.poke(1);
      produce<V>(pk, std::move(*p));
    });
    consume_on<V>(ck, std::move(f), o, e, e2);
    mc::join(t);
    mc::join_all();
    if (ck == ODrop || ck == ODropAssign) {
      MC_CHECK(o.calls.get() == 0);
    } else {
      MC_CHECK(o.calls.get() == 1, "continuation or result observed %d times", o.calls.get());
      MC_CHECK(o.seen.get() == exp, "saw %d instead of %d", o.seen.get(), exp);
    }
    mc::outcome(" %d/%d", o.calls.get(), o.seen.get());
  }
}

template <typename V>
void one(Prod pk, Cons ck, bool consumer_spawned) {
  SpawnExec e{1};
  {
    Obs o;
    auto [f, p] = MakeContract<V, Err>();
    MC_CHECK(f.Valid() && p.Valid() && !f.Ready());
    int exp = want<V>(pk);
    int t;
    if (consumer_spawned) {
      t = mc::spawn([&, f = &f] {
        consume<V>(ck, std::move(*f), o, e, exp);
      });
      o.set_begun.poke(1);
      produce<V>(pk, std::move(p));
    } else {
      t = mc::spawn([&, p = &p] {
        o.set_begun.poke(1);
        produce<V>(pk, std::move(*p));
        MC_CHECK(!p->Valid());
      });
      consume<V>(ck, std::move(f), o, e, exp);
    }
    mc::join(t);
    mc::join_all();
    if (ck == CDetach || ck == CDrop || ck == CDropAssign) {
      MC_CHECK(o.calls.get() == 0);
    } else {
      MC_CHECK(o.calls.get() == 1, "continuation or result observed %d times", o.calls.get());
      MC_CHECK(o.seen.get() == exp, "saw %d instead of %d", o.seen.get(), exp);
    }
    mc::outcome(" %d/%d", o.calls.get(), o.seen.get());
  }
}

MC_TESTS {
  for (int p = 0; p < PKinds; ++p) {
    for (int c = 0; c < OKinds; ++c) {
      auto name = std::string(kProd[p]) + "/" + kConsOn[c];
      mc::add_test("on-box/" + name, kO, [p, c] {
        one_on<Box>(Prod(p), ConsOn(c));
      });
      if (p == PValue || p == PDrop) {
        mc::add_test("on-void/" + name, kO, [p, c] {
          one_on<void>(Prod(p), ConsOn(c));
        });
      }
    }
    for (int c = 0; c < CKinds; ++c) {
      auto name = std::string(kProd[p]) + "/" + kCons[c];
      mc::add_test("box/" + name, kO, [p, c] {
        one<Box>(Prod(p), Cons(c), false);
      });
      if (p == PValue || p == PDrop || p == PDropAssign) {
        mc::add_test("box-swapped/" + name, kO, [p, c] {
          one<Box>(Prod(p), Cons(c), true);
        });
        mc::add_test("void/" + name, kO, [p, c] {
          one<void>(Prod(p), Cons(c), false);
        });
      }
    }
  }
};

}  // namespace
