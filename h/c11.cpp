// C11: Wait / WaitFor / WaitUntil over 1..3 futures, completions racing with the timeout, then any further use.
#include "coro.hpp"

using namespace yaclib;
using namespace h;
using namespace std::chrono_literals;

namespace {

#ifndef MC_MASK
#  define MC_MASK mc::kAll
#endif
constexpr unsigned kMask = MC_MASK;

using F = Future<Box, Err>;
using P = Promise<Box, Err>;
using R = Result<Box, Err>;

enum WaitK { WWait, WFor, WUntil, WFor0, WUntilPast, WUntilSys, WKinds };
const char* const kWait[] = {"Wait", "WaitFor", "WaitUntil", "WaitFor0", "WaitUntilPast", "WaitUntilSystem"};
enum Form { FVariadic, FRange, FCount, FForms };
const char* const kForm[] = {"variadic", "range", "count"};
enum After { AGet, AThen, AThenE, AWaitTouch, AAgain, ADetachInline, ADrop, AConnect, ACoAwait, AAttachMore, AKinds };
const char* const kAfter[] = {"Get", "ThenInline", "Then(e)", "Wait+Touch", "WaitFor+Get", "DetachInline", "drop", "Connect", "co_await",
                              "Wait+Then"};

template <typename... Fs>
[[gnu::noinline]] bool do_wait(WaitK k, Fs&... fs) {
  switch (k) {
    case WWait:
      Wait(fs...);
      return true;
    case WFor:
      return WaitFor(100ns, fs...);
    case WUntil:
      return WaitUntil(std::chrono::steady_clock::now() + 100ns, fs...);
    case WFor0:
      return WaitFor(0ns, fs...);
    case WUntilSys:
      return WaitUntil(std::chrono::system_clock::now() + 100ns, fs...);
    default:
      return WaitUntil(std::chrono::steady_clock::now() - 5ns, fs...);
  }
}
[[gnu::noinline]] bool do_wait_range(WaitK k, Form f, std::vector<F>& fs) {
  if (f == FRange) {
    switch (k) {
      case WWait:
        Wait(fs.begin(), fs.end());
        return true;
      case WFor:
        return WaitFor(100ns, fs.begin(), fs.end());
      case WUntil:
        return WaitUntil(std::chrono::steady_clock::now() + 100ns, fs.begin(), fs.end());
      case WFor0:
        return WaitFor(0ns, fs.begin(), fs.end());
      case WUntilSys:
        return WaitUntil(std::chrono::system_clock::now() + 100ns, fs.begin(), fs.end());
      default:
        return WaitUntil(std::chrono::steady_clock::now() - 5ns, fs.begin(), fs.end());
    }
  }
  switch (k) {
    case WWait:
      Wait(fs.begin(), fs.size());
      return true;
    case WFor:
      return WaitFor(100ns, fs.begin(), fs.size());
    case WUntil:
      return WaitUntil(std::chrono::steady_clock::now() + 100ns, fs.begin(), fs.size());
    case WFor0:
      return WaitFor(0ns, fs.begin(), fs.size());
    case WUntilSys:
      return WaitUntil(std::chrono::system_clock::now() + 100ns, fs.begin(), fs.size());
    default:
      return WaitUntil(std::chrono::steady_clock::now() - 5ns, fs.begin(), fs.size());
  }
}

long long dur(WaitK k) {
  return k == WFor || k == WUntil || k == WUntilSys ? 100 : 0;
}

bool wait_all(WaitK k, Form f, std::vector<F>& fs) {
  if (f != FVariadic) return do_wait_range(k, f, fs);
  switch (fs.size()) {
    case 1:
      return do_wait(k, fs[0]);
    case 2:
      return do_wait(k, fs[0], fs[1]);
    default:
      return do_wait(k, fs[0], fs[1], fs[2]);
  }
}

Future<void, Err> coro(F f, Cnt& hits, int exp) {
  int c;
  try {
    c = val(co_await std::move(f));
  } catch (...) {
    c = caught_code<Err>();
  }
  MC_CHECK(c == exp);
  hits.inc();
  co_return{};
}

[[gnu::noinline]] void after(After a, F f, int exp, Cnt& hits, IExecutor& e) {
  auto cb = [&hits, exp, life = Box{3}](R&& r) {
    MC_CHECK(val(life) == 3);
    MC_CHECK(code(r) == exp, "got %d instead of %d", code(r), exp);
    MC_CHECK(hits.inc() == 1, "delivered twice");
  };
  MC_CHECK(f.Valid());
  switch (a) {
    case AGet: {
      MC_CHECK(code(std::move(f).Get()) == exp);
      hits.inc();
      break;
    }
    case AThen:
      std::move(f).ThenInline(std::move(cb)).Detach();
      break;
    case AThenE:
      std::move(f).Then(e, std::move(cb)).Detach();
      break;
    case AWaitTouch: {
      Wait(f);
      MC_CHECK(f.Ready());
      MC_CHECK(code(std::as_const(f).Touch()) == exp);
      hits.inc();
      break;
    }
    case AAgain: {
      bool r = do_wait(WFor, f);
      MC_CHECK(!r || f.Ready());
      mc::outcome("%d", r);
      MC_CHECK(code(std::move(f).Get()) == exp);
      hits.inc();
      break;
    }
    case ADetachInline:
      std::move(f).DetachInline(std::move(cb));
      break;
    case ADrop:
      hits.inc();
      break;
    case AConnect: {
      auto [f2, p2] = MakeContract<Box, Err>();
      Connect(std::move(f), std::move(p2));
      MC_CHECK(code(std::move(f2).Get()) == exp);
      hits.inc();
      break;
    }
    case ACoAwait:
      coro(std::move(f), hits, exp).Detach();
      break;
    default: {
      Wait(f);
      auto g = std::move(f).ThenInline(std::move(cb));
      MC_CHECK(hits.get() == 1, "continuation of a ready future must run at once");
      Wait(g);
      break;
    }
  }
}

struct Cfg {
  WaitK k = WFor;
  Form form = FVariadic;
  int n = 1;
  int ready = 0;       // how many are already fulfilled
  int threads = 1;     // producers: 1 thread for all or one thread each (n)
  After a = AGet;
  bool err = false;
  int repeat = 1;      // number of waits
};

void run(const Cfg& c) {
  SpawnExec e{1};
  {
    std::vector<F> fs(c.n);
    std::vector<P> ps(c.n);
    std::vector<Cnt> hits(c.n), set(c.n);
    std::vector<int> exp(c.n);
    for (int i = 0; i < c.n; ++i) {
      auto [f, p] = MakeContract<Box, Err>();
      fs[i] = std::move(f);
      ps[i] = std::move(p);
      exp[i] = c.err && i == 0 ? 1005 : 20 + i;
    }
    auto fulfil = [&](int i) {
      set[i].set(1);
      if (exp[i] == 1005) {
        std::move(ps[i]).Set(Err{5});
      } else {
        std::move(ps[i]).Set(Box{exp[i]});
      }
    };
    for (int i = 0; i < c.ready; ++i) fulfil(i);
    if (c.ready < c.n) {
      if (c.threads == 1) {
        mc::spawn([&] {
          for (int i = c.ready; i < c.n; ++i) fulfil(i);
        });
      } else {
        for (int i = c.ready; i < c.n; ++i) {
          mc::spawn([&, i] {
            fulfil(i);
          });
        }
      }
    }
    for (int rep = 0; rep < c.repeat; ++rep) {
      long long t0 = mc::now_ns();
      bool r = wait_all(c.k, c.form, fs);
      long long t1 = mc::now_ns();
      if (r) {
        for (int i = 0; i < c.n; ++i) {
          MC_CHECK(set[i].get() == 1, "wait returned before future %d was fulfilled", i);
          MC_CHECK(fs[i].Ready(), "wait returned true but future %d is not ready", i);
          MC_CHECK(code(std::as_const(fs[i]).Touch()) == exp[i]);
        }
      } else {
        MC_CHECK(c.k != WWait);
        MC_CHECK(t1 - t0 >= dur(c.k), "timed out after %lld ns", t1 - t0);
      }
      if (c.ready == c.n) MC_CHECK(r, "all futures were ready");
      mc::outcome("%d", r);
    }
    for (int i = 0; i < c.n; ++i) {
      MC_CHECK(fs[i].Valid());
      if (fs[i].Ready()) MC_CHECK(code(std::as_const(fs[i]).Touch()) == exp[i]);
      after(c.a, std::move(fs[i]), exp[i], hits[i], e);
    }
    mc::join_all();
    for (int i = 0; i < c.n; ++i) MC_CHECK(hits[i].get() == 1, "future %d delivered %d times", i, hits[i].get());
  }
}

// Shared futures: Wait only (no timeout), mixed with unique futures, from two waiting threads.
void shared(int kind, int waiters, bool iter) {
  {
    auto [sf, sp] = MakeSharedContract<Box, Err>();
    auto [f, p] = MakeContract<Box, Err>();
    Cnt set;
    std::vector<SharedFuture<Box, Err>> copies(waiters, sf);
    if (kind == 0) {
      std::move(p).Set(Box{2});
    }
    std::vector<int> tids;
    for (int w = 0; w < waiters; ++w) {
      tids.push_back(mc::spawn([&, w] {
        auto& s = copies[w];
        if (iter) {
          std::vector<SharedFuture<Box, Err>> v(2, s);
          Wait(v.begin(), v.end());
          MC_CHECK(v[0].Ready() && v[1].Ready());
        } else if (kind == 1 && w == 0) {
          auto s2 = s;
          Wait(s, f, s2);
          MC_CHECK(f.Ready());
        } else {
          Wait(s);
        }
        MC_CHECK(set.get() == 1);
        MC_CHECK(s.Ready());
        MC_CHECK(code(std::as_const(s).Touch()) == 7);
      }));
    }
    set.set(1);
    std::move(sp).Set(Box{7});
    if (kind == 1) std::move(p).Set(Box{2});
    mc::join_all();
    MC_CHECK(code(std::move(f).Get()) == 2);
  }
}

mc::Opts opt(bool th, int spurious = 0) {
  mc::Opts o{.mask = kMask};
  o.spurious = spurious;
  o.thorough = th;
  return o;
}

MC_TESTS {
  for (int k = 0; k < WKinds; ++k) {
    for (int fm = 0; fm < FForms; ++fm) {
      for (int n = 1; n <= (fm == FVariadic ? 3 : 4); ++n) {
        for (int ready = 0; ready <= n; ++ready) {
          for (int th = 1; th <= n; th += (n > 1 ? n - 1 : 1)) {
            if (ready >= n - 1 && th > 1) continue;
            for (int a = 0; a < AKinds; ++a) {
              Cfg c{WaitK(k), Form(fm), n, ready, th, After(a)};
              const bool thorough = n == 4;
              std::string nm = std::string(kWait[k]) + "/" + kForm[fm] + std::to_string(n) + "/ready" + std::to_string(ready) + "/thr" +
                               std::to_string(th) + "/" + kAfter[a];
              mc::add_test(nm, opt(thorough, n == 1 ? 1 : 0), [c] {
                run(c);
              });
              if (k != WWait && a <= AThen) {
                Cfg c2 = c;
                c2.repeat = 2;
                mc::add_test("twice/" + nm, opt(thorough), [c2] {
                  run(c2);
                });
              }
              if (n > 1) {
                mc::add_test("spurious/" + nm, opt(true, 1), [c] {
                  run(c);
                });
              }
              if (n == 1) {
                Cfg c3 = c;
                c3.err = true;
                mc::add_test("err/" + nm, opt(thorough), [c3] {
                  run(c3);
                });
              }
            }
          }
        }
      }
    }
  }
  for (int kind = 0; kind < 2; ++kind) {
    for (int w = 1; w <= 3; ++w) {
      for (int it = 0; it < 2; ++it) {
        mc::add_test("shared/kind" + std::to_string(kind) + "/w" + std::to_string(w) + (it ? "/iter" : ""), opt(w > 2 || (w == 2 && it)), [=] {
          shared(kind, w, it);
        });
      }
    }
  }
};

}  // namespace
