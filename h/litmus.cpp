// Engine self-test programs.  Test name: <expected verdict>/<expected number of complete executions or 0>/<name>
#include <mc.h>

#include <atomic>
#include <chrono>
#include <condition_variable>
#include <memory>
#include <mutex>
#include <thread>

namespace {
using namespace std;
constexpr mc::Opts kO{.mask = mc::kAll};
constexpr auto rlx = memory_order_relaxed;
constexpr auto acq = memory_order_acquire;
constexpr auto rel = memory_order_release;

template <typename F>
void par(int n, F f) {
  int t[8];
  for (int i = 0; i < n; ++i) {
    t[i] = mc::spawn([i, &f] {
      f(i);
    });
  }
  for (int i = 0; i < n; ++i) mc::join(t[i]);
}

MC_TESTS {
  mc::add_test("ok/6/3 writers", kO, [] {
    atomic<int> x{0};
    par(3, [&](int i) {
      x.store(i);
    });
    mc::outcome("%d", x.load());
  });
  mc::add_test("ok/24/4 rmw", kO, [] {
    atomic<int> x{0};
    par(4, [&](int) {
      x.fetch_add(1);
    });
    MC_CHECK(x.load() == 4);
  });
  mc::add_test("ok/1/disjoint", kO, [] {
    atomic<int> x[4] = {};
    par(4, [&](int i) {
      x[i].store(1);
      x[i].store(2);
      x[i].fetch_add(3);
    });
  });
  mc::add_test("ok/8/1 writer 3 readers", kO, [] {
    atomic<int> x{0};
    int r[3];
    par(4, [&](int i) {
      if (i == 3) x.store(1);
      else r[i] = x.load();
    });
    mc::outcome("%d%d%d", r[0], r[1], r[2]);
  });
  mc::add_test("ok/3/SB", kO, [] {
    atomic<int> x[2] = {};
    int r[2];
    par(2, [&](int i) {
      x[i].store(1);
      r[i] = x[1 - i].load();
    });
    mc::outcome("%d%d", r[0], r[1]);
    MC_CHECK(r[0] + r[1] > 0);
  });
  mc::add_test("ok/0/lastzero", kO, [] {
    atomic<int> a[4] = {};
    par(4, [&](int i) {
      if (i == 0) {
        int k = 3;
        while (k > 0 && a[k].load() != 0) --k;
        mc::outcome("%d", k);
      } else {
        a[i].store(a[i - 1].load() + 1);
      }
    });
  });
  mc::add_test("ok/6/lock order", kO, [] {
    mutex m;
    int x = 0;
    par(3, [&](int i) {
      lock_guard l{m};
      x = x * 10 + i + 1;
    });
    mc::outcome("%d", x);
  });
  mc::add_test("ok/0/two locks", kO, [] {
    mutex m[2];
    int x = 0, y = 0;
    par(2, [&](int i) {
      {
        lock_guard l{m[0]};
        x = x * 10 + i + 1;
      }
      {
        lock_guard l{m[1]};
        y = y * 10 + i + 1;
      }
    });
    mc::outcome("%d %d", x, y);
  });
  mc::add_test("deadlock/0/lock inversion", kO, [] {
    mutex m[2];
    par(2, [&](int i) {
      lock_guard l{m[i]};
      lock_guard k{m[1 - i]};
    });
  });
  mc::add_test("ok/0/try_lock", kO, [] {
    mutex m;
    int got = 0;
    par(3, [&](int i) {
      if (i == 0) {
        lock_guard l{m};
        got += 10;
      } else if (m.try_lock()) {
        ++got;
        m.unlock();
      }
    });
    mc::outcome("%d", got);
  });
  mc::add_test("ok/0/cv", kO, [] {
    mutex m;
    condition_variable cv;
    bool f = false;
    par(2, [&](int i) {
      if (i == 0) {
        unique_lock l{m};
        while (!f) cv.wait(l);
      } else {
        lock_guard l{m};
        f = true;
        cv.notify_one();
      }
    });
  });
  mc::add_test("deadlock/0/lost wakeup", kO, [] {
    mutex m;
    condition_variable cv;
    atomic<bool> f{false};
    par(2, [&](int i) {
      if (i == 0) {
        unique_lock l{m};
        while (!f) cv.wait(l);
      } else {
        f = true;
        cv.notify_one();
      }
    });
  });
  mc::add_test("deadlock/0/notify_one with two waiters", kO, [] {
    mutex m;
    condition_variable cv;
    bool f = false;
    par(3, [&](int i) {
      unique_lock l{m};
      if (i < 2) {
        while (!f) cv.wait(l);
      } else {
        f = true;
        cv.notify_one();
      }
    });
  });
  mc::add_test("ok/0/timed wait", kO, [] {
    mutex m;
    condition_variable cv;
    bool f = false;
    par(2, [&](int i) {
      if (i == 0) {
        auto d = chrono::steady_clock::now() + 5ms;
        unique_lock l{m};
        bool r = cv.wait_until(l, d, [&] {
          return f;
        });
        if (!r) MC_CHECK(chrono::steady_clock::now() >= d);
        mc::outcome("%d", r);
      } else {
        lock_guard l{m};
        f = true;
        cv.notify_all();
      }
    });
  });
  mc::add_test("assert/0/spurious wake", mc::Opts{.mask = mc::kAll, .spurious = 1}, [] {
    mutex m;
    condition_variable cv;
    bool f = false;
    par(2, [&](int i) {
      if (i == 0) {
        unique_lock l{m};
        if (!f) cv.wait(l);
        MC_CHECK(f);
      } else {
        lock_guard l{m};
        f = true;
        cv.notify_all();
      }
    });
  });
  mc::add_test("ok/0/std::thread", kO, [] {
    atomic<int> x{0};
    int y = 0;
    thread a{[&] {
      y = 1;
      x.store(1, rel);
    }};
    thread b{[&] {
      if (x.load(acq)) MC_CHECK(y == 1);
    }};
    a.join();
    b.join();
    MC_CHECK(y == 1);
  });
  mc::add_test("race/0/relaxed publish", kO, [] {
    atomic<int> x{0};
    int y = 0;
    par(2, [&](int i) {
      if (i == 0) {
        y = 1;
        x.store(1, rlx);
      } else if (x.load(acq)) {
        MC_CHECK(y == 1);
      }
    });
  });
  mc::add_test("race/0/relaxed consume", kO, [] {
    atomic<int> x{0};
    int y = 0;
    par(2, [&](int i) {
      if (i == 0) {
        y = 1;
        x.store(1, rel);
      } else if (x.load(rlx)) {
        MC_CHECK(y == 1);
      }
    });
  });
  mc::add_test("ok/0/fences", kO, [] {
    atomic<int> x{0};
    int y = 0;
    par(2, [&](int i) {
      if (i == 0) {
        y = 1;
        atomic_thread_fence(rel);
        x.store(1, rlx);
      } else if (x.load(rlx)) {
        atomic_thread_fence(acq);
        MC_CHECK(y == 1);
      }
    });
  });
  mc::add_test("ok/0/release sequence", kO, [] {
    atomic<int> x{0};
    int y = 0;
    par(3, [&](int i) {
      if (i == 0) {
        y = 1;
        x.store(1, rel);
      } else if (i == 1) {
        int e = 1;
        x.compare_exchange_strong(e, 2, rlx);
      } else if (x.load(acq) == 2) {
        MC_CHECK(y == 1);
      }
    });
  });
  mc::add_test("race/0/broken release sequence", kO, [] {
    atomic<int> x{0};
    int y = 0;
    par(3, [&](int i) {
      if (i == 0) {
        y = 1;
        x.store(1, rel);
      } else if (i == 1) {
        if (x.load(rlx) == 1) x.store(2, rlx);
      } else if (x.load(acq) == 2) {
        MC_CHECK(y == 1);
      }
    });
  });
  mc::add_test("use-after-free/0/refcount without acquire", kO, [] {
    struct S {
      atomic<int> c{2};
      int v = 0;
    };
    auto* s = new S;
    par(2, [&](int i) {
      if (i == 0) s->v = 1;
      if (s->c.fetch_sub(1, rel) == 1) delete s;
    });
  });
  mc::add_test("ok/0/refcount", kO, [] {
    struct S {
      atomic<int> c{2};
      int v = 0;
    };
    auto* s = new S;
    par(2, [&](int i) {
      if (i == 0) s->v = 1;
      if (s->c.fetch_sub(1, rel) == 1) {
        atomic_thread_fence(acq);
        delete s;
      }
    });
  });
  mc::add_test("leak/0/leak", kO, [] {
    atomic<int*> p{nullptr};
    par(2, [&](int i) {
      auto* old = p.exchange(new int(i));
      (void)old;
    });
    delete p.load();
  });
  mc::add_test("use-after-free/0/uaf", kO, [] {
    auto* p = new atomic<int>{0};
    atomic<bool> f{false};
    par(2, [&](int i) {
      if (i == 0) {
        f.store(true);
        p->store(1);
      } else if (f.load()) {
        delete p;
      }
    });
    if (!f.load()) delete p;
  });
  mc::add_test("bad-free/0/double free", kO, [] {
    auto* p = new int{0};
    atomic<int> c{0};
    par(2, [&](int) {
      if (c.load() == 0) {
        c.store(1);
        delete p;
      }
    });
  });
  mc::add_test("use-after-free/0/dead stack frame", kO, [] {
    atomic<atomic<int>*> q{nullptr};
    par(2, [&](int i) {
      if (i == 0) {
        struct N {
          __attribute__((noinline)) static void f(atomic<atomic<int>*>& q) {
            atomic<int> x{0};
            q.store(&x);
            x.load();
          }
        };
        N::f(q);
        q.load();
      } else if (auto* x = q.load()) {
        x->store(1);
      }
    });
  });
  mc::add_test("crash/0/null", kO, [] {
    atomic<int*> p{nullptr};
    int v = 0;
    par(2, [&](int i) {
      if (i == 0) p.store(&v);
      else *p.load() = 1;
    });
  });
  mc::add_test("crash/0/terminate", kO, [] {
    atomic<int> p{0};
    par(2, [&](int i) {
      if (i == 0) p.store(1);
      else [&]() noexcept { if (p.load()) throw 1; }();
    });
  });
  mc::add_test("ok/0/weak cas", kO, [] {
    atomic<int> x{0};
    int n = 0;
    int e = 0;
    while (!x.compare_exchange_weak(e, 1)) ++n;
    mc::outcome("%d", n);
  });
  mc::add_test("ok/0/spin", kO, [] {
    atomic<int> x{0};
    par(2, [&](int i) {
      if (i == 0) while (!x.load()) this_thread::yield();
      else x.store(1);
    });
  });
  mc::add_test("deadlock/0/spin forever", kO, [] {
    atomic<int> x{0};
    par(2, [&](int i) {
      if (i == 0) while (!x.load()) {}
    });
  });
  mc::add_test("ok/0/choice", kO, [] {
    atomic<int> x{0};
    par(2, [&](int i) {
      int c = mc::choose(3);
      if (c == 1) x.fetch_add(i + 1);
      if (c == 2) x.exchange(i + 10);
    });
    mc::outcome("%d", x.load());
  });
  mc::add_test("ok/0/cas stack", kO, [] {
    struct N {
      N* next;
      int v;
    };
    atomic<N*> head{nullptr};
    N n[4];
    par(3, [&](int i) {
      n[i].v = i + 1;
      n[i].next = head.load(rlx);
      while (!head.compare_exchange_weak(n[i].next, &n[i], rel, rlx)) {
      }
      if (i == 0) {
        n[3].v = 4;
        n[3].next = head.load(rlx);
        while (!head.compare_exchange_weak(n[3].next, &n[3], rel, rlx)) {
        }
      }
    });
    for (N* p = head.load(acq); p; p = p->next) mc::outcome("%d", p->v);
  });
  mc::add_test("ok/0/producer consumer queue", kO, [] {
    mutex m;
    condition_variable cv;
    int q = 0;
    bool stop = false;
    int got[2] = {};
    thread w[2];
    for (int i = 0; i < 2; ++i) {
      w[i] = thread([&, i] {
        unique_lock l{m};
        for (;;) {
          while (q == 0 && !stop) cv.wait(l);
          if (q) {
            --q;
            ++got[i];
          } else {
            break;
          }
        }
      });
    }
    for (int i = 0; i < 2; ++i) {
      {
        lock_guard l{m};
        ++q;
      }
      cv.notify_one();
    }
    {
      lock_guard l{m};
      stop = true;
    }
    cv.notify_all();
    for (auto& t : w) t.join();
    MC_CHECK(got[0] + got[1] == 2);
    mc::outcome("%d%d", got[0], got[1]);
  });
};

// Weak-memory mode.  Test name: ok/0/<name>#<number of distinct outcomes>
constexpr mc::Opts kW{.mask = mc::kAll, .stale = 4};
MC_TESTS {
  mc::add_test("ok/0/weak SB rlx#4", kW, [] {
    atomic<int> x[2] = {};
    int r[2];
    par(2, [&](int i) {
      x[i].store(1, rlx);
      r[i] = x[1 - i].load(rlx);
    });
    mc::outcome("%d%d", r[0], r[1]);
  });
  mc::add_test("ok/0/weak SB rel acq#4", kW, [] {
    atomic<int> x[2] = {};
    int r[2];
    par(2, [&](int i) {
      x[i].store(1, rel);
      r[i] = x[1 - i].load(acq);
    });
    mc::outcome("%d%d", r[0], r[1]);
  });
  mc::add_test("ok/0/weak SB sc#3", kW, [] {
    atomic<int> x[2] = {};
    int r[2];
    par(2, [&](int i) {
      x[i].store(1);
      r[i] = x[1 - i].load();
    });
    mc::outcome("%d%d", r[0], r[1]);
  });
  mc::add_test("ok/0/weak SB rmw#3", kW, [] {
    atomic<int> x[2] = {};
    int r[2];
    par(2, [&](int i) {
      x[i].exchange(1, memory_order_acq_rel);
      r[i] = x[1 - i].fetch_add(0, memory_order_acq_rel);
    });
    mc::outcome("%d%d", r[0], r[1]);
  });
  mc::add_test("ok/0/weak MP rlx#4", kW, [] {
    atomic<int> x{0}, y{0};
    int a = 0, b = 0;
    par(2, [&](int i) {
      if (i == 0) {
        x.store(1, rlx);
        y.store(1, rlx);
      } else {
        a = y.load(rlx);
        b = x.load(rlx);
      }
    });
    mc::outcome("%d%d", a, b);
  });
  mc::add_test("ok/0/weak MP rel acq#3", kW, [] {
    atomic<int> x{0}, y{0};
    int a = 0, b = 0;
    par(2, [&](int i) {
      if (i == 0) {
        x.store(1, rlx);
        y.store(1, rel);
      } else {
        a = y.load(acq);
        b = x.load(rlx);
      }
    });
    mc::outcome("%d%d", a, b);
    MC_CHECK(!(a == 1 && b == 0));
  });
  mc::add_test("ok/0/weak MP fences#3", kW, [] {
    atomic<int> x{0}, y{0};
    int a = 0, b = 0;
    par(2, [&](int i) {
      if (i == 0) {
        x.store(1, rlx);
        atomic_thread_fence(rel);
        y.store(1, rlx);
      } else {
        a = y.load(rlx);
        atomic_thread_fence(acq);
        b = x.load(rlx);
      }
    });
    mc::outcome("%d%d", a, b);
    MC_CHECK(!(a == 1 && b == 0));
  });
  mc::add_test("ok/0/weak CoRR#6", kW, [] {   // 00 01 02 11 12 22
    atomic<int> x{0};
    int a = 0, b = 0;
    par(2, [&](int i) {
      if (i == 0) {
        x.store(1, rlx);
        x.store(2, rlx);
      } else {
        a = x.load(rlx);
        b = x.load(rlx);
      }
    });
    mc::outcome("%d%d", a, b);
    MC_CHECK(a <= b);
  });
  mc::add_test("ok/0/weak CoRR through synchronisation#0", kW, [] {
    atomic<int> x{0}, f{0};
    int a = 0, b = -1;
    par(3, [&](int i) {
      if (i == 0) {
        x.store(1, rlx);
      } else if (i == 1) {
        a = x.load(rlx);
        f.store(1, rel);
      } else if (f.load(acq) == 1) {
        b = x.load(rlx);
        MC_CHECK(b >= a);
      }
    });
  });
  mc::add_test("ok/0/weak LB#3", kW, [] {   // 11 needs load buffering, which this model does not produce
    atomic<int> x[2] = {};
    int r[2];
    par(2, [&](int i) {
      r[i] = x[i].load(rlx);
      x[1 - i].store(1, rlx);
    });
    mc::outcome("%d%d", r[0], r[1]);
  });
  mc::add_test("ok/0/weak IRIW acq#16", kW, [] {
    atomic<int> x{0}, y{0};
    int r[4];
    par(4, [&](int i) {
      if (i == 0) x.store(1, rel);
      if (i == 1) y.store(1, rel);
      if (i == 2) {
        r[0] = x.load(acq);
        r[1] = y.load(acq);
      }
      if (i == 3) {
        r[2] = y.load(acq);
        r[3] = x.load(acq);
      }
    });
    mc::outcome("%d%d%d%d", r[0], r[1], r[2], r[3]);
  });
  mc::add_test("ok/0/weak WRC rel acq#0", kW, [] {
    atomic<int> x{0}, y{0};
    par(3, [&](int i) {
      if (i == 0) x.store(1, rlx);
      if (i == 1 && x.load(acq) == 1) y.store(1, rel);
      if (i == 2 && y.load(acq) == 1) MC_CHECK(x.load(rlx) == 1);
    });
  });
  mc::add_test("assert/0/weak Dekker rel acq", kW, [] {
    atomic<int> x[2] = {};
    mc::Ghost<int> in{0};
    par(2, [&](int i) {
      x[i].store(1, rel);
      if (x[1 - i].load(acq) == 0) {
        MC_CHECK(in.add(1) == 1);
      }
    });
  });
  mc::add_test("ok/0/weak new object#1", kW, [] {   // no value of a former object in the same memory
    for (int k = 0; k < 2; ++k) {
      atomic<int> x{k};
      par(2, [&](int i) {
        if (i == 0) x.store(5 + k, rlx);
        else {
          int v = x.load(rlx);
          MC_CHECK(v == k || v == 5 + k);
        }
      });
    }
    mc::outcome("done");
  });
  mc::add_test("race/0/weak stale flag", kW, [] {   // the stale branch alone is unsynchronised
    atomic<int> f{0};
    int d = 0;
    par(2, [&](int i) {
      if (i == 0) {
        f.store(1, rel);
        f.store(0, rel);
        d = 1;
        f.store(2, rel);
      } else if (f.load(acq) == 1) {
        (void)*(volatile int*)&d;
      }
    });
  });
};
}  // namespace
