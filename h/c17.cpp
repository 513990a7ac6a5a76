// C17: FIBER runs are a function of (program, seed, fault configuration), within a process, across processes, and from every
// recorded (random count, injector state) pair. Runs natively: this file is its own runner (same interface as mc/rt.cpp).
#include <yaclib/config.hpp>
#include <yaclib/async/contract.hpp>
#include <yaclib/async/future.hpp>
#include <yaclib/async/run.hpp>
#include <yaclib/async/shared_contract.hpp>
#include <yaclib/async/wait.hpp>
#include <yaclib/async/wait_for.hpp>
#include <yaclib/async/wait_until.hpp>
#include <yaclib/async/when_all.hpp>
#include <yaclib/async/when_any.hpp>
#include <yaclib/algo/one_shot_event.hpp>
#include <yaclib/algo/wait_group.hpp>
#include <yaclib/coro/await.hpp>
#include <yaclib/coro/await_on.hpp>
#include <yaclib/coro/future.hpp>
#include <yaclib/coro/mutex.hpp>
#include <yaclib/coro/on.hpp>
#include <yaclib/coro/shared_mutex.hpp>
#include <yaclib/coro/task.hpp>
#include <yaclib/exe/strand.hpp>
#include <yaclib/exe/submit.hpp>
#include <yaclib/fault/config.hpp>
#include <yaclib/fault/detail/fiber/scheduler.hpp>
#include <yaclib/fault/inject.hpp>
#include <yaclib/lazy/schedule.hpp>
#include <yaclib/runtime/fair_thread_pool.hpp>

#include <fault/util.hpp>
#include <malloc.h>
#include <poll.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <yaclib_std/atomic>
#include <yaclib_std/chrono>
#include <yaclib_std/condition_variable>
#include <yaclib_std/mutex>
#include <yaclib_std/random>
#include <yaclib_std/shared_mutex>
#include <yaclib_std/thread>
#include <yaclib_std/thread_local>

#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <functional>
#include <iostream>
#include <new>
#include <string>
#include <thread>
#include <sys/syscall.h>
#include <time.h>
#include <unordered_set>
#include <vector>

namespace {

using u8 = unsigned char;
using u32 = std::uint32_t;
using u64 = std::uint64_t;
using ns = std::chrono::nanoseconds;

// ---- an environment that differs from run to run: heap layout, heap contents, clocks -------------------
enum Env : int { kMalloc, kDown, kShuffle };
struct Slab {
  Slab* next;
  size_t live, lo, hi;
  u32 n;
  bool closed;
};
constexpr size_t kSlab = 1 << 20, kHdr = 256;
char* slab_base;
char* slab_end;
char* slab_top;
Slab* slab_free;
Slab* slab_cur;
int env_mode = kMalloc;
u8 env_fill = 0xCD;
long long env_clock = 0;

void slab_close() {
  if (!slab_cur) return;
  Slab* s = slab_cur;
  slab_cur = nullptr;
  s->closed = true;
  if (s->live == 0) {
    s->next = slab_free;
    slab_free = s;
  }
}
void* slab_alloc(size_t n, size_t align) {
  if (!slab_base) {
    slab_base = (char*)mmap(nullptr, 8ull << 30, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    slab_base = (char*)(((u64)slab_base + kSlab - 1) & ~(u64)(kSlab - 1));
    slab_end = slab_base + (8ull << 30) - 2 * kSlab;
    slab_top = slab_base;
  }
  if (align < 16) align = 16;
  n = (n + 15) & ~15ull;
  for (;;) {
    if (!slab_cur) {
      if (slab_free) {
        slab_cur = slab_free;
        slab_free = slab_free->next;
      } else {
        if (slab_top == slab_end) abort();
        slab_cur = (Slab*)slab_top;
        slab_top += kSlab;
      }
      *slab_cur = Slab{nullptr, 0, kHdr, kSlab, 0, false};
    }
    Slab& s = *slab_cur;
    if (s.lo + n + 2 * align > s.hi) {
      slab_close();
      continue;
    }
    size_t at;
    ++s.n;
    if (env_mode == kShuffle && s.n * 2654435761u >> 31 == 0) {
      at = (s.lo + align - 1) & ~(align - 1);
      s.lo = at + n;
    } else {
      at = (s.hi - n) & ~(align - 1);
      s.hi = at;
    }
    ++s.live;
    return (char*)&s + at;
  }
}
void* env_new(size_t n, size_t align) {
  if (n < 16) n = 16;
  void* p;
  if (env_mode != kMalloc && n < kSlab / 4) {
    p = slab_alloc(n, align);
  } else {
    p = align > 16 ? aligned_alloc(align, (n + align - 1) / align * align) : malloc(n ? n : 1);
  }
  if (!p) abort();
  memset(p, env_fill, n);
  return p;
}
// While a program of the library runs, nothing that it frees is handed out again: the outcome of a compare-exchange on pointers
// (Strand::Submit, ...) may depend on whether a block comes back at the same address, which is the allocator's choice.
struct Held {
  Held* next;
};
bool env_hold = false;
Held* env_held;
void env_delete(void* p);
void env_release() {
  env_hold = false;
  while (env_held) {
    Held* h = env_held;
    env_held = h->next;
    env_delete(h);
  }
}
void env_delete(void* p) {
  if (!p) return;
  if (env_hold) {
    Held* h = (Held*)p;
    h->next = env_held;
    env_held = h;
    return;
  }
  if (slab_base && (char*)p >= slab_base && (char*)p < slab_end) {
    Slab* s = (Slab*)((u64)p & ~(u64)(kSlab - 1));
    if (--s->live == 0 && s->closed) {
      s->next = slab_free;
      slab_free = s;
    }
    return;
  }
  free(p);
}
// Every run lives in another environment.
void set_env(u32 i) {
  slab_close();
  env_mode = int(i % 3);
  static const u8 fills[] = {0xCD, 0x00, 0xFF, 0x01};
  env_fill = fills[i / 3 % 4];
  env_clock = (long long)(i * 7919ull % 10007) * 1'000'003;
}

}  // namespace

void* operator new(size_t n) { return env_new(n, 16); }
void* operator new[](size_t n) { return env_new(n, 16); }
void* operator new(size_t n, std::align_val_t a) { return env_new(n, (size_t)a); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return env_new(n, 16); }
void operator delete(void* p) noexcept { env_delete(p); }
void operator delete[](void* p) noexcept { env_delete(p); }
void operator delete(void* p, size_t) noexcept { env_delete(p); }
void operator delete[](void* p, size_t) noexcept { env_delete(p); }
void operator delete(void* p, std::align_val_t) noexcept { env_delete(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { env_delete(p); }

extern "C" int clock_gettime(clockid_t id, timespec* ts) {
  long r = syscall(SYS_clock_gettime, id, ts);
  long long t = ts->tv_sec * 1'000'000'000ll + ts->tv_nsec + env_clock;
  ts->tv_sec = t / 1'000'000'000;
  ts->tv_nsec = t % 1'000'000'000;
  return (int)r;
}
extern "C" time_t time(time_t* out) {
  timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (out) *out = ts.tv_sec;
  return ts.tv_sec;
}
extern "C" int gettimeofday(timeval* tv, void*) {
  timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec;
  tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}

namespace {

// ---- traces ------------------------------------------------------------------------------------------------
struct Ev {
  u8 kind;       // 'r' resumed fiber, 'e' client event, 'p' phase
  u32 who;       // fiber, numbered in order of first appearance in the phase
  long long val;
  u64 rnd;       // random numbers drawn so far
  u64 inj;       // yields injected in this phase
  u32 state;     // injector counter
  long long at;  // virtual time since the start of the phase
  bool operator==(const Ev&) const = default;
};
struct Trace {
  Ev* e = nullptr;
  int n = 0;
  int phase[8] = {};   // index of the first event of every phase
  int phases = 0;
};
constexpr int kMaxEv = 60000;
Trace make_trace() {
  Trace t;
  t.e = (Ev*)mmap(nullptr, kMaxEv * sizeof(Ev), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  return t;
}
u64 mix(u64 h, u64 v) {
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 12) + (h >> 4);
  return h * 0xff51afd7ed558ccdull;
}
u64 hash_ev(u64 h, const Ev& e) {
  h = mix(h, e.kind * 1000003ull + e.who);
  h = mix(h, (u64)e.val);
  h = mix(h, e.rnd);
  h = mix(h, e.inj * 1000003ull + e.state);
  return mix(h, (u64)e.at);
}
u64 hash(const Trace& t, int from = 0) {
  u64 h = 1;
  for (int i = from; i != t.n; ++i) h = hash_ev(h, t.e[i]);
  return h;
}

struct Cfg {
  u32 seed = 1, freq = 16, atomic = 13, pick = 10, tick = 10, sleep = 1;
};
std::string str(const Cfg& c) {
  char b[160];
  snprintf(b, sizeof b, "seed %u frequency %u atomic %u pick %u tick %u sleep %u", c.seed, c.freq, c.atomic, c.pick, c.tick, c.sleep);
  return b;
}
void apply(const Cfg& c) {
  yaclib::SetFaultFrequency(c.freq);
  yaclib::SetAtomicFailFrequency(c.atomic);
  yaclib::SetFaultSleepTime(c.sleep);
  yaclib::fiber::SetFaultRandomListPick(c.pick);
  yaclib::fiber::SetFaultTickLength(c.tick);
}

struct RunState {
  Trace* t = nullptr;
  u32 base_id = 0;
  u64 ids[64] = {};
  int nids = 0;
  u64 inj0 = 0;
  long long at0 = 0;
  bool overflow = false;
  u64 seed = 0;
  int restore_at = -1;      // restore the position recorded at this event of `from` when reaching it
  const Trace* from = nullptr;
} run;

long long vnow() {
  return yaclib_std::chrono::steady_clock::now().time_since_epoch().count();
}
u32 who(u64 id) {
  for (int i = 0; i != run.nids; ++i) {
    if (run.ids[i] == id) return (u32)i;
  }
  if (run.nids == 64) {
    run.overflow = true;
    return 63;
  }
  run.ids[run.nids] = id;
  return (u32)run.nids++;
}
void record(u8 kind, u64 id, long long val) {
  if (!run.t) return;
  if (run.t->n == kMaxEv) {
    run.overflow = true;
    return;
  }
  run.t->e[run.t->n++] = Ev{kind, who(id), val, yaclib::fiber::GetFaultRandomCount(), yaclib::GetInjectedCount() - run.inj0,
                             yaclib::fiber::GetInjectorState(), vnow() - run.at0};
}
void restore(u64 seed, u64 rnd, u32 state) {
  yaclib::SetSeed((u32)seed);
  yaclib::fiber::ForwardToFaultRandomCount(rnd);
  yaclib::fiber::SetInjectorState(state);
}
void maybe_restore() {
  if (run.restore_at < 0 || run.t->n != run.restore_at + 1) return;
  const Ev& r = run.from->e[run.restore_at];
  // what is there is forgotten first
  yaclib::SetSeed((u32)run.seed + 77);
  yaclib::fiber::ForwardToFaultRandomCount(3 + r.rnd % 5);
  yaclib::fiber::SetInjectorState(r.state ^ 1);
  restore(run.seed, r.rnd, r.state);
}
void on_resume(u64 id) {
  record('r', id, 0);
}
// A client-visible event.
void ev(long long val) {
  record('e', yaclib::fault::Scheduler::GetId(), val);
  maybe_restore();
}

using Phase = std::function<void()>;
struct Prog : std::vector<Phase> {
  using std::vector<Phase>::vector;
  bool hold = false;   // see env_hold
};

// Runs phases [from..) of the program; from > 0: after restoring the pair (rnd, state).
void execute(const Prog& p, const Cfg& c, Trace& t, int from = 0, u64 rnd = 0, u32 state = 0, int restore_at = -1,
             const Trace* ref = nullptr, yaclib::fault::Scheduler* kept = nullptr) {
  const itimerval limit{{0, 0}, {10, 0}};   // an execution that does not end is a crash
  setitimer(ITIMER_VIRTUAL, &limit, nullptr);
  apply(c);
  t.n = 0;
  t.phases = 0;
  run = RunState{};
  run.seed = c.seed;
  run.restore_at = restore_at;
  run.from = ref;
  yaclib::SetSeed(c.seed);
  yaclib::fiber::SetInjectorState(0);
  yaclib::fault::Scheduler own;
  yaclib::fault::Scheduler::Set(kept ? kept : &own);
  env_hold = p.hold;
  yaclib_std::thread root{[&] {
    for (int i = from; i != (int)p.size(); ++i) {
      if (i == from && from > 0) {
        if (from % 2 == 1) {
          restore(c.seed, rnd, state);
        } else {   // the seed has been set before the fiber was started
          yaclib::fiber::ForwardToFaultRandomCount(rnd);
          yaclib::fiber::SetInjectorState(state);
        }
      }
      run.t = &t;
      run.nids = 0;
      run.inj0 = yaclib::GetInjectedCount();
      run.at0 = i == 0 && !kept ? 0 : vnow();
      t.phase[t.phases++] = t.n;
      record('p', yaclib::fault::Scheduler::GetId(), i);
      maybe_restore();
      p[i]();
    }
  }};
  root.join();
  env_release();
  yaclib::fault::Scheduler::Set(nullptr);
  const itimerval off{};
  setitimer(ITIMER_VIRTUAL, &off, nullptr);
  run.t = nullptr;
}

// ---- client programs -----------------------------------------------------------------------------------------
// Small programs: fibers that execute a list of operations.
constexpr int kOps = 15;
struct Shared {
  yaclib_std::atomic<int> a{0};
  yaclib_std::mutex m;
  yaclib_std::timed_mutex tm;
  yaclib_std::shared_mutex sm;
  yaclib_std::shared_timed_mutex st;
  yaclib_std::recursive_timed_mutex rm;
  yaclib_std::condition_variable cv;
  int n = 0;
};
void op(Shared& s, int who, int o) {
  const int k = who * 100 + o;
  switch (o) {
    case 0: ev(k + 1000 * s.a.fetch_add(1)); break;
    case 1: {
      int e = s.a.load(), tries = 0;
      while (!s.a.compare_exchange_weak(e, e + 10)) ++tries;
      ev(k + 1000 * tries);
      break;
    }
    case 2: {
      std::lock_guard l{s.m};
      const int v = ++s.n;
      yaclib_std::this_thread::yield();
      ev(k + 1000 * v + (s.n == v ? 0 : 500));
      break;
    }
    case 3: yaclib_std::this_thread::yield(); break;
    case 4:
      yaclib_std::this_thread::sleep_for(ns{15});
      ev(k);
      break;
    case 5: {
      const bool ok = s.tm.try_lock_for(ns{20});
      ev(k + 1000 * ok);
      if (ok) {
        yaclib_std::this_thread::sleep_for(ns{25});
        s.tm.unlock();
      }
      break;
    }
    case 6: {
      std::unique_lock l{s.m};
      ev(k + 1000 * (s.cv.wait_for(l, ns{30}) == std::cv_status::timeout));
      break;
    }
    case 7:
      s.cv.notify_all();
      ev(k);
      break;
    case 8:
      s.cv.notify_one();
      ev(k);
      break;
    case 9: {
      std::shared_lock l{s.sm};
      ev(k);
      yaclib_std::this_thread::yield();
      break;
    }
    case 10: {
      std::lock_guard l{s.sm};
      yaclib_std::this_thread::yield();
      ev(k);
      break;
    }
    case 11: {
      yaclib_std::thread t{[&] { ev(k + 1000 * s.a.fetch_add(3)); }};
      yaclib_std::thread u{[&] {
        yaclib_std::random::random_device rd;
        rd.reset();
        ev(k + 2000 * (1 + (long long)(rd() % 1000)));
      }};
      t.join();
      u.join();
      break;
    }
    case 12: {
      const bool ok = s.st.try_lock_shared_for(ns{10});
      if (ok) {
        yaclib_std::this_thread::yield();
        s.st.unlock_shared();
      }
      const bool ex = s.st.try_lock_until(yaclib_std::chrono::steady_clock::now() + ns{20});
      ev(k + 1000 * ok + 2000 * ex);
      if (ex) {
        yaclib_std::this_thread::sleep_for(ns{12});
        s.st.unlock();
      }
      break;
    }
    case 13: {
      const bool ok = s.rm.try_lock_for(ns{40});
      int v = s.a.exchange(who);
      if (ok) {
        s.rm.lock();
        s.rm.unlock();
        s.rm.unlock();
      }
      ev(k + 1000 * ok + 2000 * v);
      break;
    }
    case 14: {
      using sys = yaclib_std::chrono::system_clock;
      const auto t = sys::now();
      yaclib_std::this_thread::sleep_until(t + ns{18});
      int e = 0;
      const bool ok = s.a.compare_exchange_strong(e, 5);
      ev(k + 1000 * (sys::now() - t).count() + 500 * ok);
      break;
    }
  }
}
Prog small(std::vector<std::vector<int>> fibers) {
  Phase ph = [fibers] {
    Shared s;
    std::vector<yaclib_std::thread> ts;
    for (int i = 0; i != (int)fibers.size(); ++i) {
      ts.emplace_back([&s, i, &ops = fibers[i]] {
        for (int o : ops) op(s, i, o);
      });
    }
    for (auto& t : ts) t.join();
    ev(s.a.load());
  };
  return {ph, ph};
}

struct MyErr {};
// Programs using the library.
std::vector<Phase> lib_phases(int which) {
  using namespace yaclib;
  switch (which) {
    case 0: {   // a pool: jobs with continuations, waited for
      Phase ph = [] {
        auto tp = MakeFairThreadPool(2);
        std::vector<FutureOn<int>> fs;
        for (int i = 0; i != 4; ++i) {
          fs.push_back(Run(*tp, [i] { ev(i); return i; }).Then([](int x) { ev(100 + x); return x + 1; }));
        }
        Wait(fs.begin(), fs.end());
        long long sum = 0;
        for (auto& f : fs) sum += std::move(f).Get().Ok();
        ev(sum);
        tp->Stop();
        tp->Wait();
      };
      return {ph, ph, ph};
    }
    case 1: {   // strands on a pool
      Phase ph = [] {
        auto tp = MakeFairThreadPool(3);
        auto s1 = MakeStrand(tp), s2 = MakeStrand(tp);
        int c1 = 0, c2 = 0;
        std::vector<yaclib_std::thread> ts;
        for (int k = 0; k != 2; ++k) {
          ts.emplace_back([&, k] {
            for (int i = 0; i != 3; ++i) {
              Submit(*s1, [&, k] { ev(10 * k + 100 * ++c1); });
              Submit(*s2, [&, k] { ev(10 * k + 1 + 100 * ++c2); });
            }
          });
        }
        for (auto& t : ts) t.join();
        tp->SoftStop();
        tp->Wait();
        ev(c1 * 100 + c2);
      };
      return {ph, ph};
    }
    case 2: {   // timed waits
      Phase ph = [] {
        auto tp = MakeFairThreadPool(2);
        auto slow = Run(*tp, [] { yaclib_std::this_thread::sleep_for(ns{300}); ev(1); return 1; });
        auto fast = Run(*tp, [] { ev(2); return 2; });
        ev(10 + WaitFor(ns{50}, slow, fast));
        ev(20 + WaitFor(ns{150}, slow));
        ev(30 + WaitUntil(yaclib_std::chrono::steady_clock::now() + ns{400}, slow));
        Wait(slow, fast);
        ev(std::move(slow).Get().Ok() + std::move(fast).Get().Ok());
        tp->Stop();
        tp->Wait();
      };
      return {ph, ph};
    }
    case 3: {   // combinators
      Phase ph = [] {
        auto tp = MakeFairThreadPool(2);
        std::vector<Future<int>> fs, gs;
        for (int i = 0; i != 3; ++i) fs.push_back(Run(*tp, [i] { ev(i); return i; }).On(nullptr));
        for (int i = 0; i != 3; ++i) gs.push_back(Run(*tp, [i] { ev(50 + i); return i; }).On(nullptr));
        auto all = WhenAll(fs.begin(), fs.end());
        auto any = WhenAny(gs.begin(), gs.end());
        auto v = std::move(all).Get().Ok();
        ev((long long)v.size());
        ev(100 + std::move(any).Get().Ok());
        tp->SoftStop();
        tp->Wait();
      };
      return {ph, ph};
    }
    case 4: {   // coroutines: mutex and pool
      Phase ph = [] {
        auto tp = MakeFairThreadPool(2);
        yaclib::Mutex<> m;
        int n = 0;
        auto co = [&](int i) -> Future<int> {
          co_await On(*tp);
          for (int k = 0; k != 2; ++k) {
            auto g = co_await m.Guard();
            const int v = ++n;
            yaclib_std::this_thread::yield();
            ev(i * 100 + v + (v == n ? 0 : 1000));
            n = v;
          }
          co_return i;
        };
        auto a = co(1), b = co(2), c = co(3);
        Wait(a, b, c);
        ev(n);
        tp->SoftStop();
        tp->Wait();
      };
      return {ph, ph};
    }
    case 5: {   // coroutines: Await, shared mutex, tasks
      Phase ph = [] {
        auto tp = MakeFairThreadPool(2);
        yaclib::SharedMutex<> m;
        int n = 0;
        auto reader = [&](int i) -> Future<int> {
          co_await On(*tp);
          auto g = co_await m.GuardShared();
          ev(i * 100 + n);
          yaclib_std::this_thread::yield();
          co_return n;
        };
        auto writer = [&](int i) -> Future<int> {
          co_await On(*tp);
          auto g = co_await m.Guard();
          ev(i * 100 + ++n);
          yaclib_std::this_thread::yield();
          co_return n;
        };
        auto task = [&]() -> Task<int> {
          co_await On(*tp);
          ev(77);
          co_return 5;
        };
        auto top = [&]() -> Future<int> {
          auto a = reader(1), b = writer(2), c = reader(3), d = writer(4);
          co_await Await(a, b, c, d);
          auto t = co_await task();
          co_return t + std::move(a).Touch().Ok();
        };
        auto f = top();
        Wait(f);
        ev(std::move(f).Touch().Ok());
        tp->SoftStop();
        tp->Wait();
      };
      return {ph, ph};
    }
    case 6: {   // contracts, shared futures, errors
      Phase ph = [] {
        auto tp = MakeFairThreadPool(2);
        auto [f, p] = MakeContract<int>();
        auto [sf, sp] = MakeSharedContract<int>();
        auto a = std::move(f).Then(*tp, [](int x) { ev(x); return x * 2; });
        auto b = sf.Then(*tp, [](int x) { ev(10 + x); });
        auto c = sf.Then(*tp, [](int x) { ev(20 + x); if (x == 3) throw 1; return x; });
        yaclib_std::thread t1{[p = std::move(p)]() mutable { yaclib_std::this_thread::yield(); std::move(p).Set(1); }};
        yaclib_std::thread t2{[sp = std::move(sp)]() mutable { std::move(sp).Set(3); }};
        Wait(a, b, c);
        ev(std::move(a).Get().Ok());
        ev((int)std::move(c).Get().State());
        t1.join();
        t2.join();
        tp->SoftStop();
        tp->Wait();
      };
      return {ph, ph};
    }
    case 7: {   // lazy pipelines, OneShotEvent, WaitGroup
      Phase ph = [] {
        auto tp = MakeFairThreadPool(3);
        OneShotEvent e;
        WaitGroup<> wg{3};
        for (int i = 0; i != 3; ++i) {
          Submit(*tp, [&, i] {
            if (i == 2) e.Set();
            else e.Wait();
            ev(i);
            wg.Done();
          });
        }
        auto t = Schedule(*tp, [] { ev(50); return 1; }).Then([](int x) { ev(51 + x); return x; }).ToFuture();
        wg.Wait();
        ev(std::move(t).Get().Ok());
        tp->SoftStop();
        tp->Wait();
      };
      return {ph, ph};
    }
    case 8: {   // stopping a pool under load
      Phase ph = [] {
        auto tp = MakeFairThreadPool(2);
        int done = 0;
        yaclib_std::thread t{[&] {
          for (int i = 0; i != 6; ++i) {
            Run(*tp, [i] { ev(i); return i; }).Detach([&](yaclib::Result<int>&& r) { ev(100 + (int)r.State()); ++done; });
          }
        }};
        yaclib_std::this_thread::sleep_for(ns{40});
        tp->HardStop();
        t.join();
        tp->Wait();
        ev(done);
      };
      return {ph, ph};
    }
    case 9: {   // producer / consumer with condition variables and sleeps, thread-locals
      static YACLIB_THREAD_LOCAL_PTR(int) tls;
      Phase ph = [] {
        yaclib_std::mutex m;
        yaclib_std::condition_variable cv;
        std::vector<int> q;
        bool stop = false;
        int vals[4] = {};
        std::vector<yaclib_std::thread> ts;
        for (int i = 0; i != 2; ++i) {
          ts.emplace_back([&, i] {
            tls = &vals[i];
            for (;;) {
              std::unique_lock l{m};
              if (!cv.wait_for(l, ns{35}, [&] { return !q.empty() || stop; })) {
                ev(500 + i);
                continue;
              }
              if (q.empty()) return;
              ev(i * 100 + q.back());
              q.pop_back();
              ++*tls;
            }
          });
        }
        for (int k = 0; k != 4; ++k) {
          yaclib_std::this_thread::sleep_for(ns{10 + 13 * k});
          {
            std::lock_guard l{m};
            q.push_back(k);
          }
          cv.notify_one();
        }
        {
          std::lock_guard l{m};
          stop = true;
        }
        cv.notify_all();
        for (auto& t : ts) t.join();
        ev(vals[0] * 10 + vals[1]);
      };
      return {ph, ph, ph};
    }
  }
  abort();
}
Prog lib(int which, bool hold = true) {
  Prog p;
  for (auto& ph : lib_phases(which)) p.push_back(ph);
  p.hold = hold;
  return p;
}
constexpr int kLibs = 10;

// ---- tests --------------------------------------------------------------------------------------------------------
struct Case {
  Prog p;
  Cfg c;
  std::string name;
};
struct Test {
  std::string name;
  std::function<void(const std::function<void(int, std::function<Case()>)>&)> cases;   // calls f(index, make)
  bool thorough;
  bool every_event;   // restore at every event (else at every k-th)
};
std::vector<Test>& tests() {
  static std::vector<Test> t;
  return t;
}

std::vector<Cfg> configs(int seeds, bool wide) {
  std::vector<Cfg> r;
  for (u32 s = 1; s <= (u32)seeds; ++s) {
    for (u32 freq : {1u, 2u, 5u, 16u}) {
      for (u32 pick : {1u, 2u, 10u}) {
        if (wide) {
          for (u32 atomic : {0u, 2u, 13u}) {
            for (u32 tick : {1u, 10u}) {
              for (u32 sl : {1u, 7u}) r.push_back(Cfg{s, freq, atomic, pick, tick, sl});
            }
          }
        } else {
          r.push_back(Cfg{s, freq, (s + pick) % 3 == 0 ? 0u : 2 + s % 4, pick, 1 + 9 * (s % 2), 1 + 6 * (s / 2 % 2)});
        }
      }
    }
  }
  return r;
}

void add_tests() {
  for (int th = 0; th != 2; ++th) {
    for (int w = 0; w != kLibs; ++w) {
      for (int part = 0; part != 4; ++part) {
        tests().push_back({"lib" + std::to_string(w) + (th ? "/deep/" : "/") + std::to_string(part), [=](auto& f) {
          auto cs = configs(th ? 40 : 40, th);
          for (int i = part; i < (int)cs.size(); i += 4) {
            f(i, [=] { return Case{lib(w), cs[i], "library program " + std::to_string(w)}; });
          }
        }, th == 1, false});
      }
    }
    // every program of 2 fibers x 2 operations, and of 3 fibers x 1 operation
    for (int first = 0; first != kOps; ++first) {
      tests().push_back({"ops2x2/" + std::string(th ? "deep/" : "") + std::to_string(first), [=](auto& f) {
        auto cs = configs(th ? 3 : 1, false);
        int i = 0;
        for (int b = 0; b != kOps; ++b) {
          for (int c = 0; c != kOps; ++c) {
            for (int d = 0; d != kOps; ++d) {
              for (int k = 0; k != (int)cs.size(); ++k) {
                const int n = i++;
                if (!th && (b + c + d + k) % 6 != 0) continue;   // each program with a sixth of the configurations
                f(n, [=] {
                  return Case{small({{first, b}, {c, d}}), cs[k],
                              "operations " + std::to_string(first) + "," + std::to_string(b) + " | " + std::to_string(c) + "," + std::to_string(d)};
                });
              }
            }
          }
        }
      }, th == 1, true});
      tests().push_back({"ops3x1/" + std::string(th ? "deep/" : "") + std::to_string(first), [=](auto& f) {
        auto cs = configs(th ? 12 : 2, false);
        int i = 0;
        for (int b = 0; b != kOps; ++b) {
          for (int c = 0; c != kOps; ++c) {
            for (int k = 0; k != (int)cs.size(); ++k) {
              f(i++, [=] {
                return Case{small({{first}, {b}, {c}}), cs[k],
                            "operations " + std::to_string(first) + " | " + std::to_string(b) + " | " + std::to_string(c)};
              });
            }
          }
        }
      }, th == 1, true});
    }
  }
}

struct Stats {
  u64 runs = 0, events = 0, restores = 0, phases = 0, fresh = 0;
  std::unordered_set<u64> distinct;
  int depth = 0;
  u32 threads = 0;
} st;
std::string failure, sample;
int failed_case = -1;

double wall() {
  timespec ts;
  syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}
std::string show(const Ev& e) {
  char b[200];
  snprintf(b, sizeof b, "%s fiber %u value %lld random-count %llu injected %llu injector-state %u time %lld",
           e.kind == 'r' ? "resume" : e.kind == 'e' ? "event" : "phase", e.who, e.val, (unsigned long long)e.rnd, (unsigned long long)e.inj,
           e.state, e.at);
  return b;
}
bool differ(const Trace& a, int fa, const Trace& b, int fb, std::string& why) {
  int n = std::min(a.n - fa, b.n - fb);
  for (int i = 0; i != n; ++i) {
    if (!(a.e[fa + i] == b.e[fb + i])) {
      why = "event " + std::to_string(i) + ": {" + show(a.e[fa + i]) + "} became {" + show(b.e[fb + i]) + "}";
      return true;
    }
  }
  if (a.n - fa != b.n - fb) {
    why = "the trace has " + std::to_string(b.n - fb) + " events instead of " + std::to_string(a.n - fa);
    return true;
  }
  return false;
}
bool fail(const Case& c, int idx, const std::string& what) {
  if (failure.empty()) {
    failure = c.name + " [" + str(c.c) + "]: " + what;
    failed_case = idx;
  }
  return false;
}
void done(const Trace& t) {
  ++st.runs;
  st.events += t.n;
  st.depth = std::max(st.depth, t.n);
}

// What a fresh process reports for one case: the hash of the trace; with phase > 0 of the part from that phase on.
struct Req {
  int idx;
  int phase;
  u64 rnd;
  u32 state;
  u64 want;
};

bool check_case(const Test& t, const Case& c, int idx, Trace& a, Trace& b, std::vector<Req>& later, bool thorough) {
  static u32 env = 0;
  set_env(++env);
  execute(c.p, c.c, a);
  done(a);
  if (run.overflow) return true;   // too long to record
  st.distinct.insert(hash(a));
  for (int i = 0; i != a.n; ++i) st.threads = std::max(st.threads, a.e[i].who + 1);
  std::string why;
  // again, after something else ran
  for (int k = 0; k != 2; ++k) {
    set_env(++env);
    yaclib::fault::Scheduler kept;   // the second time the scheduler has been used before, and this is another OS thread
    auto* sched = k == 1 ? &kept : nullptr;
    auto go = [&](const Prog& p, const Cfg& cfg) {
      if (k == 1 && idx % 8 == 0) {
        std::thread{[&] { execute(p, cfg, b, 0, 0, 0, -1, nullptr, sched); }}.join();
      } else {
        execute(p, cfg, b, 0, 0, 0, -1, nullptr, sched);
      }
    };
    {
      static const Prog other = small({{2, 11}, {1, 4}});
      Cfg oc = c.c;
      oc.seed += 1000 + k;
      oc.freq = 3;
      go(other, oc);
      done(b);
    }
    set_env(++env);
    go(c.p, c.c);
    done(b);
    if (k == 1) {
      const int end = a.phases > 1 ? a.phase[1] : a.n;   // time did not start at 0 in the first phase
      const long long off = a.e[0].at - b.e[0].at;
      for (int i = 0; i < end && i < b.n; ++i) b.e[i].at += off;
    }
    if (differ(a, 0, b, 0, why)) return fail(c, idx, "a second run in the same process: " + why);
  }
  // restored at every recorded position: client events and phase starts
  const int step = t.every_event || thorough ? 1 : 1 + a.n / 60;
  int k = 0;
  for (int i = 0; i != a.n; ++i) {
    if (a.e[i].kind == 'r' || k++ % step != 0) continue;
    set_env(++env);
    execute(c.p, c.c, b, 0, 0, 0, i, &a);
    done(b);
    ++st.restores;
    if (differ(a, 0, b, 0, why)) {
      return fail(c, idx, "restored with the pair recorded at event " + std::to_string(i) + " {" + show(a.e[i]) + "}: " + why);
    }
  }
  // a run of the later phases only
  for (int ph = 1; ph < a.phases; ++ph) {
    const Ev& e = a.e[a.phase[ph]];
    set_env(++env);
    execute(c.p, c.c, b, ph, e.rnd, e.state);
    done(b);
    ++st.phases;
    if (differ(a, a.phase[ph], b, 0, why)) {
      return fail(c, idx, "phase " + std::to_string(ph) + " run alone from its recorded pair: " + why);
    }
    later.push_back({idx, ph, e.rnd, e.state, hash(a, a.phase[ph])});
  }
  later.push_back({idx, 0, 0, 0, hash(a)});
  if (sample.empty() && a.n > 20) {
    sample = c.name + " [" + str(c.c) + "] ";
    for (int i = 0; i != 14; ++i) sample += "; " + show(a.e[i]);
  }
  return true;
}

std::string self;
// Runs the requests (in reverse order) in a new process and compares.
bool fresh_process(const Test& t, std::vector<Req>& reqs, bool alone) {
  if (reqs.empty()) return true;
  int in[2], out[2];
  if (pipe(in) || pipe(out)) abort();
  pid_t pid = fork();
  if (pid == 0) {
    dup2(in[0], 0);
    dup2(out[1], 1);
    for (int fd : {in[0], in[1], out[0], out[1]}) close(fd);
    std::string pad(1 + (reqs.size() * 37 + (alone ? 11 : 0)) % 4000, 'x');
    setenv("C17_PAD", pad.c_str(), 1);   // moves the stack
    execl(self.c_str(), self.c_str(), "--child", t.name.c_str(), pad.c_str(), nullptr);
    _exit(9);
  }
  close(in[0]);
  close(out[1]);
  std::string data;
  for (auto it = reqs.rbegin(); it != reqs.rend(); ++it) {
    char b[120];
    snprintf(b, sizeof b, "%d %d %llu %u\n", it->idx, it->phase, (unsigned long long)it->rnd, it->state);
    data += b;
  }
  size_t off = 0;
  std::string got;
  pollfd fds[2] = {{in[1], POLLOUT, 0}, {out[0], POLLIN, 0}};
  while (fds[1].fd >= 0) {
    if (poll(fds, 2, -1) < 0 && errno != EINTR) abort();
    if (fds[0].fd >= 0 && fds[0].revents) {
      ssize_t w = write(in[1], data.data() + off, std::min<size_t>(data.size() - off, 4096));
      if (w > 0) off += (size_t)w;
      if (w < 0 || off == data.size()) {
        close(in[1]);
        fds[0].fd = -1;
      }
    }
    if (fds[1].revents) {
      char b[4096];
      ssize_t r = read(out[0], b, sizeof b);
      if (r > 0) {
        got.append(b, (size_t)r);
      } else {
        fds[1].fd = -1;
      }
    }
  }
  if (fds[0].fd >= 0) close(in[1]);
  close(out[0]);
  int rc = 0;
  waitpid(pid, &rc, 0);
  size_t pos = 0;
  for (auto it = reqs.rbegin(); it != reqs.rend(); ++it) {
    size_t nl = got.find('\n', pos);
    if (nl == std::string::npos) {
      failure = "a new process running the same programs crashed (status " + std::to_string(rc) + ")";
      return false;
    }
    u64 h = strtoull(got.c_str() + pos, nullptr, 16);
    pos = nl + 1;
    ++st.fresh;
    if (h != it->want) {
      failed_case = it->idx;
      t.cases([&](int i, std::function<Case()> make) {
        if (i != it->idx || !failure.empty()) return;
        Case c = make();
        failure = c.name + " [" + str(c.c) + "]: " +
                  (it->phase ? "phase " + std::to_string(it->phase) + " run alone from its recorded pair in a new process" : "run in a new process") +
                  (alone ? " (as its first run)" : "") + " gives another trace";
      });
      return false;
    }
  }
  return true;
}

int child(const std::string& name) {
  const Test* t = nullptr;
  for (auto& x : tests()) {
    if (x.name == name) t = &x;
  }
  if (!t) return 5;
  std::vector<Req> reqs;
  int idx, ph;
  unsigned long long rnd;
  unsigned state;
  while (scanf("%d %d %llu %u", &idx, &ph, &rnd, &state) == 4) reqs.push_back({idx, ph, rnd, state, 0});
  std::vector<std::function<Case()>> makes;
  t->cases([&](int i, std::function<Case()> make) {
    if ((int)makes.size() <= i) makes.resize(i + 1);
    makes[i] = std::move(make);
  });
  Trace a = make_trace();
  u32 env = (u32)getpid() * 5 + 2;
  for (auto& r : reqs) {
    set_env(++env);
    Case c = makes[r.idx]();
    execute(c.p, c.c, a, r.phase, r.rnd, r.state);
    printf("%016llx\n", (unsigned long long)hash(a));
  }
  fflush(stdout);
  return 0;
}

std::string jesc(const std::string& s) {
  std::string r;
  for (char c : s) {
    if (c == '"' || c == '\\') r += '\\';
    if ((u8)c >= 32) r += c;
  }
  return r;
}
struct Args {
  bool list = false, server = false, thorough = false;
  std::string test, out, replay;
  double time = 60;
};
Args parse(const std::vector<std::string>& v) {
  Args a;
  for (size_t i = 0; i < v.size(); ++i) {
    auto next = [&] { return i + 1 < v.size() ? v[++i] : std::string(); };
    if (v[i] == "--list") a.list = true;
    else if (v[i] == "--server") a.server = true;
    else if (v[i] == "--thorough") a.thorough = true;
    else if (v[i] == "--test") a.test = next();
    else if (v[i] == "--time") a.time = atof(next().c_str());
    else if (v[i] == "--out") a.out = next();
    else if (v[i] == "--replay") a.replay = next();
  }
  return a;
}

int run_one(const Args& a) {
  const Test* t = nullptr;
  for (auto& x : tests()) {
    if (x.name == a.test) t = &x;
  }
  if (!t) return 5;
  const double t0 = wall();
  int only = -1;
  if (!a.replay.empty()) {
    FILE* f = fopen(a.replay.c_str(), "r");
    if (f) {
      if (fscanf(f, "%d", &only) != 1) only = -1;
      fclose(f);
    }
  }
  Trace x = make_trace(), y = make_trace();
  std::vector<Req> later;
  bool capped = false;
  int n = 0;
  t->cases([&](int i, std::function<Case()> make) {
    if (!failure.empty() || capped || (only >= 0 && i != only)) return;
    if (wall() - t0 > a.time) {
      capped = true;
      return;
    }
    Case c = make();
    std::vector<Req> mine;
    if (!check_case(*t, c, i, x, y, mine, a.thorough)) return;
    // a new process that does nothing else, for some of them
    if (n++ % 16 == 0 || only >= 0) {
      for (auto& r : mine) {
        std::vector<Req> one{r};
        if (!fresh_process(*t, one, true)) return;
      }
    }
    later.insert(later.end(), mine.begin(), mine.end());
  });
  if (failure.empty()) fresh_process(*t, later, false);
  FILE* o = fopen(a.out.c_str(), "w");
  if (!o) return 5;
  fprintf(o, "{\"test\":\"%s\",\"verdict\":\"%s\",\"category\":\"%s\",\"message\":\"%s\",\"execs\":%llu,\"complete\":%llu,\"blocked\":0,"
             "\"transitions\":%llu,\"states\":%llu,\"choice_nodes\":0,\"validated\":%llu,\"outcomes\":%zu,\"maxdepth\":%d,\"threads\":%u,"
             "\"capped\":%s,\"wall\":%.2f,\"schedule\":[%d],\"sample\":\"%s\"}\n",
          t->name.c_str(), failure.empty() ? "ok" : "violation", failure.empty() ? "" : "not reproducible", jesc(failure).c_str(),
          (unsigned long long)st.runs, (unsigned long long)st.runs, (unsigned long long)st.events, (unsigned long long)st.events,
          (unsigned long long)(st.restores + st.phases + st.fresh), st.distinct.size(), st.depth, 1u, capped ? "true" : "false",
          wall() - t0, failed_case, jesc(sample).c_str());
  fclose(o);
  return failure.empty() ? 0 : 10;
}

int serve() {
  std::string line;
  char buf[8192];
  while (fgets(buf, sizeof buf, stdin)) {
    line = buf;
    if (!line.empty() && line.back() == '\n') line.pop_back();
    std::vector<std::string> v(1);
    for (char c : line) {
      if (c == '\t') v.emplace_back();
      else v.back() += c;
    }
    Args a = parse(v);
    pid_t pid = fork();
    if (pid == 0) {
      std::string log = a.out + ".log";
      if (!freopen(log.c_str(), "w", stderr)) _exit(6);
      alarm((unsigned)(a.time * 2 + 100));
      _exit(run_one(a));
    }
    int s = 0;
    waitpid(pid, &s, 0);
    printf("rc %d\n", WIFEXITED(s) ? WEXITSTATUS(s) : -WTERMSIG(s));
    fflush(stdout);
  }
  return 0;
}

}  // namespace

int main(int argc, char** argv) {
  char path[4096];
  ssize_t n = readlink("/proc/self/exe", path, sizeof path - 1);
  if (n > 0) self.assign(path, (size_t)n);
  yaclib::detail::verif::resume = on_resume;
  add_tests();
  if (argc > 2 && std::string(argv[1]) == "--child") return child(argv[2]);
  Args a = parse(std::vector<std::string>(argv + 1, argv + argc));
  if (a.list) {
    for (auto& t : tests()) {
      if (!t.thorough || a.thorough) printf("%s\t1\t-1\n", t.name.c_str());
    }
    return 0;
  }
  return a.server ? serve() : run_one(a);
}
