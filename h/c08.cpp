// C08: FairThreadPool: submissions racing with Stop / SoftStop / HardStop, Wait, jobs that submit jobs.
#include "jobs.hpp"

using namespace yaclib;
using namespace h;

namespace {

#ifndef MC_MASK
#  define MC_MASK mc::kAll
#endif
constexpr unsigned kMask = MC_MASK;

enum StopK { KStop, KSoft, KHard, KKinds };
const char* const kStop_[] = {"Stop", "SoftStop", "HardStop"};

struct Cfg {
  StopK stop = KStop;
  int workers = 1;
  int pre = 1;          // jobs submitted by main before the stop
  int subs = 1;         // concurrent submitting threads
  int jobs = 1;         // jobs of each of them
  int nested = 0;       // jobs that submit one more job: the first `nested` of the pre jobs
  bool second_stop = false;   // a second thread stops as well (with Stop)
  bool stop_in_job = false;   // the first pre job performs the stop instead of main
  StopK then = KKinds;        // another stop by main afterwards
  bool func = false;
  bool alive = false;         // submitting threads poll Alive()
};

void stop(FairThreadPool& p, StopK k) {
  if (k == KStop) {
    p.Stop();
  } else if (k == KSoft) {
    p.SoftStop();
  } else {
    p.HardStop();
  }
}

void run(const Cfg& c) {
  auto pool = MakeFairThreadPool(c.workers);
  {
    MC_CHECK(pool->Alive());
    MC_CHECK(pool->Tag() == IExecutor::Type::FairThreadPool);
    Mon mon;
    mon.exclusive = c.workers == 1;
    int* data = new int(0);
    if (c.workers == 1) mon.data = data;
    const int base = c.pre + c.subs * c.jobs;
    const int n = base + c.nested + 1;
    std::vector<MJob> jobs(n);
    std::vector<Cnt> started_after_wait(1);
    mc::Ghost<int> stopped{0};      // 1: the (first) stop call has returned
    mc::Ghost<int> waited{0};
    // per job: was the pool known to be stopped when it was submitted / known not to be stopped
    std::vector<Cnt> must_drop(n), must_call(n);
    auto submit = [&](int id) {
      jobs[id].arm(mon, id);
      if (c.func) {
        struct Guard {       // a functor that is destroyed without having been called was dropped
          MJob* j;
          bool called = false;
          explicit Guard(MJob* p) : j(p) {
          }
          Guard(Guard&& o) noexcept : j(std::exchange(o.j, nullptr)), called(o.called) {
          }
          ~Guard() {
            if (j != nullptr && !called) j->Drop();
          }
          void operator()() {
            called = true;
            j->Call();
          }
        };
        Submit(*pool, Guard{&jobs[id]});
      } else {
        pool->Submit(jobs[id]);
      }
    };
    for (int i = 0; i < c.nested; ++i) {
      jobs[i].body = [&, i] {
        // under SoftStop a pool cannot stop while this job is running
        if (c.stop == KSoft && !c.second_stop && c.then == KKinds) must_call[base + i].set(1);
        submit(base + i);
      };
    }
    if (c.stop_in_job) {
      jobs[0].body = [&] {
        stop(*pool, c.stop);
        stopped.set(1);
      };
    }
    std::vector<int> tids;
    for (int s = 0; s < c.subs; ++s) {
      tids.push_back(mc::spawn([&, s] {
        for (int j = 0; j < c.jobs; ++j) {
          int id = c.pre + s * c.jobs + j;
          int st = stopped.get();
          if (c.alive) {
            bool a = pool->Alive();
            if (!a) must_drop[id].set(1);
            if (st == 1 && c.stop != KSoft) MC_CHECK(!a, "Alive after Stop returned");
          }
          if (st == 1 && c.stop != KSoft) must_drop[id].set(1);
          submit(id);
        }
      }));
    }
    for (int i = 0; i < c.pre; ++i) {
      submit(i);
    }
    if (c.second_stop) {
      tids.push_back(mc::spawn([&] {
        pool->Stop();
      }));
    }
    if (!c.stop_in_job) {
      stop(*pool, c.stop);
      stopped.set(1);
    }
    if (c.then != KKinds) {
      stop(*pool, c.then);
    }
    pool->Wait();
    waited.set(1);
    MC_CHECK(mon.active.get() == 0, "a job is running after Wait");
    int before = mon.called.get();
    MC_CHECK(!pool->Alive(), "alive after Wait");
    if (c.workers == 1) {
      MC_CHECK(*data == before);   // their writes are visible after Wait
    }
    // a submission after Wait is dropped at once
    submit(n - 1);
    MC_CHECK(jobs[n - 1].drops.get() == 1 && jobs[n - 1].calls.get() == 0, "accepted after Wait");
    for (int t : tids) mc::join(t);
    MC_CHECK(mon.called.get() == before, "a job ran after Wait");
    int called = 0, dropped = 0;
    for (int i = 0; i < n; ++i) {
      int k = jobs[i].calls.get(), d = jobs[i].drops.get();
      if (i >= base && i < base + c.nested && jobs[i - base].calls.get() == 0) {
        MC_CHECK(k + d == 0);
        continue;
      }
      MC_CHECK(k + d == 1, "job %d: %d calls %d drops", i, k, d);
      MC_CHECK(!must_drop[i].get() || d == 1, "job %d accepted by a stopped pool", i);
      MC_CHECK(!must_call[i].get() || k == 1, "job %d submitted by a running job dropped under SoftStop", i);
      called += k;
      dropped += d;
    }
    // what main submitted before stopping was accepted
    if (!c.second_stop && !c.stop_in_job && c.stop != KHard && c.then != KHard) {
      for (int i = 0; i < c.pre; ++i) {
        MC_CHECK(jobs[i].calls.get() == 1, "job %d accepted before Stop did not run", i);
      }
    }
    if (c.stop_in_job && c.subs == 0) {
      MC_CHECK(jobs[0].calls.get() == 1);
    }
    if (c.workers == 1) {
      auto before_of = [&](int a, int b) {
        int x = mon.ran(a), y = mon.ran(b);
        MC_CHECK(x == 0 || y == 0 || x < y, "jobs %d and %d out of order", a, b);
      };
      for (int i = 0; i < c.pre; ++i)
        for (int k = i + 1; k < c.pre; ++k) before_of(i, k);
      for (int s = 0; s < c.subs; ++s)
        for (int j = 0; j + 1 < c.jobs; ++j) before_of(c.pre + s * c.jobs + j, c.pre + s * c.jobs + j + 1);
    }
    mc::outcome("%d/%d", called, dropped);
    delete data;
  }
  pool = nullptr;
  mc::join_all();
}

// Pipelines on a pool that stops: the chain always completes.
void pipeline(int workers, StopK k, int steps, bool spawn_stop) {
  auto pool = MakeFairThreadPool(workers);
  {
    int t = -1;
    auto f0 = Run(*pool, [] {
      return 1;
    });
    if (spawn_stop) {
      t = mc::spawn([&] {
        stop(*pool, k);
      });
    } else {
      stop(*pool, k);
    }
    int c;
    if (steps == 1) {
      c = code(std::move(f0).Then([](int x) {
        return x + 1;
      }).Get());
    } else {
      c = code(std::move(f0).Then([](int x) {
        return x + 1;
      }).Then([](Result<int> r) {
        return code(r);
      }).Get());
    }
    MC_CHECK(c == 2 || c == kStop, "got %d", c);
    mc::outcome("%d", c);
    if (t >= 0) mc::join(t);
    pool->Wait();
  }
  pool = nullptr;
  mc::join_all();
}

mc::Opts opt(bool th) {
  mc::Opts o{.mask = kMask};
  o.weak_fail = 0;
  o.thorough = th;
  return o;
}

MC_TESTS {
  for (int k = 0; k < KKinds; ++k) {
    for (int w = 1; w <= 3; ++w) {
      auto add = [&](const std::string& n, Cfg c, bool th) {
        c.stop = StopK(k);
        c.workers = w;
        mc::add_test(std::string(kStop_[k]) + "/w" + std::to_string(w) + "/" + n, opt(th || w == 3), [c] {
          run(c);
        });
      };
      for (int pre = 0; pre <= 3; ++pre) {
        for (int subs = 0; subs <= 2; ++subs) {
          for (int jobs = 1; jobs <= (subs ? 2 : 1); ++jobs) {
            int total = pre + subs * jobs;
            std::string nm = "pre" + std::to_string(pre) + "/subs" + std::to_string(subs) + "x" + std::to_string(jobs);
            bool th = w == 1 ? total > 3 || subs > 1 : total > 2 || subs > 1;
            if (total > 4) continue;
            add(nm, {.pre = pre, .subs = subs, .jobs = jobs}, th);
            if (subs == 1 && pre <= 1) add(nm + "/alive", {.pre = pre, .subs = subs, .jobs = jobs, .alive = true}, th);
            if (subs <= 1) add(nm + "/second-stop", {.pre = pre, .subs = subs, .jobs = jobs, .second_stop = true}, th || (subs == 1 && pre > 1));
            if (pre > 0) {
              add(nm + "/nested", {.pre = pre, .subs = subs, .jobs = jobs, .nested = 1}, th || total > 2);
              add(nm + "/stop-in-job", {.pre = pre, .subs = subs, .jobs = jobs, .stop_in_job = true}, th || total > 2);
              if (pre > 1) add(nm + "/nested2", {.pre = pre, .subs = subs, .jobs = jobs, .nested = 2}, th || total > 2);
            }
            for (int k2 = 0; k2 < KKinds; ++k2) {
              if (subs == 1 && pre == 1) continue;
              add(nm + "/then-" + kStop_[k2], {.pre = pre, .subs = subs, .jobs = jobs, .then = StopK(k2)}, th || total > 2);
            }
            if (total <= 2) add(nm + "/functor", {.pre = pre, .subs = subs, .jobs = jobs, .func = true}, th);
          }
        }
      }
      for (int steps = 1; steps <= 2; ++steps) {
        for (int sp = 0; sp < 2; ++sp) {
          mc::add_test(std::string(kStop_[k]) + "/w" + std::to_string(w) + "/pipeline" + std::to_string(steps) + (sp ? "/spawned" : ""),
                       opt(w == 3 || (w == 2 && steps == 2)), [k, w, steps, sp] {
                         pipeline(w, StopK(k), steps, sp);
                       });
        }
      }
    }
  }
};

}  // namespace
