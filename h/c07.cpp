// C07: Strand.  T submitting threads x J jobs each, over different underlying executors.
#include "jobs.hpp"

using namespace yaclib;
using namespace h;

namespace {

#ifndef MC_MASK
#  define MC_MASK mc::kAll
#endif
constexpr unsigned kMask = MC_MASK;

enum Under { USpawn, UHere, UInline, UStrandSpawn, UStrandHere, UStrand3, UPool1, UPool2, UKinds };
const char* const kUnder[] = {"spawn", "here", "inline", "strand-spawn", "strand-here", "strand^3-spawn", "pool1", "pool2"};

struct Cfg {
  Under u = USpawn;
  int threads = 2;
  int jobs = 2;
  int reject_from = -1;     // underlying executor rejects from this submission on
  bool nested = false;      // the first job of thread 0 submits one more job from inside the strand
  bool func = false;        // submit functors (library allocated jobs) instead of caller-owned jobs
  bool early_drop = false;  // main drops its strand reference before the submitters are done
  bool alternate = false;   // several independent strands over the same executor
};

void run(const Cfg& c) {
  SpawnExec sp{1, c.reject_from};
  HereExec he{2, c.reject_from};
  IntrusivePtr<FairThreadPool> pool;
  IExecutorPtr base;
  switch (c.u) {
    case USpawn:
    case UStrandSpawn:
    case UStrand3:
      base = &sp;
      break;
    case UHere:
    case UStrandHere:
      base = &he;
      break;
    case UInline:
      base = IExecutorPtr{&MakeInline()};
      break;
    default:
      pool = MakeFairThreadPool(c.u == UPool1 ? 1 : 2);
      base = pool;
  }
  {
    IExecutorPtr s;
    switch (c.u) {
      case UStrandSpawn:
      case UStrandHere:
        s = MakeStrand(MakeStrand(base));
        break;
      case UStrand3:
        s = MakeStrand(MakeStrand(MakeStrand(base)));
        break;
      default:
        s = MakeStrand(base);
    }
    MC_CHECK(s->Tag() == IExecutor::Type::Strand);
    Mon mon;
    int* data = new int(0);
    mon.data = data;
    const int n = c.threads * c.jobs + (c.nested ? 1 : 0);
    std::vector<MJob> jobs(n);
    std::vector<mc::Ghost<int>> done(c.threads);
    Cnt accepted_functors;
    auto submit = [&](IExecutor& e, int id) {
      if (c.func) {
        jobs[id].arm(mon, id);
        Submit(e, [&, id, life = Box{9}] {
          MC_CHECK(val(life) == 9);
          jobs[id].Call();
        });
      } else {
        jobs[id].arm(mon, id);
        e.Submit(jobs[id]);
      }
    };
    if (c.nested) {
      jobs[0].body = [&, e = s.Get()] {
        submit(*e, n - 1);
      };
    }
    std::vector<int> seen(c.threads * c.threads);
    for (int t = 0; t < c.threads; ++t) {
      mc::spawn([&, t, e = s] {
        // jobs of other threads whose submission is known to be complete before ours starts
        for (int o = 0; o < c.threads; ++o) {
          if (o != t) seen[t * c.threads + o] = done[o].get();
        }
        for (int j = 0; j < c.jobs; ++j) {
          submit(*e, t * c.jobs + j);
          done[t].set(j + 1);
        }
      });
    }
    if (c.early_drop) {
      s = nullptr;
    }
    if (pool) {
      // Join the submitters first (threads 1.. of the pool run for ever)
      for (int t = 0; t < c.threads; ++t) {
        mc::join((c.u == UPool1 ? 1 : 2) + 1 + t);
      }
      s = nullptr;
      pool->SoftStop();
      pool->Wait();
    }
    mc::join_all();
    int called = 0, dropped = 0;
    bool nested_ran = !c.nested || jobs[0].calls.get() == 1;
    for (int i = 0; i < n; ++i) {
      int k = jobs[i].calls.get(), d = jobs[i].drops.get();
      if (c.nested && i == n - 1 && !nested_ran) {
        MC_CHECK(k + d == 0);
        continue;
      }
      if (c.func) {
        MC_CHECK(k == 1 || c.reject_from >= 0, "functor %d lost", i);
      } else {
        MC_CHECK(k + d == 1, "job %d: %d calls, %d drops", i, k, d);
      }
      called += k;
      dropped += d;
    }
    if (c.reject_from < 0) {
      MC_CHECK(dropped == 0, "dropped although nothing was rejected");
    } else if (dropped > 0) {
      MC_CHECK(sp.drops() + he.drops() > 0, "dropped although nothing was rejected");
    }
    MC_CHECK(*data == called, "%d of %d increments survived", *data, called);
    // order
    for (int t = 0; t < c.threads; ++t) {
      for (int j = 0; j + 1 < c.jobs; ++j) {
        int a = mon.ran(t * c.jobs + j);
        for (int k = j + 1; k < c.jobs; ++k) {
          int b = mon.ran(t * c.jobs + k);
          MC_CHECK(a == 0 || b == 0 || a < b, "program order of thread %d broken", t);
        }
      }
      for (int o = 0; o < c.threads; ++o) {
        for (int k = 0; k < seen[t * c.threads + o]; ++k) {
          int a = mon.ran(o * c.jobs + k), b = mon.ran(t * c.jobs);
          MC_CHECK(a == 0 || b == 0 || a < b, "submission order across threads broken");
        }
      }
    }
    if (c.nested && nested_ran && c.jobs > 1 && c.threads == 1 && c.u == UInline) {
      MC_CHECK(mon.ran(n - 1) < mon.ran(1));
    }
    mc::outcome("%d/%d", called, dropped);
    delete data;
  }
  base = nullptr;
  pool = nullptr;
  mc::join_all();
}

mc::Opts opt(int wf, bool th = false) {
  mc::Opts o{.mask = kMask};
  o.weak_fail = wf;
  o.thorough = th;
  return o;
}

void add(const std::string& n, Cfg c, bool th = false) {
  mc::add_test(n, opt(c.threads * c.jobs <= 2 ? 1 : 0, th), [c] {
    run(c);
  });
}

MC_TESTS {
  for (int u = 0; u < UKinds; ++u) {
    std::string un = kUnder[u];
    bool nested_strand = u == UStrandSpawn || u == UStrand3;
    bool pool = u == UPool1 || u == UPool2;
    for (int f = 0; f < 2; ++f) {
      std::string fn = f ? "/functor" : "/job";
      for (int t = 1; t <= 3; ++t) {
        for (int j = 1; j <= 3; ++j) {
          if (t * j > 6) continue;
          bool th = t * j > 3 || (pool && t * j > 2) || (nested_strand && t * j > 2) || (f && t * j > 2);
          add(un + fn + "/" + std::to_string(t) + "x" + std::to_string(j), {Under(u), t, j, -1, false, bool(f)}, th);
        }
      }
      for (int t = 1; t <= 2; ++t) {
        bool th = (t == 2) && (pool || nested_strand || f);
        add(un + fn + "/nested/" + std::to_string(t) + "x1", {Under(u), t, 1, -1, true, bool(f)}, th);
        add(un + fn + "/nested/" + std::to_string(t) + "x2", {Under(u), t, 2, -1, true, bool(f)}, t == 2 || th);
        add(un + fn + "/early-drop/" + std::to_string(t) + "x1", {Under(u), t, 1, -1, false, bool(f), true}, th);
      }
      if (u != UInline && !pool) {
        for (int k = 0; k <= 3; ++k) {
          for (int t = 1; t <= 3; ++t) {
            for (int j = 1; j <= 2; ++j) {
              if (t * j > 4) continue;
              bool th = t * j > 2 || (f && t > 1);
              add(un + fn + "/reject" + std::to_string(k) + "/" + std::to_string(t) + "x" + std::to_string(j),
                  {Under(u), t, j, k, false, bool(f)}, th);
              if (j == 1) {
                add(un + fn + "/reject" + std::to_string(k) + "/nested/" + std::to_string(t) + "x" + std::to_string(j),
                    {Under(u), t, j, k, true, bool(f)}, th);
              }
            }
          }
        }
      }
    }
  }
};

}  // namespace
