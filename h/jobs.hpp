// Jobs whose every life-cycle event is monitored.
#pragma once
#include "h.hpp"

#include <yaclib/exe/job.hpp>
#include <yaclib/exe/strand.hpp>
#include <yaclib/runtime/fair_thread_pool.hpp>

namespace h {

struct Mon {
  // exclusivity
  bool exclusive = true;
  Cnt active, called, dropped, order;
  mc::Ghost<int> inside{0};
  int* data = nullptr;        // plain data touched by every job (race detector)
  int seq[16];                // call order, by job id
  MC_NOINSTR void enter(int id) {
    int a = active.inc();
    MC_CHECK(!exclusive || a == 1, "two jobs at once");
    seq[id] = order.inc();
    called.inc();
  }
  MC_NOINSTR void exit() {
    active.dec();
  }
  MC_NOINSTR int ran(int id) const {
    return seq[id];
  }
  MC_NOINSTR Mon() {
    for (int& s : seq) s = 0;
  }
};

// A caller-owned job (nothing allocated by the library)
struct MJob : yaclib::Job {
  Mon* m = nullptr;
  int id = 0;
  int pre = 0;                // written by the submitting thread before Submit
  Cnt calls, drops;
  std::function<void()> body;
  void arm(Mon& mon, int i) {
    m = &mon;
    id = i;
    pre = 100 + i;
  }
  void Call() noexcept final {
    MC_CHECK(calls.inc() == 1, "job %d called twice", id);
    MC_CHECK(drops.get() == 0, "job %d called after drop", id);
    m->enter(id);
    MC_CHECK(pre == 100 + id);
    m->inside.add(1);
    if (m->data != nullptr) {
      *m->data += 1;
    }
    if (body) body();
    m->exit();
  }
  void Drop() noexcept final {
    MC_CHECK(drops.inc() == 1, "job %d dropped twice", id);
    MC_CHECK(calls.get() == 0, "job %d dropped after call", id);
    MC_CHECK(pre == 100 + id);
    m->dropped.inc();
  }
  void IncRef() noexcept final {
  }
  void DecRef() noexcept final {
  }
};

// An executor that queues everything and runs it when drained by one thread; used through ManualExecutor semantics.
class PoolExec final : public ExecBase {   // one persistent worker, never blocks: drained by whoever calls Drain
 public:
  using ExecBase::ExecBase;
  void Accept(yaclib::Job& job) noexcept final {
    mc::NoTrack nt;
    _q.push_back(&job);
  }
  int drain() {
    int n = 0;
    while (true) {
      yaclib::Job* j = pop();
      if (j == nullptr) return n;
      ++n;
      Run(*j);
    }
  }

 private:
  MC_NOINSTR yaclib::Job* pop() {
    mc::NoTrack nt;
    if (_q.empty()) return nullptr;
    auto* j = _q.front();
    _q.erase(_q.begin());
    return j;
  }
  std::vector<yaclib::Job*> _q;
};

}  // namespace h
