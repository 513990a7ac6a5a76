// Shared harness utilities (public YACLib API only).
#pragma once
#include <mc.h>

#include <yaclib/async/connect.hpp>
#include <yaclib/async/contract.hpp>
#include <yaclib/async/future.hpp>
#include <yaclib/async/make.hpp>
#include <yaclib/async/promise.hpp>
#include <yaclib/async/run.hpp>
#include <yaclib/async/wait.hpp>
#include <yaclib/exe/executor.hpp>
#include <yaclib/exe/inline.hpp>
#include <yaclib/exe/manual.hpp>
#include <yaclib/exe/submit.hpp>
#include <yaclib/util/result.hpp>

#include <exception>
#include <string>
#include <utility>

namespace h {

using yaclib::IExecutor;
using yaclib::Result;
using yaclib::StopError;
using yaclib::StopTag;

// A move-aware heap payload: double destruction, leaks, use after free, torn or racy hand-off all become
// observable by the engine (heap model + race detector); a moved-from Box reads as -1.
struct Box {
  int* p;
  Box() : p(new int(0)) {
  }
  Box(int v) : p(new int(v)) {
  }
  Box(const Box& o) : p(o.p ? new int(*o.p) : nullptr) {
  }
  Box(Box&& o) noexcept : p(o.p) {
    o.p = nullptr;
  }
  Box& operator=(const Box& o) {
    if (this != &o) {
      delete p;
      p = o.p ? new int(*o.p) : nullptr;
    }
    return *this;
  }
  Box& operator=(Box&& o) noexcept {
    if (this != &o) {
      delete p;
      p = o.p;
      o.p = nullptr;
    }
    return *this;
  }
  ~Box() {
    delete p;
  }
  int get() const {
    return p ? *p : -1;
  }
};
inline int val(const Box& b) {
  return b.get();
}
inline int val(int b) {
  return b;
}
struct Num {   // a plain value that converts to nothing
  int v;
};
inline int val(const Num& b) {
  return b.v;
}
inline int val(const yaclib::Unit&) {
  return 0;
}

// Exceptions carry an int.
struct Exc {
  int v;
};
// Error type with a payload.
struct Err {
  int v = 0;
  Err(int x) : v(x) {
  }
  Err(StopTag) : v(-7) {
  }
  Err(Err&&) noexcept = default;
  Err(const Err&) = default;
  Err& operator=(Err&&) noexcept = default;
  Err& operator=(const Err&) = default;
  const char* What() const noexcept {
    return "err";
  }
};
inline int ev(const StopError&) {
  return -7;
}
inline int ev(const Err& e) {
  return e.v;
}

// Encodes a Result as an integer: value v -> v, error e -> 1000+code, exception x -> 2000+x, empty -> 9999
inline int exc_code(const std::exception_ptr& p) {
  try {
    std::rethrow_exception(p);
  } catch (const Exc& e) {
    return 2000 + e.v;
  } catch (const yaclib::ResultError<Err>& e) {
    return 4000 + e.Get().v;
  } catch (const yaclib::ResultError<StopError>&) {
    return 4000 - 7;
  } catch (...) {
    return 2999;
  }
}
template <typename V, typename E>
int code(const Result<V, E>& r) {
  switch (r.State()) {
    case yaclib::ResultState::Value:
      if constexpr (std::is_void_v<V>) {
        return 0;
      } else {
        return val(std::as_const(r).Value());
      }
    case yaclib::ResultState::Error:
      return 1000 + ev(std::as_const(r).Error());
    case yaclib::ResultState::Exception:
      return exc_code(std::as_const(r).Exception());
    default:
      return 9999;
  }
}
constexpr int kStop = 993;   // code of StopError

// ---- counters that are invisible to the race detector (updated from any model thread) -----------
struct Cnt {
  int v = 0;
  MC_NOINSTR int inc() {
    return ++v;
  }
  MC_NOINSTR int dec() {
    return --v;
  }
  MC_NOINSTR int get() const {
    return v;
  }
  MC_NOINSTR void set(int x) {
    v = x;
  }
};

// Object whose constructions and destructions are counted and whose liveness is checked on every use.
struct Life {
  Cnt* live;
  int* tok;
  explicit Life(Cnt& c) : live(&c), tok(new int(42)) {
    live->inc();
  }
  Life(const Life& o) : live(o.live), tok(o.tok ? new int(*o.tok) : nullptr) {
    live->inc();
  }
  Life(Life&& o) noexcept : live(o.live), tok(o.tok) {
    o.tok = nullptr;
    live->inc();
  }
  Life& operator=(const Life&) = delete;
  ~Life() {
    live->dec();
    delete tok;
  }
  void use() const {
    MC_CHECK(tok != nullptr && *tok == 42, "captured object used after move or destruction");
  }
};

// ---- executors -----------------------------------------------------------------------------------
// identity of the executor on which the current model thread is running a job
inline int g_where[16];
MC_NOINSTR inline int where() {
  return g_where[mc::self()];
}
MC_NOINSTR inline int set_where(int x) {
  int o = g_where[mc::self()];
  g_where[mc::self()] = x;
  return o;
}
struct Where {
  int old;
  explicit Where(int id) : old(set_where(id)) {
  }
  ~Where() {
    set_where(old);
  }
};

// Common base: counts references, calls and drops; rejects from the `reject_from`-th submission on.
class ExecBase : public IExecutor {
 public:
  explicit ExecBase(int id, int reject_from = -1) : _id(id), _reject(reject_from) {
  }
  ~ExecBase() override {
    MC_CHECK(_refs.get() == 0, "executor %d destroyed with %d references", _id, _refs.get());
  }
  void IncRef() noexcept final {
    _refs.inc();
  }
  void DecRef() noexcept final {
    _refs.dec();
  }
  [[nodiscard]] Type Tag() const noexcept final {
    return Type::Custom;
  }
  [[nodiscard]] bool Alive() const noexcept final {
    return _reject < 0 || _n.get() < _reject;
  }
  void Submit(yaclib::Job& job) noexcept final {
    int k = _n.inc();
    if (_reject >= 0 && k > _reject) {
      _drops.inc();
      job.Drop();
      return;
    }
    Accept(job);
  }
  virtual void Accept(yaclib::Job& job) noexcept = 0;
  void reject_from(int k) {
    _reject = k;
  }
  int id() const {
    return _id;
  }
  int submits() const {
    return _n.get();
  }
  int drops() const {
    return _drops.get();
  }
  int refs() const {
    return _refs.get();
  }

 protected:
  void Run(yaclib::Job& job) noexcept {
    Where w{_id};
    job.Call();
  }
  int _id;
  int _reject;
  Cnt _n, _drops, _refs;
};

// Runs every job on a fresh model thread: the most permissive pool.
class SpawnExec final : public ExecBase {
 public:
  using ExecBase::ExecBase;
  void Accept(yaclib::Job& job) noexcept final {
    auto* j = &job;
    mc::spawn([this, j] {
      Run(*j);
    });
  }
};
// Runs every job at once on the submitting thread, recording where.
class HereExec final : public ExecBase {
 public:
  using ExecBase::ExecBase;
  void Accept(yaclib::Job& job) noexcept final {
    Run(job);
  }
};

// Joins every model thread spawned so far except the caller (call from the main model thread).
}  // namespace h
