// yamc: stateless model checker for YACLib's production build.
// Public interface used by the harnesses.  See ../DESIGN.md.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <functional>
#include <string>
#include <utility>
#include <vector>

#define MC_NOINSTR __attribute__((no_sanitize("thread")))

namespace mc {

// ---- violation categories -------------------------------------------------------------------
enum : unsigned {
  V_ASSERT = 1,     // harness oracle
  V_DEADLOCK = 2,   // no enabled thread, or only spinning threads for ever
  V_UAF = 4,        // access to freed / never allocated heap memory, dead stack frame
  V_FREE = 8,       // double delete, delete of a foreign pointer
  V_LEAK = 16,      // allocation still live when the harness is quiescent
  V_RACE = 32,      // two conflicting unordered accesses, one of them not atomic
  V_CRASH = 64,     // signal, std::terminate, escaping exception
};
constexpr unsigned kBasic = V_ASSERT | V_DEADLOCK | V_UAF | V_FREE | V_CRASH;
constexpr unsigned kMem = kBasic | V_LEAK;
constexpr unsigned kAll = kMem | V_RACE;

struct Opts {
  unsigned mask = kBasic;
  int bound = -1;          // -1: unbounded search with partial-order reduction; k>=0: preemption bound k + state caching
  int weak_fail = 1;       // spurious compare_exchange_weak failures allowed per thread
  int spurious = 0;        // spurious condition variable wake-ups allowed per thread
  int stale = 0;           // weak-memory mode: atomic loads per execution that may return an older visible store
  int max_steps = 4000;    // horizon
  double weight = 1;       // relative share of the time budget
  bool thorough = false;   // only in the thorough tier
};

void add_test(std::string name, Opts o, std::function<void()> fn);
struct RegTag {};
struct Reg {};
template <typename F>
Reg operator+(RegTag, F f) {
  f();
  return {};
}
#define MC_CAT_(a, b) a##b
#define MC_CAT(a, b) MC_CAT_(a, b)
// Static registration block: MC_TESTS { mc::add_test(...); };
#define MC_TESTS static const ::mc::Reg MC_CAT(mc_reg_, __LINE__) = ::mc::RegTag{} + []()

// ---- services available inside an execution ---------------------------------------------------
int spawn(std::function<void()> fn);   // new model thread
void join(int tid);
void join_all();   // waits for every other model thread, including those spawned meanwhile (main thread only)
int self();
int choose(int n, const char* why = "");   // exhaustive internal choice, 0..n-1
void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void outcome(const char* fmt, ...) __attribute__((format(printf, 1, 2)));   // distinct observed outcomes
void count(unsigned long long n);      // steps of an enumeration done natively inside this execution (evidence only)
long long now_ns();                    // virtual clock
void yield();
bool param(const char* name, int* v);

// Visible ghost operations: a scheduling point that conflicts with other ghost operations on the same
// address (so every order is explored) but creates no happens-before edge for the race detector.
void ghost_read(const void* a);
void ghost_write(const void* a);
// Harness bookkeeping: exempt memory from leak / race accounting while alive on this (model) thread.
struct NoTrack {
  NoTrack();
  ~NoTrack();
};
std::size_t live_allocs();             // heap blocks allocated in this execution and not yet freed (NoTrack excluded)
std::size_t total_allocs();            // operator new calls so far in this execution (NoTrack excluded)
std::size_t thread_allocs();           // ... by the calling model thread

// A ghost variable: all accesses are visible, mutually ordered events without synchronisation.
template <typename T>
class Ghost {
 public:
  MC_NOINSTR Ghost(T v = T{}) : _v(v) {
  }
  MC_NOINSTR T get() const {
    ghost_read(this);
    return _v;
  }
  MC_NOINSTR void set(T v) {
    ghost_write(this);
    _v = v;
  }
  MC_NOINSTR T add(T d) {
    ghost_write(this);
    return _v += d;
  }
  // read without a scheduling point (e.g. after everything has been joined)
  MC_NOINSTR T peek() const {
    return _v;
  }
  MC_NOINSTR void poke(T v) {
    _v = v;
  }

 private:
  T _v;
};

}  // namespace mc

#define MC_CHECK(cond, ...)              \
  do {                                   \
    if (!(cond)) {                       \
      ::mc::fail("" #cond ": " __VA_ARGS__); \
    }                                    \
  } while (0)
