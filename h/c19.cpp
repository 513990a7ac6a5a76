// C19: yaclib_std::atomic / atomic_flag / fences against std::atomic, all operation sequences of one thread up to a length.
// Built once against the FIBER backend and once against the THREAD backend.
#include "mc.h"

#include <yaclib/config.hpp>
#include <yaclib/fault/config.hpp>
#include <yaclib/fault/injector.hpp>

#include <yaclib_std/atomic>
#include <yaclib_std/thread>

#include <atomic>
#include <cmath>
#include <cstring>
#include <limits>
#include <string>
#include <type_traits>
#include <vector>
#if YACLIB_FAULT == 2
#  include <yaclib/fault/detail/fiber/scheduler.hpp>
#endif

namespace {

using MO = std::memory_order;
constexpr MO kOrders[] = {MO::seq_cst, MO::relaxed, MO::consume, MO::acquire, MO::release, MO::acq_rel};
const char* const kOrderName[] = {"seq_cst", "relaxed", "consume", "acquire", "release", "acq_rel"};

enum Op : int {
  oLoad, oLoadD, oConv, oStore, oStoreD, oAssign, oExch, oExchD, oStrong1, oStrong1D, oStrong2, oWeak1, oWeak1D, oWeak2,
  oAdd, oAddD, oSub, oSubD, oPlus, oMinus, oAddCmp, oSubCmp,
  oAnd, oAndD, oOr, oOrD, oXor, oXorD, oAndEq, oOrEq, oXorEq,
  oPreInc, oPostInc, oPreDec, oPostDec, oIncCmp, oFence, Ops
};
const char* const kOpName[] = {"load(o)", "load()", "T()", "store(x,o)", "store(x)", "=x", "exchange(x,o)", "exchange(x)", "strong(e,d,o)",
                               "strong(e,d)", "strong(e,d,o,o)", "weak(e,d,o)", "weak(e,d)", "weak(e,d,o,o)", "fetch_add(x,o)",
                               "fetch_add(x)", "fetch_sub(x,o)", "fetch_sub(x)", "+=x", "-=x", "fetch_add(x)<load", "fetch_sub(x)>load",
                               "fetch_and(x,o)", "fetch_and(x)", "fetch_or(x,o)", "fetch_or(x)", "fetch_xor(x,o)", "fetch_xor(x)", "&=x",
                               "|=x", "^=x", "++a", "a++", "--a", "a--", "a++<load", "fence(o)"};

template <class T>
constexpr bool kInt = std::is_integral_v<T> && !std::is_same_v<T, bool>;
template <class T>
constexpr bool kPtr = std::is_pointer_v<T> && !std::is_void_v<std::remove_pointer_t<T>>;
template <class T>
constexpr bool kFlt = std::is_floating_point_v<T>;

template <class T>
constexpr bool has_op(int op) {
  if (op < oAdd || op == oFence) return true;
  if (op <= oSubCmp) return kInt<T> || kPtr<T> || kFlt<T>;
  if (op <= oXorEq) return kInt<T>;
  return kInt<T> || kPtr<T>;
}
constexpr bool has_arg(int op) {
  return !(op == oLoad || op == oLoadD || op == oConv || op >= oPreInc);
}
constexpr bool is_cas(int op) {
  return op >= oStrong1 && op <= oWeak2;
}
constexpr bool is_weak(int op) {
  return op >= oWeak1 && op <= oWeak2;
}
constexpr bool has_order(int op) {
  switch (op) {
    case oLoad: case oStore: case oExch: case oStrong1: case oStrong2: case oWeak1: case oWeak2: case oAdd: case oSub: case oAnd: case oOr:
    case oXor: case oFence:
      return true;
    default:
      return false;
  }
}
bool order_ok(int op, MO o) {
  if (op == oLoad || op == oStrong2 || op == oWeak2) return o != MO::release && o != MO::acq_rel;   // (failure order of the two-order CAS)
  if (op == oStore) return o != MO::consume && o != MO::acquire && o != MO::acq_rel;
  return true;
}

struct Call {
  int op = 0;
  int x = 0;       // index of the operand / expected value
  int y = 0;       // index of the desired value
  int o = 0;       // order
  bool inject = false;   // the spurious failure is injected
};

// The result of an operation, as bits.
struct Res {
  std::uint64_t r = 0;
  std::uint64_t e = 0;
  bool nan_r = false;
  bool operator==(const Res& b) const {
    return ((nan_r && b.nan_r) || r == b.r) && e == b.e;
  }
};
template <class T>
std::uint64_t bits(T v) {
  std::uint64_t u = 0;
  std::memcpy(&u, &v, sizeof(T));
  return u;
}
template <class T>
bool is_nan(T v) {
  if constexpr (kFlt<T>) {
    return v != v;
  } else {
    return false;
  }
}

template <bool Std, class A, class T>
__attribute__((noinline)) Res apply(A& a, const Call& c, const std::vector<T>& vals) {
  Res res;
  const MO o = kOrders[c.o];
  auto ret = [&](auto v) {
    res.r = bits(v);
    res.nan_r = is_nan(v);
  };
  T x = vals[c.x];
  const T y = vals[c.y];
  auto arg = [&] {   // operand of arithmetic
    if constexpr (kPtr<T>) {
      return static_cast<std::ptrdiff_t>(c.x) - 2;
    } else {
      return x;
    }
  };
  if (c.op != oFence && is_cas(c.op)) {
    bool b = false;
    switch (c.op) {
      case oStrong1: b = a.compare_exchange_strong(x, y, o); break;
      case oStrong1D: b = a.compare_exchange_strong(x, y); break;
      case oStrong2: b = a.compare_exchange_strong(x, y, MO::seq_cst, o); break;
      case oWeak1: b = a.compare_exchange_weak(x, y, o); break;
      case oWeak1D: b = a.compare_exchange_weak(x, y); break;
      case oWeak2: b = a.compare_exchange_weak(x, y, MO::seq_cst, o); break;
    }
    ret(b);
    res.e = bits(x);
    return res;
  }
  switch (c.op) {
    case oLoad: ret(a.load(o)); return res;
    case oLoadD: ret(a.load()); return res;
    case oConv: ret(static_cast<T>(a)); return res;
    case oStore: a.store(x, o); return res;
    case oStoreD: a.store(x); return res;
    case oAssign: ret(static_cast<T>(a = x)); return res;
    case oExch: ret(a.exchange(x, o)); return res;
    case oExchD: ret(a.exchange(x)); return res;
    case oFence:
      if constexpr (Std) {
        std::atomic_thread_fence(o);
        std::atomic_signal_fence(o);
      } else {
        yaclib_std::atomic_thread_fence(o);
        yaclib_std::atomic_signal_fence(o);
      }
      return res;
  }
  if constexpr (kInt<T> || kPtr<T> || kFlt<T>) {
    switch (c.op) {
      case oAdd: ret(a.fetch_add(arg(), o)); return res;
      case oAddD: ret(a.fetch_add(arg())); return res;
      case oSub: ret(a.fetch_sub(arg(), o)); return res;
      case oSubD: ret(a.fetch_sub(arg())); return res;
      case oPlus: ret(a += arg()); return res;
      case oMinus: ret(a -= arg()); return res;
      case oAddCmp: {
        T old = a.fetch_add(arg(), MO::relaxed);
        ret(a.load(MO::relaxed) > old);
        return res;
      }
      case oSubCmp: {
        T old = a.fetch_sub(arg(), MO::relaxed);
        ret(a.load(MO::relaxed) < old);
        return res;
      }
    }
  }
  if constexpr (kInt<T>) {
    switch (c.op) {
      case oAnd: ret(a.fetch_and(x, o)); return res;
      case oAndD: ret(a.fetch_and(x)); return res;
      case oOr: ret(a.fetch_or(x, o)); return res;
      case oOrD: ret(a.fetch_or(x)); return res;
      case oXor: ret(a.fetch_xor(x, o)); return res;
      case oXorD: ret(a.fetch_xor(x)); return res;
      case oAndEq: ret(a &= x); return res;
      case oOrEq: ret(a |= x); return res;
      case oXorEq: ret(a ^= x); return res;
    }
  }
  if constexpr (kInt<T> || kPtr<T>) {
    switch (c.op) {
      case oPreInc: ret(++a); return res;
      case oPostInc: ret(a++); return res;
      case oPreDec: ret(--a); return res;
      case oPostDec: ret(a--); return res;
      case oIncCmp: {
        T old = a++;
        ret(static_cast<T>(a) > old);
        return res;
      }
    }
  }
  mc::fail("harness: operation %d not handled", c.op);
  return res;
}

template <class T>
std::string show(T v) {
  char b[64];
  if constexpr (kFlt<T>) {
    std::snprintf(b, sizeof b, "%g", double(v));
  } else {
    std::snprintf(b, sizeof b, "0x%llx", (unsigned long long)bits(v));
  }
  return b;
}
template <class T>
std::string show(const Call& c, const std::vector<T>& vals) {
  std::string s = kOpName[c.op];
  if (has_arg(c.op)) {
    s += " x=" + (kPtr<T> && c.op >= oAdd ? std::to_string(c.x - 2) : show(vals[c.x]));
    if (is_cas(c.op)) s += " d=" + show(vals[c.y]);
  }
  if (has_order(c.op)) s += std::string(" ") + kOrderName[c.o];
  if (c.inject) s += " [spurious failure injected]";
  return s;
}

constexpr std::uint32_t kNever = 0;    // SetAtomicFailFrequency
constexpr std::uint32_t kAlways = 1;
thread_local std::uint32_t g_fail = 13;
void set_fail(std::uint32_t f) {
  if (g_fail != f) yaclib::SetAtomicFailFrequency(g_fail = f);
}

template <class T>
std::vector<Call> calls(const std::vector<T>& vals, int n_arg, int n_des, bool all_orders, bool cmp = true, int only = -1) {
  std::vector<Call> out;
  for (int op = 0; op != Ops; ++op) {
    if (!has_op<T>(op) || (only >= 0 && only != op)) continue;
    if (!cmp && (op == oAddCmp || op == oSubCmp || op == oIncCmp || op == oFence)) continue;
    const int orders = has_order(op) ? (all_orders ? 6 : 1) : 1;
    for (int o = 0; o != orders; ++o) {
      if (!order_ok(op, kOrders[o])) continue;
      int nx = has_arg(op) ? n_arg : 1;
      if (kPtr<T> && op >= oAdd && has_arg(op)) nx = 5 < int(vals.size()) ? 5 : int(vals.size());   // -2..2
      for (int x = 0; x != nx; ++x) {
        for (int y = 0; y != (is_cas(op) ? n_des : 1); ++y) {
          for (int i = 0; i != (is_weak(op) ? 2 : 1); ++i) out.push_back(Call{op, x, y, o, i == 1});
        }
      }
    }
  }
  return out;
}

template <class T, bool Vol>
struct Run {
  using S = std::atomic<T>;
  using Y = yaclib_std::atomic<T>;
  const std::vector<T>& vals;
  std::uint64_t n = 0;
  char diff[160] = "";

  // One operation on both; the property's comparison.
  bool step(S& s, Y& y, const Call& c) {
    ++n;
    using YV = std::conditional_t<Vol, volatile Y, Y>;
    using SV = std::conditional_t<Vol, volatile S, S>;
    const T before = s.load(MO::relaxed);
    set_fail(c.inject ? kAlways : kNever);
    const Res ry = apply<false, YV, T>(y, c, vals);
    const T after = y.load(MO::relaxed);
    if (c.inject && ry.r == 0) {
      // spurious: false, the current value in expected, nothing changed
      return ry.e == bits(before) && bits(after) == bits(before);
    }
    const Res rs = apply<true, SV, T>(s, c, vals);
    const T want = s.load(MO::relaxed);
    const bool arith = c.op >= oAdd && c.op <= oSubCmp;
    const bool same = bits(want) == bits(after) || (arith && is_nan(want) && is_nan(after));
    if (arith && same) s.store(after, MO::relaxed);   // NaN payload
    if (rs == ry && same) return true;
    std::snprintf(diff, sizeof diff, "returned 0x%llx/0x%llx, std 0x%llx/0x%llx", (unsigned long long)ry.r, (unsigned long long)ry.e,
                  (unsigned long long)rs.r, (unsigned long long)rs.e);
    return false;
  }
  void report(const char* what, T init, const std::vector<Call>& seq, T is, T want) {
    std::string s;
    for (auto& c : seq) s += (s.empty() ? "" : " ; ") + show(c, vals);
    mc::fail("%s%s: from %s: %s: differs from std::atomic (stored %s, std stores %s; %s)", what, Vol ? " (volatile)" : "", show(init).c_str(),
             s.c_str(), show(is).c_str(), show(want).c_str(), diff);
  }
  // Every sequence of length `len` over `alphabet` starting with `first`, from `init`.
  void sequences(const char* what, T init, const std::vector<Call>& al, int first, int len) {
    int ix[8] = {};
    ix[0] = first;
    for (;;) {
      S s{init};
      Y y{init};
      for (int i = 0; i != len; ++i) {
        if (!step(s, y, al[ix[i]])) {
          std::vector<Call> seq;
          for (int j = 0; j <= i; ++j) seq.push_back(al[ix[j]]);
          report(what, init, seq, y.load(), s.load());
          return;
        }
      }
      if ((n & 0xfff) < 4 && n > 4) {
        mc::count(n);
        n = 0;
      }
      int k = len - 1;
      while (k > 0 && ++ix[k] == int(al.size())) ix[k--] = 0;
      if (k == 0) break;
    }
  }
};

template <class T>
std::vector<T> values(bool wide);
int g_buf[64];

template <class T>
std::vector<T> values(bool wide) {
  if constexpr (std::is_same_v<T, bool>) {
    return {false, true};
  } else if constexpr (std::is_enum_v<T>) {
    return {T(0), T(1), T(255), T(7)};
  } else if constexpr (std::is_pointer_v<T>) {
    using U = std::remove_pointer_t<T>;
    if constexpr (std::is_void_v<std::remove_cv_t<U>>) {
      return {static_cast<void*>(g_buf), nullptr, static_cast<void*>(g_buf + 3)};
    } else {
      auto* b = reinterpret_cast<T>(g_buf + 32);
      return {b, nullptr, b + 1, b - 1, b + 4};
    }
  } else if constexpr (kFlt<T>) {
    using L = std::numeric_limits<T>;
    std::vector<T> v = {T(0), T(1), -T(0), L::quiet_NaN(), T(-1.5)};
    if (wide) {
      for (T x : {L::max(), L::lowest(), L::min(), L::denorm_min(), L::infinity(), -L::infinity(), L::epsilon(), T(1) / T(3), T(1e10)}) v.push_back(x);
    }
    return v;
  } else {
    using L = std::numeric_limits<T>;
    std::vector<T> v = {T(0), T(1), L::max(), L::min(), T(-1), T(0x5a)};
    if (wide) {
      if constexpr (sizeof(T) == 1) {
        v.clear();
        for (int i = 0; i != 256; ++i) v.push_back(T(i));
      } else {
        using U = std::make_unsigned_t<std::conditional_t<std::is_same_v<T, wchar_t>, int, T>>;
        const int w = int(sizeof(T)) * 8;
        for (U u : {U(2), U(3), U(-2), U(U(1) << (w / 2)), U((U(1) << (w / 2)) - 1), U(~U(0) / 3), U(~U(0) / 3 * 2), U(L::max() - 1), U(U(L::min()) + 1),
                    U(0x80), U(0x7f), U(0x100), U(0xff)}) {
          v.push_back(T(u));
        }
      }
    }
    return v;
  }
}

template <class F>
void in_context(F f) {
  // Injection never yields unless the test says so; the whole sequence runs in one thread (inside a fiber).
#if YACLIB_FAULT == 2
  yaclib::fault::Scheduler sched;
  yaclib::fault::Scheduler::Set(&sched);
  yaclib_std::thread t{[&] { f(); }};
  t.join();
  yaclib::fault::Scheduler::Set(nullptr);
#else
  f();
#endif
}

template <class T, bool Vol>
void add(const std::string& name) {
  // 1. Every state of an 8-bit type (boundary states of wider ones) x every operation x every operand x every order.
  mc::add_test(name + "/each", mc::Opts{.max_steps = 100000}, [name] {
    yaclib::SetFaultFrequency(~0u);
    g_fail = 13;
    const auto vals = values<T>(true);
    const int v0 = vals.size() == 256 ? mc::choose(16, "initial value, high") * 16 + mc::choose(16, "initial value, low")
                                      : mc::choose(int(vals.size()), "initial value");
    in_context([&] {
      Run<T, Vol> r{vals};
      for (int op = 0; op != Ops; ++op) {
        const auto al = calls<T>(vals, int(vals.size()), std::min<int>(int(vals.size()), 24), vals.size() < 64, true, op);
        for (int i = 0; i != int(al.size()); ++i) r.sequences(name.c_str(), vals[v0], al, i, 1);
        mc::count(r.n);
        r.n = 0;
      }
    });
  });
  // 2. Every sequence up to length 3 (4).
  for (int len : {3, 4}) {
    mc::add_test(name + "/seq" + std::to_string(len), mc::Opts{.max_steps = 100000, .thorough = len == 4}, [name, len] {
      yaclib::SetFaultFrequency(~0u);
      g_fail = 13;
      auto vals = values<T>(false);
      const int nv = len == 3 ? 4 : 3;
      const int v0 = mc::choose(std::min<int>(nv, int(vals.size())), "initial value");
      if (len == 3 && kInt<T>) vals = {vals[v0], T(1), std::numeric_limits<T>::max(), T(0x5a)};
      const auto al = calls<T>(vals, std::min<int>(len == 3 ? 3 : 2, int(vals.size())), 2, false, len == 3);
      const int first = mc::choose(int(al.size()), "first operation");
      in_context([&] {
        Run<T, Vol> r{vals};
        r.sequences(name.c_str(), vals[len == 3 && kInt<T> ? 0 : v0], al, first, len);
        mc::count(r.n);
      });
    });
  }
  // 3. With yields / sleeps injected at every second point.
  mc::add_test(name + "/injected", mc::Opts{.max_steps = 100000}, [name] {
    yaclib::SetFaultFrequency(1);
    yaclib::SetFaultSleepTime(1);
    g_fail = 13;
    const auto vals = values<T>(false);
    const int v0 = mc::choose(std::min<int>(YACLIB_FAULT == 2 ? 3 : 1, int(vals.size())), "initial value");
    in_context([&] {
      const auto al = calls<T>(vals, YACLIB_FAULT == 2 ? 3 : std::min<int>(2, int(vals.size())), 2, false);
      Run<T, Vol> r{vals};
      for (int i = 0; i != int(al.size()); ++i) r.sequences(name.c_str(), vals[v0], al, i, YACLIB_FAULT == 2 ? 2 : 1);
      mc::count(r.n);
    });
    yaclib::SetFaultFrequency(~0u);
  });
}
template <class T>
void both(const char* n) {
  add<T, false>(n);
  add<T, true>(std::string(n) + "-volatile");
}
enum class E8 : std::uint8_t {};

MC_TESTS {
#if !defined(PART) || PART == 0
  both<bool>("bool");
  both<char>("char");
  both<signed char>("schar");
  both<unsigned char>("uchar");
  both<E8>("enum");
  both<void*>("void*");
#endif
#if !defined(PART) || PART == 1
  both<short>("short");
  both<unsigned short>("ushort");
  both<int>("int");
  both<unsigned>("uint");
  both<char32_t>("char32");
#endif
#if !defined(PART) || PART == 2
  both<long>("long");
  both<unsigned long>("ulong");
  both<long long>("llong");
  both<unsigned long long>("ullong");
  both<char16_t>("char16");
  both<wchar_t>("wchar");
#endif
#if !defined(PART) || PART == 3
  both<float>("float");
  both<double>("double");
  both<int*>("int*");
  both<const char*>("char*");
#endif
};

#if !defined(PART) || PART == 0
// A local atomic the optimiser can see through: arithmetic wraps around, so it may not conclude that x + 1 > x.
template <class A, class T, int K>
__attribute__((noinline)) int local_cmp(T init) {
  A a{init};
  T old = init;
  switch (K) {
    case 0: old = a.fetch_add(1, MO::relaxed); break;
    case 1: old = a++; break;
    case 2: a += 1; break;
    case 3: ++a; break;
    case 4: old = a.fetch_sub(1, MO::relaxed); return a.load(MO::relaxed) < old;
    case 5: old = a--; return a.load(MO::relaxed) < old;
    case 6: a -= 1; return a.load(MO::relaxed) < old;
    case 7: --a; return a.load(MO::relaxed) < old;
  }
  return a.load(MO::relaxed) > old;
}
template <class T, int K = 0>
void local_all(const char* n) {
  for (T init : {T(0), T(1), T(-1), std::numeric_limits<T>::max(), std::numeric_limits<T>::min()}) {
    const int y = local_cmp<yaclib_std::atomic<T>, T, K>(init);
    const bool up = K < 4;
    const int want = up ? init != std::numeric_limits<T>::max() : init != std::numeric_limits<T>::min();   // std wraps around
    MC_CHECK(y == want, "atomic<%s> operation %d from %lld: the result compares as %d", n, K, (long long)init, y);
  }
  if constexpr (K < 7) local_all<T, K + 1>(n);
}
MC_TESTS {
  mc::add_test("wraps", mc::Opts{}, [] {
    yaclib::SetFaultFrequency(~0u);
    in_context([] {
      local_all<signed char>("schar");
      local_all<short>("short");
      local_all<int>("int");
      local_all<long>("long");
      local_all<long long>("llong");
      local_all<unsigned>("unsigned");
      local_all<unsigned long>("ulong");
    });
  });
  // atomic_flag: every sequence of test_and_set / clear (every order) up to length 5
  mc::add_test("flag", mc::Opts{.max_steps = 100000}, [] {
    yaclib::SetFaultFrequency(mc::choose(2, "yields") == 1 && YACLIB_FAULT == 2 ? 1 : ~0u);
    const int vol = mc::choose(2, "volatile");
    const int init = mc::choose(2, "init");
    constexpr int kN = 6 + 1 + 3 + 1;
    in_context([&] {
      std::uint64_t n = 0;
      auto op = [&](auto& f, int k) -> int {
        if (k < 6) return f.test_and_set(kOrders[k]);
        if (k == 6) return f.test_and_set();
        if (k == 7) f.clear(MO::relaxed);
        if (k == 8) f.clear(MO::release);
        if (k == 9) f.clear(MO::seq_cst);
        if (k == 10) f.clear();
        return -1;
      };
      int ix[5];
      for (int len = 1; len <= 5; ++len) {
        for (int& i : ix) i = 0;
        for (;;) {
          std::atomic_flag s{};
          yaclib_std::atomic_flag y{};
          std::atomic_flag s2 = ATOMIC_FLAG_INIT;
          yaclib_std::atomic_flag y2 = ATOMIC_FLAG_INIT;
          for (int i = 0; i != len; ++i) {
            ++n;
            auto& sf = init ? s2 : s;
            auto& yf = init ? y2 : y;
            int a = op(sf, ix[i]);
            int b = vol ? op(static_cast<volatile yaclib_std::atomic_flag&>(yf), ix[i]) : op(yf, ix[i]);
            if (a != b) {
              mc::fail("atomic_flag: operation %d of a sequence of %d returned %d, std returns %d", ix[i], len, b, a);
              return;
            }
          }
          int k = len - 1;
          while (k >= 0 && ++ix[k] == kN) ix[k--] = 0;
          if (k < 0) break;
        }
      }
      mc::count(n);
    });
    yaclib::SetFaultFrequency(~0u);
  });
  // default construction, C++20: value-initialised (over non-zero memory)
  mc::add_test("default", mc::Opts{}, [] {
    yaclib::SetFaultFrequency(~0u);
    auto one = [](auto tag, const char* n) {
      using T = decltype(tag);
      using Y = yaclib_std::atomic<T>;
      alignas(Y) unsigned char mem[sizeof(Y)];
      std::memset(mem, 0xa5, sizeof mem);
      asm volatile("" : : "r"(mem) : "memory");
      auto* y = new (mem) Y;
      std::atomic<T> s;
      MC_CHECK(bits(y->load()) == bits(s.load()), "atomic<%s> after default construction", n);
      y->~Y();
    };
    one(true, "bool");
    one('a', "char");
    one(short(1), "short");
    one(1, "int");
    one(1u, "unsigned");
    one(1l, "long");
    one(1.f, "float");
    one(1., "double");
    one(static_cast<int*>(nullptr), "int*");
    alignas(yaclib_std::atomic_flag) unsigned char mem[sizeof(yaclib_std::atomic_flag)];
    std::memset(mem, 0xa5, sizeof mem);
    asm volatile("" : : "r"(mem) : "memory");
    auto* f = new (mem) yaclib_std::atomic_flag;
    MC_CHECK(!f->test_and_set(), "atomic_flag is set after default construction");
  });
  // the orders given to std by the wrapper are valid ones (only observable in the THREAD backend: see run flags)
  mc::add_test("types", mc::Opts{}, [] {
    yaclib::SetFaultFrequency(~0u);
    MC_CHECK(yaclib_std::atomic<int>::is_always_lock_free == std::atomic<int>::is_always_lock_free);
    yaclib_std::atomic<long> a{1};
    std::atomic<long> b{1};
    MC_CHECK(a.is_lock_free() == b.is_lock_free());
  });
};
#endif

}  // namespace
