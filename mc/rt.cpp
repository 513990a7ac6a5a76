// yamc runtime: controlled scheduler, DPOR / preemption-bounded search, happens-before race detector,
// heap model.  Compiled WITHOUT instrumentation; the code under test is compiled with g++ -fsanitize=thread
// and linked against the __tsan_* entry points defined here (libtsan is not linked).
#include "mc.h"

#include <cerrno>
#include <csetjmp>
#include <csignal>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <cxxabi.h>
#include <exception>
#include <fcntl.h>
#include <link.h>
#include <new>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>
#include <unwind.h>

typedef uint8_t u8;
typedef uint16_t u16;
typedef uint32_t u32;
typedef uint64_t u64;
typedef __uint128_t u128;
typedef uintptr_t uptr;

extern "C" char __data_start[];
extern "C" char _end[];

extern bool mc_snapshot_heap __attribute__((weak));

namespace {

constexpr int MAXT = 12;
constexpr uptr REGION = 0x200000000000ull;
constexpr uptr STACK_SZ = 256 << 10;
constexpr uptr STACK_STRIDE = 512 << 10;  // upper half used, lower half is guard
constexpr uptr HEAP_SZ = 4 << 20;
constexpr uptr SCRATCH_SZ = 1 << 20;
constexpr uptr STACKS = REGION;
constexpr uptr HEAPS = REGION + MAXT * STACK_STRIDE;
constexpr uptr SCRATCHES = HEAPS + MAXT * HEAP_SZ;
constexpr uptr REGION_END = SCRATCHES + MAXT * SCRATCH_SZ;
constexpr int MAXNODES = 20000;
constexpr int NLOC = 1 << 14;
constexpr int MAXBLOCKS = 1 << 16;

enum Kind : u8 {
  K_NONE, K_START, K_LOAD, K_STORE, K_RMW, K_LOCK, K_TRYLOCK, K_UNLOCK, K_CVENQ, K_CVWAKE, K_SIGNAL, K_BCAST, K_JOIN,
  K_SLEEP, K_YIELD, K_GREAD, K_GWRITE, K_FIN
};
const char* const kKindName[] = {"none", "start", "load", "store", "rmw", "lock", "trylock", "unlock", "cv_wait",
                                 "cv_wake", "notify_one", "notify_all", "join", "sleep", "yield", "ghost_r", "ghost_w",
                                 "finish"};

struct VC {
  u32 c[MAXT];
  void join(const VC& o) {
    for (int i = 0; i < MAXT; ++i) {
      if (o.c[i] > c[i]) c[i] = o.c[i];
    }
  }
  void clear() { memset(c, 0, sizeof c); }
};

struct Op {
  Kind kind;
  bool write;       // conservative
  bool timed;       // CVWAKE
  u8 size;
  u8 target;        // JOIN
  uptr addr;
  uptr addr2;       // CVENQ: the mutex
  uptr pc;
  long long deadline;
};

struct StaleVal {   // an overwritten store
  u64 val;
  VC rel;           // what an acquire load that reads it synchronises with
  u32 idx;          // position in the modification order
  u32 clk;          // epoch of the store that overwrote it
  u8 tid;
};
constexpr int MAXHIST = 4;

struct Loc {
  uptr addr;
  u32 gen;
  int lastW;
  int lastR[MAXT];
  VC rel;
  u64 hash;
  // mutex
  int owner;      // -1 free
  int lastLock;   // node index
  int lastUnlock;
  VC uclk;        // DPOR clock of last unlock
  bool tried;
  // condition variable
  u8 nwait;
  u8 waiters[MAXT];
  // store history (weak-memory mode)
  int nhist;
  u32 nstores;
  u32 rdidx[MAXT];  // newest store each thread has read, and its epoch then
  u32 rdclk[MAXT];
  StaleVal hist[MAXHIST];
};

struct Rec {
  u32 clk;
  u8 tid;
  u8 kind;  // 1 write, 2 atomic, 4 free
  u8 mask;
  u8 pad;
};
struct Granule {
  u32 gen;
  u8 n;
  u8 next;
  u16 pad;
  Rec r[7];
};

struct Block {
  uptr addr;
  uptr size;
  uptr pc;
  u8 tid;
  u8 live;
};

struct EhGlobals {
  void* caught;
  unsigned uncaught;
};

struct Thr {
  int id;
  enum St : u8 { FREE, PEND, RUN, FIN } st;
  void* sp;
  Op op;
  std::function<void()> fn;
  void* (*pstart)(void*);
  void* parg;
  bool is_p;
  bool detached, joined;
  VC vc, fence_rel, acq_pend;
  VC dclk;
  u64 hash;
  VC finvc, findclk;
  u64 finhash;
  // cv state
  bool signaled;
  VC sigvc, sigd;
  u64 sighash;
  int sig_node;
  int weak_left, spur_left, stale_left;
  // spin detection
  uptr spin_addr;
  u64 spin_val;
  int spin_n;
  uptr spin_pc;      // site of the load that keeps returning spin_val
  int stut_n;        // how often it did so in a row
  int notrack;
  u64 allocs;
  uptr heap_top, scratch_top;
  EhGlobals eh;
  uptr tls[1024];
};

struct Node {
  u8 choice;   // 0: scheduling node, 1: data choice
  u8 chosen;   // thread / alternative
  u8 nalt;
  u8 prev;     // thread running before
  u16 enabled, sleep, backtrack, done;
  u16 nopre;   // PB: threads whose scheduling costs nothing
  u8 pre;      // PB: preemptions used before this node
  // event
  Kind kind;
  bool write;
  bool isevent;
  u32 lidx;
  uptr addr, pc;
  u64 val;
  VC clk;
};

struct Test {
  std::string name;
  mc::Opts o;
  std::function<void()> fn;
};

constexpr u64 kCacheCap = 1ull << 25;
struct CacheEnt {
  u64 key;
  u8 pre;
};

constexpr int MAXOUT = 1 << 13;
struct RT {
  bool active;      // inside an execution
  bool warm;        // warm-up execution
  bool pb;          // preemption-bounded mode
  bool replaying;
  bool verbose;
  bool tried_any;   // some mutex has been try-locked in this process
  bool restart;
  u32 gen;
  int nthr;
  int cur;
  int runner;       // thread chosen at the last scheduling node
  Thr thr[MAXT];
  Node nodes[MAXNODES];
  int nnodes, pos;
  int fresh_from;   // nodes with index >= this are new in this execution
  int last_sched;   // index of the scheduling node of the running transition
  int steps;
  int pre_used;
  long long clock;
  int abandon;      // 0 run, 1 finished, 2 sleep-blocked / cached, 3 warm-up aborted
  void* main_sp;
  EhGlobals main_eh;
  const Test* test;
  Loc locs[NLOC];
  Block blocks[MAXBLOCKS];
  int nblocks;
  u64 tot_allocs;
  u64 trace_hash;
  int spin_only;
  // search statistics
  u64 execs, complete, blocked, transitions, states, choice_nodes, validated, cache_hits, races_ignored;
  int maxdepth, maxthreads;
  // outcomes
  int nout;
  u64 outh[MAXOUT];
  char outs[64][160];
  char curout[160];
  CacheEnt* cache;
  u64 ncache;
  // output
  const char* outfile;
  char sample[8192];
  bool have_sample;
  char params[256];
  u64 seed;
  // replay list
  int nreplay;
  u8 replay[MAXNODES];
};

RT* g;
Granule* gsh;     // shadow of region
Granule* dsh;     // shadow of globals
u8* hstate;       // per 16 bytes of heaps: 0 never, 1 live, 2 freed
char* snap;
uptr tls_lo, tls_sz;
double t_start;

inline u64 mix(u64 h, u64 v) {
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  h ^= h >> 32;
  return h;
}

double wall() {
  timespec ts;
  syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}

std::vector<Test>& tests() {
  static std::vector<Test>* v = new std::vector<Test>;
  return *v;
}

// ---- context switch ----------------------------------------------------------------------------
extern "C" void mc_switch(void** save, void* to);
asm(R"(
.text
.globl mc_switch
.type mc_switch,@function
mc_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size mc_switch,.-mc_switch
)");

EhGlobals* eh() { return reinterpret_cast<EhGlobals*>(abi::__cxa_get_globals()); }

inline Thr& me() { return g->thr[g->cur]; }
uptr stack_hi(int t) { return STACKS + (uptr)(t + 1) * STACK_STRIDE; }
uptr heap_lo(int t) { return HEAPS + (uptr)t * HEAP_SZ; }

// ---- reporting ---------------------------------------------------------------------------------
const char* catname(unsigned c) {
  switch (c) {
    case mc::V_ASSERT: return "assert";
    case mc::V_DEADLOCK: return "deadlock";
    case mc::V_UAF: return "use-after-free";
    case mc::V_FREE: return "bad-free";
    case mc::V_LEAK: return "leak";
    case mc::V_RACE: return "race";
    case mc::V_CRASH: return "crash";
  }
  return "?";
}

void addr_label(uptr a, char* b, size_t n) {
  if (a >= HEAPS && a < SCRATCHES) {
    int t = (a - HEAPS) / HEAP_SZ;
    snprintf(b, n, "heap%d+0x%lx", t, (unsigned long)(a - heap_lo(t)));
  } else if (a >= STACKS && a < HEAPS) {
    int t = (a - STACKS) / STACK_STRIDE;
    snprintf(b, n, "stack%d-0x%lx", t, (unsigned long)(stack_hi(t) - a));
  } else {
    snprintf(b, n, "0x%lx", (unsigned long)a);
  }
}

struct Buf {
  char* p;
  size_t cap, n;
  void add(const char* f, ...) __attribute__((format(printf, 2, 3))) {
    if (n + 1 >= cap) return;
    va_list ap;
    va_start(ap, f);
    int k = vsnprintf(p + n, cap - n, f, ap);
    va_end(ap);
    if (k > 0) n += (size_t)k;
    if (n >= cap) n = cap - 1;
  }
  void esc(const char* s) {
    for (; *s; ++s) {
      unsigned char c = (unsigned char)*s;
      if (c == '"' || c == '\\') add("\\%c", c);
      else if (c == '\n') add("\\n");
      else if (c < 32 || c > 126) add("?");
      else add("%c", c);
    }
  }
};

void trace_to(Buf& b, int maxn) {
  int shown = 0;
  for (int i = 0; i < g->pos; ++i) {
    Node& n = g->nodes[i];
    if (n.choice) {
      b.add("%schoice=%d/%d", shown++ ? "; " : "", n.chosen, n.nalt);
    } else if (n.isevent) {
      char l[64];
      addr_label(n.addr, l, sizeof l);
      b.add("%sT%d %s %s =%llx @%lx", shown++ ? "; " : "", n.chosen, kKindName[n.kind], l, (unsigned long long)n.val,
            (unsigned long)n.pc);
    } else {
      b.add("%sT%d ->", shown++ ? "; " : "", n.chosen);
    }
    if (shown >= maxn) {
      b.add("; ...");
      break;
    }
  }
}

struct BtState {
  uptr pcs[40];
  int n;
};
_Unwind_Reason_Code bt_cb(_Unwind_Context* c, void* a) {
  auto* s = static_cast<BtState*>(a);
  uptr pc = _Unwind_GetIP(c);
  if (pc == 0 || s->n >= 40) return _URC_END_OF_STACK;
  s->pcs[s->n++] = pc;
  return _URC_NO_REASON;
}

void write_result(const char* verdict, unsigned cat, const char* msg, bool capped) {
  size_t cap = 4 << 20;
  char* mem = (char*)mmap(nullptr, cap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  Buf b{mem, cap, 0};
  b.add("{\"test\":\"");
  b.esc(g->test ? g->test->name.c_str() : "?");
  b.add("\",\"verdict\":\"%s\",\"category\":\"%s\",\"message\":\"", verdict, cat ? catname(cat) : "");
  b.esc(msg);
  b.add("\",\"mode\":\"%s\",\"bound\":%d,\"execs\":%llu,\"complete\":%llu,\"blocked\":%llu,\"cache_hits\":%llu,"
        "\"transitions\":%llu,\"states\":%llu,"
        "\"choice_nodes\":%llu,\"validated\":%llu,\"maxdepth\":%d,\"threads\":%d,\"capped\":%s,\"wall\":%.3f,"
        "\"outcomes\":%d,\"outcome_list\":[",
        g->pb ? "pb" : "dpor", g->test ? g->test->o.bound : 0, (unsigned long long)g->execs,
        (unsigned long long)g->complete, (unsigned long long)g->blocked, (unsigned long long)g->cache_hits,
        (unsigned long long)g->transitions, (unsigned long long)g->states, (unsigned long long)g->choice_nodes,
        (unsigned long long)g->validated, g->maxdepth, g->maxthreads, capped ? "true" : "false", wall() - t_start,
        g->nout);
  for (int i = 0; i < g->nout && i < 64; ++i) {
    b.add("%s\"", i ? "," : "");
    b.esc(g->outs[i]);
    b.add("\"");
  }
  b.add("],\"sample\":\"");
  b.esc(g->sample);
  b.add("\"");
  if (cat) {
    b.add(",\"schedule\":[");
    for (int i = 0; i < g->pos; ++i) b.add("%s%d", i ? "," : "", g->nodes[i].chosen);
    b.add("],\"trace\":\"");
    static char* tb = nullptr;
    tb = (char*)mmap(nullptr, 1 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    Buf t{tb, 1 << 20, 0};
    trace_to(t, 3000);
    b.esc(tb);
    b.add("\",\"backtrace\":[");
    BtState s{};
    _Unwind_Backtrace(bt_cb, &s);
    for (int i = 0; i < s.n; ++i) b.add("%s\"%lx\"", i ? "," : "", (unsigned long)s.pcs[i]);
    b.add("]");
  }
  b.add("}\n");
  int fd = g->outfile ? open(g->outfile, O_CREAT | O_TRUNC | O_WRONLY, 0644) : 1;
  size_t off = 0;
  while (off < b.n) {
    ssize_t k = write(fd, mem + off, b.n - off);
    if (k <= 0) break;
    off += (size_t)k;
  }
  if (g->outfile) close(fd);
}

[[noreturn]] void internal(const char* fmt, ...) {
  char m[400];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(m, sizeof m, fmt, ap);
  va_end(ap);
  fprintf(stderr, "yamc internal error: %s (test %s exec %llu pos %d)\n", m, g && g->test ? g->test->name.c_str() : "?",
          g ? (unsigned long long)g->execs : 0ull, g ? g->pos : 0);
  if (g) {
    g->active = false;
    write_result("internal", 0, m, true);
  }
  _exit(3);
}

void end_execution(int why);

// Returns only if the category is masked out.
void violation(unsigned cat, const char* fmt, ...) {
  if (g->warm) {
    if (cat & (mc::V_RACE | mc::V_LEAK | mc::V_UAF)) return;
    end_execution(3);
  }
  if (!(g->test->o.mask & cat)) {
    if (cat & (mc::V_RACE | mc::V_LEAK | mc::V_ASSERT | mc::V_DEADLOCK)) return;
    // anything else cannot be continued from: always reported
  }
  char m[1000];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(m, sizeof m, fmt, ap);
  va_end(ap);
  g->active = false;
  write_result("violation", cat, m, true);
  _exit(10);
}

// ---- location table ----------------------------------------------------------------------------
Loc& loc(uptr a) {
  u32 h = (u32)((a * 0x9e3779b97f4a7c15ull) >> 40) & (NLOC - 1);
  for (int k = 0; k < NLOC; ++k) {
    Loc& l = g->locs[h];
    if (l.gen != g->gen) {
      memset(&l, 0, offsetof(Loc, hist));
      l.addr = a;
      l.gen = g->gen;
      l.lastW = -1;
      for (int& r : l.lastR) r = -1;
      l.hash = a;
      l.owner = -1;
      l.lastLock = l.lastUnlock = -1;
      return l;
    }
    if (l.addr == a) return l;
    h = (h + 1) & (NLOC - 1);
  }
  internal("location table full");
}

// ---- dependence --------------------------------------------------------------------------------
inline bool dep(const Op& a, uptr baddr, uptr baddr2, bool bwrite) {
  if (a.addr == 0 || baddr == 0) return false;
  if (a.addr == baddr && (a.write || bwrite)) return true;
  if (a.addr2 && (a.addr2 == baddr || a.addr2 == baddr2)) return true;
  if (baddr2 && baddr2 == a.addr) return true;
  return false;
}

// ---- scheduler ---------------------------------------------------------------------------------
bool enabled(const Thr& t) {
  if (t.st != Thr::PEND) return false;
  switch (t.op.kind) {
    case K_LOCK: return loc(t.op.addr).owner < 0;
    case K_CVWAKE: return t.signaled || t.op.timed || t.spur_left > 0;
    case K_JOIN: return g->thr[t.op.target].st == Thr::FIN;
    default: return true;
  }
}
bool immediate(const Thr& t) {
  if (t.st != Thr::PEND) return false;
  switch (t.op.kind) {
    case K_START: return true;
    case K_UNLOCK: return !g->tried_any;
    case K_JOIN: return g->thr[t.op.target].st == Thr::FIN;
    default: return false;
  }
}
bool low_prio(const Thr& t) {
  return (t.op.kind == K_CVWAKE && !t.signaled) || t.op.kind == K_SLEEP || t.op.kind == K_YIELD;
}

void switch_out(void** save, void* to) {
  mc_switch(save, to);
}

void save_ctx(Thr& t) {
  t.eh = *eh();
  if (tls_sz) memcpy(t.tls, (void*)tls_lo, tls_sz);
}
void load_ctx(Thr& t) {
  *eh() = t.eh;
  if (tls_sz) memcpy((void*)tls_lo, t.tls, tls_sz);
}

[[noreturn]] void to_main() {
  void* dummy;
  *eh() = g->main_eh;
  g->active = false;
  switch_out(&dummy, g->main_sp);
  __builtin_unreachable();
}

void end_execution(int why) {
  g->abandon = why;
  to_main();
}

u64 state_key(int curthr) {
  u64 k = mix(0x1234567, (u64)g->clock);
  u64 s = 0;
  for (int i = 0; i < g->nthr; ++i) {
    Thr& t = g->thr[i];
    u64 h = mix(t.hash, (u64)t.st * 7 + t.signaled);
    h = mix(h, (u64)t.weak_left * 31 + (u64)t.spur_left);
    s += mix(h, (u64)i + 1);
  }
  k = mix(k, s);
  return mix(k, (u64)curthr + 77);
}

// true if (key) was already expanded with no more preemptions used
bool cache_seen(u64 key, int pre) {
  if (!g->cache) {
    g->cache = (CacheEnt*)mmap(nullptr, kCacheCap * sizeof(CacheEnt), PROT_READ | PROT_WRITE,
                               MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (g->cache == MAP_FAILED) internal("cache mmap");
  }
  if (key == 0) key = 1;
  u64 i = key & (kCacheCap - 1);
  for (int k = 0; k < 64; ++k, i = (i + 1) & (kCacheCap - 1)) {
    CacheEnt& e = g->cache[i];
    if (e.key == 0) {
      if (g->ncache * 10 > kCacheCap * 8) return false;
      e.key = key;
      e.pre = (u8)pre;
      ++g->ncache;
      return false;
    }
    if (e.key == key) {
      if (e.pre <= pre) return true;
      e.pre = (u8)pre;
      return false;
    }
  }
  return false;
}

Node& push_node() {
  if (g->nnodes >= MAXNODES) internal("node stack overflow");
  Node& n = g->nodes[g->nnodes++];
  memset(&n, 0, sizeof n);
  return n;
}

// Selects the thread that executes next.  Never returns when the execution ends here.
int pick() {
  int nthr = g->nthr;
  // 1. operations that commute to the front
  if (g->cur >= 0 && immediate(me())) return g->cur;
  for (int i = 0; i < nthr; ++i) {
    if (immediate(g->thr[i])) return i;
  }
  // 2. enabled set
  u16 en = 0, spin = 0;
  bool alive = false;
  for (int i = 0; i < nthr; ++i) {
    Thr& t = g->thr[i];
    if (t.st != Thr::FIN) alive = true;
    if (enabled(t)) {
      // A load about to repeat itself for the third time in a row: nothing can change until that location is written.
      if (t.stut_n >= 2 && t.op.kind == K_LOAD && t.op.addr == t.spin_addr && t.op.pc == t.spin_pc) spin |= 1 << i;
      else if (t.spin_n >= 8 && (t.op.kind == K_LOAD || t.op.kind == K_RMW || t.op.kind == K_YIELD) ) spin |= 1 << i;
      else en |= 1 << i;
    }
  }
  if (!alive) end_execution(1);
  if (en == 0 && spin) {
    if (++g->spin_only > 200) {
      violation(mc::V_DEADLOCK, "livelock: only spinning threads remain");
      end_execution(1);
    }
    for (int i = 0; i < nthr; ++i) {
      if (spin >> i & 1) g->thr[i].spin_n = g->thr[i].stut_n = 0;
    }
    en = spin;
  }
  if (en == 0) {
    char m[600];
    Buf b{m, sizeof m, 0};
    for (int i = 0; i < nthr; ++i) {
      if (g->thr[i].st == Thr::PEND) b.add(" T%d blocked in %s;", i, kKindName[g->thr[i].op.kind]);
    }
    violation(mc::V_DEADLOCK, "deadlock:%s", m);
    end_execution(1);
  }
  if (++g->steps > g->test->o.max_steps) {
    violation(mc::V_DEADLOCK, "no termination within %d steps", g->test->o.max_steps);
    end_execution(1);
  }
  // 3. the node
  int prev = g->runner;
  if (g->warm) {
    if (en >> prev & 1 && !low_prio(g->thr[prev])) return prev;
    for (int i = 0; i < nthr; ++i) {
      if ((en >> i & 1) && !low_prio(g->thr[i])) return i;
    }
    for (int i = 0; i < nthr; ++i) {
      if (en >> i & 1) return i;
    }
  }
  int idx = g->pos;
  if (g->replaying) {
    if (idx >= g->nreplay) {
      // beyond the recorded schedule: default policy
      Node& n = push_node();
      n.enabled = en;
      n.prev = (u8)prev;
      int c = -1;
      if (prev >= 0 && (en >> prev & 1)) c = prev;
      for (int i = 0; c < 0 && i < nthr; ++i) {
        if (en >> i & 1) c = i;
      }
      n.chosen = (u8)c;
    } else {
      Node& n = push_node();
      n.enabled = en;
      n.prev = (u8)prev;
      n.chosen = g->replay[idx];
      if (!(en >> n.chosen & 1)) internal("replay: thread %d not enabled at %d", n.chosen, idx);
    }
  } else if (idx < g->nnodes) {
    Node& n = g->nodes[idx];
    if (n.choice || n.enabled != en) internal("nondeterministic replay at %d (enabled %x vs %x)", idx, n.enabled, en);
  } else {
    // new node
    u16 sleep = 0;
    if (!g->pb && g->last_sched >= 0) {
      Node& p = g->nodes[g->last_sched];
      u16 cand = (u16)((p.sleep | p.done) & ~(1u << p.chosen));
      for (int q = 0; q < nthr; ++q) {
        if (!(cand >> q & 1)) continue;
        const Op& o = g->thr[q].op;
        uptr a2 = p.kind == K_CVENQ ? p.val : 0;
        if (!dep(o, p.isevent ? p.addr : 0, a2, p.write)) sleep |= (u16)(1 << q);
      }
    }
    int c = -1;
    u16 avail = (u16)(en & ~sleep);
    if (!g->pb && avail == 0) end_execution(2);
    u16 nopre = 0;
    bool cur_en = prev >= 0 && (en >> prev & 1) && !low_prio(g->thr[prev]);
    if (g->pb) {
      if (cache_seen(state_key(prev), g->pre_used)) {
        ++g->cache_hits;
        end_execution(2);
      }
      nopre = cur_en ? (u16)(1 << prev) : en;
      if (g->pre_used >= g->test->o.bound) avail = nopre;
    }
    if (prev >= 0 && (avail >> prev & 1) && !low_prio(g->thr[prev])) c = prev;
    for (int i = 0; c < 0 && i < nthr; ++i) {
      if ((avail >> i & 1) && !low_prio(g->thr[i])) c = i;
    }
    for (int i = 0; c < 0 && i < nthr; ++i) {
      if (avail >> i & 1) c = i;
    }
    Node& n = push_node();
    ++g->states;
    n.enabled = en;
    n.sleep = sleep;
    n.prev = (u8)prev;
    n.chosen = (u8)c;
    n.nopre = nopre;
    n.pre = (u8)g->pre_used;
    n.backtrack = g->pb ? avail : (u16)(1 << c);
  }
  Node& n = g->nodes[idx];
  n.isevent = false;
  g->pos = idx + 1;
  g->last_sched = idx;
  g->runner = n.chosen;
  ++g->transitions;
  if (g->pos > g->maxdepth) g->maxdepth = g->pos;
  if (g->pb && !(n.nopre >> n.chosen & 1)) ++g->pre_used;
  return n.chosen;
}

void schedule() {
  int prev = g->cur;
  int next = pick();
  if (next == prev) return;
  Thr& a = g->thr[prev];
  Thr& b = g->thr[next];
  save_ctx(a);
  g->cur = next;
  load_ctx(b);
  switch_out(&a.sp, b.sp);
}

int data_choice(int n, const char*) {
  if (n <= 1 || g->warm) return 0;
  int idx = g->pos;
  if (g->replaying) {
    Node& nd = push_node();
    nd.choice = 1;
    nd.nalt = (u8)n;
    nd.chosen = idx < g->nreplay ? g->replay[idx] : 0;
    if (nd.chosen >= n) internal("replay: bad choice");
  } else if (idx < g->nnodes) {
    if (!g->nodes[idx].choice || g->nodes[idx].nalt != n) internal("nondeterministic replay (choice) at %d", idx);
  } else {
    Node& nd = push_node();
    nd.choice = 1;
    nd.nalt = (u8)n;
    ++g->choice_nodes;
  }
  g->pos = idx + 1;
  if (g->pos > g->maxdepth) g->maxdepth = g->pos;
  me().hash = mix(me().hash, 0xC0 + g->nodes[idx].chosen);
  return g->nodes[idx].chosen;
}

// ---- DPOR --------------------------------------------------------------------------------------
void add_race(int ei, int t, const VC& dprime) {
  Node& e = g->nodes[ei];
  u32 firstl[MAXT];
  u16 seen = 0, init = 0;
  for (int j = ei + 1; j < g->last_sched; ++j) {
    Node& f = g->nodes[j];
    if (f.choice || !f.isevent) continue;
    int ft = f.chosen;
    if (f.clk.c[e.chosen] >= e.lidx) continue;
    if (seen >> ft & 1) continue;
    bool ok = true;
    for (int q = 0; q < g->nthr; ++q) {
      if ((seen >> q & 1) && f.clk.c[q] >= firstl[q]) ok = false;
    }
    seen |= (u16)(1 << ft);
    firstl[ft] = f.lidx;
    if (ok) init |= (u16)(1 << ft);
  }
  if (!(seen >> t & 1)) {
    bool ok = true;
    for (int q = 0; q < g->nthr; ++q) {
      if ((seen >> q & 1) && dprime.c[q] >= firstl[q]) ok = false;
    }
    if (ok) init |= (u16)(1 << t);
  }
  if (init & (e.backtrack | e.sleep)) return;
  u16 cand = init & e.enabled;
  if (cand) {
    int q = (cand >> t & 1) ? t : __builtin_ctz(cand);
    e.backtrack |= (u16)(1 << q);
  } else {
    e.backtrack |= e.enabled;
  }
}

// Register the visible event of the current transition.
void commit(Kind k, Loc* L, uptr addr, bool write, uptr pc, u64 val, const int* extra = nullptr, int nextra = 0) {
  Thr& t = me();
  if (g->warm) return;
  Node& n = g->nodes[g->last_sched];
  n.kind = k;
  n.write = write;
  n.isevent = true;
  n.addr = addr;
  n.pc = pc;
  n.val = val;
  g->trace_hash = mix(g->trace_hash, mix(addr * 3 + (u64)k, (u64)t.id));
  t.dclk.c[t.id]++;
  n.lidx = t.dclk.c[t.id];
  if (!g->pb && !g->replaying) {
    int cands[2 * MAXT + 4];
    int nc = 0;
    auto push = [&](int c) {
      if (c >= 0 && g->nodes[c].chosen != t.id) {
        int i = nc++;
        while (i > 0 && cands[i - 1] < c) {
          cands[i] = cands[i - 1];
          --i;
        }
        cands[i] = c;
      }
    };
    if (L) {
      push(L->lastW);
      if (write) {
        for (int q = 0; q < g->nthr; ++q) push(L->lastR[q]);
      }
    }
    for (int i = 0; i < nextra; ++i) push(extra[i]);
    VC d = t.dclk;
    // two passes: the clock after all joins is needed for the initials
    bool israce[2 * MAXT + 4];
    for (int i = 0; i < nc; ++i) {
      Node& e = g->nodes[cands[i]];
      israce[i] = d.c[e.chosen] < e.lidx;
      d.join(e.clk);
    }
    bool fresh = g->last_sched >= g->fresh_from;
    if (fresh) {
      for (int i = 0; i < nc; ++i) {
        if (israce[i]) add_race(cands[i], t.id, d);
      }
    }
    t.dclk = d;
  } else {
    if (L && L->lastW >= 0) t.dclk.join(g->nodes[L->lastW].clk);
  }
  n.clk = t.dclk;
  if (L) {
    if (write) {
      L->lastW = g->last_sched;
      for (int& r : L->lastR) r = -1;
    } else {
      L->lastR[t.id] = g->last_sched;
    }
    // HB hash
    t.hash = mix(mix(t.hash, L->hash), addr ^ ((u64)k << 56));
    if (write) L->hash = t.hash;
  } else {
    t.hash = mix(t.hash, ((u64)k << 56) ^ addr);
  }
}
void set_event_clock() {  // after joining further edges
  if (!g->warm) g->nodes[g->last_sched].clk = me().dclk;
}

// ---- race detector -----------------------------------------------------------------------------
inline Granule* shadow(uptr a) {
  if (a - REGION < REGION_END - REGION) return &gsh[(a - REGION) >> 3];
  if (a >= (uptr)__data_start && a < (uptr)_end) return &dsh[(a - (uptr)__data_start) >> 3];
  return nullptr;
}

void race_report(uptr a, const Rec& r, int kind, uptr pc) {
  char l[64];
  addr_label(a, l, sizeof l);
  auto nm = [](int k) {
    return k & 4 ? "free" : (k & 2) ? ((k & 1) ? "atomic write" : "atomic read") : ((k & 1) ? "write" : "read");
  };
  bool fr = (kind | r.kind) & 4;   // nothing orders the release of the memory with another thread's access to it
  violation(fr ? mc::V_UAF : mc::V_RACE, "%s %s: %s by T%d at 0x%lx not ordered after %s by T%d",
            fr ? "unsynchronised release of" : "data race on", l, nm(kind), g->cur, (unsigned long)pc, nm(r.kind), r.tid);
}

inline void shadow_access(Granule* s, uptr a, u8 mask, int kind, uptr pc) {
  Thr& t = me();
  u8 tid = (u8)t.id;
  if (s->gen != g->gen) {
    s->gen = g->gen;
    s->n = 0;
    s->next = 0;
  }
  int repl = -1;
  for (int i = 0; i < s->n; ++i) {
    Rec& r = s->r[i];
    if (!(r.mask & mask)) continue;
    if (r.tid == tid) {
      if (r.kind == kind && r.mask == mask) repl = i;
      continue;
    }
    if (r.clk <= t.vc.c[r.tid]) continue;
    if (!((r.kind | kind) & 1)) continue;                      // two reads
    if ((r.kind & 2) && (kind & 2) && !((r.kind | kind) & 4)) continue;  // two atomics
    race_report(a, r, kind, pc);
  }
  Rec nr{t.vc.c[tid], tid, (u8)kind, mask, 0};
  if (repl >= 0) {
    s->r[repl] = nr;
  } else if (s->n < 7) {
    s->r[s->n++] = nr;
  } else {
    // prefer to evict a record that is already ordered before us
    int v = -1;
    for (int i = 0; i < 7; ++i) {
      if (s->r[i].clk <= t.vc.c[s->r[i].tid] && s->r[i].tid != tid) v = i;
    }
    if (v < 0) {
      v = s->next % 7;
      s->next++;
    }
    s->r[v] = nr;
  }
}

void check_valid(uptr a, uptr n, uptr pc, bool write) {
  if (a >= HEAPS && a < SCRATCHES) {
    for (uptr x = a & ~15ull; x < a + n; x += 16) {
      u8 st = hstate[(x - HEAPS) >> 4];
      if (st != 1) {
        char l[64];
        addr_label(a, l, sizeof l);
        violation(mc::V_UAF, "%s of %lu bytes at %s which is %s (T%d, pc 0x%lx)", write ? "write" : "read",
                  (unsigned long)n, l, st == 2 ? "already freed" : "outside any allocation", g->cur, (unsigned long)pc);
        return;
      }
    }
  } else if (a >= STACKS && a < HEAPS) {
    int u = (int)((a - STACKS) / STACK_STRIDE);
    if (u != g->cur) {
      Thr& t = g->thr[u];
      if (u >= g->nthr || t.st == Thr::FIN || (t.st == Thr::PEND && a < (uptr)t.sp && t.sp)) {
        char l[64];
        addr_label(a, l, sizeof l);
        violation(mc::V_UAF, "%s of %lu bytes at %s: dead stack frame of T%d accessed by T%d (pc 0x%lx)",
                  write ? "write" : "read", (unsigned long)n, l, u, g->cur, (unsigned long)pc);
      }
    }
  } else if (a < 4096) {
    violation(mc::V_CRASH, "null pointer access 0x%lx (T%d, pc 0x%lx)", (unsigned long)a, g->cur, (unsigned long)pc);
  }
}

void hist_reset(uptr a, uptr n);
void access(uptr a, uptr n, int kind, uptr pc) {
  if (!g || !g->active) return;
  Thr& t = me();
  if (t.notrack) return;
  check_valid(a, n, pc, kind & 1);
  if (g->warm) return;
  if (kind == 1) hist_reset(a, n);
  if (a - SCRATCHES < REGION_END - SCRATCHES) return;
  uptr end = a + n;
  while (a < end) {
    uptr ga = a & ~7ull;
    uptr ge = ga + 8 < end ? ga + 8 : end;
    Granule* s = shadow(a);
    if (s) {
      u8 mask = (u8)(((1u << (ge - a)) - 1) << (a - ga));
      shadow_access(s, a, mask, kind, pc);
    }
    a = ge;
  }
}

// ---- execution control ---------------------------------------------------------------------------
void thread_finish() {
  Thr& t = me();
  t.st = Thr::FIN;
  t.finvc = t.vc;
  t.findclk = t.dclk;
  t.finhash = t.hash;
  t.hash = mix(t.hash, 0xF1F1);
  int next = pick();
  Thr& b = g->thr[next];
  g->cur = next;
  load_ctx(b);
  void* dummy;
  switch_out(&dummy, b.sp);
  __builtin_unreachable();
}

void fiber_main() {
  Thr& t = me();
  t.st = Thr::RUN;
  try {
    if (t.is_p) {
      t.pstart(t.parg);
    } else {
      t.fn();
      t.fn = nullptr;
    }
  } catch (...) {
    violation(mc::V_CRASH, "exception escaped from model thread %d", t.id);
    end_execution(1);
  }
  thread_finish();
}

extern "C" void mc_fiber_entry() {
  fiber_main();
  abort();
}

int new_thread() {
  if (g->nthr >= MAXT) internal("too many threads");
  int id = g->nthr++;
  if (g->nthr > g->maxthreads) g->maxthreads = g->nthr;
  Thr& t = g->thr[id];
  memset((void*)&t, 0, sizeof t);
  new (&t.fn) std::function<void()>();
  t.id = id;
  t.heap_top = heap_lo(id) + 16;
  t.scratch_top = SCRATCHES + (uptr)id * SCRATCH_SZ;
  t.weak_left = g->test->o.weak_fail;
  t.spur_left = g->test->o.spurious;
  t.stale_left = g->test->o.stale;
  uptr* sp = (uptr*)(stack_hi(id) - 64);
  *--sp = 0;                      // fake return address of entry
  *--sp = (uptr)&mc_fiber_entry;  // ret target
  for (int i = 0; i < 6; ++i) *--sp = 0;
  t.sp = sp;
  t.st = Thr::PEND;
  t.op = Op{};
  t.op.kind = K_START;
  t.vc.c[id] = 1;
  return id;
}

int spawn_common(std::function<void()>* fn, void* (*ps)(void*), void* arg) {
  Thr& p = me();
  int id = new_thread();
  Thr& t = g->thr[id];
  if (fn) t.fn = std::move(*fn);
  else {
    t.is_p = true;
    t.pstart = ps;
    t.parg = arg;
  }
  t.vc = p.vc;
  t.vc.c[id] = 1;
  p.vc.c[p.id]++;
  t.dclk = p.dclk;
  t.hash = mix(p.hash, 0x5050 + (u64)id);
  p.hash = mix(p.hash, 0x5151 + (u64)id);
  if (tls_sz) memset(t.tls, 0, sizeof t.tls);
  return id;
}

// Visible operation prologue: park with the pending op, return when scheduled.
inline void visible(const Op& op) {
  Thr& t = me();
  t.op = op;
  if (op.kind != K_LOAD && op.kind != K_RMW && op.kind != K_YIELD) t.spin_n = 0;
  if (op.kind != K_LOAD) t.stut_n = 0;
  t.st = Thr::PEND;
  t.sp = __builtin_frame_address(0);
  schedule();
  t.st = Thr::RUN;
}
Op mkop(Kind k, uptr addr, bool write, uptr pc) {
  Op o{};
  o.kind = k;
  o.addr = addr;
  o.write = write;
  o.pc = pc;
  return o;
}

void spin_note(Thr& t, uptr a, u64 v, bool changed, uptr load_pc = 0) {
  if (changed) {
    t.spin_n = 0;
    t.stut_n = 0;
    t.spin_addr = 0;
    for (int i = 0; i < g->nthr; ++i) {
      g->thr[i].spin_n = 0;
      if (g->thr[i].spin_addr == a) g->thr[i].stut_n = 0;
    }
    g->spin_only = 0;
    return;
  }
  if (load_pc != 0 && t.spin_addr == a && t.spin_val == v && t.spin_pc == load_pc) ++t.stut_n;
  else t.stut_n = load_pc != 0 ? 1 : 0;
  t.spin_pc = load_pc;
  if (t.spin_addr == a && t.spin_val == v) ++t.spin_n;
  else {
    t.spin_addr = a;
    t.spin_val = v;
    t.spin_n = 1;
  }
}

// ---- atomics -----------------------------------------------------------------------------------
inline bool is_acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
inline bool is_rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }

void hb_load(Thr& t, Loc& L, int mo) {
  if (is_acq(mo)) t.vc.join(L.rel);
  else t.acq_pend.join(L.rel);
}
void hb_store(Thr& t, Loc& L, int mo, bool rmw) {
  if (is_rel(mo)) {
    if (rmw) L.rel.join(t.vc);
    else L.rel = t.vc;
    t.vc.c[t.id]++;
  } else {
    if (rmw) L.rel.join(t.fence_rel);
    else L.rel = t.fence_rel;
  }
}

inline bool live() { return g && g->active && !me().notrack; }

// Weak-memory mode.  The modification order of a location is the order in which its stores are executed; a load that is
// not sequentially consistent may read an overwritten store as long as no later store happens-before the load and no
// later store was read by something that happens-before it (coherence).  Read-modify-writes always read the newest.
inline bool weak_on() { return g->test->o.stale > 0 && !g->warm; }
void hist_push(Thr& t, Loc& L, u64 old) {   // before the new store updates L.rel
  if (!weak_on()) return;
  if (L.nhist == MAXHIST) memmove(L.hist, L.hist + 1, sizeof L.hist[0] * (MAXHIST - 1)), --L.nhist;
  L.hist[L.nhist++] = StaleVal{old, L.rel, L.nstores++, t.vc.c[t.id], (u8)t.id};
}
void hist_read(Thr& t, Loc& L, u32 idx) {
  if (!weak_on()) return;
  if (idx > L.rdidx[t.id] || L.rdclk[t.id] == 0) L.rdidx[t.id] = idx;
  L.rdclk[t.id] = t.vc.c[t.id];
}
// the overwritten store this load reads, or nullptr for the newest one
StaleVal* hist_pick(Thr& t, Loc& L, int mo, u64 now) {
  if (!weak_on() || t.stale_left <= 0 || mo == __ATOMIC_SEQ_CST || L.nhist == 0) return nullptr;
  u32 floor = 0;
  for (int q = 0; q < g->nthr; ++q) {
    if (L.rdclk[q] != 0 && L.rdidx[q] > floor && (q == t.id || L.rdclk[q] <= t.vc.c[q])) floor = L.rdidx[q];
  }
  StaleVal* c[MAXHIST];
  int n = 0;
  for (int i = L.nhist - 1; i >= 0; --i) {
    StaleVal& h = L.hist[i];
    if (h.clk <= t.vc.c[h.tid] || h.idx < floor) break;
    c[n++] = &h;
  }
  (void)now;
  int k = data_choice(n + 1, "stale");
  if (k == 0) return nullptr;
  --t.stale_left;
  return c[k - 1];
}
void hist_reset(uptr a, uptr n) {   // a plain write starts a new object
  if (!weak_on()) return;
  for (uptr x = a & ~3ull; x < a + n; ++x) {
    u32 h = (u32)((x * 0x9e3779b97f4a7c15ull) >> 40) & (NLOC - 1);
    for (;; h = (h + 1) & (NLOC - 1)) {
      Loc& l = g->locs[h];
      if (l.gen != g->gen) break;
      if (l.addr == x) {
        l.nhist = 0;
        memset(l.rdclk, 0, sizeof l.rdclk);
        break;
      }
    }
  }
}

template <typename T>
T a_load(const volatile T* p, int mo, uptr pc) {
  if (!live()) return *p;
  uptr a = (uptr)p;
  visible(mkop(K_LOAD, a, false, pc));
  access(a, sizeof(T), 2, pc);
  T v = *p;
  Thr& t = me();
  Loc& L = loc(a);
  if (StaleVal* s = hist_pick(t, L, mo, (u64)v)) {
    v = (T)s->val;
    u32 idx = s->idx;
    commit(K_LOAD, &L, a, false, pc, (u64)v);
    if (is_acq(mo)) t.vc.join(s->rel);
    else t.acq_pend.join(s->rel);
    hist_read(t, L, idx);
    t.stut_n = 0;
    return v;
  }
  commit(K_LOAD, &L, a, false, pc, (u64)v);
  hb_load(t, L, mo);
  hist_read(t, L, L.nstores);
  spin_note(t, a, (u64)v, false, pc);
  return v;
}
template <typename T>
void a_store(volatile T* p, T v, int mo, uptr pc) {
  if (!live()) {
    *p = v;
    return;
  }
  uptr a = (uptr)p;
  visible(mkop(K_STORE, a, true, pc));
  access(a, sizeof(T), 3, pc);
  Thr& t = me();
  Loc& L = loc(a);
  commit(K_STORE, &L, a, true, pc, (u64)v);
  hist_push(t, L, (u64)*p);
  hb_store(t, L, mo, false);
  *p = v;
  spin_note(t, a, 0, true);
}
template <typename T, typename F>
T a_rmw(volatile T* p, int mo, uptr pc, F f) {
  if (!live()) {
    T o = *p;
    *p = f(o);
    return o;
  }
  uptr a = (uptr)p;
  visible(mkop(K_RMW, a, true, pc));
  access(a, sizeof(T), 3, pc);
  Thr& t = me();
  Loc& L = loc(a);
  T o = *p;
  T nv = f(o);
  // an exchange that changes nothing and releases nothing is a read
  commit(K_RMW, &L, a, o != nv || is_rel(mo), pc, (u64)nv);
  hist_push(t, L, (u64)o);
  hb_load(t, L, mo);
  hist_read(t, L, L.nstores);
  hb_store(t, L, mo, true);
  *p = nv;
  spin_note(t, a, (u64)o, o != nv);
  return o;
}
template <typename T>
bool a_cas(volatile T* p, T* exp, T des, int mo, int fmo, bool weak, uptr pc) {
  if (!live()) {
    if (*p == *exp) {
      *p = des;
      return true;
    }
    *exp = *p;
    return false;
  }
  uptr a = (uptr)p;
  access((uptr)exp, sizeof(T), 0, pc);
  visible(mkop(K_RMW, a, true, pc));
  Thr& t = me();
  Loc& L = loc(a);
  T o = *p;
  bool ok = o == *exp;
  if (ok && weak && t.weak_left > 0) {
    if (data_choice(2, "weak") == 1) {
      --t.weak_left;
      ok = false;
    }
  }
  access(a, sizeof(T), ok ? 3 : 2, pc);
  if (ok) {
    commit(K_RMW, &L, a, true, pc, (u64)des);
    hist_push(t, L, (u64)o);
    hb_load(t, L, mo);
    hist_read(t, L, L.nstores);
    hb_store(t, L, mo, true);
    *p = des;
    spin_note(t, a, (u64)o, true);
  } else {
    commit(K_RMW, &L, a, false, pc, (u64)o);
    hb_load(t, L, fmo);
    hist_read(t, L, L.nstores);
    access((uptr)exp, sizeof(T), 1, pc);
    *exp = o;
    spin_note(t, a, (u64)o, false);
  }
  return ok;
}

// ---- heap --------------------------------------------------------------------------------------
// A harness that defines `bool mc_snapshot_heap = true` gets the heap blocks made by static initialisers and by the
// warm-up execution restored before every execution, like the data segment that points to them.
constexpr size_t NATA_SZ = 16 << 20;
char* nata;
size_t nata_top;
bool in_main;
void* native_alloc(size_t n, size_t align) {
  if (&mc_snapshot_heap && (!in_main || (g && g->active && g->warm))) {
    if (!nata) nata = (char*)mmap(nullptr, 2 * NATA_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (align < 16) align = 16;
    size_t at = (nata_top + align - 1) & ~(align - 1);
    nata_top = at + (n ? n : 1);
    if (nata_top > NATA_SZ) internal("native arena exhausted");
    return nata + at;
  }
  return align > 16 ? aligned_alloc(align, (n + align - 1) / align * align) : malloc(n ? n : 1);
}
void take_snapshot() {
  memcpy(snap, __data_start, (size_t)(_end - __data_start));
  if (nata_top) memcpy(nata + NATA_SZ, nata, nata_top);
}
void* do_alloc(size_t n, size_t align, uptr pc) {
  if (!g || !g->active || g->warm) {
    void* p = native_alloc(n, align);
    if (g && g->active && g->warm && me().notrack == 0) {
      ++g->tot_allocs;
      ++me().allocs;
    }
    if (!p) throw std::bad_alloc();
    return p;
  }
  Thr& t = me();
  if (align < 16) align = 16;
  if (t.notrack) {
    uptr a = (t.scratch_top + align - 1) & ~(align - 1);
    t.scratch_top = a + n + 16;
    if (t.scratch_top > SCRATCHES + (uptr)(t.id + 1) * SCRATCH_SZ) internal("scratch arena exhausted");
    return (void*)a;
  }
  ++g->tot_allocs;
  ++t.allocs;
  uptr a = (t.heap_top + 16 + align - 1) & ~(align - 1);
  uptr sz = (n + 15) & ~15ull;
  if (sz == 0) sz = 16;
  t.heap_top = a + sz;
  if (t.heap_top + 64 > heap_lo(t.id) + HEAP_SZ) internal("heap arena exhausted");
  if (g->nblocks >= MAXBLOCKS) internal("block table full");
  int bi = g->nblocks++;
  g->blocks[bi] = Block{a, n, pc, (u8)t.id, 1};
  *(u64*)(a - 16) = 0xA110CA7ED0000000ull | (u64)bi;
  memset((void*)a, 0xCD, sz);
  memset(&hstate[(a - HEAPS) >> 4], 1, sz >> 4);
  return (void*)a;
}

void do_free(void* p, uptr pc) {
  if (!p) return;
  uptr a = (uptr)p;
  if (a >= SCRATCHES && a < REGION_END) return;
  if (!(a >= HEAPS && a < SCRATCHES)) {
    if (a >= REGION && a < REGION_END) {
      violation(mc::V_FREE, "delete of stack memory");
      return;
    }
    if (a >= (uptr)__data_start && a < (uptr)_end) {
      violation(mc::V_FREE, "delete of a global object");
      return;
    }
    if (nata && (char*)p >= nata && (char*)p < nata + NATA_SZ) return;
    free(p);
    return;
  }
  if (!g->active) return;
  u64 h = (a & 15) ? 0 : *(u64*)(a - 16);
  int bi = (int)(h & 0xfffffff);
  if ((h >> 28) != (0xA110CA7ED0000000ull >> 28) || bi >= g->nblocks || g->blocks[bi].addr != a) {
    char l[64];
    addr_label(a, l, sizeof l);
    violation(mc::V_FREE, "delete of %s which is not the start of an allocation", l);
    return;
  }
  Block& b = g->blocks[bi];
  if (!b.live) {
    char l[64];
    addr_label(a, l, sizeof l);
    violation(mc::V_FREE, "double delete of %s (%lu bytes) by T%d pc 0x%lx", l, (unsigned long)b.size, g->cur,
              (unsigned long)pc);
    return;
  }
  access(a, b.size ? b.size : 1, 1 | 4, pc);
  b.live = 0;
  uptr sz = (b.size + 15) & ~15ull;
  if (sz == 0) sz = 16;
  memset((void*)a, 0xDD, sz);
  memset(&hstate[(a - HEAPS) >> 4], 2, sz >> 4);
}

// ---- running one execution -----------------------------------------------------------------------
void run_execution() {
  RT& r = *g;
  ++r.gen;
  // clear the heap-state bytes used last time
  for (int i = 0; i < MAXT; ++i) {
    uptr lo = heap_lo(i), hi = r.thr[i].heap_top;
    if (hi > lo) memset(&hstate[(lo - HEAPS) >> 4], 0, ((hi - lo) >> 4) + 4);
    r.thr[i].heap_top = 0;
    r.thr[i].st = Thr::FREE;
  }
  r.nthr = 0;
  r.cur = -1;
  r.runner = 0;
  r.pos = 0;
  r.last_sched = -1;
  r.steps = 0;
  r.pre_used = 0;
  r.clock = 1000000000ll;
  r.abandon = 0;
  r.nblocks = 0;
  r.tot_allocs = 0;
  r.trace_hash = 1;
  r.spin_only = 0;
  r.curout[0] = 0;
  if (!r.warm) {
    memcpy(__data_start, snap, (size_t)(_end - __data_start));
    if (nata_top) memcpy(nata, nata + NATA_SZ, nata_top);
  }
  int id = new_thread();
  Thr& t = r.thr[id];
  t.is_p = true;
  t.pstart = [](void* p) -> void* {
    static_cast<const Test*>(p)->fn();
    return nullptr;
  };
  t.parg = (void*)r.test;
  t.hash = 0x777;
  r.main_eh = *eh();
  t.eh = r.main_eh;
  if (tls_sz) memcpy(t.tls, (void*)tls_lo, tls_sz);
  r.cur = 0;
  r.active = true;
  switch_out(&r.main_sp, t.sp);
  r.active = false;
  if (r.abandon == 1 && !r.warm) {
    // quiescent: leaks
    if (r.test->o.mask & mc::V_LEAK) {
      for (int i = 0; i < r.nblocks; ++i) {
        if (r.blocks[i].live) {
          char l[64];
          addr_label(r.blocks[i].addr, l, sizeof l);
          violation(mc::V_LEAK, "leak: %lu bytes at %s allocated by T%d pc 0x%lx", (unsigned long)r.blocks[i].size, l,
                    r.blocks[i].tid, (unsigned long)r.blocks[i].pc);
        }
      }
    }
  }
}

void note_outcome() {
  u64 h = 0xcbf29ce484222325ull;
  for (const char* c = g->curout; *c; ++c) h = (h ^ (u8)*c) * 0x100000001b3ull;
  h |= 1;
  for (int i = 0; i < g->nout; ++i) {
    if (g->outh[i] == h) return;
  }
  if (g->nout < MAXOUT) {
    if (g->nout < 64) snprintf(g->outs[g->nout], sizeof g->outs[0], "%s", g->curout);
    g->outh[g->nout++] = h;
  }
}

// Advance to the next unexplored branch; false when the search space is exhausted.
bool advance() {
  RT& r = *g;
  while (r.nnodes > 0) {
    Node& n = r.nodes[r.nnodes - 1];
    if (n.choice) {
      if (n.chosen + 1 < n.nalt) {
        n.chosen++;
        r.fresh_from = r.nnodes - 1;
        return true;
      }
    } else {
      n.done |= (u16)(1 << n.chosen);
      u16 todo = (u16)(n.backtrack & ~n.done & ~n.sleep);
      if (todo) {
        int c = -1;
        if (!(n.nopre & todo) || !r.pb) c = __builtin_ctz(todo);
        else c = __builtin_ctz(n.nopre & todo);
        n.chosen = (u8)c;
        r.fresh_from = r.nnodes - 1;
        return true;
      }
    }
    r.nnodes--;
  }
  return false;
}

void install_signals();

static u64 wd_exec, wd_trans;
static int wd_same;
void on_alarm(int) {
  if (!g || !g->active) return;
  if (g->execs == wd_exec && g->transitions == wd_trans) {
    if (++wd_same >= 4) violation(mc::V_DEADLOCK, "no progress: T%d runs for ever without a visible operation", g->cur);
  } else {
    wd_same = 0;
    wd_exec = g->execs;
    wd_trans = g->transitions;
  }
}
void watchdog() {
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_handler = on_alarm;
  sa.sa_flags = SA_ONSTACK | SA_RESTART;
  sigaction(SIGALRM, &sa, nullptr);
  itimerval it{{5, 0}, {5, 0}};
  setitimer(ITIMER_REAL, &it, nullptr);
}

int explore(double budget) {
  RT& r = *g;
  t_start = wall();
  watchdog();
  // warm-up: initialises function-local statics etc. with the native heap
  r.warm = true;
  r.nnodes = 0;
  run_execution();
  r.warm = false;
  take_snapshot();
again:
  r.nnodes = 0;
  r.fresh_from = 0;
  r.pb = r.test->o.bound >= 0;
  bool capped = false;
  for (;;) {
    bool tried = r.tried_any;
    run_execution();
    if (tried != r.tried_any) goto again;
    ++r.execs;
    if (r.abandon == 1) {
      ++r.complete;
      note_outcome();
      if (!r.have_sample || (r.complete & (r.complete - 1)) == 0) {
        r.have_sample = true;
        Buf b{r.sample, 6000, 0};
        r.sample[0] = 0;
        trace_to(b, 60);
        if (r.curout[0]) b.add(" => %s", r.curout);
      }
      if (r.complete <= 8 || (r.complete & 1023) == 0) {
        // re-execute the same schedule and compare
        u64 th = r.trace_hash;
        int pos = r.pos;
        u64 tr = r.transitions;
        char out[160];
        memcpy(out, r.curout, sizeof out);
        int ff = r.fresh_from;
        r.fresh_from = r.nnodes;
        u64 ex = r.execs;
        run_execution();
        r.execs = ex;
        r.transitions = tr;
        if (r.abandon != 1 || r.trace_hash != th || r.pos != pos || strcmp(out, r.curout) != 0) {
          internal("schedule did not reproduce its trace");
        }
        r.fresh_from = ff;
        ++r.validated;
      }
    } else {
      ++r.blocked;
    }
    if (!advance()) break;
    if ((r.execs & 63) == 0 && wall() - t_start > budget) {
      capped = true;
      break;
    }
  }
  r.cur = -1;
  write_result("ok", 0, "", capped);
  return 0;
}

int replay(const char* file) {
  RT& r = *g;
  t_start = wall();
  r.warm = true;
  r.nnodes = 0;
  run_execution();
  r.warm = false;
  take_snapshot();
  r.pb = r.test->o.bound >= 0;
  r.replaying = true;
  FILE* f = fopen(file, "r");
  if (!f) internal("cannot open replay file");
  int v;
  while (r.nreplay < MAXNODES && fscanf(f, "%d", &v) == 1) r.replay[r.nreplay++] = (u8)v;
  fclose(f);
  r.nnodes = 0;
  run_execution();
  if (r.tried_any) {  // first pass only discovered try_lock
    r.nnodes = 0;
    run_execution();
  }
  ++r.execs;
  write_result("ok", 0, "", false);
  return 0;
}

void on_signal(int sig, siginfo_t* si, void*) {
  if (g && g->active) {
    violation(mc::V_CRASH, "signal %d (%s) addr %p in T%d", sig, strsignal(sig), si->si_addr, g->cur);
    // masked: cannot continue
    g->test = g->test;
    g->active = false;
    write_result("violation", mc::V_CRASH, "crash", true);
    _exit(10);
  }
  internal("signal %d (addr %p) outside of an execution", sig, si->si_addr);
}

void install_signals() {
  static stack_t ss;
  ss.ss_sp = mmap(nullptr, 1 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  ss.ss_size = 1 << 20;
  sigaltstack(&ss, nullptr);
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = on_signal;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGTRAP}) sigaction(s, &sa, nullptr);
  std::set_terminate([] {
    if (g && g->active) violation(mc::V_CRASH, "std::terminate in T%d", g->cur);
    internal("std::terminate");
  });
}

int find_tls(dl_phdr_info* i, size_t, void*) {
  for (int k = 0; k < i->dlpi_phnum; ++k) {
    if (i->dlpi_phdr[k].p_type == PT_TLS && i->dlpi_tls_data) {
      tls_lo = (uptr)i->dlpi_tls_data;
      tls_sz = i->dlpi_phdr[k].p_memsz;
    }
  }
  return 1;  // the executable comes first
}

}  // namespace

// ================================================================================================
namespace mc {

void add_test(std::string name, Opts o, std::function<void()> fn) {
  static std::unordered_map<std::string, int> seen;   // names identify tests: keep them unique
  int n = ++seen[name];
  if (n > 1) name += "~" + std::to_string(n);
  tests().push_back(Test{std::move(name), o, std::move(fn)});
}

int spawn(std::function<void()> fn) { return spawn_common(&fn, nullptr, nullptr); }

void join(int tid) {
  Op o = mkop(K_JOIN, 0, false, (uptr)__builtin_return_address(0));
  o.target = (u8)tid;
  visible(o);
  Thr& t = me();
  Thr& u = g->thr[tid];
  t.vc.join(u.finvc);
  t.dclk.join(u.findclk);
  t.hash = mix(t.hash, u.finhash);
}
void join_all() {
  for (int i = 0; i < g->nthr; ++i) {
    if (i != g->cur) join(i);
  }
}
int self() { return g->cur; }
int choose(int n, const char* why) {
  if (!g || !g->active) return 0;
  return data_choice(n, why);
}
void fail(const char* fmt, ...) {
  char m[900];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(m, sizeof m, fmt, ap);
  va_end(ap);
  violation(V_ASSERT, "%s", m);
}
void outcome(const char* fmt, ...) {
  if (!g || !g->active) return;
  size_t n = strlen(g->curout);
  if (n + 2 >= sizeof g->curout) return;
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(g->curout + n, sizeof g->curout - n, fmt, ap);
  va_end(ap);
}
void count(unsigned long long n) {
  if (g && g->active) g->transitions += n;
}
long long now_ns() { return g->clock; }
void yield() {
  if (!live()) return;
  visible(mkop(K_YIELD, 0, false, (uptr)__builtin_return_address(0)));
  commit(K_YIELD, nullptr, 0, false, 0, 0);
}
bool param(const char* name, int* v) {
  const char* p = strstr(g->params, name);
  if (!p || p[strlen(name)] != '=') return false;
  *v = atoi(p + strlen(name) + 1);
  return true;
}
void ghost_read(const void* a) {
  if (!live()) return;
  uptr pc = (uptr)__builtin_return_address(0);
  visible(mkop(K_GREAD, (uptr)a, false, pc));
  check_valid((uptr)a, 1, pc, false);
  commit(K_GREAD, &loc((uptr)a), (uptr)a, false, pc, 0);
}
void ghost_write(const void* a) {
  if (!live()) return;
  uptr pc = (uptr)__builtin_return_address(0);
  visible(mkop(K_GWRITE, (uptr)a, true, pc));
  check_valid((uptr)a, 1, pc, true);
  commit(K_GWRITE, &loc((uptr)a), (uptr)a, true, pc, 0);
  spin_note(me(), 0, 0, true);
}
NoTrack::NoTrack() {
  if (g && g->active) me().notrack++;
}
NoTrack::~NoTrack() {
  if (g && g->active) me().notrack--;
}
size_t live_allocs() {
  size_t n = 0;
  for (int i = 0; i < g->nblocks; ++i) n += g->blocks[i].live;
  return n;
}
size_t total_allocs() { return g->tot_allocs; }
size_t thread_allocs() { return me().allocs; }

}  // namespace mc

// ================================================================================================
// TSan ABI
#define PC ((uptr)__builtin_return_address(0))
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n)                                                                        \
  void __tsan_read##n(void* a) { access((uptr)a, n, 0, PC); }                        \
  void __tsan_write##n(void* a) { access((uptr)a, n, 1, PC); }                       \
  void __tsan_unaligned_read##n(void* a) { access((uptr)a, n, 0, PC); }              \
  void __tsan_unaligned_write##n(void* a) { access((uptr)a, n, 1, PC); }             \
  void __tsan_volatile_read##n(void* a) { access((uptr)a, n, 0, PC); }               \
  void __tsan_volatile_write##n(void* a) { access((uptr)a, n, 1, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, size_t n) { access((uptr)a, n, 0, PC); }
void __tsan_write_range(void* a, size_t n) { access((uptr)a, n, 1, PC); }
void __tsan_vptr_update(void** a, void*) { access((uptr)a, 8, 1, PC); }
void __tsan_vptr_read(void** a) { access((uptr)a, 8, 0, PC); }

#define ATOM(N, T)                                                                                                     \
  T __tsan_atomic##N##_load(const volatile T* p, int mo) { return a_load<T>(p, mo, PC); }                              \
  void __tsan_atomic##N##_store(volatile T* p, T v, int mo) { a_store<T>(p, v, mo, PC); }                              \
  T __tsan_atomic##N##_exchange(volatile T* p, T v, int mo) { return a_rmw<T>(p, mo, PC, [v](T) { return v; }); }      \
  T __tsan_atomic##N##_fetch_add(volatile T* p, T v, int mo) { return a_rmw<T>(p, mo, PC, [v](T o) { return (T)(o + v); }); } \
  T __tsan_atomic##N##_fetch_sub(volatile T* p, T v, int mo) { return a_rmw<T>(p, mo, PC, [v](T o) { return (T)(o - v); }); } \
  T __tsan_atomic##N##_fetch_and(volatile T* p, T v, int mo) { return a_rmw<T>(p, mo, PC, [v](T o) { return (T)(o & v); }); } \
  T __tsan_atomic##N##_fetch_or(volatile T* p, T v, int mo) { return a_rmw<T>(p, mo, PC, [v](T o) { return (T)(o | v); }); }  \
  T __tsan_atomic##N##_fetch_xor(volatile T* p, T v, int mo) { return a_rmw<T>(p, mo, PC, [v](T o) { return (T)(o ^ v); }); } \
  T __tsan_atomic##N##_fetch_nand(volatile T* p, T v, int mo) { return a_rmw<T>(p, mo, PC, [v](T o) { return (T)(~(o & v)); }); } \
  int __tsan_atomic##N##_compare_exchange_strong(volatile T* p, T* e, T d, int mo, int fmo) { return a_cas<T>(p, e, d, mo, fmo, false, PC); } \
  int __tsan_atomic##N##_compare_exchange_weak(volatile T* p, T* e, T d, int mo, int fmo) { return a_cas<T>(p, e, d, mo, fmo, true, PC); }  \
  T __tsan_atomic##N##_compare_exchange_val(volatile T* p, T e, T d, int mo, int fmo) {                                \
    a_cas<T>(p, &e, d, mo, fmo, false, PC);                                                                            \
    return e;                                                                                                          \
  }
ATOM(8, u8)
ATOM(16, u16)
ATOM(32, u32)
ATOM(64, u64)
void __tsan_atomic_thread_fence(int mo) {
  if (!live()) return;
  Thr& t = me();
  if (is_acq(mo)) t.vc.join(t.acq_pend);
  if (is_rel(mo)) {
    t.fence_rel = t.vc;
    t.vc.c[t.id]++;
  }
}
void __tsan_atomic_signal_fence(int) {}

// ---- pthread -----------------------------------------------------------------------------------
#define EXPORT __attribute__((visibility("default"), used))

static void do_lock(uptr m, uptr pc) {
  visible(mkop(K_LOCK, m, true, pc));
  access(m, 4, 3, pc);
  Thr& t = me();
  Loc& L = loc(m);
  if (L.owner >= 0) internal("lock granted while owned");
  L.owner = t.id;
  // race candidates: the previous lock operation (the unlock edge is joined afterwards)
  int ex[1] = {L.lastLock};
  Loc* LL = nullptr;
  if (g->tried_any) commit(K_LOCK, &L, m, true, pc, 0, ex, 1);
  else {
    commit(K_LOCK, LL, m, true, pc, 0, ex, 1);
    t.hash = mix(t.hash, L.hash);
  }
  if (!g->warm) L.lastLock = g->last_sched;
  t.dclk.join(L.uclk);
  set_event_clock();
  t.vc.join(L.rel);
  t.spin_n = 0;
}
static void unlock_effect(Thr& t, Loc& L) {
  L.owner = -1;
  L.uclk.join(t.dclk);
  L.rel.join(t.vc);
  t.vc.c[t.id]++;
  L.hash = t.hash;
  spin_note(t, 0, 0, true);
}
static void do_unlock(uptr m, uptr pc) {
  visible(mkop(K_UNLOCK, m, true, pc));
  access(m, 4, 3, pc);
  Thr& t = me();
  Loc& L = loc(m);
  if (L.owner != t.id) violation(mc::V_ASSERT, "unlock of a mutex not owned by T%d", t.id);
  if (g->tried_any) commit(K_UNLOCK, &L, m, true, pc, 0);
  t.hash = mix(t.hash, m + 5);
  unlock_effect(t, L);
}

EXPORT int pthread_mutex_lock(pthread_mutex_t* m) {
  if (live()) do_lock((uptr)m, PC);
  return 0;
}
EXPORT int pthread_mutex_trylock(pthread_mutex_t* m) {
  if (!live()) return 0;
  if (!g->tried_any) {
    g->tried_any = true;
    if (!g->warm && !g->replaying) end_execution(2);
  }
  uptr a = (uptr)m;
  visible(mkop(K_TRYLOCK, a, true, PC));
  access(a, 4, 3, PC);
  Thr& t = me();
  Loc& L = loc(a);
  bool ok = L.owner < 0;
  commit(K_TRYLOCK, &L, a, ok, PC, ok);
  if (ok) {
    L.owner = t.id;
    if (!g->warm) L.lastLock = g->last_sched;
    t.dclk.join(L.uclk);
    set_event_clock();
    t.vc.join(L.rel);
    return 0;
  }
  return EBUSY;
}
EXPORT int pthread_mutex_unlock(pthread_mutex_t* m) {
  if (live()) do_unlock((uptr)m, PC);
  return 0;
}
EXPORT int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t*) {
  memset(m, 0, sizeof *m);
  return 0;
}
EXPORT int pthread_mutex_destroy(pthread_mutex_t* m) {
  if (live()) access((uptr)m, 8, 1, PC);
  return 0;
}
EXPORT int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) {
  memset(c, 0, sizeof *c);
  return 0;
}
EXPORT int pthread_cond_destroy(pthread_cond_t* c) {
  // note: destroying while a notifier is still inside notify is legal once no thread waits
  if (live()) check_valid((uptr)c, 8, PC, true);
  return 0;
}

static int cv_wait(uptr c, uptr m, bool timed, long long deadline, uptr pc) {
  Op o = mkop(K_CVENQ, c, true, pc);
  o.addr2 = m;
  visible(o);
  check_valid(c, 8, pc, true);
  Thr& t = me();
  {
    Loc& L = loc(c);
    commit(K_CVENQ, &L, c, true, pc, m);
    L.waiters[L.nwait++] = (u8)t.id;
    t.signaled = false;
    Loc& M = loc(m);
    if (M.owner != t.id) violation(mc::V_ASSERT, "condition wait without owning the mutex");
    access(m, 4, 3, pc);
    unlock_effect(t, M);
    if (!g->warm && g->tried_any) M.lastW = g->last_sched;
  }
  Op w = mkop(K_CVWAKE, c, true, pc);
  w.timed = timed;
  w.deadline = deadline;
  visible(w);
  int rc = 0;
  if (t.signaled) {
    if (timed || g->test->o.spurious) {
      int ex[1] = {t.sig_node};
      commit(K_CVWAKE, nullptr, c, true, pc, 1, ex, 1);
    } else {
      commit(K_CVWAKE, nullptr, c, true, pc, 1);
    }
    t.dclk.join(t.sigd);
    set_event_clock();
    t.hash = mix(t.hash, t.sighash);
  } else {
    Loc& L = loc(c);
    commit(K_CVWAKE, &L, c, true, pc, 0);
    int k = 0;
    for (int i = 0; i < L.nwait; ++i) {
      if (L.waiters[i] != t.id) L.waiters[k++] = L.waiters[i];
    }
    L.nwait = (u8)k;
    if (timed) {
      bool spurious = t.spur_left > 0 && g->clock < deadline && data_choice(2, "spurious") == 1;
      if (spurious) t.spur_left--;
      else {
        rc = ETIMEDOUT;
        if (g->clock < deadline) g->clock = deadline;
      }
    } else {
      t.spur_left--;
    }
  }
  t.signaled = false;
  do_lock(m, pc);
  return rc;
}
static void cv_signal(uptr c, bool all, uptr pc) {
  visible(mkop(all ? K_BCAST : K_SIGNAL, c, true, pc));
  check_valid(c, 8, pc, true);
  Thr& t = me();
  Loc& L = loc(c);
  int pickw = 0;
  if (!all && L.nwait > 1) pickw = data_choice(L.nwait, "signal");
  commit(all ? K_BCAST : K_SIGNAL, &L, c, true, pc, L.nwait);
  auto wake = [&](int w) {
    Thr& u = g->thr[w];
    u.signaled = true;
    u.sigd = t.dclk;
    u.sighash = t.hash;
    u.sig_node = g->warm ? -1 : g->last_sched;
  };
  if (all) {
    for (int i = 0; i < L.nwait; ++i) wake(L.waiters[i]);
    L.nwait = 0;
  } else if (L.nwait) {
    wake(L.waiters[pickw]);
    for (int i = pickw; i + 1 < L.nwait; ++i) L.waiters[i] = L.waiters[i + 1];
    L.nwait--;
  }
  spin_note(t, 0, 0, true);
}
static long long ts_ns(const timespec* ts) { return ts->tv_sec * 1000000000ll + ts->tv_nsec; }
EXPORT int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  if (!live()) internal("condition wait outside of an execution");
  return cv_wait((uptr)c, (uptr)m, false, 0, PC);
}
EXPORT int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* ts) {
  if (!live()) internal("condition wait outside of an execution");
  return cv_wait((uptr)c, (uptr)m, true, ts_ns(ts), PC);
}
EXPORT int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const timespec* ts) {
  if (!live()) internal("condition wait outside of an execution");
  return cv_wait((uptr)c, (uptr)m, true, ts_ns(ts), PC);
}
EXPORT int pthread_cond_signal(pthread_cond_t* c) {
  if (live()) cv_signal((uptr)c, false, PC);
  return 0;
}
EXPORT int pthread_cond_broadcast(pthread_cond_t* c) {
  if (live()) cv_signal((uptr)c, true, PC);
  return 0;
}
EXPORT int pthread_create(pthread_t* th, const pthread_attr_t*, void* (*fn)(void*), void* arg) {
  if (!live()) internal("pthread_create outside of an execution");
  int id = spawn_common(nullptr, fn, arg);
  *th = (pthread_t)(0x1000 + id);
  return 0;
}
EXPORT int pthread_join(pthread_t th, void** rv) {
  if (!live()) internal("pthread_join outside of an execution");
  if (rv) *rv = nullptr;
  mc::join((int)(th - 0x1000));
  return 0;
}
EXPORT int pthread_detach(pthread_t) { return 0; }
EXPORT pthread_t pthread_self() {
  if (g && g->active) return (pthread_t)(0x1000 + g->cur);
  return (pthread_t)0x0fff;
}
EXPORT int pthread_setname_np(pthread_t, const char*) { return 0; }
EXPORT int sched_yield() {
  mc::yield();
  return 0;
}
static void do_sleep(long long ns, uptr pc) {
  visible(mkop(K_SLEEP, 0, false, pc));
  commit(K_SLEEP, nullptr, 0, false, pc, 0);
  g->clock += ns > 0 ? ns : 0;
}
EXPORT int nanosleep(const timespec* a, timespec*) {
  if (live()) do_sleep(ts_ns(a), PC);
  return 0;
}
EXPORT int clock_nanosleep(clockid_t, int flags, const timespec* a, timespec*) {
  if (live()) {
    long long d = ts_ns(a);
    if (flags & TIMER_ABSTIME) d -= g->clock;
    do_sleep(d, PC);
  }
  return 0;
}
EXPORT int clock_gettime(clockid_t c, timespec* ts) noexcept {
  if (g && g->active) {
    ts->tv_sec = g->clock / 1000000000ll;
    ts->tv_nsec = g->clock % 1000000000ll;
    return 0;
  }
  return (int)syscall(SYS_clock_gettime, c, ts);
}
}  // extern "C"

// ---- operator new / delete -----------------------------------------------------------------------
void* operator new(size_t n) { return do_alloc(n, 16, PC); }
void* operator new[](size_t n) { return do_alloc(n, 16, PC); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return do_alloc(n, 16, PC); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return do_alloc(n, 16, PC); }
void* operator new(size_t n, std::align_val_t a) { return do_alloc(n, (size_t)a, PC); }
void* operator new[](size_t n, std::align_val_t a) { return do_alloc(n, (size_t)a, PC); }
void* operator new(size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return do_alloc(n, (size_t)a, PC); }
void* operator new[](size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return do_alloc(n, (size_t)a, PC); }
void operator delete(void* p) noexcept { do_free(p, PC); }
void operator delete[](void* p) noexcept { do_free(p, PC); }
void operator delete(void* p, size_t) noexcept { do_free(p, PC); }
void operator delete[](void* p, size_t) noexcept { do_free(p, PC); }
void operator delete(void* p, const std::nothrow_t&) noexcept { do_free(p, PC); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { do_free(p, PC); }
void operator delete(void* p, std::align_val_t) noexcept { do_free(p, PC); }
void operator delete[](void* p, std::align_val_t) noexcept { do_free(p, PC); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { do_free(p, PC); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { do_free(p, PC); }
void operator delete(void* p, std::align_val_t, const std::nothrow_t&) noexcept { do_free(p, PC); }
void operator delete[](void* p, std::align_val_t, const std::nothrow_t&) noexcept { do_free(p, PC); }

// ================================================================================================
// Parses the options of one run; returns false on an unknown argument.
struct Args {
  std::string test, out, rep, params;
  double budget = 60;
  bool list = false, thorough = false, server = false, has_test = false, has_out = false, has_rep = false;
  int bound = -2, stale = -1;
  bool parse(const std::vector<std::string>& v) {
    for (size_t i = 0; i < v.size(); ++i) {
      const std::string& a = v[i];
      auto next = [&] {
        return i + 1 < v.size() ? v[++i] : std::string();
      };
      if (a == "--list") list = true;
      else if (a == "--thorough") thorough = true;
      else if (a == "--server") server = true;
      else if (a == "--test") test = next(), has_test = true;
      else if (a == "--time") budget = atof(next().c_str());
      else if (a == "--out") out = next(), has_out = true;
      else if (a == "--replay") rep = next(), has_rep = true;
      else if (a == "--bound") bound = atoi(next().c_str());
      else if (a == "--stale") stale = atoi(next().c_str());
      else if (a == "--params") params = next();
      else {
        fprintf(stderr, "unknown argument %s\n", a.c_str());
        return false;
      }
    }
    return true;
  }
};

int run_one(const Args& a) {
  g->outfile = a.has_out ? a.out.c_str() : nullptr;
  snprintf(g->params, sizeof g->params, "%s", a.params.c_str());
  for (auto& t : tests()) {
    if (a.has_test && t.name == a.test) {
      if (a.bound > -2) t.o.bound = a.bound;
      if (a.stale >= 0) t.o.stale = a.stale;
      g->test = &t;
      return a.has_rep ? replay(a.rep.c_str()) : explore(a.budget);
    }
  }
  fprintf(stderr, "no such test\n");
  return 2;
}

// Reads tab separated argument lists, one per line; runs each in a forked child; answers "rc <exit code>".
int serve() {
  std::string line;
  int c;
  for (;;) {
    line.clear();
    while ((c = getchar()) != EOF && c != '\n') line += char(c);
    if (c == EOF) return 0;
    std::vector<std::string> v(1);
    for (char ch : line) {
      if (ch == '\t') v.emplace_back();
      else v.back() += ch;
    }
    pid_t pid = fork();
    if (pid == 0) {
      Args a;
      if (!a.parse(v)) _exit(2);
      std::string log = a.out + ".log";
      int fd = ::open(log.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
      if (fd >= 0) {
        dup2(fd, 1);
        dup2(fd, 2);
      }
      int in = ::open("/dev/null", O_RDONLY);
      if (in >= 0) dup2(in, 0);
      int rc = run_one(a);
      fflush(stdout);
      fflush(stderr);
      _exit(rc);
    }
    int st = 0;
    if (pid < 0 || waitpid(pid, &st, 0) < 0) {
      printf("rc -98\n");
    } else {
      printf("rc %d\n", WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st));
    }
    fflush(stdout);
  }
}

int main(int argc, char** argv) {
  in_main = true;
  Args a;
  if (!a.parse(std::vector<std::string>(argv + 1, argv + argc))) return 2;
  if (a.list) {
    for (auto& t : tests()) {
      if (t.o.thorough && !a.thorough) continue;
      printf("%s\t%g\t%d\n", t.name.c_str(), t.o.weight, t.o.bound);
    }
    return 0;
  }
  g = (RT*)mmap(nullptr, sizeof(RT), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  void* reg = mmap((void*)REGION, REGION_END - REGION, PROT_READ | PROT_WRITE,
                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (reg != (void*)REGION) internal("cannot map region");
  for (int t = 0; t < MAXT; ++t) {
    mprotect((void*)(STACKS + (uptr)t * STACK_STRIDE), STACK_STRIDE - STACK_SZ, PROT_NONE);
  }
  gsh = (Granule*)mmap(nullptr, (REGION_END - REGION) / 8 * sizeof(Granule), PROT_READ | PROT_WRITE,
                       MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  size_t dn = (size_t)(_end - __data_start);
  dsh = (Granule*)mmap(nullptr, (dn / 8 + 2) * sizeof(Granule), PROT_READ | PROT_WRITE,
                       MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  hstate = (u8*)mmap(nullptr, (SCRATCHES - HEAPS) / 16 + 4096, PROT_READ | PROT_WRITE,
                     MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  snap = (char*)mmap(nullptr, dn + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  dl_iterate_phdr(find_tls, nullptr);
  if (tls_sz > sizeof(((Thr*)nullptr)->tls)) internal("TLS block too large");
  install_signals();
  return a.server ? serve() : run_one(a);
}
