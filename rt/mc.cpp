#include <sys/single_threaded.h>
// Runtime of the explorer: choice tree, virtual threads, scheduler, allocator with quarantine, vector-clock race
// detector.  It is compiled WITHOUT -fsanitize=thread and provides the __tsan_* entry points which instrumented code
// calls; it must not instantiate std templates that the code under test also instantiates (weak symbols would merge).
#ifndef _GNU_SOURCE
#  define _GNU_SOURCE
#endif
#include "mc.h"

#include <cxxabi.h>
#include <errno.h>
#include <fcntl.h>
#include <link.h>
#include <pthread.h>
#include <sched.h>
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>

extern "C" {
extern char __data_start[];
extern char _end[];
void *__libc_malloc(size_t);
void __libc_free(void *);
void *__libc_calloc(size_t, size_t);
void *__libc_realloc(void *, size_t);
void *__libc_memalign(size_t, size_t);
}

namespace mc {
typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;

enum { MAXT = 6, MAXCHOICE = 6000, MAXKEY = 64, MAXWORKERS = 64, NKEYS = 32 };
static const u64 ARENA = 0x200000000000ull;
static const u64 ARENA_SIZE = 1ull << 30;
static const u64 SHADOW = 0x210000000000ull;  // ARENA_SIZE / 8 bytes
static const u64 SHARED = 0x220000000000ull;
static const u64 PRIV = 0x230000000000ull;
static const u64 STACKS = 0x240000000000ull;
static const u64 FSTACK = 1u << 20;

// ------------------------------------------------------------------------------------------------ shared by workers
struct Choice {
  uint16_t c, n;
};
struct WorkerShared {
  volatile int busy;
  int nchoices;
  Choice ch[MAXCHOICE];
  u64 execs, skipped, pruned, steps, maxdepth, accesses, schedpts, leaf_checked;
  volatile int finished;  // left the exploration in the regular way
};
struct Violation {
  volatile int set;
  char key[MAXKEY];
  char msg[1024];
  int n;
  Choice ch[MAXCHOICE];
};
enum { STATES = 1 << 22, CLAIMS = 1 << 20, ADDRS = 1 << 16 };
struct Shared {
  volatile int stop;
  Violation viol;
  volatile int viol_lock;
  WorkerShared w[MAXWORKERS];
  u8 claims[CLAIMS];
  u64 states[STATES];
  volatile u64 nstates;
  u64 addrs[ADDRS];    // shared locations learned (becomes frozen set of next pass)
  u64 pcs[1024];       // racy program counters learned
  volatile int dirty;
  volatile u64 goals;
  char known[NKEYS][MAXKEY];
  int nknown;
  volatile u64 knownhits[NKEYS];
  char knownmsg[NKEYS][512];
};
#define S (reinterpret_cast<Shared *>(SHARED))

// ------------------------------------------------------------------------------------------------- private per worker
struct VC {
  u32 c[MAXT];
};
enum TState { T_NONE, T_RUN, T_BLOCKED, T_DONE, T_JOIN };
struct VThread {
  int st;
  void *sp;
  void (*fn)(void *);
  void *arg;
  VC vc, facq, frel;
  bool has_frel;
  u64 waddr;
  u64 last_addr, last_val, last_site;
  int last_kind;
  int same;       // consecutive identical non-modifying operations
  int idle;       // atomic operations since this thread last modified anything
  int nopreempt;
  void *tls[64];
  u64 eh[2];
  char tls_image[512] __attribute__((aligned(64)));
};
struct Cell {
  u64 key;  // granule+1 | generation in the upper bits
  u32 gen;
  u32 wclk;
  u8 wtid, wmask, awtid, awmask;
  u32 awclk;
  u32 wpc, awpc;
  u32 rclk[MAXT];
  u32 rpc[MAXT];
  u8 rmask[MAXT];
  u32 arclk[MAXT];
  u8 armask[MAXT];
};
struct Sync {
  u64 addr;
  u32 gen;
  u8 toucher;  // tid+1 of the only toucher, 255: several
  VC vc;
};
struct Blk {
  u64 magic;
  u64 size;
  u64 off;   // offset from header start of this raw block to next raw block
  u32 state; // 1 live, 2 freed, 3 ignored
  u32 pc;
  u64 self;
};
enum { NCELL = 1 << 17, NSYNC = 1 << 13, NTLSKEY = 64 };

struct Priv {
  // configuration
  const Scenario *sc;
  int depth, preempt;
  bool thorough, verbose, replay;
  int worker, nworkers;
  double deadline;
  u64 step_limit;
  // execution
  volatile int in_exec;
  u64 exec_id;
  int pos;
  int skipping;
  int cycle[8], cycle_len, cycle_pos;  // choices repeat
  int cut;          // index after which choices belong to a claimed prefix (-1: not reached yet)
  double prod;
  u64 prefix_idx;
  bool owned, prefix_seen;
  int fixed_len;    // replay
  // threads
  int cur, nthreads, active;
  u64 last_mod;     // last 8-byte atomic outside the heap that was changed
  u32 evpc;         // where the pending access is (shown on replay)
  int preempts;
  VThread t[MAXT];
  void *runner_sp;
  int outcome;  // 0 ok, 1 known finding, 2 pruned, 3 skipped
  u64 accesses, esteps, esched;
  int grace, grace_round;
  u64 mods;
  long alloc_fail;
  u64 arena_top, arena_high;
  u64 live_n, live_b;
  long maps;
  u32 gen;
  Cell cells[NCELL];
  u32 ncell;
  Sync syncs[NSYNC];
  u64 frozen_addrs[ADDRS];
  u64 frozen_pcs[1024];
  int64_t now;
  int64_t (*now_fn)();
  sigjmp_buf crash_jmp;
  pthread_key_t nkeys;
  void (*key_dtor[NTLSKEY])(void *);
  char *snap;
  u64 snap_len;
  u64 wd_exec;
  int wd_ticks;
  bool heap_fill;
  u64 strict_lo[16], strict_hi[16];
  int nstrict;
  u64 data_lo, data_hi;
  u64 tls_size, tls_init_size;
  char *tls_block;
  const char *tls_init;
  char scratch[262144] __attribute__((aligned(64)));
};
#define P (reinterpret_cast<Priv *>(PRIV))
static inline bool inited() {
  // The first word tested must be readable before mmap: a plain global which is part of the snapshot (constant).
  extern volatile int g_inited;
  return g_inited != 0;
}
volatile int g_inited = 0;

// ------------------------------------------------------------------------------------------------------- fiber switch
extern "C" void mc_switch(void **save, void *to);
asm(R"(
.text
.globl mc_switch
.type mc_switch,@function
mc_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  subq $8, %rsp
  stmxcsr (%rsp)
  fnstcw 4(%rsp)
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  ldmxcsr (%rsp)
  fldcw 4(%rsp)
  addq $8, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size mc_switch,.-mc_switch
)");

static void thread_entry();
static void prep_stack(int i) {
  u64 top = STACKS + (u64)(i + 1) * (FSTACK + 65536) - 4096;
  top &= ~15ull;
  u64 *p = reinterpret_cast<u64 *>(top);
  *--p = 0;  // return address slot: the stack pointer is 8 mod 16 on entry
  *--p = reinterpret_cast<u64>(&thread_entry);
  for (int k = 0; k < 6; ++k) *--p = 0;
  --p;
  u32 mx;
  uint16_t cw;
  asm volatile("stmxcsr %0" : "=m"(mx));
  asm volatile("fnstcw %0" : "=m"(cw));
  reinterpret_cast<u32 *>(p)[0] = mx;
  reinterpret_cast<u32 *>(p)[1] = cw;
  P->t[i].sp = p;
}
static u64 *eh_globals() { return reinterpret_cast<u64 *>(__cxxabiv1::__cxa_get_globals()); }
static void switch_to(int to) {
  int from = P->cur;
  if (from == to) return;
  u64 *g = eh_globals();
  P->t[from].eh[0] = g[0];
  P->t[from].eh[1] = g[1];
  g[0] = P->t[to].eh[0];
  g[1] = P->t[to].eh[1];
  P->cur = to;
  if (P->tls_size) {
    memcpy(P->t[from].tls_image, P->tls_block, P->tls_size);
    memcpy(P->tls_block, P->t[to].tls_image, P->tls_size);
  }
  mc_switch(&P->t[from].sp, P->t[to].sp);
}
[[noreturn]] static void abandon(int outcome) {
  P->outcome = outcome;
  void *dummy;
  mc_switch(&dummy, P->runner_sp);
  __builtin_unreachable();
}

static double nowsec() {
  struct timespec ts;
  syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}

// --------------------------------------------------------------------------------------------------------- verdicts
static void put_violation(const char *key, const char *msg) {
  if (__sync_lock_test_and_set(&S->viol_lock, 1) == 0) {
    Violation &v = S->viol;
    snprintf(v.key, sizeof v.key, "%s", key);
    snprintf(v.msg, sizeof v.msg, "%s", msg);
    v.n = P->pos;
    memcpy(v.ch, S->w[P->worker].ch, sizeof(Choice) * P->pos);
    v.set = 1;
    S->stop = 1;
  }
}
[[noreturn]] static void fail_msg(const char *key, const char *msg) {
  if (!P->in_exec) {
    fprintf(stderr, "mc: failure outside of an execution: %s: %s\n", key, msg);
    _exit(3);
  }
  char full[MAXKEY];
  snprintf(full, sizeof full, "%s:%s", P->sc->name, key);
  for (int i = 0; i < S->nknown; ++i) {
    if (!strcmp(S->known[i], full)) {
      if (__sync_fetch_and_add(&S->knownhits[i], 1) == 0) snprintf(S->knownmsg[i], sizeof S->knownmsg[i], "%s", msg);
      if (P->verbose) printf("  ! known finding %s: %s\n", full, msg);
      abandon(1);
    }
  }
  if (P->verbose) printf("  ! [t%d] VIOLATION %s: %s\n", P->cur, full, msg), fflush(stdout);
  put_violation(full, msg);
  abandon(4);
}
void fail(const char *key, const char *fmt, ...) {
  char b[1024];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  fail_msg(key, b);
}
void prune() { abandon(2); }
void done() { abandon(0); }
void log(const char *fmt, ...) {
  if (!inited() || !P->verbose) return;
  va_list ap;
  va_start(ap, fmt);
  printf("  [t%d] ", P->cur);
  vprintf(fmt, ap);
  printf("\n");
  fflush(stdout);
  va_end(ap);
}
bool verbose() { return P->verbose; }
int depth() { return P->depth; }
int param(int i) { return P->sc->p[i]; }
void step() {
  P->esteps++;
  P->t[P->cur].same = 0;
}
void goal(int i) {
  if (!(S->goals & (1ull << i))) __sync_fetch_and_or(&S->goals, 1ull << i);
}
static bool set_insert(u64 *tab, u64 size, u64 v) {
  if (v == 0) v = 1;
  u64 h = v * 0x9e3779b97f4a7c15ull;
  h ^= h >> 29;
  for (u64 i = 0; i < size; ++i) {
    u64 *s = &tab[(h + i) & (size - 1)];
    u64 cur = *s;
    if (cur == v) return false;
    if (cur == 0) {
      if (__sync_bool_compare_and_swap(s, 0, v)) return true;
      if (*s == v) return false;
    }
    if (i > 64) return false;
  }
  return false;
}
static bool set_has(const u64 *tab, u64 size, u64 v) {
  if (v == 0) v = 1;
  u64 h = v * 0x9e3779b97f4a7c15ull;
  h ^= h >> 29;
  for (u64 i = 0; i < size; ++i) {
    u64 cur = tab[(h + i) & (size - 1)];
    if (cur == v) return true;
    if (cur == 0) return false;
    if (i > 64) return false;
  }
  return false;
}
void state(u64 h) {
  if (set_insert(S->states, STATES, h)) __sync_fetch_and_add(&S->nstates, 1);
}

// ---------------------------------------------------------------------------------------------------------- choices
static int pick_cycle(int n) {
  int i = P->cycle_pos;
  P->cycle_pos = (i + 1) % P->cycle_len;
  return (P->cycle[i] + i * n / P->cycle_len) % n;  // every choice is within reach of some position, even when there are more than the radix
}
bool is_history() { return P->sc->cycle > 0; }
void history() {
  int len = P->thorough ? P->sc->thorough_cycle : P->sc->cycle;
  if (!len) return;
  if (len > (int)(sizeof(P->cycle) / sizeof(P->cycle[0]))) fail_msg("mc-internal", "cycle too long");
  for (int i = 0; i < len; ++i) P->cycle[i] = choose(P->sc->radix, "cycle");
  P->cycle_len = len;
  P->cycle_pos = 0;
}
int choose(int n, const char *tag) {
  if (n <= 0) fail_msg("mc-internal", "choose(0)");
  if (P->cycle_len) return pick_cycle(n);
  WorkerShared &w = S->w[P->worker];
  int i = P->pos;
  if (i >= MAXCHOICE - 1) fail_msg("too-many-choices", "execution makes too many choices (livelock?)");
  if (i < w.nchoices) {
    if (w.ch[i].n != n && !(P->replay && w.ch[i].n == 0)) {
      char b[200];
      snprintf(b, sizeof b, "replay diverged at choice %d (%s): %d alternatives, before %d", i, tag, n, w.ch[i].n);
      if (P->verbose) printf("  !! %s\n", b);
      fail_msg("nondeterminism", b);
    }
    if (P->replay) w.ch[i].n = n;
    if (w.ch[i].c >= n) fail_msg("mc-internal", "replayed choice out of range");
  } else {
    w.ch[i].c = 0;
    w.ch[i].n = (uint16_t)n;
    w.nchoices = i + 1;
  }
  int c = w.ch[i].c;
  P->pos = i + 1;
  if (P->cut < 0 && !P->replay) {
    P->prod *= n;
    if (P->prod >= 100.0 * P->nworkers) {
      P->cut = i + 1;
    }
    if (P->cut >= 0) {
      // A new prefix begins when everything behind the cut is fresh
      if (!P->prefix_seen) {
        u64 idx = P->prefix_idx++;
        P->owned = idx >= CLAIMS || __sync_lock_test_and_set(&S->claims[idx], 1) == 0;
        P->prefix_seen = true;
      }
      if (!P->owned) abandon(3);
    }
  }
  return c;
}

// --------------------------------------------------------------------------------------------------------- scheduler
static void tls_run_dtors(int t) {
  for (int round = 0; round < 4; ++round) {
    bool any = false;
    for (unsigned k = 1; k < P->nkeys; ++k) {
      void *v = P->t[t].tls[k];
      if (v && P->key_dtor[k]) {
        P->t[t].tls[k] = nullptr;
        any = true;
        P->key_dtor[k](v);
      }
    }
    if (!any) break;
  }
}
static void vc_join(VC &a, const VC &b) {
  for (int i = 0; i < MAXT; ++i)
    if (b.c[i] > a.c[i]) a.c[i] = b.c[i];
}
static bool enabled(int i) { return P->t[i].st == T_RUN; }

// pick a thread other than the current one; the current one cannot go on
static void pick_next() {
  for (;;) {
    int en[MAXT], n = 0;
    for (int i = 1; i < P->nthreads; ++i)
      if (enabled(i) && i != P->cur) en[n++] = i;
    if (n == 0) {
      bool all_done = true;
      for (int i = 1; i < P->nthreads; ++i)
        if (P->t[i].st != T_DONE) all_done = false;
      if (all_done) {
        P->active = 0;
        for (int i = 1; i < P->nthreads; ++i) vc_join(P->t[0].vc, P->t[i].vc);
        P->t[0].st = T_RUN;
        switch_to(0);
        return;
      }
      // every unfinished thread is blocked: first assume that the spin detection was wrong and let them go on
      if (P->grace_round < 3) {
        ++P->grace_round;
        for (int i = 1; i < P->nthreads; ++i)
          if (P->t[i].st == T_BLOCKED) {
            P->t[i].st = T_RUN;
            P->t[i].same = 0;
          }
        P->grace = 300;
        if (enabled(P->cur)) return;
        continue;
      }
      fail_msg("deadlock", "no thread can make progress: all unfinished threads spin on locations nobody will change");
    }
    int c = n == 1 ? 0 : choose(n, "sched");
    switch_to(en[c]);
    return;
  }
}
static void sched_point() {
  if (P->active <= 1) return;
  VThread &me = P->t[P->cur];
  if (me.nopreempt) return;
  P->esched++;
  if (P->preempts >= P->preempt) return;
  int en[MAXT], n = 0;
  for (int i = 1; i < P->nthreads; ++i)
    if (i != P->cur && enabled(i)) en[n++] = i;
  if (n == 0) return;
  int c = choose(n + 1, "preempt");
  if (c == 0) return;
  P->preempts++;
  if (P->verbose) printf("  -- preempt t%d -> t%d pc=0x%x\n", P->cur, en[c - 1], P->evpc);
  switch_to(en[c - 1]);
}
static void yield_point() {
  if (P->active <= 1) return;
  VThread &me = P->t[P->cur];
  if (me.nopreempt) return;
  int en[MAXT], n = 0;
  for (int i = 1; i < P->nthreads; ++i)
    if (i != P->cur && enabled(i)) en[n++] = i;
  if (n == 0) return;
  int c = n == 1 ? 0 : choose(n, "yield");
  switch_to(en[c]);
}
void sched() { sched_point(); }
void no_preempt(bool on) { P->t[P->cur].nopreempt += on ? 1 : -1; }
int tid() { return P->cur; }
void *scratch() { return P->scratch; }

static void tls_reset(char *to) {
  memset(to, 0, P->tls_size);
  memcpy(to, P->tls_init, P->tls_init_size);
}
static void thread_finish() {
  tls_run_dtors(P->cur);
  VThread &me = P->t[P->cur];
  me.st = T_DONE;
  P->active--;
  P->grace_round = 0;
  pick_next();
  __builtin_trap();
}
void end_thread_now() { thread_finish(); }
static void thread_entry() {
  VThread &me = P->t[P->cur];
  me.fn(me.arg);
  if (P->cur == 0) {
    tls_run_dtors(0);
    abandon(0);
  }
  thread_finish();
}
void spawn_raw(void (*fn)(void *), void *arg) {
  if (P->nthreads >= MAXT) fail_msg("mc-internal", "too many threads");
  int i = P->nthreads++;
  VThread &t = P->t[i];
  memset(&t, 0, sizeof t);
  t.fn = fn;
  t.arg = arg;
  t.st = T_RUN;
  tls_reset(t.tls_image);
  t.vc = P->t[P->cur].vc;
  t.vc.c[i] = 1;
  prep_stack(i);
  P->t[P->cur].vc.c[P->cur]++;
}
void run_threads() {
  if (P->nthreads <= 1) return;
  int n = 0;
  for (int i = 1; i < P->nthreads; ++i)
    if (P->t[i].st != T_DONE) ++n;
  P->active = n;
  if (n == 0) return;
  P->t[0].st = T_JOIN;
  pick_next();
  P->active = 0;
  P->nthreads = 1;
}
static void wake(u64 addr) {
  P->mods++;
  P->grace_round = 0;
  for (int i = 1; i < P->nthreads; ++i)
    if (P->t[i].st == T_BLOCKED && P->t[i].waddr == addr) {
      P->t[i].st = T_RUN;
      P->t[i].same = 0;
    }
}

// ------------------------------------------------------------------------------------------------------ race detector
static Sync *sync_of(u64 addr) {
  u64 h = (addr >> 2) * 0x9e3779b97f4a7c15ull;
  h ^= h >> 31;
  for (u32 i = 0; i < NSYNC; ++i) {
    Sync *s = &P->syncs[(h + i) & (NSYNC - 1)];
    if (s->gen == P->gen) {
      if (s->addr == addr) return s;
      continue;
    }
    memset(s, 0, sizeof *s);
    s->gen = P->gen;
    s->addr = addr;
    return s;
  }
  fail_msg("mc-internal", "too many sync objects");
}
static Cell *cell_of(u64 g) {
  u64 h = g * 0x9e3779b97f4a7c15ull;
  h ^= h >> 31;
  for (u32 i = 0; i < 256; ++i) {
    Cell *s = &P->cells[(h + i) & (NCELL - 1)];
    if (s->gen == P->gen) {
      if (s->key == g) return s;
      continue;
    }
    memset(s, 0, sizeof *s);
    s->gen = P->gen;
    s->key = g;
    return s;
  }
  fail_msg("mc-internal", "race detector table is full");
}
static void report_race(u64 addr, const char *what, u32 pc1, u32 pc2) {
  if (P->verbose) printf("  ~~ race %s at 0x%llx pc 0x%x / 0x%x\n", what, (unsigned long long)addr, pc1, pc2);
  bool strict = P->sc->races_are_errors;
  for (int i = 0; i < P->nstrict; ++i) strict = strict || (addr + 7 >= P->strict_lo[i] && addr < P->strict_hi[i]);
  if (strict) {
    char b[300];
    snprintf(b, sizeof b, "data race (%s) on address 0x%llx: pc=0x%x and pc=0x%x are not ordered by any synchronisation",
             what, (unsigned long long)addr, pc1, pc2);
    fail_msg("data-race", b);
  }
  // not an error here: make both accesses scheduling points
  if (set_insert(S->pcs, 1024, pc1)) S->dirty = 1;
  if (set_insert(S->pcs, 1024, pc2)) S->dirty = 1;
}
void race_strict(const void *p, size_t n) {
  if (P->nstrict >= 16) fail_msg("mc-internal", "too many strict ranges");
  P->strict_lo[P->nstrict] = (u64)p;
  P->strict_hi[P->nstrict++] = (u64)p + n;
}
static inline bool tracked(u64 a) {
  // arena, globals of the program, stacks of virtual threads
  return (a >= ARENA && a < ARENA + ARENA_SIZE) || (a >= P->data_lo && a < P->data_hi) ||
         (a >= STACKS && a < STACKS + (u64)MAXT * (FSTACK + 65536));
}
static void race_access(u64 a, u64 n, bool wr, u32 pc, bool atomic, const char *what) {
  VThread &me = P->t[P->cur];
  int T = P->cur;
  u32 myclk = me.vc.c[T];
  u64 end = a + n;
  for (u64 g = a >> 3; g <= (end - 1) >> 3; ++g) {
    u64 lo = g << 3, hi = lo + 8;
    u64 b = a > lo ? a : lo, e = end < hi ? end : hi;
    u8 mask = (u8)(((1u << (e - b)) - 1) << (b - lo));
    Cell *c = cell_of(g);
    // versus plain write
    if ((c->wmask & mask) && c->wtid != T && c->wclk > me.vc.c[c->wtid]) report_race(a, what, pc, c->wpc);
    // versus atomic write
    if (!atomic && (c->awmask & mask) && c->awtid != T && c->awclk > me.vc.c[c->awtid])
      report_race(a, what, pc, c->awpc);
    if (wr) {
      for (int i = 0; i < MAXT; ++i) {
        if (i == T) continue;
        if ((c->rmask[i] & mask) && c->rclk[i] > me.vc.c[i]) report_race(a, what, pc, c->rpc[i]);
        if (!atomic && (c->armask[i] & mask) && c->arclk[i] > me.vc.c[i]) report_race(a, what, pc, c->awpc);
      }
    }
    if (atomic) {
      if (wr) {
        c->awtid = T;
        c->awclk = myclk;
        c->awmask = mask;
        c->awpc = pc;
      } else {
        if (c->arclk[T] != myclk) c->armask[T] = 0;
        c->arclk[T] = myclk;
        c->armask[T] |= mask;
      }
    } else if (wr) {
      if (c->wtid != T || c->wclk != myclk) c->wmask = 0;
      c->wtid = T;
      c->wclk = myclk;
      c->wmask |= mask;
      c->wpc = pc;
    } else {
      if (c->rclk[T] != myclk) c->rmask[T] = 0;
      c->rclk[T] = myclk;
      c->rmask[T] |= mask;
      c->rpc[T] = pc;
    }
  }
}

static inline u8 *shadow_of(u64 a) { return reinterpret_cast<u8 *>(SHADOW + ((a - ARENA) >> 3)); }
static void bad_access(u64 a, u64 n, bool wr, u32 pc) {
  u8 s = *shadow_of(a);
  char b[300];
  snprintf(b, sizeof b, "%s of %llu byte(s) at 0x%llx (%s memory), pc=0x%x", wr ? "write" : "read", (unsigned long long)n,
           (unsigned long long)a, s == 0xFD ? "freed" : "never allocated / out of bounds", pc);
  fail_msg(s == 0xFD ? "use-after-free" : "bad-memory-access", b);
}
static inline void check_mem(u64 a, u64 n, bool wr, u32 pc) {
  if (a - ARENA >= ARENA_SIZE) return;
  u64 e = a + n - 1;
  for (u64 g = a & ~7ull; g <= e; g += 8) {
    u8 s = *shadow_of(g);
    if (s == 8) continue;
    u64 last = (e - g) < 7 ? (e - g) : 7;
    if (s == 0 || s > 8 || last >= s) bad_access(g, n, wr, pc);
  }
}
static inline void plain(const void *p, u64 n, bool wr, u64 pc64) {
  if (!inited() || !P->in_exec) return;
  u64 a = reinterpret_cast<u64>(p);
  u32 pc = (u32)pc64;
  if (++P->accesses > P->step_limit)
    fail_msg("no-progress", "execution exceeded the step limit: the code under test does not terminate (endless loop)");
  check_mem(a, n, wr, pc);
  if (P->active >= 1 && P->nthreads > 1 && tracked(a)) {
    P->evpc = pc;
    if (P->preempt >= 0 && set_has(P->frozen_pcs, 1024, pc)) sched_point();
    race_access(a, n, wr, pc, false, wr ? "write" : "read");
  }
}
void access_check(const void *p, size_t n, bool write) {
  plain(p, n, write, reinterpret_cast<u64>(__builtin_return_address(0)));
}

// ------------------------------------------------------------------------------------------------------------ atomics
enum { K_LOAD = 1, K_STORE, K_RMW, K_CAS };
static inline bool is_acq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
static inline bool is_rel(int mo) { return mo == 3 || mo == 4 || mo == 5; }

static inline void atomic_pre(const volatile void *p, u64 n, bool wr, u64 pc) {
  if (!P->in_exec) return;
  u64 a = (u64)p;
  if (++P->accesses > P->step_limit)
    fail_msg("no-progress", "execution exceeded the step limit: the code under test does not terminate (endless loop)");
  check_mem(a, n, wr, (u32)pc);
  if (P->active >= 1 && P->nthreads > 1 && tracked(a)) {
    Sync *s = sync_of(a);
    u8 me = (u8)(P->cur + 1);
    if (s->toucher == 0)
      s->toucher = me;
    else if (s->toucher != me && s->toucher != 255) {
      s->toucher = 255;
      if (set_insert(S->addrs, ADDRS, a)) S->dirty = 1;
    }
    P->evpc = (u32)pc;
    if (set_has(P->frozen_addrs, ADDRS, a)) sched_point();
    check_mem(a, n, wr, (u32)pc);
  }
}
// bookkeeping after the operation took effect
static inline void atomic_post(const volatile void *p, u64 n, int kind, int mo, bool modified, u64 val, u64 pc, u64 caller) {
  if (modified && n == 8 && (u64)p - ARENA >= ARENA_SIZE) P->last_mod = (u64)p;
  if (!P->in_exec || P->active < 1 || P->nthreads <= 1) return;
  u64 a = (u64)p;
  if (!tracked(a)) return;
  VThread &me = P->t[P->cur];
  Sync *s = sync_of(a);
  bool writes = kind != K_LOAD && (kind != K_CAS || modified);
  race_access(a, n, writes, (u32)pc, true, "atomic");
  if (kind == K_LOAD || kind == K_RMW || kind == K_CAS) {
    if (is_acq(mo))
      vc_join(me.vc, s->vc);
    else
      vc_join(me.facq, s->vc);
  }
  if (kind == K_STORE) {
    if (is_rel(mo))
      s->vc = me.vc;
    else if (me.has_frel)
      s->vc = me.frel;
    else
      memset(&s->vc, 0, sizeof s->vc);
  } else if (kind == K_RMW || (kind == K_CAS && modified)) {
    if (is_rel(mo))
      vc_join(s->vc, me.vc);
    else if (me.has_frel)
      vc_join(s->vc, me.frel);
  }
  if (writes) me.vc.c[P->cur]++;

  bool changed = kind == K_STORE || (kind == K_RMW && modified) || (kind == K_CAS && modified);
  if (changed) {
    me.idle = 0;
    me.same = 0;
    me.last_addr = 0;
    wake(a);
  } else {
    me.idle++;
    u64 site = pc * 0x9e3779b97f4a7c15ull ^ caller;
    if (me.last_addr == a && me.last_val == val && me.last_kind == kind && me.last_site == site)
      me.same++;
    else
      me.same = 0;
    me.last_addr = a;
    me.last_val = val;
    me.last_site = site;
    me.last_kind = kind;
    // three identical reads of an unchanged location from the same call site: the thread spins
    int limit = P->grace > 0 ? 40 : 2;
    if (P->grace > 0) P->grace--;
    if (me.same >= limit && !me.nopreempt && P->active >= 1) {
      me.st = T_BLOCKED;
      me.waddr = a;
      me.same = 0;
      pick_next();
    } else if (me.idle > 400) {
      me.idle = 0;
      yield_point();
    }
  }
}

// ------------------------------------------------------------------------------------------------------------- memory
static const u64 MAGIC = 0x6d63626c6f636b21ull;
static inline bool arena_ptr(const void *p) {
  u64 a = (u64)p;
  return a - ARENA < ARENA_SIZE;
}
static void *arena_alloc(u64 size, u64 align, u64 pc) {
  P->t[P->cur].same = 0;
  if (P->alloc_fail >= 0) {
    if (P->alloc_fail == 0) {
      P->alloc_fail = -1;
      errno = ENOMEM;
      return nullptr;
    }
    P->alloc_fail--;
  }
  if (align < 16) align = 16;
  if (size > ARENA_SIZE / 4) {
    errno = ENOMEM;
    return nullptr;
  }
  u64 start = P->arena_top;
  u64 user = start + sizeof(Blk) + 16;
  user = (user + align - 1) & ~(align - 1);
  u64 end = (user + size + 15) & ~15ull;
  end += 16;
  if (end > ARENA + ARENA_SIZE) fail_msg("mc-internal", "arena exhausted");
  Blk *b = reinterpret_cast<Blk *>(user - 16 - sizeof(Blk));
  b->magic = MAGIC;
  b->size = size;
  b->off = end;
  b->state = 1;
  b->pc = (u32)pc;
  b->self = user;
  P->arena_top = end;
  if (end > P->arena_high) P->arena_high = end;
  memset(shadow_of(start), 0, (end - start) >> 3);
  memset(shadow_of(user), 8, size >> 3);
  if (size & 7) *shadow_of(user + (size & ~7ull)) = (u8)(size & 7);
  if (size <= 4096 && P->heap_fill) memset((void *)user, 0xCD, size);
  P->live_n++;
  P->live_b += size;
  // remember header position for walking: store at start
  if ((u64)b != start) {
    Blk *w = reinterpret_cast<Blk *>(start);
    (void)w;
  }
  return (void *)user;
}
static Blk *blk_of(void *p) { return reinterpret_cast<Blk *>((u64)p - 16 - sizeof(Blk)); }
static void arena_free(void *p, u64 pc) {
  P->t[P->cur].same = 0;
  u64 a = (u64)p;
  Blk *b = blk_of(p);
  if (a & 15 || a < ARENA + sizeof(Blk) + 16 || b->magic != MAGIC || b->self != a) {
    char m[200];
    snprintf(m, sizeof m, "free of 0x%llx which is not the start of a heap block, pc=0x%llx", (unsigned long long)a,
             (unsigned long long)pc);
    fail_msg("bad-free", m);
  }
  if (b->state == 2) {
    char m[200];
    snprintf(m, sizeof m, "double free of 0x%llx (%llu bytes), pc=0x%llx", (unsigned long long)a,
             (unsigned long long)b->size, (unsigned long long)pc);
    fail_msg("double-free", m);
  }
  if (P->active >= 1 && P->nthreads > 1) race_access(a, b->size < 512 ? (b->size ? b->size : 1) : 512, true, (u32)pc, false, "free");
  if (b->state == 1) {
    P->live_n--;
    P->live_b -= b->size;
  }
  b->state = 2;
  memset(shadow_of(a), 0xFD, (b->size + 7) >> 3);
}
size_t live_blocks() { return P->live_n; }
size_t live_bytes() { return P->live_b; }
bool is_live(const void *p) { return arena_ptr(p) && *shadow_of((u64)p) >= 1 && *shadow_of((u64)p) <= 8; }
bool in_arena(const void *p) { return arena_ptr(p); }
void ignore_leak(const void *p) {
  if (!arena_ptr(p)) return;
  Blk *b = blk_of(const_cast<void *>(p));
  if (b->magic == MAGIC && b->state == 1) {
    b->state = 3;
    P->live_n--;
    P->live_b -= b->size;
  }
}
void set_heap_fill(bool on) { P->heap_fill = on; }
void fail_alloc_after(long n) { P->alloc_fail = n; }
void check_no_leak(const char *key) {
  if (P->live_n == 0) return;
  // what the main thread keeps in thread-local storage is released at its exit
  for (unsigned k = 1; k < P->nkeys; ++k)
    if (P->t[0].tls[k]) ignore_leak(P->t[0].tls[k]);
  if (P->live_n == 0) return;
  char m[400];
  int k = snprintf(m, sizeof m, "%llu heap block(s), %llu bytes never released; allocated at:", (unsigned long long)P->live_n,
                   (unsigned long long)P->live_b);
  // walk: headers carry the end of their block which is the start of the next raw block
  u64 cur = ARENA;
  int shown = 0;
  while (cur < P->arena_top && shown < 5) {
    u64 h = cur;
    bool found = false;
    for (u64 q = h; q < P->arena_top && q < h + 8192; q += 16) {
      Blk *b = reinterpret_cast<Blk *>(q);
      if (b->magic == MAGIC && b->self == q + 16 + sizeof(Blk)) {
        if (b->state == 1) {
          k += snprintf(m + k, sizeof m - k, " pc=0x%x(%llu bytes)", b->pc, (unsigned long long)b->size);
          ++shown;
        }
        cur = b->off;
        found = true;
        break;
      }
    }
    if (!found) break;
  }
  fail_msg(key, m);
}

void set_time(int64_t t) {
  P->now = t;
  P->now_fn = nullptr;
}
uint64_t *last_atomic64() { return reinterpret_cast<uint64_t *>(P->last_mod); }
void set_time_hook(int64_t (*fn)()) { P->now_fn = fn; }

// ------------------------------------------------------------------------------------------------------------ driver
static void main_body(void *) { P->sc->body(); }

static void on_crash(int sig, siginfo_t *si, void *uc) {
  if (inited() && P->in_exec) {
    char b[200];
    u64 pc = ((ucontext_t *)uc)->uc_mcontext.gregs[REG_RIP];
    snprintf(b, sizeof b, "%s (fault address %p), pc=0x%llx",
             sig == SIGSEGV ? "SIGSEGV" : sig == SIGABRT ? "SIGABRT (abort/terminate)" : sig == SIGFPE ? "SIGFPE" : sig == SIGILL ? "SIGILL/trap" : "SIGBUS",
             sig == SIGABRT ? nullptr : si->si_addr, (unsigned long long)pc);
    const char *key = sig == SIGABRT ? "abort" : "crash";
    char full[MAXKEY];
    snprintf(full, sizeof full, "%s:%s", P->sc->name, key);
    bool known = false;
    for (int i = 0; i < S->nknown; ++i)
      if (!strcmp(S->known[i], full)) {
        known = true;
        if (__sync_fetch_and_add(&S->knownhits[i], 1) == 0) snprintf(S->knownmsg[i], sizeof S->knownmsg[i], "%s", b);
      }
    if (P->verbose) {
      printf("  ! %s %s: %s\n", known ? "known finding" : "VIOLATION", full, b);
      fflush(stdout);
    }
    if (!known) put_violation(full, b);
    siglongjmp(P->crash_jmp, known ? 1 : 4);
  }
  signal(sig, SIG_DFL);
  raise(sig);
}
static void on_tick(int, siginfo_t *, void *) {
  if (!inited() || !P->in_exec) return;
  if (P->wd_exec != P->exec_id) {
    P->wd_exec = P->exec_id;
    P->wd_ticks = 0;
    return;
  }
  if (++P->wd_ticks >= 10) {
    const char *b = "an execution used 10 s of processor time: the code under test does not terminate";
    char full[MAXKEY];
    snprintf(full, sizeof full, "%s:no-progress", P->sc->name);
    bool known = false;
    for (int i = 0; i < S->nknown; ++i)
      if (!strcmp(S->known[i], full)) {
        known = true;
        __sync_fetch_and_add(&S->knownhits[i], 1);
      }
    if (!known) put_violation(full, b);
    siglongjmp(P->crash_jmp, known ? 1 : 4);
  }
}
static void install_signals() {
  static_assert(true, "");
  void *alt = mmap(nullptr, 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  stack_t ss;
  memset(&ss, 0, sizeof ss);
  ss.ss_sp = alt;
  ss.ss_size = 65536;
  sigaltstack(&ss, nullptr);
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = on_crash;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  int sigs[] = {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGTRAP};
  for (int s : sigs) sigaction(s, &sa, nullptr);
  sa.sa_sigaction = on_tick;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_RESTART;
  sigaction(SIGPROF, &sa, nullptr);
  struct itimerval it;
  it.it_interval.tv_sec = 1;
  it.it_interval.tv_usec = 0;
  it.it_value = it.it_interval;
  setitimer(ITIMER_PROF, &it, nullptr);
}

static int run_one() {
  // restore the initial state of the program's globals
  memcpy(__data_start, P->snap, P->snap_len);
  u64 used = P->arena_high - ARENA;
  memset(reinterpret_cast<void *>(SHADOW), 0, (used >> 3) + 64);
  P->arena_top = P->arena_high = ARENA;
  P->live_n = P->live_b = 0;
  P->maps = 0;
  P->gen++;
  P->pos = 0;
  P->cycle_len = 0;
  P->cut = -1;
  P->prod = 1;
  P->cur = 0;
  P->nthreads = 1;
  P->active = 0;
  P->preempts = 0;
  P->accesses = P->esteps = P->esched = 0;
  P->grace = P->grace_round = 0;
  P->last_mod = 0;
  P->alloc_fail = -1;
  P->now = 1700000000;
  P->now_fn = nullptr;
  P->heap_fill = true;
  P->nstrict = 0;
  memset(P->t, 0, sizeof P->t);
  memset(P->scratch, 0, 8192);
  P->t[0].vc.c[0] = 1;
  P->t[0].st = T_RUN;
  P->t[0].fn = main_body;
  prep_stack(0);
  tls_reset(P->tls_block);
  u64 *g = eh_globals();
  g[0] = g[1] = 0;
  P->exec_id++;
  P->outcome = -1;
  errno = 0;
  int j = sigsetjmp(P->crash_jmp, 1);
  if (j == 0) {
    P->in_exec = 1;
    mc_switch(&P->runner_sp, P->t[0].sp);
  } else {
    P->outcome = j;
  }
  P->in_exec = 0;
  g[0] = g[1] = 0;
  return P->outcome;
}

static void explore() {
  WorkerShared &w = S->w[P->worker];
  w.nchoices = 0;
  P->prefix_idx = 0;
  P->prefix_seen = false;
  P->owned = true;
  w.busy = 1;
  for (;;) {
    int r = run_one();
    if (r == 4 || S->stop) break;
    if (r != 3 && P->cut < 0) {
      // a whole execution shorter than the partition prefix: one worker counts it
      u64 idx = P->prefix_idx++;
      P->owned = idx >= CLAIMS || __sync_lock_test_and_set(&S->claims[idx], 1) == 0;
    }
    if (r == 3 || !P->owned)
      w.skipped++;
    else if (r == 2)
      w.pruned++;
    else
      w.execs++;
    if (r != 3 && P->owned) w.accesses += P->accesses, w.steps += P->esteps, w.schedpts += P->esched;
    if ((u64)P->pos > w.maxdepth) w.maxdepth = P->pos;
    // backtrack
    int n = P->pos;
    w.nchoices = n;
    int cut = P->cut;
    while (w.nchoices > 0) {
      Choice &c = w.ch[w.nchoices - 1];
      if (c.c + 1 < c.n) break;
      w.nchoices--;
    }
    if (w.nchoices == 0) break;
    w.ch[w.nchoices - 1].c++;
    if (cut < 0 || w.nchoices <= cut) {
      P->prefix_seen = false;  // we are leaving this prefix
      P->owned = true;
    }
    if ((w.execs & 63) == 0 && nowsec() > P->deadline) {
      S->stop = 2;
      break;
    }
    if (S->stop) break;
  }
  w.busy = 0;
}

// thread_local variables of the program: every virtual thread has its own copy, swapped at a switch
static int find_tls(struct dl_phdr_info *info, size_t, void *) {
  if (info->dlpi_name && info->dlpi_name[0]) return 0;  // the program itself comes first and has no name
  for (int i = 0; i < info->dlpi_phnum; ++i) {
    const ElfW(Phdr) &h = info->dlpi_phdr[i];
    if (h.p_type != PT_TLS) continue;
    u64 fs;
    asm volatile("movq %%fs:0, %0" : "=r"(fs));
    u64 al = h.p_align ? h.p_align : 1;
    u64 size = (h.p_memsz + al - 1) & ~(al - 1);
    if (size > sizeof(P->t[0].tls_image)) {
      fprintf(stderr, "mc: thread-local segment too large\n");
      _exit(3);
    }
    P->tls_size = size;
    P->tls_init_size = h.p_filesz;
    P->tls_init = (const char *)(info->dlpi_addr + h.p_vaddr);
    P->tls_block = (char *)(fs - size);
  }
  return 1;
}
static void map_fixed(u64 at, u64 len, int flags) {
  void *p = mmap((void *)at, len, PROT_READ | PROT_WRITE, flags | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0);
  if (p != (void *)at) {
    fprintf(stderr, "mc: cannot map 0x%llx\n", (unsigned long long)at);
    _exit(3);
  }
}

static void json_str(FILE *f, const char *s) {
  fputc('"', f);
  for (; *s; ++s) {
    if (*s == '"' || *s == '\\')
      fprintf(f, "\\%c", *s);
    else if ((unsigned char)*s < 32)
      fprintf(f, " ");
    else
      fputc(*s, f);
  }
  fputc('"', f);
}

int main(int argc, char **argv, const Scenario *list, size_t nlist) {
  const char *out = nullptr, *replay = nullptr, *only = nullptr, *vpath = "violation.replay";
  int workers = 8;
  double budget = 60;
  bool thorough = false;
  int force_depth = -1, force_preempt = -2;
  map_fixed(ARENA, ARENA_SIZE, MAP_PRIVATE);
  map_fixed(SHADOW, ARENA_SIZE / 8 + 4096, MAP_PRIVATE);
  map_fixed(SHARED, sizeof(Shared) + 4096, MAP_SHARED);
  map_fixed(PRIV, sizeof(Priv) + 4096, MAP_PRIVATE);
  map_fixed(STACKS, (u64)MAXT * (FSTACK + 65536), MAP_PRIVATE);
  for (int i = 0; i < MAXT; ++i)  // guard
    mprotect((void *)(STACKS + (u64)i * (FSTACK + 65536)), 4096, PROT_NONE);
  for (int i = 1; i < argc; ++i) {
    if (!strcmp(argv[i], "--list")) {
      for (size_t k = 0; k < nlist; ++k) printf("%s\n", list[k].name);
      return 0;
    }
    if (i + 1 >= argc) break;
    if (!strcmp(argv[i], "--scenario")) only = argv[++i];
    else if (!strcmp(argv[i], "--out")) out = argv[++i];
    else if (!strcmp(argv[i], "--replay")) replay = argv[++i];
    else if (!strcmp(argv[i], "--violation")) vpath = argv[++i];
    else if (!strcmp(argv[i], "--workers")) workers = atoi(argv[++i]);
    else if (!strcmp(argv[i], "--budget")) budget = atof(argv[++i]);
    else if (!strcmp(argv[i], "--tier")) thorough = !strcmp(argv[++i], "thorough");
    else if (!strcmp(argv[i], "--depth")) force_depth = atoi(argv[++i]);
    else if (!strcmp(argv[i], "--preempt")) force_preempt = atoi(argv[++i]);
    else if (!strcmp(argv[i], "--known")) {
      // key as scenario:failure
      if (S->nknown < NKEYS) snprintf(S->known[S->nknown++], MAXKEY, "%s", argv[++i]);
    }
  }
  if (workers > MAXWORKERS) workers = MAXWORKERS;
  setvbuf(stdout, nullptr, _IOLBF, 1 << 16);
  P->data_lo = (u64)__data_start;
  P->data_hi = (u64)_end;
  P->nkeys = 1;
  P->step_limit = 4000000;
  P->arena_top = P->arena_high = ARENA;
  P->alloc_fail = -1;
  dl_iterate_phdr(find_tls, nullptr);
  g_inited = 1;
  eh_globals();

  char rname[64] = "";
  if (replay) {
    FILE *f = fopen(replay, "r");
    if (!f) {
      fprintf(stderr, "cannot open %s\n", replay);
      return 3;
    }
    char line[65536];
    int tier = 0;
    while (fgets(line, sizeof line, f)) {
      if (!strncmp(line, "scenario ", 9)) sscanf(line + 9, "%63s", rname);
      if (!strncmp(line, "tier ", 5)) tier = !strncmp(line + 5, "thorough", 8);
      if (!strncmp(line, "depth ", 6)) force_depth = atoi(line + 6);
      if (!strncmp(line, "preempt ", 8)) force_preempt = atoi(line + 8);
      if (!strncmp(line, "addr ", 5)) set_insert(S->addrs, ADDRS, strtoull(line + 5, nullptr, 16));
      if (!strncmp(line, "pc ", 3)) set_insert(S->pcs, 1024, strtoull(line + 3, nullptr, 16));
      if (!strncmp(line, "choice ", 7)) {
        int c = atoi(line + 7);
        S->w[0].ch[S->w[0].nchoices].c = (uint16_t)c;
        S->w[0].ch[S->w[0].nchoices].n = 0;
        S->w[0].nchoices++;
      }
    }
    fclose(f);
    thorough = tier;
    only = rname;
    workers = 1;
  }

  __libc_single_threaded = 0;  // shared_ptr must use atomic operations
  P->snap_len = _end - __data_start;
  P->snap = (char *)mmap(nullptr, P->snap_len + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);

  double t_start = nowsec();
  FILE *jf = out ? fopen(out, "w") : nullptr;
  if (jf) fprintf(jf, "{\"scenarios\":[");
  bool first = true;
  int rc = 0;
  size_t remaining = 0;
  for (size_t k = 0; k < nlist; ++k)
    if (!only || !strcmp(only, list[k].name)) ++remaining;
  if (remaining == 0) {
    fprintf(stderr, "no such scenario\n");
    return 4;
  }
  for (size_t k = 0; k < nlist; ++k) {
    const Scenario &sc = list[k];
    if (only && strcmp(only, sc.name)) continue;
    P->sc = &sc;
    P->thorough = thorough;
    P->depth = force_depth >= 0 ? force_depth : thorough ? sc.thorough_depth : sc.quick_depth;
    P->preempt = force_preempt >= -1 ? force_preempt : thorough ? sc.thorough_preempt : sc.quick_preempt;
    P->nworkers = workers;
    double t0 = nowsec();
    double left = budget - (t0 - t_start);
    // what is left is shared by the scenarios still to come, early ones may use twice their share
    double share = remaining > 1 ? left * 2.0 / (remaining + 1) : left;
    P->deadline = t0 + share;
    --remaining;

    if (replay) {
      P->replay = true;
      P->verbose = true;
      P->worker = 0;
      memcpy(P->frozen_addrs, S->addrs, sizeof S->addrs);
      memcpy(P->frozen_pcs, S->pcs, sizeof S->pcs);
      memcpy(P->snap, __data_start, P->snap_len);
      install_signals();
      printf("replaying %s, %d choices, depth %d, preemption bound %d\n", sc.name, S->w[0].nchoices, P->depth, P->preempt);
      int r = run_one();
      printf("result: %s\n", r == 0 ? "no failure" : r == 4 ? "VIOLATION reproduced" : r == 1 ? "known finding" : "pruned");
      return r == 4 ? 1 : 0;
    }

    int passes = 0;
    u64 goals_total = 0;
    memset(S->addrs, 0, sizeof S->addrs);
    memset(S->pcs, 0, sizeof S->pcs);
    for (;;) {
      ++passes;
      S->stop = 0;
      S->dirty = 0;
      memset(S->w, 0, sizeof S->w);
      memset(S->claims, 0, sizeof S->claims);
      memset(S->states, 0, sizeof S->states);
      S->nstates = 0;
      memcpy(P->frozen_addrs, S->addrs, sizeof S->addrs);
      memcpy(P->frozen_pcs, S->pcs, sizeof S->pcs);
      fflush(nullptr);
      pid_t pids[MAXWORKERS];
      for (int wk = 0; wk < workers; ++wk) {
        pid_t pid = fork();
        if (pid == 0) {
          P->worker = wk;
          memcpy(P->snap, __data_start, P->snap_len);
          install_signals();
          explore();
          S->w[wk].finished = 1;
          _exit(0);
        }
        pids[wk] = pid;
      }
      for (int wk = 0; wk < workers; ++wk) {
        int st = 0;
        waitpid(pids[wk], &st, 0);
        if (!S->w[wk].finished) {
          if (!S->viol.set) {
            S->viol.set = 1;
            snprintf(S->viol.key, MAXKEY, "%s:%s", sc.name, "worker-died");
            snprintf(S->viol.msg, sizeof S->viol.msg, "exploring process died with wait status 0x%x", st);
            S->viol.n = S->w[wk].nchoices;
            memcpy(S->viol.ch, S->w[wk].ch, sizeof(Choice) * S->viol.n);
          }
          S->stop = 1;
        }
      }
      goals_total |= S->goals;
      if (S->viol.set) break;
      if (S->stop == 2) break;
      if (!S->dirty) break;
      if (passes > 12) break;
    }
    u64 execs = 0, skipped = 0, pruned = 0, steps = 0, acc = 0, maxd = 0, sp = 0;
    for (int wk = 0; wk < workers; ++wk) {
      execs += S->w[wk].execs;
      skipped += S->w[wk].skipped;
      pruned += S->w[wk].pruned;
      steps += S->w[wk].steps;
      acc += S->w[wk].accesses;
      sp += S->w[wk].schedpts;
      if (S->w[wk].maxdepth > maxd) maxd = S->w[wk].maxdepth;
    }
    u64 naddr = 0, npc = 0;
    for (u64 i = 0; i < ADDRS; ++i) naddr += P->frozen_addrs[i] != 0;
    for (u64 i = 0; i < 1024; ++i) npc += P->frozen_pcs[i] != 0;
    bool exhaustive = !S->viol.set && S->stop != 2;
    double wall = nowsec() - t0;
    printf("%-34s depth=%d pb=%d execs=%llu pruned=%llu steps=%llu states=%llu schedpts=%llu maxchoices=%llu passes=%d "
           "shared=%llu racy=%llu %s %.2fs\n",
           sc.name, P->depth, P->preempt, (unsigned long long)execs, (unsigned long long)pruned, (unsigned long long)steps,
           (unsigned long long)S->nstates, (unsigned long long)sp, (unsigned long long)maxd, passes,
           (unsigned long long)naddr, (unsigned long long)npc, exhaustive ? "EXHAUSTED" : S->viol.set ? "VIOLATION" : "budget",
           wall);
    if (jf) {
      fprintf(jf, "%s{\"name\":", first ? "" : ",\n");
      json_str(jf, sc.name);
      fprintf(jf, ",\"what\":");
      json_str(jf, sc.what ? sc.what : "");
      fprintf(jf,
              ",\"depth\":%d,\"preemption_bound\":%d,\"executions\":%llu,\"pruned\":%llu,\"steps\":%llu,\"states\":%llu,"
              "\"sched_points\":%llu,\"max_choices\":%llu,\"passes\":%d,\"accesses_checked\":%llu,\"exhaustive\":%s,"
              "\"wall_s\":%.2f,\"goals\":{",
              P->depth, P->preempt, (unsigned long long)execs, (unsigned long long)pruned, (unsigned long long)steps,
              (unsigned long long)S->nstates, (unsigned long long)sp, (unsigned long long)maxd, passes,
              (unsigned long long)acc, exhaustive ? "true" : "false", wall);
      for (int gi = 0; gi < 24 && sc.goals[gi]; ++gi) {
        if (gi) fprintf(jf, ",");
        json_str(jf, sc.goals[gi]);
        fprintf(jf, ":%s", (goals_total >> gi) & 1 ? "true" : "false");
      }
      fprintf(jf, "}}");
      first = false;
    }
    for (int gi = 0; gi < 24 && sc.goals[gi]; ++gi)
      if (!((goals_total >> gi) & 1) && !S->viol.set && sc.goals[gi][0] != '-') printf("    goal not reached: %s\n", sc.goals[gi]);
    S->goals = 0;
    if (S->viol.set) {
      rc = 1;
      FILE *vf = fopen(vpath, "w");
      if (vf) {
        fprintf(vf, "scenario %s\ntier %s\ndepth %d\npreempt %d\nkey %s\nmessage %s\n", sc.name,
                thorough ? "thorough" : "quick", P->depth, P->preempt, S->viol.key, S->viol.msg);
        for (u64 i = 0; i < ADDRS; ++i)
          if (P->frozen_addrs[i]) fprintf(vf, "addr %llx\n", (unsigned long long)P->frozen_addrs[i]);
        for (u64 i = 0; i < 1024; ++i)
          if (P->frozen_pcs[i]) fprintf(vf, "pc %llx\n", (unsigned long long)P->frozen_pcs[i]);
        for (int i = 0; i < S->viol.n; ++i) fprintf(vf, "choice %d\n", S->viol.ch[i].c);
        fclose(vf);
      }
      printf("FAIL %s: %s\n", S->viol.key, S->viol.msg);
      break;
    }
  }
  for (int i = 0; i < S->nknown; ++i)
    if (S->knownhits[i])
      printf("KNOWN %s hits=%llu %s\n", S->known[i], (unsigned long long)S->knownhits[i], S->knownmsg[i]);
  if (jf) {
    fprintf(jf, "],\"violation\":%s", rc ? "true" : "false");
    if (rc) {
      fprintf(jf, ",\"key\":");
      json_str(jf, S->viol.key);
      fprintf(jf, ",\"message\":");
      json_str(jf, S->viol.msg);
    }
    fprintf(jf, ",\"known\":{");
    bool f2 = true;
    for (int i = 0; i < S->nknown; ++i) {
      fprintf(jf, "%s", f2 ? "" : ",");
      f2 = false;
      json_str(jf, S->known[i]);
      fprintf(jf, ":%llu", (unsigned long long)S->knownhits[i]);
    }
    fprintf(jf, "},\"wall_s\":%.2f}\n", nowsec() - t_start);
    fclose(jf);
  }
  return rc;
}
}  // namespace mc

// ================================================================================================== interposed symbols
using namespace mc;
#define RA ((u64)__builtin_return_address(0))
// return address of the instrumented function that made the call (all of it is compiled with frame pointers)
#define RA1 (reinterpret_cast<u64 *>(*reinterpret_cast<u64 *>(__builtin_frame_address(0)))[1])
extern "C" {
void *malloc(size_t n) {
  if (inited() && P->in_exec) return arena_alloc(n, 16, RA);
  return __libc_malloc(n);
}
void free(void *p) {
  if (!p) return;
  if (arena_ptr(p)) {
    if (inited() && P->in_exec) arena_free(p, RA);
    return;
  }
  __libc_free(p);
}
void *calloc(size_t a, size_t b) {
  if (inited() && P->in_exec) {
    void *p = arena_alloc(a * b, 16, RA);
    if (p) memset(p, 0, a * b);
    return p;
  }
  return __libc_calloc(a, b);
}
void *realloc(void *p, size_t n) {
  if (inited() && P->in_exec) {
    if (!p) return arena_alloc(n, 16, RA);
    if (arena_ptr(p)) {
      void *q = arena_alloc(n, 16, RA);
      if (!q) return nullptr;
      u64 o = blk_of(p)->size;
      memcpy(q, p, o < n ? o : n);
      arena_free(p, RA);
      return q;
    }
  }
  return __libc_realloc(p, n);
}
void *memalign(size_t al, size_t n) {
  if (inited() && P->in_exec) return arena_alloc(n, al, RA);
  return __libc_memalign(al, n);
}
void *aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
int posix_memalign(void **out, size_t al, size_t n) {
  void *p = memalign(al, n);
  if (!p) return ENOMEM;
  *out = p;
  return 0;
}

// Anonymous mappings made by the code under test come from the arena too, so that their lifetime is checked.
void *mmap(void *addr, size_t len, int prot, int flags, int fd, off_t off) {
  if (inited() && P->in_exec && !addr && (flags & MAP_ANONYMOUS)) {
    u64 n = (len + 4095) & ~4095ull;
    void *p = arena_alloc(n, 4096, RA);
    if (!p) {
      errno = ENOMEM;
      return MAP_FAILED;
    }
    memset(p, 0, n > 4096 ? 4096 : n);
    P->maps++;
    return p;
  }
  return (void *)syscall(SYS_mmap, addr, len, prot, flags, fd, off);
}
int munmap(void *addr, size_t len) {
  if (inited() && P->in_exec && arena_ptr(addr)) {
    u64 n = (len + 4095) & ~4095ull;
    Blk *b = blk_of(addr);
    if (((u64)addr & 4095) || b->magic != MAGIC || b->self != (u64)addr || b->size != n) {
      char m[240];
      snprintf(m, sizeof m, "munmap(0x%llx, %llu) does not match a mapping, pc=0x%llx", (unsigned long long)addr,
               (unsigned long long)len, RA);
      fail_msg("bad-munmap", m);
    }
    arena_free(addr, RA);
    P->maps--;
    return 0;
  }
  return (int)syscall(SYS_munmap, addr, len);
}
int mprotect(void *addr, size_t len, int prot) {
  if (inited() && P->in_exec && arena_ptr(addr)) {
    u64 n = (len + 4095) & ~4095ull;
    if ((u64)addr & 4095) {
      errno = EINVAL;
      return -1;
    }
    if (prot == PROT_NONE) memset(shadow_of((u64)addr), 0, n >> 3);
    else memset(shadow_of((u64)addr), 8, n >> 3);
    return 0;
  }
  return (int)syscall(SYS_mprotect, addr, len, prot);
}
int __cxa_atexit(void (*)(void *), void *, void *) { return 0; }  // statics are restored, never destroyed
int pthread_key_create(pthread_key_t *key, void (*dtor)(void *)) {
  if (!inited()) return ENOMEM;
  // keys are program state: reuse the same numbers in every execution
  static pthread_key_t nk = 1;  // lives in the snapshotted globals
  if (nk >= NTLSKEY) return EAGAIN;
  pthread_key_t k = nk++;
  P->key_dtor[k] = dtor;
  if (P->nkeys < nk) P->nkeys = nk;
  *key = k;
  return 0;
}
int pthread_key_delete(pthread_key_t) { return 0; }
void *pthread_getspecific(pthread_key_t k) {
  if (!inited() || k >= NTLSKEY) return nullptr;
  return P->t[P->cur].tls[k];
}
int pthread_setspecific(pthread_key_t k, const void *v) {
  if (!inited() || k >= NTLSKEY) return EINVAL;
  P->t[P->cur].tls[k] = const_cast<void *>(v);
  return 0;
}
int pthread_once(pthread_once_t *o, void (*fn)(void)) {
  if (*o == 0) {
    *o = 2;
    fn();
  }
  return 0;
}
int sched_yield(void) {
  if (inited() && P->in_exec) yield_point();
  return 0;
}
int nanosleep(const struct timespec *, struct timespec *) {
  if (inited() && P->in_exec) yield_point();
  return 0;
}
int clock_nanosleep(clockid_t, int, const struct timespec *, struct timespec *) {
  if (inited() && P->in_exec) yield_point();
  return 0;
}
int usleep(useconds_t) {
  if (inited() && P->in_exec) yield_point();
  return 0;
}
time_t time(time_t *o) {
  time_t v;
  if (inited() && P->in_exec)
    v = P->now_fn ? P->now_fn() : P->now;
  else {
    struct timespec ts;
    syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts);
    v = ts.tv_sec;
  }
  if (o) *o = v;
  return v;
}
int clock_gettime(clockid_t id, struct timespec *ts) {
  if (inited() && P->in_exec && id != CLOCK_PROCESS_CPUTIME_ID && id != CLOCK_THREAD_CPUTIME_ID) {
    ts->tv_sec = P->now_fn ? P->now_fn() : P->now;
    ts->tv_nsec = 0;
    return 0;
  }
  return (int)syscall(SYS_clock_gettime, id, ts);
}

// ------------------------------------------------------------------------------------------------------ __tsan interface
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(n)                                                              \
  void __tsan_read##n(void *p) { plain(p, n, false, RA); }                  \
  void __tsan_write##n(void *p) { plain(p, n, true, RA); }                  \
  void __tsan_unaligned_read##n(void *p) { plain(p, n, false, RA); }        \
  void __tsan_unaligned_write##n(void *p) { plain(p, n, true, RA); }        \
  void __tsan_volatile_read##n(void *p) { plain(p, n, false, RA); }         \
  void __tsan_volatile_write##n(void *p) { plain(p, n, true, RA); }         \
  void __tsan_unaligned_volatile_read##n(void *p) { plain(p, n, false, RA); } \
  void __tsan_unaligned_volatile_write##n(void *p) { plain(p, n, true, RA); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) {
  if (n) plain(p, n, false, RA);
}
void __tsan_write_range(void *p, size_t n) {
  if (n) plain(p, n, true, RA);
}
void __tsan_vptr_update(void **p, void *v) {
  // rewriting the same vtable pointer (destructors do it) is not a write for our purposes
  if (inited() && P->in_exec) check_mem((u64)p, 8, true, (u32)RA);
  if (*p != v) plain(p, 8, true, RA);
}
void __tsan_vptr_read(void **p) { plain(p, 8, false, RA); }

#define ATOMIC(n, T)                                                                                              \
  T __tsan_atomic##n##_load(const volatile T *p, int mo) {                                                        \
    if (!inited()) return *p;                                                                                     \
    atomic_pre(p, sizeof(T), false, RA);                                                                          \
    T v = *p;                                                                                                     \
    atomic_post(p, sizeof(T), K_LOAD, mo, false, (u64)v, RA, RA1);                                                     \
    return v;                                                                                                     \
  }                                                                                                               \
  void __tsan_atomic##n##_store(volatile T *p, T v, int mo) {                                                     \
    if (!inited()) {                                                                                              \
      *p = v;                                                                                                     \
      return;                                                                                                     \
    }                                                                                                             \
    atomic_pre(p, sizeof(T), true, RA);                                                                           \
    *p = v;                                                                                                       \
    atomic_post(p, sizeof(T), K_STORE, mo, true, (u64)v, RA, RA1);                                                     \
  }                                                                                                               \
  T __tsan_atomic##n##_exchange(volatile T *p, T v, int mo) {                                                     \
    if (inited()) atomic_pre(p, sizeof(T), true, RA);                                                             \
    T o = *p;                                                                                                     \
    *p = v;                                                                                                       \
    if (inited()) atomic_post(p, sizeof(T), K_RMW, mo, o != v, (u64)o, RA, RA1);                                       \
    return o;                                                                                                     \
  }                                                                                                               \
  T __tsan_atomic##n##_fetch_add(volatile T *p, T v, int mo) {                                                    \
    if (inited()) atomic_pre(p, sizeof(T), true, RA);                                                             \
    T o = *p;                                                                                                     \
    *p = (T)(o + v);                                                                                              \
    if (inited()) atomic_post(p, sizeof(T), K_RMW, mo, v != 0, (u64)o, RA, RA1);                                       \
    return o;                                                                                                     \
  }                                                                                                               \
  T __tsan_atomic##n##_fetch_sub(volatile T *p, T v, int mo) {                                                    \
    if (inited()) atomic_pre(p, sizeof(T), true, RA);                                                             \
    T o = *p;                                                                                                     \
    *p = (T)(o - v);                                                                                              \
    if (inited()) atomic_post(p, sizeof(T), K_RMW, mo, v != 0, (u64)o, RA, RA1);                                       \
    return o;                                                                                                     \
  }                                                                                                               \
  T __tsan_atomic##n##_fetch_and(volatile T *p, T v, int mo) {                                                    \
    if (inited()) atomic_pre(p, sizeof(T), true, RA);                                                             \
    T o = *p;                                                                                                     \
    *p = (T)(o & v);                                                                                              \
    if (inited()) atomic_post(p, sizeof(T), K_RMW, mo, *p != o, (u64)o, RA, RA1);                                      \
    return o;                                                                                                     \
  }                                                                                                               \
  T __tsan_atomic##n##_fetch_or(volatile T *p, T v, int mo) {                                                     \
    if (inited()) atomic_pre(p, sizeof(T), true, RA);                                                             \
    T o = *p;                                                                                                     \
    *p = (T)(o | v);                                                                                              \
    if (inited()) atomic_post(p, sizeof(T), K_RMW, mo, *p != o, (u64)o, RA, RA1);                                      \
    return o;                                                                                                     \
  }                                                                                                               \
  T __tsan_atomic##n##_fetch_xor(volatile T *p, T v, int mo) {                                                    \
    if (inited()) atomic_pre(p, sizeof(T), true, RA);                                                             \
    T o = *p;                                                                                                     \
    *p = (T)(o ^ v);                                                                                              \
    if (inited()) atomic_post(p, sizeof(T), K_RMW, mo, *p != o, (u64)o, RA, RA1);                                      \
    return o;                                                                                                     \
  }                                                                                                               \
  T __tsan_atomic##n##_fetch_nand(volatile T *p, T v, int mo) {                                                   \
    if (inited()) atomic_pre(p, sizeof(T), true, RA);                                                             \
    T o = *p;                                                                                                     \
    *p = (T) ~(o & v);                                                                                            \
    if (inited()) atomic_post(p, sizeof(T), K_RMW, mo, *p != o, (u64)o, RA, RA1);                                      \
    return o;                                                                                                     \
  }                                                                                                               \
  int __tsan_atomic##n##_compare_exchange_strong(volatile T *p, T *e, T v, int mo, int fmo) {                     \
    if (inited()) atomic_pre(p, sizeof(T), true, RA);                                                             \
    T o = *p;                                                                                                     \
    bool ok = o == *e;                                                                                            \
    if (ok)                                                                                                       \
      *p = v;                                                                                                     \
    else                                                                                                          \
      *e = o;                                                                                                     \
    if (inited()) atomic_post(p, sizeof(T), K_CAS, ok ? mo : fmo, ok, (u64)o, RA, RA1);                                \
    return ok;                                                                                                    \
  }                                                                                                               \
  int __tsan_atomic##n##_compare_exchange_weak(volatile T *p, T *e, T v, int mo, int fmo) {                       \
    if (inited()) atomic_pre(p, sizeof(T), true, RA);                                                             \
    T o = *p;                                                                                                     \
    bool ok = o == *e;                                                                                            \
    if (ok)                                                                                                       \
      *p = v;                                                                                                     \
    else                                                                                                          \
      *e = o;                                                                                                     \
    if (inited()) atomic_post(p, sizeof(T), K_CAS, ok ? mo : fmo, ok, (u64)o, RA, RA1);                                \
    return ok;                                                                                                    \
  }                                                                                                               \
  T __tsan_atomic##n##_compare_exchange_val(volatile T *p, T e, T v, int mo, int fmo) {                           \
    if (inited()) atomic_pre(p, sizeof(T), true, RA);                                                             \
    T o = *p;                                                                                                     \
    bool ok = o == e;                                                                                             \
    if (ok) *p = v;                                                                                               \
    if (inited()) atomic_post(p, sizeof(T), K_CAS, ok ? mo : fmo, ok, (u64)o, RA, RA1);                                \
    return o;                                                                                                     \
  }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) {
  if (!inited() || !P->in_exec || P->active < 1) return;
  VThread &me = P->t[P->cur];
  if (is_acq(mo)) vc_join(me.vc, me.facq);
  if (is_rel(mo)) {
    me.frel = me.vc;
    me.has_frel = true;
    me.vc.c[P->cur]++;
  }
}
void __tsan_atomic_signal_fence(int) {}
}

// Initialisation of function-local statics: waits for another virtual thread that is at it.
extern "C" int __cxa_guard_acquire(u64 *g) {
  u8 *b = reinterpret_cast<u8 *>(g);
  for (;;) {
    if (__atomic_load_n(b, __ATOMIC_ACQUIRE)) {
      if (inited()) atomic_post(b, 1, K_LOAD, 2, false, 1, RA, 0);
      return 0;
    }
    if (!b[1]) {
      b[1] = 1;
      return 1;
    }
    if (!inited() || !P->in_exec || P->active <= 1) fail_msg("static-recursion", "initialisation of a static object waits for itself");
    VThread &me = P->t[P->cur];
    me.st = T_BLOCKED;
    me.waddr = (u64)b;
    me.same = 0;
    pick_next();
  }
}
extern "C" void __cxa_guard_release(u64 *g) {
  u8 *b = reinterpret_cast<u8 *>(g);
  b[1] = 0;
  __atomic_store_n(b, 1, __ATOMIC_RELEASE);
  if (inited()) atomic_post(b, 1, K_STORE, 3, true, 1, RA, 0);
}
extern "C" void __cxa_guard_abort(u64 *g) {
  u8 *b = reinterpret_cast<u8 *>(g);
  b[1] = 0;
  if (inited() && P->in_exec && P->active >= 1) wake((u64)b);
}

// The process must not be ended by the code under test (the context-switch assembly does so when a context function
// returns).
extern "C" __attribute__((noreturn)) void _exit(int code) {
  if (inited() && P->in_exec) fail_msg("process-exit", "the code under test ended the process (a context function returned?)");
  for (;;) syscall(SYS_exit_group, code);
}

// operator new: keep the caller's address for leak reports
#include <new>
static inline void *op_new(size_t n, size_t al, u64 pc, bool nothrow) {
  void *p;
  if (inited() && P->in_exec)
    p = arena_alloc(n, al, pc);
  else
    p = al > 16 ? __libc_memalign(al, n) : __libc_malloc(n);
  if (!p && !nothrow) throw std::bad_alloc();
  return p;
}
static inline void op_del(void *p, u64 pc) {
  if (!p) return;
  if (arena_ptr(p)) {
    if (inited() && P->in_exec) arena_free(p, pc);
    return;
  }
  __libc_free(p);
}
void *operator new(size_t n) { return op_new(n, 16, RA, false); }
void *operator new[](size_t n) { return op_new(n, 16, RA, false); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return op_new(n, 16, RA, true); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return op_new(n, 16, RA, true); }
void *operator new(size_t n, std::align_val_t a) { return op_new(n, (size_t)a, RA, false); }
void *operator new[](size_t n, std::align_val_t a) { return op_new(n, (size_t)a, RA, false); }
void operator delete(void *p) noexcept { op_del(p, RA); }
void operator delete[](void *p) noexcept { op_del(p, RA); }
void operator delete(void *p, size_t) noexcept { op_del(p, RA); }
void operator delete[](void *p, size_t) noexcept { op_del(p, RA); }
void operator delete(void *p, const std::nothrow_t &) noexcept { op_del(p, RA); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { op_del(p, RA); }
void operator delete(void *p, std::align_val_t) noexcept { op_del(p, RA); }
void operator delete[](void *p, std::align_val_t) noexcept { op_del(p, RA); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { op_del(p, RA); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { op_del(p, RA); }

// Stack switches of the code under test: the saved registers are written and read by assembly which is not
// instrumented, so a switch is a scheduling point of its own and its accesses are reported by hand.
struct fctx_transfer {
  void *fctx;
  void *data;
};
extern "C" fctx_transfer __real_copp_jump_fcontext_v2(void *const to, void *vp);
extern "C" __attribute__((noinline)) fctx_transfer __wrap_copp_jump_fcontext_v2(void *const to, void *vp) {
  if (inited() && P->in_exec) {
    P->evpc = (u32)RA;
    P->t[P->cur].same = 0;
    sched_point();
    if (!to) fail_msg("bad-switch", "switch to a null context");
    plain(to, 64, false, RA);
    if (P->active >= 1 && P->nthreads > 1) {
      u64 sp = (u64)__builtin_frame_address(0);
      if (tracked(sp)) race_access((sp - 128) & ~7ull, 64, true, (u32)RA, false, "context save");
    }
  }
  return __real_copp_jump_fcontext_v2(to, vp);
}
