// C06: threads use one stack pool at the same time.  What they observe must be what some order of their calls gives.
#include "pool.h"
#include <libcopp/coroutine/coroutine_context_container.h>
#include <memory>
enum Kind { ALLOC, ALLOCF, FREE, GC, CLEAR, NKIND };
static const char *const NAME[] = {"allocate", "allocate without memory", "return", "gc", "clear"};
#define BIT(k) (1 << (k))
enum Res { REFUSED = 1, FRESH, REUSED, FAILED, NOTHING };
struct Done {
  int k, from, to, res, n;  // n: stacks given back to the system
};
struct Sh {
  Book book;
  int clock, mine[4];  // stacks given back by each thread
  int fresh[4];
  bool fails[4];
  Done done[4][4];
  int ndone[4];
  int prog[4][4];
  stack_context held[4][6];
  int nheld[4];
};
static Sh *sh;
Book *book;

template <class A>
struct watched : counted<A> {
  using counted<A>::counted;
  void allocate(stack_context &ctx, size_t size) noexcept {
    int t = mc::tid();
    if (sh->fails[t]) {
      ctx.sp = nullptr;
      ctx.size = 0;
      return;
    }
    counted<A>::allocate(ctx, size);
    sh->fresh[t]++;
  }
  void deallocate(stack_context &ctx) noexcept {
    for (auto &h : sh->held)
      for (int i = 0; i < 6; ++i)
        MC_CHECK(h[i].sp == nullptr || h[i].sp != ctx.sp, "freed-in-use", "a stack which somebody holds is given back to the system");
    sh->mine[mc::tid()]++;
    counted<A>::deallocate(ctx);
  }
};
struct Conf {
  size_t conf, off, gcn, maxn, maxs, minn, mins;
  bool agc;
};
static Conf cf;
static int model_gc(int nu, int &nf) {
  size_t s = cf.conf + cf.off, us = nu * s, fs = nf * s;
  if (us >= fs && nu >= nf) return 0;
  if (cf.minn || cf.mins) {
    bool a = !cf.mins || us + fs <= cf.mins, b = !cf.minn || nu + nf <= (int)cf.minn;
    if (a && b) return 0;
  }
  int keep = nf / 2, n = 0;
  while (nf > keep) {
    --nf, ++n;
    if (cf.gcn && n == (int)cf.gcn) break;
  }
  return n;
}
// what is left to be ordered: pos[t] calls of thread t are done; part[t] = 1: the stack is back, the collection that follows is not done
static int nthreads, want_nu, want_nf;
static bool order(int *pos, int *part, int *given, int nu, int nf) {
  bool all = true;
  for (int t = 1; t <= nthreads; ++t) all &= pos[t] == sh->ndone[t];
  if (all) return nu == want_nu && nf == want_nf;
  for (int t = 1; t <= nthreads; ++t) {
    if (pos[t] == sh->ndone[t]) continue;
    Done &d = sh->done[t][pos[t]];
    bool first = true;
    for (int u = 1; u <= nthreads; ++u)
      if (u != t && pos[u] < sh->ndone[u] && sh->done[u][pos[u]].to < d.from) first = false;
    if (!first) continue;
    int u = nu, f = nf, old = pos[t];
    bool ok = false;
    if (d.k == FREE && cf.agc && !part[t]) {  // first half
      part[t] = 1;
      ok = order(pos, part, given, nu - 1, nf + 1);
      part[t] = 0;
      if (ok) return true;
      continue;
    }
    int n = 0;
    switch (d.k) {
      case ALLOC:
      case ALLOCF: {
        size_t s = cf.conf + cf.off;
        int r = (cf.maxn && nu >= (int)cf.maxn) || (cf.maxs && nu * s + cf.conf > cf.maxs) ? REFUSED : nf ? REUSED : d.k == ALLOC ? FRESH : FAILED;
        ok = r == d.res;
        if (r == REUSED) --f, ++u;
        if (r == FRESH) ++u;
        break;
      }
      case FREE:
        if (cf.agc)
          n = model_gc(u, f);
        else
          --u, ++f;
        ok = n == d.n;
        break;
      case GC:
        n = model_gc(u, f);
        ok = n == d.n && n == d.res;
        break;
      default:
        n = f, f = 0;
        ok = n == d.n;
    }
    if (!ok) continue;
    int keep = part[t];
    part[t] = 0, pos[t] = old + 1;
    ok = order(pos, part, given, u, f);
    part[t] = keep, pos[t] = old;
    if (ok) return true;
  }
  return false;
}
template <class P>
static void mark(P &s, int v) {
  unsigned char *top = static_cast<unsigned char *>(s.sp);
  top[-1] = v, top[-(long)cf.conf] = v;
}
template <class P>
static void verify(P &s, int v) {
  unsigned char *top = static_cast<unsigned char *>(s.sp);
  MC_CHECK(top[-1] == v && top[-(long)cf.conf] == v, "shared-stack", "somebody else writes to a stack in use");
}
template <class PT>
static void perform(PT &p, int k) {
  int t = tid();
  int n = sh->nheld[t];
  if (k == FREE && n == 0) return;
  Done d{};
  d.k = k, d.from = ++sh->clock;
  int given = sh->mine[t], fresh = sh->fresh[t];
  for (int i = 0; i < n; ++i) verify(sh->held[t][i], t * 16 + i);
  log("%s", NAME[k]);
  switch (k) {
    case ALLOC:
    case ALLOCF: {
      stack_context c;
      sh->fails[t] = k == ALLOCF;
      p.allocate(c);
      sh->fails[t] = false;
      d.res = c.sp ? sh->fresh[t] != fresh ? FRESH : REUSED : k == ALLOCF ? FAILED : REFUSED;
      if (k == ALLOCF && !c.sp && cf.maxn + cf.maxs) d.res = NOTHING;
      if (c.sp) {
        MC_CHECK(c.size == cf.conf + cf.off, "short-stack", "a stack of %zu bytes", c.size);
        MC_CHECK(sh->book.find(c.sp) >= 0, "dead-stack", "the pool handed out a stack which was already given back to the system");
        for (auto &h : sh->held)
          for (auto &x : h) MC_CHECK(x.sp != c.sp, "duplicate-stack", "one stack is handed out twice");
        sh->held[t][n] = c;
        mark(c, t * 16 + n);
        sh->nheld[t]++;
      }
      break;
    }
    case FREE: {
      stack_context c = sh->held[t][n - 1];
      sh->held[t][n - 1].sp = nullptr;
      sh->nheld[t]--;
      p.deallocate(c);
      break;
    }
    case GC:
      d.res = (int)p.gc();
      break;
    default:
      p.clear();
  }
  d.n = sh->mine[t] - given;
  d.to = ++sh->clock;
  log("%s: result %d, %d given back", NAME[k], d.res, d.n);
  sh->done[t][sh->ndone[t]++] = d;
  step();
  for (int i = 0; i < sh->nheld[t]; ++i) verify(sh->held[t][i], t * 16 + i);
  goal(k);
  if (k == ALLOC) goal(8 + d.res);
  if (k == FREE && d.n) goal(7);
}
// param: 0 threads, 1 operations, 2 configuration, 3 stacks held by each at the beginning at most, 4 free at the beginning at most
template <class A>
static void world(bool guard) {
  using pool_t = copp::stack_pool<watched<A>>;
  sh = shared<Sh>();
  book = &sh->book;
  nthreads = param(0);
  int len = depth();
  {
    auto pool = pool_t::create();
    pool_t &p = *pool;
    size_t page = copp::stack_traits::page_size();
    cf = Conf();
    cf.conf = copp::stack_traits::round_to_page_size(copp::stack_traits::minimum_size()) + page;
    cf.off = guard ? page : 0;
    size_t s = cf.conf + cf.off;
    p.set_stack_size(cf.conf);
    p.set_auto_gc(false);
    int held = choose(param(3) + 1, "held"), free = choose(param(4) + 1, "free");
    stack_context tmp[8];
    for (int i = 0; i < free; ++i) p.allocate(tmp[i]);
    for (int t = 1; t <= nthreads; ++t)
      for (int i = 0; i < held; ++i) {
        p.allocate(sh->held[t][i]);
        mark(sh->held[t][i], t * 16 + i);
        sh->nheld[t]++;
      }
    for (int i = 0; i < free; ++i) p.deallocate(tmp[i]);
    int nu0 = held * nthreads, nf0 = free;
    switch (param(2)) {
      case 0:
        cf.gcn = choose(2, "gc number");
        break;
      case 1:
        cf.maxn = choose(2, "limit") ? nu0 + 1 : 0;
        if (!cf.maxn) cf.maxs = (nu0 + 1) * s;
        break;
      default:
        cf.minn = choose(2, "limit") ? nu0 + 1 : 0;
        if (!cf.minn) cf.mins = (nu0 + 2) * s;
    }
    cf.agc = choose(2, "auto gc");
    p.set_gc_once_number(cf.gcn), p.set_max_stack_number(cf.maxn), p.set_max_stack_size(cf.maxs), p.set_min_stack_number(cf.minn);
    p.set_min_stack_size(cf.mins), p.set_auto_gc(cf.agc);
    int all[NKIND], na = 0;
    for (int k = 0; k < NKIND; ++k)
      if (param(1) >> k & 1) all[na++] = k;
    long last = -1;
    for (int t = 1; t <= nthreads; ++t) {
      long code = 0;
      for (int k = 0; k < len; ++k) {
        int c = choose(na, "program");
        sh->prog[t][k] = all[c];
        code = code * na + c;
      }
      if (code < last) prune();
      last = code;
    }
    for (int t = 1; t <= nthreads; ++t)
      spawn([t, len, &p] {
        for (int k = 0; k < len; ++k) perform(p, sh->prog[t][k]);
      });
    run_threads();
    p.set_auto_gc(false);
    auto &l = p.get_limit();
    want_nu = 0;
    for (int t = 1; t <= nthreads; ++t) want_nu += sh->nheld[t];
    want_nf = sh->book.n - want_nu;
    MC_CHECK((int)l.used_stack_number == want_nu && l.used_stack_size == want_nu * s, "used-count", "the pool reports %zu stacks/%zu bytes in use, really %d", l.used_stack_number,
             l.used_stack_size, want_nu);
    MC_CHECK((int)l.free_stack_number == want_nf && l.free_stack_size == want_nf * s, "free-count", "the pool reports %zu free stacks/%zu bytes, really %d", l.free_stack_number,
             l.free_stack_size, want_nf);
    state((want_nu * 16 + want_nf) * 64 + sh->book.frees);
    // an allocation without memory that got nothing: refused or failed, whichever explains it
    int unknown[16][2], nun = 0;
    for (int t = 1; t <= nthreads; ++t)
      for (int k = 0; k < sh->ndone[t]; ++k)
        if (sh->done[t][k].res == NOTHING) unknown[nun][0] = t, unknown[nun++][1] = k;
    bool found = false;
    for (int m = 0; m < 1 << nun && !found; ++m) {
      for (int i = 0; i < nun; ++i) sh->done[unknown[i][0]][unknown[i][1]].res = m >> i & 1 ? REFUSED : FAILED;
      int pos[4] = {}, part[4] = {}, given[4] = {};
      found = order(pos, part, given, nu0, nf0);
    }
    MC_CHECK(found, "order", "no order of the calls explains their results");
    // the rest is handed out again, all different
    p.set_max_stack_number(0), p.set_max_stack_size(0);
    stack_context again[16];
    int n = want_nf;
    for (int i = 0; i < n; ++i) {
      int fresh = sh->fresh[0];
      p.allocate(again[i]);
      MC_CHECK(again[i].sp && sh->fresh[0] == fresh, "free-list", "a free stack is not reused");
      for (auto &h : sh->held)
        for (auto &x : h) MC_CHECK(x.sp != again[i].sp, "duplicate-stack", "one stack is handed out twice");
      for (int j = 0; j < i; ++j) MC_CHECK(again[j].sp != again[i].sp, "duplicate-stack", "one stack is twice in the free list");
      mark(again[i], i);
    }
    for (int i = 0; i < n; ++i) p.deallocate(again[i]);
    for (int t = 1; t <= nthreads; ++t)
      while (sh->nheld[t]) {
        int i = --sh->nheld[t];
        verify(sh->held[t][i], t * 16 + i);
        stack_context c = sh->held[t][i];
        sh->held[t][i].sp = nullptr;
        p.deallocate(c);
      }
    pool.reset();
    MC_CHECK(sh->book.n == 0, "lost-stack", "%d stacks are left after the pool is destroyed", sh->book.n);
  }
  check_no_leak("leak");
}
static void m() { world<copp::allocator::stack_allocator_malloc>(false); }
static void x() { world<copp::allocator::stack_allocator_posix>(true); }

// coroutines on stacks of one pool
using cpool = copp::stack_pool<watched<copp::allocator::stack_allocator_malloc>>;
using calloc_t = copp::allocator::stack_allocator_pool<cpool>;
using co_t = copp::coroutine_context_container<calloc_t>;
enum CKind { CNEW, CRUN, CDROP, CGC, CCLEAR, CNKIND };
static const char *const CNAME[] = {"create", "resume", "drop", "gc", "clear"};
struct Runner {
  int t;
  int operator()(void *) {
    volatile unsigned char a[256];
    for (int r = 0; r < 2; ++r) {
      for (int i = 0; i < 256; ++i) a[i] = t * 16 + r;
      static_cast<co_t *>(copp::this_coroutine::get<co_t>())->yield();
      for (int i = 0; i < 256; ++i) MC_CHECK(a[i] == t * 16 + r, "shared-stack", "the stack of a coroutine is overwritten");
    }
    return t;
  }
};
static void coroutines() {
  sh = shared<Sh>();
  book = &sh->book;
  nthreads = param(0);
  int len = depth();
  {
    auto pool = cpool::create();
    pool->set_stack_size(16 * 1024);
    pool->set_auto_gc(choose(2, "auto gc"));
    co_t::ptr_type *own = new co_t::ptr_type[4];
    calloc_t al(pool);
    auto make = [&al](int t) {
      calloc_t a(al);
      return co_t::create(Runner{t}, a, 0, 0, 0);
    };
    int before = choose(3, "coroutines before");
    for (int t = 1; t <= nthreads; ++t) {
      if (before) own[t] = make(t);
      if (before == 2) own[t]->start();
    }
    if (choose(2, "free before")) make(0).reset();
    for (int t = 1; t <= nthreads; ++t)
      for (int k = 0; k < len; ++k) sh->prog[t][k] = choose(CNKIND, "program");
    for (int t = 1; t <= nthreads; ++t)
      spawn([&, t, len] {
        for (int k = 0; k < len; ++k) {
          int c = sh->prog[t][k];
          log("%s", CNAME[c]);
          if (c == CNEW) {
            own[t] = make(t);
            MC_CHECK(own[t], "create", "coroutine creation failed");
          } else if (c == CRUN) {
            if (own[t] && !own[t]->is_finished()) {
              own[t]->resume();
              if (own[t]->is_finished()) MC_CHECK(own[t]->get_ret_code() == t, "return-code", "a coroutine returned %d", own[t]->get_ret_code());
            }
          } else if (c == CDROP) {
            own[t].reset();
          } else if (c == CGC) {
            pool->gc();
          } else {
            pool->clear();
          }
          step();
          goal(c);
        }
      });
    run_threads();
    int n = 0;
    for (int t = 1; t <= nthreads; ++t) n += (bool)own[t];
    auto &l = pool->get_limit();
    MC_CHECK((int)l.used_stack_number == n && (int)(l.used_stack_number + l.free_stack_number) == sh->book.n, "used-count", "%d coroutines, %zu stacks used, %zu free, %d exist", n,
             l.used_stack_number, l.free_stack_number, sh->book.n);
    state(n * 16 + l.free_stack_number);
    for (int t = 1; t <= nthreads; ++t)
      while (own[t] && !own[t]->is_finished()) own[t]->resume();
    delete[] own;
    MC_CHECK(pool->get_limit().used_stack_number == 0, "used-count", "stacks in use left");
    pool->clear();
    MC_CHECK(sh->book.n == 0, "lost-stack", "%d stacks are left", sh->book.n);
  }
  check_no_leak("leak");
}

#define OPS (BIT(ALLOC) | BIT(FREE) | BIT(GC) | BIT(CLEAR))
#define G {"allocated", "without memory", "returned", "collected", "cleared", "-", "-", "collected when returned", "-", "-", "fresh", "reused"}
#define GL {"allocated", "without memory", "returned", "collected", "cleared", "-", "-", "-", "-", "refused", "fresh", "reused"}
#define G3 {"allocated", "-", "returned", "collected", "cleared", "-", "-", "collected when returned", "-", "-", "fresh", "reused"}
static const Scenario LIST[] = {
    {"gc", m, 2, 3, 3, 3, true, "2 threads, 2-3 operations each", {2, OPS | BIT(ALLOCF), 0, 1, 3}, G},
    {"upper", m, 2, 3, 3, 3, true, "2 threads, 2-3 operations each, upper limits", {2, OPS | BIT(ALLOCF), 1, 1, 2}, GL},
    {"lower", m, 2, 3, 3, 2, true, "2 threads, 2-3 operations each, lower limits", {2, OPS | BIT(ALLOCF), 2, 1, 4}, G},
    {"three", m, 1, 2, 3, 2, true, "3 threads", {3, OPS, 0, 1, 3}, G3},
    {"longer", m, 3, 4, 1, 1, true, "2 threads, 3-4 operations each", {2, OPS, 0, 1, 2}, G3},
    {"guarded", x, 2, 2, 2, 4, true, "2 threads, stacks with guard pages", {2, OPS, 0, 1, 2}, G3},
    {"coroutines", coroutines, 2, 2, 2, 3, true, "2 threads create, run and drop coroutines on stacks of one pool", {2}, {"created", "resumed", "dropped", "collected", "cleared"}},
};
MC_MAIN(LIST)
