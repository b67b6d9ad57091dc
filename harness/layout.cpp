// C04: memory of coroutines and tasks.  Every combination of allocator, sizes and failures from the sets below.
#include <mc.h>
#include <alloca.h>
#include <string.h>
#include <sys/resource.h>
#include <libcopp/coroutine/coroutine_context_container.h>
#include <libcopp/stack/allocator/stack_allocator_malloc.h>
#include <libcopp/stack/allocator/stack_allocator_memory.h>
#include <libcopp/stack/allocator/stack_allocator_pool.h>
#include <libcopp/stack/allocator/stack_allocator_posix.h>
#include <libcopp/stack/stack_pool.h>
#include <libcopp/stack/stack_traits.h>
#include <libcotask/task.h>
#include <memory>
using namespace mc;
using copp::stack_context;
using traits = copp::stack_traits;

extern "C" int getrlimit(__rlimit_resource_t, struct rlimit *l) noexcept {  // no limit on stacks
  l->rlim_cur = l->rlim_max = RLIM_INFINITY;
  return 0;
}
enum { FILL = 0xE7 };
static struct {
  unsigned char *lo, *hi;  // the stack handed out
  size_t guard;
  void *sp;
  size_t size;
  int got, back, fails, kept;
  unsigned char below[17];
} one;
__attribute__((no_sanitize_thread, noinline)) static void remember() {
  for (size_t i = 1; i <= 16; ++i) one.below[i] = one.lo[-i];
}
__attribute__((no_sanitize_thread, noinline)) static long guard_written() {  // code in assembler is not checked otherwise
  for (size_t i = 0; i < one.guard; ++i)
    if (one.lo[i] != FILL) return (long)i;
  for (size_t i = 1; i <= 16; ++i)
    if (one.lo[-i] != one.below[i]) return -(long)i - 1;
  return -1;
}
static void untouched() {
  long i = guard_written();
  MC_CHECK(i == -1, "outside", "byte %ld of the memory below the stack was written", i);
}
template <class A, bool GUARD>
struct seen : A {
  using A::A;
  seen() {}
  seen(seen &&) = default;
  seen(const seen &) = default;
  seen &operator=(seen &&) = default;
  seen &operator=(const seen &) = default;
  void allocate(stack_context &ctx, size_t size) noexcept {
    if (one.fails == 1) {
      ctx.sp = nullptr;
      return;
    }
    A::allocate(ctx, size);
    if (!ctx.sp) return;
    one.got++;
    one.size = ctx.size, one.sp = ctx.sp;
    one.hi = (unsigned char *)ctx.sp, one.lo = one.hi - ctx.size;
    one.guard = GUARD ? traits::page_size() : 0;
    MC_CHECK(ctx.size > one.guard && is_live(one.lo + one.guard) && is_live(one.hi - 1), "bad-stack", "allocator returned %zu bytes at %p for %zu", ctx.size, ctx.sp, size);
    memset(one.lo, FILL, ctx.size);
    remember();
  }
  void deallocate(stack_context &ctx) noexcept {
    MC_CHECK(one.got == 1 && one.back == 0, "given-back", "a stack is given back again");
    MC_CHECK(ctx.sp == one.sp && ctx.size == one.size, "given-back", "stack %p of %zu bytes is given back as %p of %zu", one.sp, one.size, ctx.sp, ctx.size);
    untouched();
    one.back++;
    A::deallocate(ctx);
  }
};
using m_t = seen<copp::allocator::stack_allocator_malloc, false>;
using x_t = seen<copp::allocator::stack_allocator_posix, true>;
using buf_t = seen<copp::allocator::stack_allocator_memory, false>;
static unsigned char pat(size_t i, int k) { return (unsigned char)(i * 7 + k * 29 + 3); }
static void put(unsigned char *p, size_t n, int k) {
  if (!n) return;
  access_check(p, n, true);
  for (size_t i = 0; i < n; ++i) p[i] = pat(i, k);
}
static void look(unsigned char *p, size_t n, int k, const char *what) {
  for (size_t i = 0; i < n; ++i) MC_CHECK(p[i] == pat(i, k), "overlap", "byte %zu of %zu of the %s was overwritten", i, n, what);
}
struct Region {
  unsigned char *p;
  size_t n;
  const char *what;
};
static Region rg[6];
static int nr;
static unsigned char *stack_hi;  // lowest address of everything above the stack
static size_t usable;
static int body_state;
static void region(void *p, size_t n, size_t align, const char *what) {
  unsigned char *q = (unsigned char *)p;
  MC_CHECK((uintptr_t)q % align == 0, "alignment", "the %s is at %p", what, p);
  MC_CHECK(q >= one.lo + one.guard && q + n <= one.hi && q + n >= q, "outside", "the %s, %zu bytes at %p, is outside of the stack %p-%p", what, n, p, one.lo, one.hi);
  for (int i = 0; i < nr; ++i) MC_CHECK(n == 0 || rg[i].n == 0 || q + n <= rg[i].p || rg[i].p + rg[i].n <= q, "overlap", "%s and %s overlap", what, rg[i].what);
  rg[nr++] = {q, n, what};
  if (q < stack_hi) stack_hi = q;
}
static void fill_regions() {
  for (int i = 0; i < nr; ++i)
    if (rg[i].what[0] != '!') put(rg[i].p, rg[i].n, i);
}
static void look_regions() {
  for (int i = 0; i < nr; ++i)
    if (rg[i].what[0] != '!') look(rg[i].p, rg[i].n, i, rg[i].what);
}
// uses nearly all of the stack which was asked for
static void __attribute__((noinline)) use_stack(void (*yield)()) {
  unsigned char *f = (unsigned char *)__builtin_frame_address(0);
  MC_CHECK((uintptr_t)f % 16 == 0, "alignment", "the stack pointer is not aligned");
  MC_CHECK(f > one.lo + one.guard && f <= stack_hi, "outside", "the stack pointer %p is outside of the stack %p-%p", (void *)f, (void *)(one.lo + one.guard), (void *)stack_hi);
  size_t room = f - (one.lo + one.guard);
  // what was used already and what calls below need
  MC_CHECK(room + 1500 >= usable, "short-stack", "%zu bytes of stack are left, %zu were asked for", room, usable);
  size_t n = room > 2600 ? room - 2600 : 0;
  unsigned char *a = (unsigned char *)alloca(n + 16);
  put(a, n, 9);
  body_state = 1;
  yield();
  look(a, n, 9, "stack");
  fill_regions();
  yield();
  look(a, n, 9, "stack");
}
template <class CO>
static void yield_it() {
  copp::this_coroutine::get<CO>()->yield();
}
template <class CO>
struct Body {
  int operator()(void *) {
    use_stack(&yield_it<CO>);
    body_state = 2;
    return 5;
  }
};
enum { BIG = 60 };
static size_t tops(int i) {
  const size_t m = ~(size_t)0;
  const size_t v[] = {m, m - 1, m - 7, m - 14, m - 15, m - 16, m - 63, m - 64, m - 4094, m - 4095, m - 4096, m - 8191, m - 8192, m / 2 + 1, m / 2, m / 4 * 3, m - 200, m - 300};
  return v[i];
}
#define NTOP 18
static const size_t SZ[] = {0, 1, 4096, 8191, 8192, 8193, 16383, 16384, 16400, 20480 + 100, 65536};
static const size_t PV[] = {0, 1, 8, 15, 16, 17, 63, 64, 65, 1000, 4096};
struct Ask {
  size_t s, p, x;
  bool huge;
};
// how: 0 ordinary sizes, 1 sizes around the point where nothing is left, 2 impossible sizes
static Ask ask(int how, size_t base, size_t limit) {
  Ask a{};
  if (how == 0) {
    a.s = SZ[choose(11, "stack size")], a.p = PV[choose(11, "private buffer")], a.x = PV[choose(11, "extra object")];
  } else if (how == 1) {
    a.s = SZ[choose(11, "stack size")];
    a.x = PV[choose(11, "extra object")];
    size_t s = a.s ? a.s : traits::default_size();
    if (limit > 1 && limit < s && choose(2, "around the size of the memory")) s = limit;
    long p = (long)s - (long)base - (long)a.x - 840 + choose(1000, "private buffer");
    if (p < 0) prune();
    a.p = p;
    if (choose(2, "exchanged")) std::swap(a.p, a.x);
  } else {
    a.huge = true;
    int k = choose(7, "impossible");
    size_t t = tops(choose(NTOP, "size"));
    a.s = SZ[choose(3) * 3 + 1], a.p = 16, a.x = 16;
    if (k == 0) a.s = t;
    if (k == 1) a.p = t;
    if (k == 2) a.x = t;
    if (k == 3) a.p = t, a.x = 0 - t;                     // the sum is small again
    if (k == 4) a.p = t, a.x = 0 - t - 640;
    if (k == 5) a.p = a.x = ~(size_t)0 / 2 + 1 + choose(4) * 64;
    if (k == 6) a.s = t, a.p = t, a.x = 0;
  }
  log("stack %zu, private buffer %zu, extra %zu", a.s, a.p, a.x);
  return a;
}
template <class PTR, class T>
static void verdict(const PTR &co, const T &a, size_t base, size_t limit) {
  size_t s = a.s ? a.s : traits::default_size();
  if (limit && limit < s) s = limit;
  if (!co) {
    MC_CHECK(one.got == one.back, "leak", "creation failed and its stack is not given back");
    if (one.fails || a.huge) return goal(1);
    MC_CHECK(s < a.p + a.x + base + 800, "refused", "creation failed, stack %zu private buffer %zu extra %zu", a.s, a.p, a.x);
    goal(2);
    return;
  }
  MC_CHECK(one.fails != 1, "no-memory", "creation without a stack succeeded");
  MC_CHECK(one.got == 1 && one.back == 0, "no-stack", "%d stacks allocated, %d given back", one.got, one.back);
  usable = s > a.p + a.x + base + 176 ? s - (a.p + a.x + base + 176) : 0;
  goal(0);
}
template <class ALLOC>
static void co_world(ALLOC &alloc, int how, size_t limit) {
  using co_t = copp::coroutine_context_container<ALLOC>;
  Ask a = ask(how, sizeof(co_t), limit);
  nr = 0, usable = 0, body_state = 0;
  one.fails = how == 0 ? choose(one.kept ? 2 : 3, "out of memory") : 0;
  if (one.fails == 2) fail_alloc_after(0);
  typename co_t::ptr_type co = co_t::create(Body<co_t>(), alloc, a.s, a.p, a.x);
  fail_alloc_after(-1);
  step();
  verdict(co, a, sizeof(co_t), limit);
  if (!co) return;
  untouched();
  stack_hi = one.hi;
  unsigned char *self = (unsigned char *)co.get();
  size_t ax = co_t::align_address_size(a.x);
  MC_CHECK(co->get_private_buffer_size() >= a.p, "private-buffer", "%zu bytes of private buffer, %zu asked for", co->get_private_buffer_size(), a.p);
  region(self, sizeof(co_t), 16, "!coroutine object");
  region(co->get_private_buffer(), co->get_private_buffer_size(), 16, "private buffer");
  MC_CHECK(ax >= a.x && ax < a.x + 64, "extra", "%zu bytes for %zu", ax, a.x);
  region(self - ax, ax, 16, "extra object");
  fill_regions();
  untouched();
  state(usable * 64 + a.p % 64);
  if (usable >= 5000) {
    int r = 0;
    r |= co->start();
    MC_CHECK(r == 0 && body_state == 1, "run", "start returned %d", r);
    look_regions();
    fill_regions();
    r |= co->resume();
    look_regions();
    r |= co->resume();
    MC_CHECK(r == 0 && body_state == 2 && co->is_finished() && co->get_ret_code() == 5, "run", "resume returned %d", r);
    look_regions();
    goal(3);
  }
  co.reset();
  MC_CHECK(one.back == 1, "not-given-back", "the stack is not given back");
}
static void *made;
template <size_t N>
struct Act : cotask::impl::task_action_impl {
  unsigned char c[N];
  int bad;
  static int alive, thrown;
  explicit Act(int b) : bad(b) { ++alive; put(c, N, 3); }
  Act(const Act &o) : bad(o.bad) {
    if (bad == 1) {
      ++thrown;
      throw 5;
    }
    ++alive;
    made = this;
    put(c, N, 3);
  }
  ~Act() { look(c, N, 3, "action"), --alive; }
  int operator()(void *) override {
    if (bad == 2) throw 6;
    use_stack([] { cotask::this_task::get<cotask::task<>>()->get_id(), copp::this_coroutine::get_coroutine()->yield(); });
    look(c, N, 3, "action");
    body_state = 2;
    return 5;
  }
};
template <size_t N> int Act<N>::alive;
template <size_t N> int Act<N>::thrown;
template <class ALLOC, size_t N>
static void task_world(ALLOC &alloc, int how, size_t limit) {
  struct macro {
    using stack_allocator_type = ALLOC;
    using coroutine_type = copp::coroutine_context_container<ALLOC>;
    using value_type = int;
    using stack_allocator_t = stack_allocator_type;
    using coroutine_t = coroutine_type;
  };
  using task_t = cotask::task<macro>;
  using co_t = typename macro::coroutine_type;
  size_t base = sizeof(co_t) + sizeof(task_t) + sizeof(Act<N>) + sizeof(void *) + 48;
  Ask a = ask(how, base, limit);
  a.x = 0;
  nr = 0, usable = 0, body_state = 0;
  one.fails = how == 0 ? choose(one.kept ? 2 : 3, "out of memory") : 0;
  if (one.fails == 2) fail_alloc_after(0);
  int bad = how == 0 ? choose(2, "action throws") : 0;
  Act<N>::alive = Act<N>::thrown = 0;
  {
    Act<N> act(bad);
    typename task_t::ptr_type t;
    bool thrown = false;
    try {
      t = task_t::template create_with_delegate<Act<N>>(act, alloc, a.s, a.p);
    } catch (int) {
      thrown = true;
    }
    fail_alloc_after(-1);
    step();
    MC_CHECK(thrown == (Act<N>::thrown > 0), "exception", "exception of the constructor: thrown %d, came out %d", Act<N>::thrown, thrown);
    if (thrown) {
      MC_CHECK(Act<N>::alive == 1 && one.got == 1 && one.back == 1, "leak", "after an exception %d actions alive, %d stacks got, %d given back", Act<N>::alive, one.got, one.back);
      return goal(4);
    }
    verdict(t, a, base, limit);
    if (!t) return;
    untouched();
    stack_hi = one.hi;
    MC_CHECK(Act<N>::alive == 2, "action", "%d actions alive", Act<N>::alive);
    auto &co = t->get_coroutine_context();
    region(co.get(), sizeof(co_t), 16, "!coroutine object");
    region(t.get(), sizeof(task_t), 16, "!task object");
    MC_CHECK(t->get_private_buffer_size() >= a.p, "private-buffer", "%zu bytes of private buffer, %zu asked for", t->get_private_buffer_size(), a.p);
    region(t->get_private_buffer(), t->get_private_buffer_size(), sizeof(void *), "private buffer");
    region(made, sizeof(Act<N>), 16, "!action");
    fill_regions();
    untouched();
    state(usable * 64 + a.p % 64);
    if (usable >= 5000) {
      int r = t->start();
      MC_CHECK(r == 0 && body_state == 1, "run", "start returned %d", r);
      look_regions();
      fill_regions();
      r |= t->resume();
      look_regions();
      r |= t->resume();
      MC_CHECK(r == 0 && body_state == 2 && t->is_completed() && t->get_ret_code() == 5, "run", "resume returned %d", r);
      look_regions();
      goal(3);
    }
    t.reset();
    MC_CHECK(one.back == 1, "not-given-back", "the stack is not given back");
    MC_CHECK(Act<N>::alive == 1, "action", "%d actions alive at the end", Act<N>::alive);
  }
  MC_CHECK(Act<N>::alive == 0, "action", "%d actions alive at the end", Act<N>::alive);
}
template <class ALLOC>
static void either(ALLOC &alloc, size_t limit) {
  if (param(1) == 0) co_world(alloc, param(0), limit);
  if (param(1) == 1) task_world<ALLOC, 1>(alloc, param(0), limit);
  if (param(1) == 2) task_world<ALLOC, 200>(alloc, param(0), limit);
}
template <class A>
static void plain() {
  memset(&one, 0, sizeof one);
  {
    A alloc;
    either(alloc, 0);
  }
  check_no_leak("leak");
}
// stacks in memory of the user
static void buffer() {
  memset(&one, 0, sizeof one);
  one.kept = 1;
  const size_t sizes[] = {0, 512, 1000, 4096, 5000, 8191, 8192, 10000, 16384, 16385, 65536 + 48};
  size_t n = sizes[choose(11, "buffer size")];
  unsigned char *m = (unsigned char *)aligned_alloc(64, n + 1);
  {
    buf_t alloc;
    if (n || choose(2, "attached")) alloc.attach(m, n);
    access_check(m, n ? n : 1, true);
    using co_t = copp::coroutine_context_container<buf_t>;
    // the request must fit into the buffer
    either(alloc, n < 4096 ? 1 : n - n % 4096);
    if (one.got) MC_CHECK(one.lo >= m && one.hi <= m + n, "outside", "a stack of %zu bytes in a buffer of %zu", (size_t)(one.hi - one.lo), n);
  }
  free(m);
  check_no_leak("leak");
}
template <class A, bool GUARD>
static void from_pool() {
  memset(&one, 0, sizeof one);
  {
    using P = copp::stack_pool<A>;
    using W = seen<copp::allocator::stack_allocator_pool<P>, GUARD>;
    auto pool = P::create();
    const size_t ps[] = {4096, 16384, 65536};
    size_t s = pool->set_stack_size(ps[choose(3, "size in the pool")]);
    pool->set_auto_gc(false);
    W alloc(pool);
    if (choose(2, "reused")) {
      one.kept = 1;  // the next heap allocation is not that of a stack
      stack_context c;
      pool->allocate(c);
      pool->deallocate(c);
    }
    if (param(0) == 2 && GUARD) prune();
    either(alloc, s);
    MC_CHECK(pool->get_limit().used_stack_number == 0, "not-given-back", "stacks in use left");
  }
  check_no_leak("leak");
}
// one allocator over memory of the user hands it out once at a time, whatever is done with the allocators
static void attach_seq() {
  using A = copp::allocator::stack_allocator_memory;
  memset(&one, 0, sizeof one);
  const size_t n[2] = {65536, 8192};
  unsigned char *m[2] = {(unsigned char *)aligned_alloc(64, n[0]), (unsigned char *)aligned_alloc(64, n[1])};
  {
    A a[2];
    int has[2] = {-1, -1};          // buffer of the allocator
    bool used[2] = {};              // by buffer
    stack_context c[2];             // by buffer
    for (int d = 0; d < depth(); ++d) {
      int i = choose(2, "allocator");
      int op = choose(5, "operation");
      if (op == 0) {  // a free buffer
        int b = choose(2, "buffer");
        if (has[0] == b || has[1] == b || (has[i] >= 0 && used[has[i]])) prune();
        log("attach %d to %d", b, i);
        a[i].attach(m[b], n[b]);
        has[i] = b;
      } else if (op == 1) {
        size_t s = choose(2) ? 4096 : 65536;
        stack_context x;
        a[i].allocate(x, s);
        log("allocate %d: %p %zu", i, x.sp, x.size);
        int b = has[i];
        MC_CHECK((x.sp != nullptr) == (b >= 0 && !used[b]), "handed-out", "allocator %d, buffer %d in use %d, gives %p", i, b, b >= 0 && used[b], x.sp);
        if (x.sp) {
          unsigned char *hi = (unsigned char *)x.sp, *lo = hi - x.size;
          MC_CHECK(lo >= m[b] && hi <= m[b] + n[b] && lo < hi, "outside", "%p of %zu bytes is outside of buffer %d", x.sp, x.size, b);
          MC_CHECK(x.size >= s || x.size + 4096 > n[b], "small", "%zu bytes for %zu in a buffer of %zu", x.size, s, n[b]);
          MC_CHECK((uintptr_t)x.sp % 16 == 0, "alignment", "stack at %p", x.sp);
          put(lo, x.size, b);
          used[b] = true;
          c[b] = x;
          goal(0);
        } else
          goal(1);
      } else if (op == 2) {
        int b = has[i];
        if (b < 0 || !used[b]) prune();
        log("deallocate %d", i);
        look((unsigned char *)c[b].sp - c[b].size, c[b].size, b, "stack");
        a[i].deallocate(c[b]);
        used[b] = false;
        goal(2);
      } else if (op == 3) {
        log("swap");
        a[i].swap(a[1 - i]);
        std::swap(has[0], has[1]);
      } else {  // move to the other or to a new one and back
        if ((has[0] >= 0 && used[has[0]]) || has[1 - i] >= 0 || (has[1] >= 0 && used[has[1]])) prune();
        if (choose(2)) {
          a[1 - i] = std::move(a[i]);
          has[1 - i] = has[i], has[i] = -1;
        } else {
          A t(std::move(a[i]));
          a[i].attach(nullptr, 0);
          a[i] = std::move(t);
        }
        goal(3);
      }
      step();
      state(((has[0] + 1) * 3 + has[1] + 1) * 4 + used[0] * 2 + used[1]);
    }
  }
  free(m[0]), free(m[1]);
  check_no_leak("leak");
}
#define G {"created", "impossible or no memory", "too small", "run"}
#define GT {"created", "impossible or no memory", "too small", "run", "constructor throws"}
#define GI {"-", "impossible or no memory"}
#define GE {"created", "-", "too small"}
static void f_m() { plain<m_t>(); }
static void f_x() { plain<x_t>(); }
static void f_pm() { from_pool<copp::allocator::stack_allocator_malloc, false>(); }
static const Scenario LIST[] = {
    {"malloc", f_m, 1, 1, -1, -1, false, "coroutines on malloc stacks, ordinary sizes", {0, 0}, G},
    {"malloc_edge", f_m, 1, 1, -1, -1, false, "coroutines on malloc stacks, all sizes which leave about nothing", {1, 0}, GE},
    {"malloc_huge", f_m, 1, 1, -1, -1, false, "coroutines on malloc stacks, impossible sizes", {2, 0}, GI},
    {"posix", f_x, 1, 1, -1, -1, false, "coroutines on guarded stacks, ordinary sizes", {0, 0}, G},
    {"posix_edge", f_x, 1, 1, -1, -1, false, "coroutines on guarded stacks, all sizes which leave about nothing", {1, 0}, GE},
    {"posix_huge", f_x, 1, 1, -1, -1, false, "coroutines on guarded stacks, impossible sizes", {2, 0}, GI},
    {"pool", f_pm, 1, 1, -1, -1, false, "coroutines on stacks of a pool, ordinary sizes", {0, 0}, G},
    {"pool_edge", f_pm, 1, 1, -1, -1, false, "coroutines on stacks of a pool, all sizes which leave about nothing", {1, 0}, GE},
    {"pool_huge", f_pm, 1, 1, -1, -1, false, "coroutines on stacks of a pool, impossible sizes", {2, 0}, GI},
    {"buffer", buffer, 1, 1, -1, -1, false, "coroutines in memory of the user, ordinary sizes", {0, 0}, G},
    {"buffer_edge", buffer, 1, 1, -1, -1, false, "coroutines in memory of the user, all sizes which leave about nothing", {1, 0}, GE},
    {"task", f_m, 1, 1, -1, -1, false, "tasks on malloc stacks, ordinary sizes", {0, 1}, GT},
    {"task_edge", f_m, 1, 1, -1, -1, false, "tasks on malloc stacks, all sizes which leave about nothing", {1, 1}, GE},
    {"task_huge", f_m, 1, 1, -1, -1, false, "tasks on malloc stacks, impossible sizes", {2, 1}, GI},
    {"task_posix", f_x, 1, 1, -1, -1, false, "tasks on guarded stacks, ordinary sizes", {0, 2}, GT},
    {"task_posix_edge", f_x, 1, 1, -1, -1, false, "tasks on guarded stacks, all sizes which leave about nothing", {1, 2}, GE},
    {"task_posix_huge", f_x, 1, 1, -1, -1, false, "tasks on guarded stacks, impossible sizes", {2, 2}, GI},
    {"task_pool", f_pm, 1, 1, -1, -1, false, "tasks on stacks of a pool, ordinary sizes", {0, 2}, GT},
    {"task_buffer", buffer, 1, 1, -1, -1, false, "tasks in memory of the user, ordinary sizes", {0, 1}, GT},
    {"attach", attach_seq, 5, 7, -1, -1, false, "sequences of operations on two allocators and two buffers of the user", {}, {"handed out", "refused", "given back", "moved"}},
};
MC_MAIN(LIST)
