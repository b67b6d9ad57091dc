// Stackful coroutines: every nesting of resume / yield / return over several coroutines, against a status model.
#include <mc.h>
#include <libcopp/coroutine/coroutine_context.h>
#include <libcopp/coroutine/coroutine_context_container.h>
#include <libcopp/stack/stack_allocator.h>
#include <cstring>
using namespace mc;
using namespace copp;
using co_t = coroutine_context_container<allocator::stack_allocator_malloc>;
using cop_t = coroutine_context_container<allocator::stack_allocator_posix>;

enum St { NONE, READY, RUNNING, DEAD };
struct Co {
  coroutine_context *p;
  St st;
  bool has_runner;
  int by;        // who resumed it last: actor index, -1 main
  int ret;       // model of the return code
  int user_flags;
  uintptr_t token;  // what the last resume passed
  bool fresh;    // it is being entered by the last resume
  size_t priv;
};
enum { MAXK = 4 };
static Co C[MAXK];
static int K;
static int ops_left;
static uintptr_t seq;
static int cur;  // model: current actor, -1 main
static bool allow_throw;
static int switches;

// call f with known values in every callee-saved register; returns which of them were not preserved
extern "C" uint64_t reg_call(void (*f)(void *), void *arg, uint64_t seed);
asm(R"(
.text
.globl reg_call
.type reg_call,@function
reg_call:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  pushq %rdx
  movq %rdi, %rax
  movq %rsi, %rdi
  leaq 1(%rdx), %rbx
  leaq 2(%rdx), %rbp
  leaq 3(%rdx), %r12
  leaq 4(%rdx), %r13
  leaq 5(%rdx), %r14
  leaq 6(%rdx), %r15
  call *%rax
  popq %rdx
  xorl %eax, %eax
  subq %rdx, %rbx
  subq %rdx, %rbp
  subq %rdx, %r12
  subq %rdx, %r13
  subq %rdx, %r14
  subq %rdx, %r15
  subq $1, %rbx
  subq $2, %rbp
  subq $3, %r12
  subq $4, %r13
  subq $5, %r14
  subq $6, %r15
  orq %rbx, %rax
  orq %rbp, %rax
  orq %r12, %rax
  orq %r13, %rax
  orq %r14, %rax
  orq %r15, %rax
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size reg_call,.-reg_call
)");

static void check_world(const char *op) {
  MC_CHECK(this_coroutine::get_coroutine() == (cur < 0 ? nullptr : C[cur].p), "this-coroutine",
           "after %s: the current coroutine reported is not the one that runs (actor %d)", op, cur);
  uint64_t h = cur + 1;
  for (int i = 0; i < K; ++i) {
    if (C[i].st == NONE) continue;
    MC_CHECK(C[i].p->is_finished() == (C[i].st == DEAD), "finished", "after %s: coroutine %d finished=%d, model status %d", op, i,
             C[i].p->is_finished(), C[i].st);
    MC_CHECK(C[i].p->get_ret_code() == C[i].ret, "ret-code", "after %s: coroutine %d returns %d, expected %d", op, i,
             C[i].p->get_ret_code(), C[i].ret);
    MC_CHECK(C[i].p->check_flags(0x700) == (C[i].user_flags != 0), "flags", "after %s: user flags of %d changed", op, i);
    const unsigned char *b = static_cast<const unsigned char *>(C[i].p->get_private_buffer());
    for (size_t k = 0; k < C[i].priv; ++k)
      MC_CHECK(b[k] == (unsigned char)(0x40 + i * 16 + k), "private-buffer", "after %s: private buffer of coroutine %d changed", op, i);
    h = h * 64 + C[i].st * 8 + (C[i].by + 1) + (C[i].has_runner ? 4 : 0);
  }
  state(h);
}

static int body(int i, void *data);
static coroutine_context::callback_type runner_of(int i) {
  return [i](void *d) -> int { return body(i, d); };
}

struct ResumeOp {
  int j;
  uintptr_t tok;
  int r;
  bool use_start;
};
static void do_resume(void *a) {
  ResumeOp *o = static_cast<ResumeOp *>(a);
  o->r = o->use_start ? C[o->j].p->start(reinterpret_cast<void *>(o->tok)) : C[o->j].p->resume(reinterpret_cast<void *>(o->tok));
}
struct YieldOp {
  int i;
  bool want_data, by_ptr;
  void *data;
  int r;
};
static void do_yield(void *a) {
  YieldOp *o = static_cast<YieldOp *>(a);
  void **d = o->want_data ? &o->data : nullptr;
  o->r = o->by_ptr ? C[o->i].p->yield(d) : this_coroutine::yield(d);
}

// entering the code of coroutine i because somebody resumed it
static void arrived(int i, void *data, bool has_data) {
  MC_CHECK(C[i].fresh, "spurious-entry", "coroutine %d continued although nobody resumed it", i);
  C[i].fresh = false;
  cur = i;
  if (has_data)
    MC_CHECK(reinterpret_cast<uintptr_t>(data) == C[i].token, "data", "coroutine %d received 0x%lx, the resume passed 0x%lx", i,
             (long)data, (long)C[i].token);
  check_world("entry");
}

// one operation of actor a (-1 main); returns false when the actor shall stop (return from its function)
static bool one_op(int a) {
  volatile uint64_t canary[4];
  volatile double fcan;
  uint64_t base = ++seq * 0x0101010101ull;
  for (int k = 0; k < 4; ++k) canary[k] = base + k;
  fcan = (double)base * 0.5;
  // operations: 0..K-1 resume; K..2K-1 yield of coroutine by pointer (own or a foreign one which does not run);
  // 2K yield by this_coroutine without data; 2K+1 return; 2K+2 set_runner on the last; 2K+3 flags
  int nops = param(1) ? 2 * K + 4 : 2 * K + 2;
  int op;
  if (ops_left <= 0) {
    if (a < 0) return false;
    op = 2 * K;  // give control back until main runs
  } else {
    --ops_left;
    op = choose(nops, "op");
  }
  step();
  if (op < K) {
    int j = op;
    ++seq;
    ResumeOp o{j, seq % 3 ? 0x1000 + seq * 16 : 0, -12345, (seq & 1) != 0};
    log("%d: resume %d", a, j);
    Co &c = C[j];
    int want;
    if (!c.has_runner)
      want = COPP_EC_NOT_INITED;
    else if (c.st == READY)
      want = COPP_EC_SUCCESS;
    else if (c.st == RUNNING)
      want = COPP_EC_IS_RUNNING;
    else
      want = COPP_EC_NOT_READY;
    if (want == COPP_EC_SUCCESS) {
      c.st = RUNNING;
      c.by = a;
      c.token = o.tok;
      c.fresh = true;
      switches++;
    } else
      goal(2);
    int sw = switches;
    uint64_t bad = reg_call(do_resume, &o, base);
    MC_CHECK(bad == 0, "registers", "callee-saved registers changed across resume");
    MC_CHECK(o.r == want, "resume-code", "%d: resume of %d returned %d, expected %d", a, j, o.r, want);
    if (want == COPP_EC_SUCCESS) {
      MC_CHECK(!c.fresh, "not-entered", "resume of %d returned success but the coroutine did not run", j);
      MC_CHECK(c.st != RUNNING, "early-return", "resume of %d returned although it neither yielded nor finished", j);
      MC_CHECK(c.by == a, "wrong-resumer", "control returned to actor %d, the coroutine was resumed by %d", a, c.by);
      if (c.st == DEAD) goal(0);
    } else {
      MC_CHECK(sw == switches, "side-effect", "refused resume switched");
    }
    cur = a;
    check_world("resume");
  } else if (op < 2 * K || op == 2 * K) {
    int j = op == 2 * K ? a : op - K;
    if (j == a && a < 0) {
      log("main: yield");
      int r = this_coroutine::yield();
      MC_CHECK(r == COPP_EC_NOT_RUNNING, "yield-code", "yield outside of any coroutine returned %d", r);
      check_world("yield outside");
    } else if (j == a) {
      YieldOp o{a, op != 2 * K, op != 2 * K, reinterpret_cast<void *>(0xdead0), -12345};
      log("%d: yield", a);
      C[a].st = READY;
      if (C[a].by >= 0) goal(1);
      uint64_t bad = reg_call(do_yield, &o, base);
      MC_CHECK(bad == 0, "registers", "callee-saved registers changed across yield");
      MC_CHECK(o.r == COPP_EC_SUCCESS, "yield-code", "yield of %d returned %d", a, o.r);
      arrived(a, o.data, o.want_data);
    } else {
      if (C[j].st == RUNNING && is_history()) return true;
      if (C[j].st == RUNNING) prune();  // an outer coroutine which waits for its callee: not defined
      log("%d: foreign yield %d", a, j);
      int r = C[j].p->yield();
      int want = !C[j].has_runner ? COPP_EC_NOT_INITED : C[j].st == READY ? COPP_EC_NOT_RUNNING : COPP_EC_ALREADY_EXIST;
      MC_CHECK(r == want, "yield-code", "yield of coroutine %d which does not run returned %d, expected %d", j, r, want);
      check_world("foreign yield");
    }
  } else if (op == 2 * K + 1) {
    if (a < 0 && is_history()) return true;
    if (a < 0) prune();
    return false;
  } else if (op == 2 * K + 2) {
    Co &c = C[K - 1];
    log("%d: set_runner %d", a, K - 1);
    int e = c.p->set_runner(coroutine_context::callback_type());
    MC_CHECK(e == COPP_EC_ARGS_ERROR, "set-runner", "an empty runner was accepted: %d", e);
    int r = c.p->set_runner(runner_of(K - 1));
    MC_CHECK(r == (c.has_runner ? COPP_EC_ALREADY_INITED : COPP_EC_SUCCESS), "set-runner", "set_runner returned %d", r);
    c.has_runner = true;
    check_world("set_runner");
    goal(3);
  } else {
    Co &c = C[0];
    log("%d: flags", a);
    MC_CHECK(!c.p->set_flags(0x01) && !c.p->set_flags(0x101) && !c.p->unset_flags(0x80) && !c.p->unset_flags(0x301), "flags",
             "reserved flag bits could be changed");
    MC_CHECK(c.p->check_flags(0xff) == (c.st == DEAD), "flags", "reserved flags wrong");
    if (c.user_flags) {
      MC_CHECK(c.p->unset_flags(0x100), "flags", "unset_flags refused");
      c.user_flags = 0;
    } else {
      MC_CHECK(c.p->set_flags(0x100), "flags", "set_flags refused");
      c.user_flags = 0x100;
    }
    check_world("flags");
  }
  for (int k = 0; k < 4; ++k) MC_CHECK(canary[k] == base + k, "stack", "a local variable of actor %d changed during a switch", a);
  MC_CHECK(fcan == (double)base * 0.5, "stack", "a local floating point variable changed");
  return true;
}

static int body(int i, void *data) {
  MC_CHECK((reinterpret_cast<uintptr_t>(__builtin_frame_address(0)) & 15) == 0, "alignment", "misaligned stack in a coroutine");
  arrived(i, data, true);
  while (one_op(i)) {
  }
  C[i].st = DEAD;
  C[i].ret = 40 + i;
  log("%d: return", i);
  return 40 + i;
}

template <class T>
static void world() {
  K = param(0);
  ops_left = depth();
  cur = -1;
  {
    typename T::ptr_type own[MAXK];
    static const size_t privs[MAXK] = {0, 16, 48, 5};
    auto make = [&](int i) {
      bool late = param(1) && i == K - 1;
      Co &c = C[i];
      own[i] = T::create(late ? coroutine_context::callback_type() : runner_of(i), 16 * 1024, privs[i]);
      MC_CHECK(!!own[i], "create", "coroutine %d was not created", i);
      c.p = own[i].get();
      c.st = READY;
      c.has_runner = !late;
      c.by = -1;
      c.ret = 0;
      MC_CHECK(c.p->get_private_buffer_size() >= privs[i], "private-buffer", "private buffer too small");
      c.priv = privs[i];
      unsigned char *b = static_cast<unsigned char *>(c.p->get_private_buffer());
      for (size_t k = 0; k < c.priv; ++k) b[k] = (unsigned char)(0x40 + i * 16 + k);
    };
    for (int i = 0; i < K; ++i) make(i);
    check_world("creation");
    history();
    int dead = 0;
    while (one_op(-1)) {
      if (!is_history()) continue;
      for (int i = 0; i < K; ++i)  // after some time dead ones are replaced
        if (C[i].st == DEAD && ++dead % 4 == 0) {
          own[i].reset();
          C[i] = Co();
          make(i);
          goal(4);
        }
    }
    MC_CHECK(cur == -1, "main", "main loop ended inside a coroutine");
  }
  check_no_leak("leak");
}
static void malloc_world() { world<co_t>(); }
static void posix_world() { world<cop_t>(); }

// A coroutine may hold the last reference on others, and may be dropped at every point of its life.
static void lifetime() {
  {
    co_t::ptr_type a, b;
    int stop = choose(4, "yields before the drop");
    int live = 0;
    b = co_t::create([&](void *) -> int { this_coroutine::yield(); return 3; }, 16 * 1024);
    struct Hold {
      co_t::ptr_type p;
    };
    Hold *h = new Hold{b};
    bool keep_outer = choose(2);
    if (!keep_outer) b.reset();
    a = co_t::create(
        [&live, h](void *) -> int {
          ++live;
          h->p->resume();
          this_coroutine::yield();
          if (choose(2)) h->p->resume();
          h->p.reset();
          this_coroutine::yield();
          --live;
          return 9;
        },
        16 * 1024);
    for (int k = 0; k < stop; ++k) {
      step();
      int r = a->resume();
      MC_CHECK(r == COPP_EC_SUCCESS, "resume", "resume %d returned %d", k, r);
    }
    MC_CHECK(a->is_finished() == (stop == 3), "finished", "finished %d after %d resumes", a->is_finished(), stop);
    if (stop == 3) MC_CHECK(a->get_ret_code() == 9 && live == 0, "finished", "return code %d", a->get_ret_code());
    MC_CHECK(a->use_count() == 1, "use-count", "use count %zu", a->use_count());
    co_t::ptr_type c = a;
    MC_CHECK(a->use_count() == 2, "use-count", "use count %zu", a->use_count());
    a.reset();
    MC_CHECK(c->use_count() == 1, "use-count", "use count %zu", c->use_count());
    c.reset();
    if (keep_outer) {
      MC_CHECK(b->use_count() == (stop >= 2 ? 1u : 2u), "use-count", "use count %zu", b->use_count());
      b.reset();
    }
    delete h;
    state(stop * 2 + keep_outer);
  }
  check_no_leak("leak");
}

// deep nesting: every coroutine resumes the next one, up to 64 of them, and each yields and returns in one of several patterns
static co_t::ptr_type nest[66];
static int nested, entered[66], style[3];
static int deep_body(int i, void *d) {
  MC_CHECK(this_coroutine::get_coroutine() == nest[i].get(), "this-coroutine", "coroutine %d of %d: another one is reported as the current one", i, nested);
  MC_CHECK(reinterpret_cast<uintptr_t>(d) == 1000u + i, "data", "coroutine %d received %zu", i, (size_t)d);
  volatile uint64_t canary = 0x1234567 * (i + 1);
  ++entered[i];
  unsigned char *b = static_cast<unsigned char *>(nest[i]->get_private_buffer());
  b[0] = i, b[15] = ~i;
  int s = style[i % 3];  // when it yields: never, before, after, both
  for (int pass = 0; pass < 2; ++pass) {
    if (s >> pass & 1) {
      void *out = nullptr;
      MC_CHECK(this_coroutine::yield(&out) == COPP_EC_SUCCESS, "yield-code", "yield of %d failed", i);
      MC_CHECK(reinterpret_cast<uintptr_t>(out) == 2000u + i, "data", "coroutine %d received %zu", i, (size_t)out);
      goal(0);
    }
    MC_CHECK(this_coroutine::get_coroutine() == nest[i].get(), "this-coroutine", "coroutine %d of %d: another one is reported as the current one", i, nested);
    if (pass == 0 && i + 1 < nested) {
      coroutine_context &next = *nest[i + 1];
      int r = next.start(reinterpret_cast<void *>(1000ul + i + 1));
      MC_CHECK(r == COPP_EC_SUCCESS, "resume-code", "start of %d returned %d", i + 1, r);
      for (int k = 0; !next.is_finished(); ++k) {
        MC_CHECK(k < 3, "finished", "coroutine %d does not end", i + 1);
        for (int j = 0; j <= i; ++j) MC_CHECK(!nest[j]->is_finished() && nest[j]->resume() == COPP_EC_IS_RUNNING, "resume-code", "coroutine %d, which runs, was resumed by %d", j, i);
        r = next.resume(reinterpret_cast<void *>(2000ul + i + 1));
        MC_CHECK(r == COPP_EC_SUCCESS, "resume-code", "resume of %d returned %d", i + 1, r);
      }
      MC_CHECK(next.get_ret_code() == 101 + i, "ret-code", "coroutine %d returned %d", i + 1, next.get_ret_code());
      MC_CHECK(this_coroutine::get_coroutine() == nest[i].get(), "this-coroutine", "coroutine %d of %d: another one is reported as the current one", i, nested);
    }
  }
  MC_CHECK(canary == 0x1234567ull * (i + 1) && b[0] == i && b[15] == (unsigned char)~i, "stack", "locals of coroutine %d changed", i);
  return 100 + i;
}
static void deep() {
  nested = 1 + choose(param(0), "how many");
  for (int k = 0; k < 3; ++k) style[k] = choose(4, "style");
  for (int i = 0; i < nested; ++i) {
    entered[i] = 0;
    nest[i] = co_t::create([i](void *d) -> int { return deep_body(i, d); }, 16 * 1024, 16);
  }
  step();
  nest[0]->start(reinterpret_cast<void *>(1000ul));
  for (int k = 0; !nest[0]->is_finished(); ++k) {
    MC_CHECK(this_coroutine::get_coroutine() == nullptr, "this-coroutine", "outside of any coroutine one is reported");
    MC_CHECK(k < 3, "finished", "the first one does not end");
    nest[0]->resume(reinterpret_cast<void *>(2000ul));
  }
  for (int i = 0; i < nested; ++i) MC_CHECK(nest[i]->is_finished() && nest[i]->get_ret_code() == 100 + i && entered[i] == 1, "finished", "coroutine %d of %d: entered %d times, returned %d", i, nested, entered[i], nest[i]->get_ret_code());
  for (int i = 0; i < nested; ++i) nest[i].reset();
  goal(1);
  check_no_leak("leak");
}

static const Scenario LIST[] = {
    {"two_coroutines", malloc_world, 9, 11, -1, -1, false, "2 coroutines", {2, 0}, {"finished", "nested yield", "refused resume"}},
    {"three_coroutines", malloc_world, 7, 8, -1, -1, false, "3 coroutines", {3, 0}, {"finished", "nested yield", "refused resume"}},
    {"late_runner_and_flags", malloc_world, 6, 8, -1, -1, false, "2 coroutines, one gets its runner later; flags", {2, 1},
     {"finished", "nested yield", "refused resume", "runner set"}},
    {"guarded_stacks", posix_world, 5, 6, -1, -1, false, "3 coroutines on mmap stacks", {3, 0}, {"finished", "nested yield", "refused resume"}},
    {"long_two", malloc_world, 60, 100, -1, -1, false, "long histories with 2 coroutines and their successors: every sequence which repeats after 5 operations", {2, 0}, {"finished", "nested yield", "refused resume", "-", "replaced"}, 5, 6, 6},
    {"long_three", malloc_world, 60, 100, -1, -1, false, "the same with 3", {3, 0}, {"finished", "nested yield", "refused resume", "-", "replaced"}, 5, 6, 8},
    {"long_late", malloc_world, 60, 100, -1, -1, false, "the same with 2, a late runner, flags", {2, 1}, {"finished", "nested yield", "refused resume", "runner set", "replaced"}, 5, 6, 8},
    {"lifetime", lifetime, 1, 1, -1, -1, false, "references dropped at every point"},
    {"deep", deep, 1, 1, -1, -1, false, "up to 64 coroutines, each resumed by the one before", {64}, {"yielded", "done"}},
};
MC_MAIN(LIST)
