// Exceptions leaving stackful coroutines.
#include <mc.h>
#include <libcopp/coroutine/coroutine_context.h>
#include <libcopp/coroutine/coroutine_context_container.h>
#include <libcopp/stack/stack_allocator.h>
#include <exception>
#include <memory>
using namespace mc;
using namespace copp;
using co_t = coroutine_context_container<allocator::stack_allocator_malloc>;

struct Ex {
  int id;
  static int alive;
  explicit Ex(int i) : id(i) { ++alive; }
  Ex(const Ex &o) : id(o.id) { ++alive; }
  ~Ex() { --alive; }
};
int Ex::alive = 0;

enum St { READY, RUNNING, DEAD };
struct Co {
  coroutine_context *p;
  St st;
  int thrown;  // exception that left the body, 0 none
  int ret;
};
enum { MAXK = 3 };
static Co C[MAXK];
static int K, ops_left, ids;
static int raii;  // objects on coroutine stacks

struct Guard {
  Guard() { ++raii; }
  ~Guard() { --raii; }
};

static void check_world(int a, const char *op) {
  MC_CHECK(this_coroutine::get_coroutine() == (a < 0 ? nullptr : C[a].p), "this-coroutine", "after %s: wrong current coroutine", op);
  uint64_t h = a + 1;
  for (int i = 0; i < K; ++i) {
    MC_CHECK(C[i].p->is_finished() == (C[i].st == DEAD), "finished", "after %s: coroutine %d finished=%d, model %d", op, i,
             C[i].p->is_finished(), C[i].st);
    MC_CHECK(C[i].p->get_ret_code() == C[i].ret, "ret-code", "after %s: return code %d", op, C[i].p->get_ret_code());
    h = h * 16 + C[i].st * 2 + (C[i].thrown ? 1 : 0);
  }
  state(h);
}

static bool one_op(int a) {
  int op;
  if (ops_left <= 0) {
    if (a < 0) return false;
    op = 3 * K;
  } else {
    --ops_left;
    op = choose(a < 0 ? 2 * K : 3 * K + 3, "op");
    // for main: resume with the exception out, resume and catch
  }
  step();
  if (op < 3 * K) {
    int j = op % K, how = op / K;
    log("%d: resume %d %s", a, j, how == 0 ? "out parameter" : how == 1 ? "and catch" : "without catch");
    St before = C[j].st;
    bool runs = before == READY;
    if (runs) C[j].st = RUNNING;
    int want = runs ? COPP_EC_SUCCESS : before == RUNNING ? COPP_EC_IS_RUNNING : COPP_EC_NOT_READY;
    int got_id = 0, r = -999;
    int told = C[j].thrown;  // delivered before
    if (how == 0) {
      std::exception_ptr ep, old;  // which may hold an earlier exception
      if (ops_left & 1) ep = old = std::make_exception_ptr(Ex(-5));
      {
        Guard g;
        r = C[j].p->resume(ep, nullptr);
      }
      if (ep && ep != old) {
        try {
          std::rethrow_exception(ep);
        } catch (Ex &e) {
          got_id = e.id;
        } catch (...) {
          got_id = -1;
        }
      }
      MC_CHECK(r == want, "resume-code", "resume of %d returned %d, expected %d", j, r, want);
    } else if (how == 1) {
      Guard g;
      try {
        Guard g2;
        r = C[j].p->resume();
      } catch (Ex &e) {
        got_id = e.id;
        r = COPP_EC_SUCCESS;
      } catch (...) {
        got_id = -1;
      }
      MC_CHECK(r == want, "resume-code", "resume of %d returned %d, expected %d", j, r, want);
    } else {
      // the exception of j, if any, passes through a
      int mine_before = ids;
      (void)mine_before;
      r = C[j].p->resume();
      MC_CHECK(r == want, "resume-code", "resume of %d returned %d, expected %d", j, r, want);
      MC_CHECK(!runs || C[j].thrown == 0, "lost-exception", "exception %d of coroutine %d did not leave the resume call", C[j].thrown, j);
    }
    if (how != 2) {
      int expect = runs ? C[j].thrown : 0;
      MC_CHECK(got_id == expect, got_id == 0 ? "lost-exception" : "wrong-exception",
               "resume of %d delivered exception %d, expected %d (delivered before: %d)", j, got_id, expect, told);
      if (got_id > 0) goal(how);
      if (expect == 0 && C[j].thrown) goal(4);
    }
    MC_CHECK(!runs || C[j].st != RUNNING, "early-return", "resume of %d returned while it runs", j);
    check_world(a, "resume");
  } else if (op == 3 * K) {
    log("%d: yield", a);
    C[a].st = READY;
    Guard g;
    int r = this_coroutine::yield();
    MC_CHECK(r == COPP_EC_SUCCESS && C[a].st == RUNNING, "yield", "yield returned %d", r);
    check_world(a, "yield");
  } else if (op == 3 * K + 1) {
    return false;
  } else {
    int id = ++ids;
    log("%d: throw %d", a, id);
    Guard g;
    throw Ex(id);
  }
  return true;
}
static int body(int i) {
  try {
    Guard g;
    check_world(i, "entry");
    while (one_op(i)) {
    }
  } catch (Ex &e) {
    C[i].thrown = e.id;
    C[i].st = DEAD;
    log("%d: dies by exception %d", i, e.id);
    throw;
  }
  C[i].st = DEAD;
  C[i].ret = 7 + i;
  return 7 + i;
}
static void world() {
  K = param(0);
  ops_left = depth();
  Ex::alive = 0;
  {
    co_t::ptr_type own[MAXK];
    for (int i = 0; i < K; ++i) {
      own[i] = co_t::create([i](void *) -> int { return body(i); }, 16 * 1024);
      C[i].p = own[i].get();
    }
    while (one_op(-1)) {
    }
    int suspended = 0;
    for (int i = 0; i < K; ++i) suspended += C[i].st != DEAD;
    if (suspended == 0) {
      MC_CHECK(raii == 0, "unwinding", "%d local objects were not destroyed", raii);
      goal(3);
    }
  }
  MC_CHECK(Ex::alive == 0, "exception-leak", "%d exception objects left", Ex::alive);
  check_no_leak("leak");
}

// Exceptions and concurrency: the exception reaches the thread whose resume ran the throwing segment.
struct Sh {
  int expect[4];
  int got[4];
  int ok;
};
static void threads() {
  Sh *sh = shared<Sh>();
  {
    co_t::ptr_type co = co_t::create(
        [sh](void *) -> int {
          sched();
          this_coroutine::yield();
          sh->expect[tid()] = 5;
          throw Ex(5);
        },
        16 * 1024);
    co_t *p = co.get();
    for (int t = 0; t < param(0); ++t)
      spawn([=] {
        for (int k = 0; k < depth(); ++k) {
          std::exception_ptr ep;
          if (p->resume(ep, nullptr) == 0) sh->ok++;
          step();
          if (ep) {
            sh->got[tid()]++;
            MC_CHECK(sh->expect[tid()] == 5, "wrong-thread", "exception delivered to a thread which did not run the throwing segment");
          }
        }
      });
    run_threads();
    int e = 0, g = 0;
    for (int t = 0; t < 4; ++t) e += sh->expect[t] != 0, g += sh->got[t];
    MC_CHECK(e == g, "lost-exception", "%d exceptions thrown, %d delivered", e, g);
    MC_CHECK(co->is_finished() == (e == 1), "finished", "finished=%d", co->is_finished());
    goal(e);
    state(e * 8 + sh->ok);
  }
  MC_CHECK(Ex::alive == 0, "exception-leak", "%d exception objects left", Ex::alive);
  check_no_leak("leak");
}

static const Scenario LIST[] = {
    {"two_coroutines", world, 8, 9, -1, -1, false, "2 coroutines: resume/yield/throw/catch", {2},
     {"out parameter", "caught", "-", "all finished", "dead coroutine resumed"}},
    {"three_coroutines", world, 6, 7, -1, -1, false, "3 coroutines", {3}, {"out parameter", "caught", "-", "all finished", "dead coroutine resumed"}},
    {"threads_two", threads, 3, 4, 6, 8, false, "2 threads, throwing coroutine", {2}, {"-", "thrown"}},
    {"threads_three", threads, 2, 3, 4, 4, false, "3 threads, throwing coroutine", {3}, {"-", "thrown"}},
};
MC_MAIN(LIST)
