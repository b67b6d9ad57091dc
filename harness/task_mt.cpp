// C09: several threads use the same stackful task.
#include <mc.h>
#include <libcotask/task.h>
#include <libcotask/this_task.h>
#include <exception>
#include <list>
using namespace mc;
using namespace copp;
using cotask::EN_TASK_STATUS;
using task_t = cotask::task<>;
using ptr_t = task_t::ptr_type;

enum { RUN, CANCEL, KILL, LOOK, NOPS };
static const char *const NAME[] = {"run", "cancel", "kill", "look"};
struct Ex {
  int tid;
};
enum { MAGIC = 0x5A17 };
struct T {
  task_t *p;
  int inside;      // thread which executes the body, plus 1
  int seg;         // body segments begun
  bool ended;      // body
  int fin;         // on_finished calls
  int alive;       // actions
  int destroyed;   // actions
  int refs;        // which surely exist
  int ends;        // calls which reported to have cancelled or killed it
  int end_status;  // by them
  int refused_final;
  int yields;
  bool throws;
  intptr_t killdata, data[8], kills[16];  // data of the kill which succeeded, of running calls, of all kills
  int nkills;
};
struct Sh {
  T t[2];
  int segs_by[4][2], thrown_by[4], caught_by[4];
  int prog[4][4];
  int n;
};
static Sh *sh;

static void enter(int i) {
  T &t = sh->t[i];
  MC_CHECK(t.inside == 0, "exclusion", "the body of task %d is entered while it is running on another thread", i);
  MC_CHECK(!t.ended, "restarted", "the body of task %d is entered after its end", i);
  MC_CHECK(t.alive == 1, "dead-action", "the body of task %d runs without its action", i);
  t.inside = tid() + 1;
  t.seg++;
  sh->segs_by[tid()][i]++;
  log("task %d: segment %d", i, t.seg);
}
static void leave(int i) {
  T &t = sh->t[i];
  MC_CHECK(t.inside == tid() + 1, "exclusion", "the body of task %d has moved to another thread", i);
  t.inside = 0;
}
static void got(int i, void *d) {
  T &t = sh->t[i];
  intptr_t v = (intptr_t)d;
  if (v == t.data[tid()]) return;
  bool ok = false;
  for (int k = 0; k < t.nkills; ++k) ok |= v == t.kills[k];
  if (t.killdata) ok = v == t.killdata;
  MC_CHECK(ok && t.p->is_exiting(), "data", "the body of task %d received %ld, thread %d passed %ld, killed with %ld", i, (long)v, tid(), (long)t.data[tid()], (long)t.killdata);
}
static int op_on(int i, int op, bool first);
struct Act : cotask::impl::task_action_impl {
  int i;
  int magic;
  bool real;
  explicit Act(int k) : i(k), magic(MAGIC), real(false) {}
  Act(Act &&o) : i(o.i), magic(MAGIC), real(true) { sh->t[i].alive++; }
  ~Act() {
    MC_CHECK(magic == MAGIC, "action-destroyed-twice", "the action of task %d is destroyed twice", i);
    magic = 0;
    if (!real) return;
    T &t = sh->t[i];
    MC_CHECK(t.refs == 0, "destroyed-early", "the action of task %d is destroyed, %d references exist", i, t.refs);
    MC_CHECK(t.ended || !t.seg, "destroyed-early", "the action of task %d is destroyed before its body has ended", i);
    MC_CHECK(t.inside == 0, "destroyed-early", "the action of task %d is destroyed while its body is running", i);
    t.alive--;
    t.destroyed++;
  }
  int operator()(void *d) override {
    T &t = sh->t[i];
    enter(i);
    got(i, d);
    for (int k = 0; k < t.yields; ++k) {
      if (i == 0 && sh->n == 2) op_on(1, param(4) ? choose(NOPS - 1, "body") : k ? KILL : RUN, k == 0);
      sched();
      leave(i);
      void *out = nullptr;
      int r = t.p->yield(&out);
      MC_CHECK(r == 0, "yield", "yield returned %d", r);
      enter(i);
      got(i, out);
    }
    sched();
    leave(i);
    t.ended = true;
    log("task %d: end", i);
    if (t.throws) {
      sh->thrown_by[tid()]++;
      throw Ex{tid()};
    }
    return 7;
  }
  int on_finished(cotask::impl::task_impl &x) override {
    T &t = sh->t[i];
    MC_CHECK(magic == MAGIC && t.alive == 1, "dead-action", "on_finished of a destroyed action");
    MC_CHECK(&x == t.p, "on-finished", "on_finished got another task");
    MC_CHECK(x.is_exiting(), "on-finished", "status %d in on_finished", x.get_status());
    MC_CHECK(t.ended && x.is_completed(), "on-finished-early", "on_finished of task %d before its body has ended", i);
    MC_CHECK(++t.fin == 1, "on-finished-twice", "on_finished of task %d called again", i);
    return 0;
  }
};
static int op_on(int i, int op, bool first) {
  T &t = sh->t[i];
  int me = tid();
  int before = sh->segs_by[me][i], thrown = sh->thrown_by[me];
  int r = 0, caught = 0;
  log("%s %d", NAME[op], i);
  int s0 = t.p->get_status();
  intptr_t d = 100 * (me + 1) + 10 * i + (first ? 0 : 1);
  if (op == RUN || op == CANCEL) t.data[me] = d;
  try {
    switch (op) {
      case RUN: r = first ? t.p->start((void *)d) : t.p->resume((void *)d); break;
      case CANCEL: r = t.p->cancel((void *)d); break;
      case KILL:
        t.kills[t.nkills++] = d;
        r = t.p->kill(cotask::EN_TS_KILLED, (void *)d);
        break;
      case LOOK: {
        int a = t.p->get_status();
        bool b = t.p->is_exiting();
        int c = t.p->get_status();
        MC_CHECK(a >= s0 || (s0 <= cotask::EN_TS_WAITING && a >= cotask::EN_TS_RUNNING), "status-back", "the status of task %d went from %d to %d", i, s0, a);
        if (t.p->is_completed()) MC_CHECK(t.throws || t.p->get_ret_code() == 7, "visibility", "task %d has ended, but its result is %d", i, t.p->get_ret_code());
        MC_CHECK(a < cotask::EN_TS_DONE || (b && c == a), "status-back", "the final status of task %d went from %d to %d", i, a, c);
        break;
      }
    }
  } catch (Ex &x) {
    caught = 1;
    MC_CHECK(x.tid == me, "exception", "thread %d got the exception thrown on thread %d", me, x.tid);
  }
  step();
  log("%s %d -> %d%s", NAME[op], i, r, caught ? ", exception" : "");
  int ran = sh->segs_by[me][i] - before;
  MC_CHECK(sh->thrown_by[me] - thrown == caught, "exception", "%d exceptions were thrown, %d were delivered", sh->thrown_by[me] - thrown, caught);
  if (op == LOOK) return r;
  if (s0 >= cotask::EN_TS_DONE) MC_CHECK(r == COPP_EC_ALREADY_FINISHED && !ran, "ended-again", "%s of ended task %d returned %d and ran %d segments", NAME[op], i, r, ran);
  if (caught) r = 0;
  if (r == 0) {
    if (op == RUN) MC_CHECK(ran >= 1, "run-nothing", "thread %d ran task %d and no segment was executed", me, i);
    if (op != RUN) {
      MC_CHECK(++t.ends == 1, "ended-twice", "task %d was cancelled or killed twice", i);
      t.end_status = op == CANCEL ? cotask::EN_TS_CANCELED : cotask::EN_TS_KILLED;
      if (op == KILL) t.killdata = d;
      MC_CHECK(t.p->get_status() == t.end_status, "final-status", "%s of task %d succeeded, its status is %d", NAME[op], i, t.p->get_status());
      if (ran || !t.inside) goal(op == CANCEL ? 0 : 1);
      if (op == KILL && t.inside && !ran) goal(2);
    }
  } else {
    MC_CHECK(ran == 0, "refused-ran", "%s of task %d returned %d and ran %d segments", NAME[op], i, r, ran);
    MC_CHECK(r == COPP_EC_ALREADY_FINISHED || (op != KILL && r == COPP_EC_IS_RUNNING), "code", "%s of task %d returned %d", NAME[op], i, r);
    if (r == COPP_EC_ALREADY_FINISHED) MC_CHECK(t.p->is_exiting(), "code", "%s of task %d returned %d, its status is %d", NAME[op], i, r, t.p->get_status());
    goal(3);
  }
  if (t.p->get_status() >= cotask::EN_TS_DONE && t.ends && t.end_status != t.p->get_status()) fail("final-status", "task %d has status %d", i, t.p->get_status());
  return r;
}

// param: 0 threads, 1 yields of the body, 2 the body throws, 3 number of tasks (2: the body of task 0 runs and kills task 1), 4 the body of task 0 chooses its operations
static void world() {
  sh = shared<Sh>();
  int n = param(0), len = depth();
  sh->n = param(3) ? param(3) : 1;
  // programs: a look is only worth it on its own
  long last = -1;
  for (int i = 1; i <= n; ++i) {
    long code = 0;
    for (int k = 0; k < len; ++k) sh->prog[i][k] = choose(NOPS, "program"), code = code * NOPS + sh->prog[i][k];
    if (sh->n == 1) {
      if (code < last) prune();  // threads are alike
      last = code;
    }
  }
  {
    ptr_t own[2];
    for (int i = 0; i < sh->n; ++i) {
      T &t = sh->t[i];
      t.yields = param(1);
      t.throws = param(2) && i == 0;
      own[i] = task_t::create_with_delegate<Act>(Act(i), *[] { static task_t::coroutine_type::allocator_type a; return &a; }(), 16 * 1024, 32);
      t.p = own[i].get();
      MC_CHECK(t.p && t.alive == 1, "create", "task creation failed");
    }
    for (int t = 1; t <= n; ++t) {
      for (int i = 0; i < sh->n; ++i) sh->t[i].refs++;
      spawn([t, len, a = own[0], b = own[1]]() mutable {
        int i = sh->n == 2 && t > 1;
        for (int k = 0; k < len; ++k) op_on(i, sh->prog[t][k], t == 1 && k == 0);
        for (int j = 0; j < sh->n; ++j) {
          T &x = sh->t[j];
          --x.refs;
          x.data[tid()] = 0;
          if (j)
            b.reset();
          else
            a.reset();
          MC_CHECK(x.refs == 0 || x.alive, "destroyed-early", "task %d was destroyed, %d references exist", j, x.refs);
        }
      });
    }
    for (int i = 0; i < sh->n; ++i)
      if (!param(5)) own[i].reset();
      else sh->t[i].refs++;
    run_threads();
    uint64_t h = 0;
    for (int i = 0; i < sh->n; ++i) {
      T &t = sh->t[i];
      if (param(5)) {
        int s = t.p->get_status();
        MC_CHECK(t.p->use_count() == 1, "use-count", "use count %zu", t.p->use_count());
        MC_CHECK(t.ends ? s == t.end_status : s == cotask::EN_TS_DONE || s == cotask::EN_TS_WAITING || s == cotask::EN_TS_CREATED, "final-status", "task %d has status %d at the end", i, s);
        MC_CHECK(s < cotask::EN_TS_DONE ? !t.ended && !t.fin && (s == cotask::EN_TS_WAITING) == (t.seg > 0) : t.ended && t.fin == 1, "unfinished", "task %d has status %d, %d segments, ended %d, on_finished %d", i, s, t.seg,
                 t.ended, t.fin);
        MC_CHECK(t.p->is_completed() == t.ended, "completed", "task %d: completed %d, ended %d", i, t.p->is_completed(), t.ended);
        if (t.ended && !t.throws) MC_CHECK(t.p->get_ret_code() == 7, "ret-code", "return code %d", t.p->get_ret_code());
        if (s == cotask::EN_TS_WAITING) {
          int r = 0;
          try {
            r = t.p->cancel();
          } catch (Ex &) {
          }
          MC_CHECK(r == 0 && t.ended && t.fin == 1, "stuck", "task %d cannot be cancelled at the end", i);
        }
        h = h * 64 + s;
        --t.refs;
        own[i].reset();
      }
      MC_CHECK(t.destroyed == 1 && t.alive == 0, "never-destroyed", "the action of task %d was destroyed %d times", i, t.destroyed);
      MC_CHECK(t.fin == (t.ended ? 1 : 0) && (t.ended || !t.seg), "on-finished-missing", "task %d: ended %d, on_finished %d", i, t.ended, t.fin);
      if (t.ended && !t.ends) goal(4);
      h = h * 16 + t.seg;
    }
    state(h);
  }
  check_no_leak("leak");
}
#define G "cancelled", "killed", "killed while running", "refused", "ended by itself or the last reference"
static const Scenario LIST[] = {
    {"two", world, 2, 2, 4, 5, true, "2 threads, body with 1 yield, kept to the end", {2, 1, 0, 0, 0, 1}, {G}},
    {"last", world, 1, 1, 5, 7, true, "2 threads which drop the last references, body with 1 yield", {2, 1, 0, 0, 0, 0}, {G}},
    {"three", world, 1, 1, 3, 4, true, "3 threads, body with 1 yield", {3, 1, 0, 0, 0, 1}, {G}},
    {"last_three", world, 1, 1, 3, 4, true, "3 threads which drop the last references", {3, 1, 0, 0, 0, 0}, {G}},
    {"throws", world, 2, 2, 3, 4, true, "2 threads, the body throws", {2, 1, 1, 0, 0, 1}, {G}},
    {"long", world, 3, 3, 2, 3, true, "2 threads, body with 2 yields", {2, 2, 0, 0, 0, 1}, {G}},
    {"nested", world, 2, 2, 2, 3, true, "2 threads, a task which runs, cancels and kills another one", {2, 1, 0, 2, 1, 1}, {G}},
};
MC_MAIN(LIST)
