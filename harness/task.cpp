// Life cycle of stackful tasks: every sequence of operations, from outside and from inside task bodies, against a model.
#include <mc.h>
#include <libcotask/task.h>
#include <libcotask/this_task.h>
#include <exception>
#include <list>
using namespace mc;
using namespace copp;
using cotask::EN_TASK_STATUS;
using task_t = cotask::task<>;
using ptr_t = task_t::ptr_type;

enum { MAXK = 3, MAGIC = 0x5A17 };
struct Ex {
  int id;
};
struct TM {
  ptr_t own;
  task_t *p;
  int st;          // model of the status
  bool entered;    // body was entered
  bool co_done;    // body has ended
  bool draining;   // killed or cancelled while suspended (or before it started): runs to its end
  int fin;         // on_finished calls seen
  intptr_t data, killdata;
  int ret, thrown, fin_thrown;
  bool dropped;
  bool alive;  // action object
  bool fin_throws;
  bool dying;  // being destroyed: must not throw
  uint64_t id;
};
static TM T[MAXK];
static int K, ops_left, ids;
static int depth_running;

static bool running_now(int j, int a);
static bool one_op(int a);
static int stack_of[16], sp;

static int body(int i, void *data);
struct Act : cotask::impl::task_action_impl {
  int i;
  int magic;
  bool real;
  explicit Act(int k) : i(k), magic(MAGIC), real(false) {}
  Act(Act &&o) : i(o.i), magic(MAGIC), real(true) { T[i].alive = true; }
  ~Act() {
    MC_CHECK(magic == MAGIC, "action-destroyed-twice", "the action of task %d is destroyed twice", i);
    magic = 0;
    if (real) {
      MC_CHECK(T[i].co_done || !T[i].entered, "action-destroyed-early", "the action of task %d is destroyed while its body is suspended", i);
      T[i].alive = false;
    }
  }
  int operator()(void *d) override {
    int r = body(i, d);
    MC_CHECK(magic == MAGIC && T[i].alive, "dead-action", "the body of task %d runs in a destroyed action", i);
    return r;
  }
  int on_finished(cotask::impl::task_impl &t) override {
    MC_CHECK(magic == MAGIC && T[i].alive, "dead-action", "on_finished of a destroyed action");
    MC_CHECK(&t == T[i].p, "on-finished", "on_finished got another task");
    MC_CHECK(T[i].co_done && t.is_completed(), "on-finished-early", "on_finished of task %d before its body has ended", i);
    MC_CHECK(t.is_exiting(), "on-finished", "status %d in on_finished", t.get_status());
    MC_CHECK(T[i].fin == 0, "on-finished-twice", "on_finished of task %d called again", i);
    if (T[i].st == cotask::EN_TS_RUNNING) T[i].st = cotask::EN_TS_DONE;
    MC_CHECK(t.get_status() == T[i].st, "status", "status %d in on_finished, expected %d", t.get_status(), T[i].st);
    T[i].fin = 1;
    if (T[i].fin_throws) {
      T[i].fin_thrown = ++ids;
      throw Ex{ids};
    }
    return 0;
  }
};

static void check_world(int a, const char *op) {
  MC_CHECK(cotask::this_task::get_task() == (a < 0 ? nullptr : T[a].p), "this-task", "after %s: wrong current task", op);
  MC_CHECK(task_t::this_task() == (a < 0 ? nullptr : T[a].p), "this-task", "after %s: wrong current task", op);
  uint64_t h = a + 1;
  for (int i = 0; i < K; ++i) {
    TM &t = T[i];
    if (t.dropped) {
      h = hash_mix(h, 99);
      continue;
    }
    MC_CHECK(t.p->get_status() == t.st, "status", "after %s: task %d has status %d, expected %d", op, i, t.p->get_status(), t.st);
    MC_CHECK(t.p->is_exiting() == (t.st >= cotask::EN_TS_DONE), "predicate", "after %s: is_exiting of %d", op, i);
    MC_CHECK(t.p->is_completed() == t.co_done, "predicate", "after %s: is_completed of %d", op, i);
    MC_CHECK(t.p->is_canceled() == (t.st == cotask::EN_TS_CANCELED), "predicate", "after %s: is_canceled of %d", op, i);
    MC_CHECK(t.p->is_timeout() == (t.st == cotask::EN_TS_TIMEOUT), "predicate", "after %s: is_timeout of %d", op, i);
    MC_CHECK(t.p->is_faulted() == (t.st >= cotask::EN_TS_KILLED), "predicate", "after %s: is_faulted of %d", op, i);
    MC_CHECK(t.p->get_id() == t.id, "id", "after %s: id of %d changed", op, i);
    MC_CHECK(t.fin == (t.co_done ? 1 : 0), "on-finished-missing", "after %s: task %d ended, on_finished called %d times", op, i, t.fin);
    if (t.co_done) MC_CHECK(t.p->get_ret_code() == t.ret, "ret-code", "after %s: return code of task %d is %d, expected %d", op, i, t.p->get_ret_code(), t.ret);
    h = hash_mix(h, t.st * 8 + t.co_done * 4 + t.draining * 2 + t.entered);
  }
  state(h);
}

// runs the body of j inside call(): settles the model afterwards
template <class F>
static int drive(int a, int j, bool list, F call) {
  TM &t = T[j];
  int exp1 = t.thrown, exp2 = t.fin_thrown;
  int r = -12345, got[4] = {0, 0, 0, 0}, ng = 0;
  if (list) {
    std::list<std::exception_ptr> eps;
    r = call(&eps);
    for (auto &e : eps) {
      try {
        std::rethrow_exception(e);
      } catch (Ex &x) {
        if (ng < 4) got[ng++] = x.id;
      }
    }
  } else {
    try {
      r = call(nullptr);
    } catch (Ex &x) {
      got[ng++] = x.id;
      r = -54321;
    }
  }
  // what this call had to deliver
  int want[2], nw = 0;
  if (t.thrown != exp1) want[nw++] = t.thrown;
  if (t.fin_thrown != exp2) want[nw++] = t.fin_thrown;
  if (!list && nw > 1) nw = 1;
  MC_CHECK(ng == nw, "exceptions", "operation on task %d delivered %d exceptions, expected %d", j, ng, nw);
  for (int k = 0; k < nw; ++k) MC_CHECK(got[k] == want[k], "exceptions", "operation on task %d delivered exception %d, expected %d", j, got[k], want[k]);
  if (nw) goal(list ? 6 : 7);
  if (!list && nw) r = 0;
  (void)a;
  return r;
}

static bool one_op(int a) {
  const int per = param(1) ? 7 : 6;
  int op;
  if (ops_left <= 0) {
    if (a < 0) return false;
    op = per * K + 1;
  } else {
    --ops_left;
    op = choose(a < 0 ? per * K : per * K + 2 + (param(1) && !T[a].dying), "op");
  }
  step();
  if (op < per * K) {
    int j = op / per, what = op % per;
    TM &t = T[j];
    if (t.dropped && is_history()) return true;
    if (t.dropped) prune();
    bool list = what == 6;
    if (what == 6) what = 0;
    intptr_t d = 16 * (ids + 1);
    int before = t.st;
    bool can_run = before == cotask::EN_TS_CREATED || before == cotask::EN_TS_WAITING;
    bool ran = false;
    int want = 0, r = 0;
    static const char *const NAME[] = {"start", "resume", "cancel", "kill", "timeout", "drop"};
    log("%d: %s %d%s", a, NAME[what], j, list ? " collecting exceptions" : "");
    if (what <= 1) {
      want = can_run ? 0 : before == cotask::EN_TS_RUNNING ? COPP_EC_IS_RUNNING : COPP_EC_ALREADY_FINISHED;
      ran = can_run;
      if (can_run) t.st = cotask::EN_TS_RUNNING, t.data = d;
      r = drive(a, j, list, [&](std::list<std::exception_ptr> *e) {
        void *v = reinterpret_cast<void *>(d);
        return e ? (what ? t.p->resume(*e, v) : t.p->start(*e, v)) : what ? t.p->resume(v) : t.p->start(v);
      });
    } else if (what == 2) {
      want = can_run ? 0 : before == cotask::EN_TS_RUNNING ? COPP_EC_IS_RUNNING : COPP_EC_ALREADY_FINISHED;
      ran = can_run;
      if (can_run) t.st = cotask::EN_TS_CANCELED, t.data = d, t.draining = true, goal(0);
      r = drive(a, j, list, [&](std::list<std::exception_ptr> *) { return t.p->cancel(reinterpret_cast<void *>(d)); });
    } else if (what < 5) {
      EN_TASK_STATUS to = what == 3 ? cotask::EN_TS_KILLED : cotask::EN_TS_TIMEOUT;
      want = before >= cotask::EN_TS_DONE ? COPP_EC_ALREADY_FINISHED : 0;
      ran = can_run;
      if (can_run) t.st = to, t.data = d, t.draining = true, goal(1);
      if (before == cotask::EN_TS_RUNNING) t.st = to, t.killdata = d, goal(a == j ? 2 : 3);
      r = drive(a, j, list, [&](std::list<std::exception_ptr> *) { return t.p->kill(to, reinterpret_cast<void *>(d)); });
    } else {
      // dropping the last reference of a task which runs is the caller's error
      for (int k = 0; k < sp; ++k)
        if (stack_of[k] == j) {
          if (is_history()) return true;
          prune();
        }
      if (before == cotask::EN_TS_RUNNING && is_history()) return true;
      if (t.fin_throws || before == cotask::EN_TS_RUNNING) prune();
      if (before == cotask::EN_TS_WAITING) t.st = cotask::EN_TS_TIMEOUT, t.data = 0, t.draining = true, t.dying = true, goal(4);
      bool waits = before == cotask::EN_TS_WAITING;
      int thr = t.thrown;
      ptr_t x = std::move(t.own);
      x.reset();
      t.dropped = true;
      (void)thr;
      MC_CHECK(!waits || t.co_done, "drop", "task %d was dropped while it was waiting and its body was not finished", j);
      MC_CHECK(t.fin == (t.co_done ? 1 : 0), "on-finished-missing", "on_finished of dropped task %d called %d times", j, t.fin);
      MC_CHECK(!t.alive, "action-leak", "the action of task %d outlives it", j);
      if (a < 0) check_world(a, "drop");
      return true;
    }
    MC_CHECK(r == want, "result", "%s of task %d (status %d) returned %d, expected %d", NAME[what], j, before, r, want);
    if (ran) {
      if (what > 1) MC_CHECK(t.co_done, "drain", "%s of task %d returned and its body has not ended", NAME[what], j);
      if (t.st == cotask::EN_TS_RUNNING && !t.co_done) t.st = cotask::EN_TS_WAITING;
      if (t.st >= cotask::EN_TS_DONE) MC_CHECK(t.co_done, "drain", "task %d has status %d and its body has not ended", j, t.st);
    }
    check_world(a, NAME[what]);
  } else if (op == per * K) {
    TM &t = T[a];
    log("%d: yield", a);
    if (t.st >= cotask::EN_TS_DONE && !t.draining) {
      t.draining = true;
      t.data = t.killdata;
    }
    --sp;
    void *out = &out;
    int r = t.p->yield(&out);
    stack_of[sp++] = a;
    MC_CHECK(r == 0, "yield", "yield returned %d", r);
    MC_CHECK(out == reinterpret_cast<void *>(t.data), "data", "task %d resumed with data %p, expected %p", a, out, reinterpret_cast<void *>(t.data));
    check_world(a, "yield");
  } else if (op == per * K + 1) {
    return false;
  } else {
    throw Ex{++ids};
  }
  return true;
}

static int body(int i, void *data) {
  TM &t = T[i];
  MC_CHECK(!t.entered, "restarted", "the body of task %d is entered a second time", i);
  t.entered = true;
  MC_CHECK(data == reinterpret_cast<void *>(t.data), "data", "task %d started with data %p, expected %p", i, data, reinterpret_cast<void *>(t.data));
  stack_of[sp++] = i;
  check_world(i, "entry");
  try {
    while (one_op(i)) {
    }
  } catch (Ex &e) {
    t.thrown = e.id;
    t.co_done = true;
    --sp;
    throw;
  }
  t.co_done = true;
  t.ret = 70 + i + (ops_left & 1);
  --sp;
  return t.ret;
}

static void world() {
  K = param(0);
  ops_left = depth();
  ids = 0;
  {
    auto make = [](int i) {
      TM &t = T[i];
      t.own = task_t::create_with_delegate<Act>(Act(i), *[] { static task_t::coroutine_type::allocator_type a; return &a; }(), 16 * 1024, 32);
      t.p = t.own.get();
      MC_CHECK(t.p, "create", "task creation failed");
      MC_CHECK(t.own->use_count() == 1, "create", "use count %zu of a new task", t.own->use_count());
      t.st = cotask::EN_TS_CREATED;
      t.id = t.p->get_id();
      MC_CHECK(t.alive, "create", "no action");
      for (int k = 0; k < i; ++k) MC_CHECK(T[k].id != t.id, "id", "two tasks have the same id");
      if (param(2)) t.fin_throws = choose(2, "on_finished throws");
    };
    auto drop = [](int i) {
      TM &t = T[i];
      if (t.dropped) return;
      if (t.st == cotask::EN_TS_WAITING) {
        if (t.fin_throws) done();  // an exception from the destructor
        t.st = cotask::EN_TS_TIMEOUT, t.data = 0, t.draining = true, t.dying = true;
        goal(5);
      }
      bool in = t.entered;
      t.own.reset();
      t.dropped = true;
      MC_CHECK(t.co_done == in && t.fin == in, "drop", "task %d was destroyed: body ended %d, on_finished calls %d", i, t.co_done, t.fin);
      MC_CHECK(!t.alive, "action-leak", "the action of task %d outlives it", i);
    };
    for (int i = 0; i < K; ++i) make(i);
    check_world(-1, "creation");
    history();
    int dead = 0;
    while (one_op(-1)) {
      if (!is_history()) continue;
      for (int i = 0; i < K; ++i)  // after some time dead ones are replaced
        if (T[i].dropped || (T[i].co_done && ++dead % 4 == 0)) {
          drop(i);
          T[i] = TM();
          make(i);
          goal(8);
        }
    }
    for (int i = 0; i < K; ++i) drop(i);
  }
  check_no_leak("leak");
}
#define G0 "cancelled", "killed", "killed itself", "killed while running by another task", "dropped while waiting", "destroyed while waiting"
#define G1 "cancelled", "killed", "killed itself", "-", "dropped while waiting", "destroyed while waiting"
static const Scenario LIST[] = {
    {"one_task", world, 8, 10, -1, -1, false, "1 task: start/resume/cancel/kill/timeout/drop from outside and inside, yield, return", {1, 0, 0},
     {G1, "-", "-"}},
    {"two_tasks", world, 6, 7, -1, -1, false, "2 tasks acting on each other", {2, 0, 0}, {G0, "-", "-"}},
    {"three_tasks", world, 5, 6, -1, -1, false, "3 tasks acting on each other", {3, 0, 0}, {G0, "-", "-"}},
    {"exceptions", world, 6, 8, -1, -1, false, "1 task with exceptions from its body and from on_finished", {1, 1, 1}, {G1, "collected", "thrown"}},
    {"long_one", world, 60, 100, -1, -1, false, "long histories with 1 task and its successors: every sequence which repeats after 5 operations", {1, 0, 0},
     {"cancelled", "killed", "killed itself", "-", "dropped while waiting", "destroyed while waiting", "-", "-", "replaced"}, 5, 6, 8},
    {"long_two", world, 60, 100, -1, -1, false, "the same with 2 tasks", {2, 0, 0}, {G0, "-", "-", "replaced"}, 5, 6, 14},
    {"exceptions_two", world, 4, 6, -1, -1, false, "2 tasks with exceptions", {2, 1, 1}, {G0, "collected", "thrown"}},
};
MC_MAIN(LIST)
