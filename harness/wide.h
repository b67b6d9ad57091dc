// Many stackful tasks at once: up to six, and with a pattern of kinds up to 64, in a manager, with deadlines or following one task, in every
// combination of what happened to them before, and then one operation.  The histories of operations are explored with fewer tasks in tm.h and task_chain.cpp.
#pragma once
#include <mc.h>
#include <exception>
#include <list>
#include <libcotask/task.h>
#include <libcotask/task_manager.h>
#include <libcotask/this_task.h>
namespace wide {
using namespace mc;
using task_type = cotask::task<>;
using task_ptr = task_type::ptr_type;
using manager_type = cotask::task_manager<task_type>;
enum { MAXW = 68 };
struct W {
  task_ptr own;
  uint64_t id;
  task_type *p;
  int alive, entered, ended, fin, order;
  intptr_t data;
  bool throws;
};
static W w[MAXW];
static int n, clock_now;
static bool pattern;  // very many: the kind of a task is that of the one three before
static int picked[3];
struct Thrown {
  int i;
};
static int count() {
  pattern = param(1) != 0;
  return pattern ? 8 + 8 * choose(param(1), "how many") : param(0) + depth() - 1;
}
static int kind_of(int i, int kinds, const char *what) {
  if (pattern && i >= 3) return picked[i % 3];
  int k = choose(kinds, what);
  if (pattern) picked[i] = k;
  return k;
}
struct Action : cotask::impl::task_action_impl {
  int i;
  bool real;
  explicit Action(int k) : i(k), real(false) {}
  Action(Action &&o) : i(o.i), real(true) { ++w[i].alive; }
  ~Action() {
    if (real) --w[i].alive;
  }
  int operator()(void *d) override {
    ++w[i].entered;
    if (!w[i].order) w[i].order = ++clock_now;
    w[i].data = reinterpret_cast<intptr_t>(d);
    w[i].p->yield(&d);
    w[i].data = reinterpret_cast<intptr_t>(d);
    if (!w[i].order) w[i].order = ++clock_now;
    ++w[i].ended;
    if (w[i].throws) throw Thrown{i};
    return 7;
  }
  int on_finished(cotask::impl::task_impl &) override {
    ++w[i].fin;
    MC_CHECK(w[i].ended == 1, "on-finished-early", "on_finished of task %d, its body ended %d times", i, w[i].ended);
    return 0;
  }
};
static void make(int i) {
  static task_type::coroutine_type::allocator_type alloc;
  w[i] = W();
  w[i].own = task_type::create_with_delegate<Action>(Action(i), alloc, 16 * 1024, 32);
  w[i].p = w[i].own.get();
  w[i].id = w[i].p->get_id();
}
static void done(int i, int want, const char *what) {
  int st = w[i].p->get_status();
  MC_CHECK(w[i].ended == 1 && w[i].entered == 1 && w[i].fin == 1, "not-ended", "%s: task %d of %d has been entered %d times, ended %d times, told %d times", what, i, n, w[i].entered, w[i].ended, w[i].fin);
  MC_CHECK(st == want, "status", "%s: task %d has status %d, expected %d", what, i, st, want);
}
static void finish() {
  for (int i = 0; i < n; ++i) w[i].own.reset();
  for (int i = 0; i < n; ++i) MC_CHECK(w[i].alive == 0 && w[i].entered == w[i].ended && w[i].fin == w[i].ended, "left", "task %d: exists %d, entered %d, ended %d, told %d", i, w[i].alive, w[i].entered, w[i].ended, w[i].fin);
  check_no_leak("leak");
}
static const char *const OPS[] = {"reset", "destruction", "ticks", "kill by id", "cancel by id", "remove by id", "start by id", "kills", "resumes"};
static void managers() {
  clock_now = 0;
  manager_type *tm = new manager_type();
  int op = choose(9, "operation");
  n = count();
  bool by_id = op >= 3;
  enum { CREATED, WAITING, OUTSIDE, THROWS, ENDED };  // outside: or not concerned by an operation by id
  int kind[MAXW], in = 0, throwers = 0;
  for (int i = 0; i < n; ++i) {
    make(i);
    kind[i] = kind_of(i, op == 1 ? 3 : 4, "task");
    w[i].throws = kind[i] == THROWS;
    throwers += w[i].throws;
    if (kind[i] != CREATED) w[i].p->start();
    if (kind[i] == OUTSIDE && !by_id) continue;
    int r = op == 2 ? tm->add_task(w[i].own, 1 + i % 2, 0) : tm->add_task(w[i].own);
    MC_CHECK(r == 0, "add", "adding task %d returned %d", i, r);
    ++in;
  }
  MC_CHECK((int)tm->get_task_size() == in, "size", "%d tasks were added, the manager has %d", in, (int)tm->get_task_size());
  step();
  int caught = 0;
  auto guard = [&](int only, auto &&f) {  // exceptions of the bodies it ends may reach the caller
    try {
      f();
    } catch (Thrown &t) {
      ++caught;
      MC_CHECK(t.i >= 0 && t.i < n && w[t.i].throws && (only < 0 || only == t.i), "exceptions", "%s: exception of task %d", OPS[op], t.i);
    }
  };
  if (op == 0) guard(-1, [&] { tm->reset(); });
  else if (op == 1) delete tm, tm = nullptr;
  else if (op == 2) tm->tick(10), guard(-1, [&] { tm->tick(20); });
  else
    for (int i = 0; i < n; ++i) {
      if (kind[i] == OUTSIDE) continue;
      guard(i, [&] {
        int r = 0, want = 0;
        uint64_t id = w[i].id;
        switch (op) {
          case 3: r = tm->kill(id, cotask::EN_TS_KILLED); break;
          case 4: r = tm->cancel(id); break;
          case 5: r = tm->remove_task(id); break;
          case 6: r = tm->start(id), want = r; break;
          case 7: r = w[i].p->kill(cotask::EN_TS_KILLED); break;
          default: r = w[i].p->resume(), want = r;
        }
        MC_CHECK(r == want, "result", "%s of task %d returned %d", OPS[op], i, r);
      });
    }
  // every exception of an operation on one task arrives, and one of those of an operation on all
  MC_CHECK(caught == (op < 3 ? throwers > 0 : throwers), "exceptions", "%s: %d tasks throw, %d exceptions arrived", OPS[op], throwers, caught);
  int left = 0;
  for (int i = 0; i < n; ++i) {
    bool stays = kind[i] == OUTSIDE, created = kind[i] == CREATED;
    if ((op == 6 || op == 8) && created) stays = true;  // they wait now
    bool there = tm && stays && (by_id || kind[i] != OUTSIDE);
    if (stays) {
      MC_CHECK(w[i].ended == 0, "bystander", "task %d ended because of %s", i, OPS[op]);
      MC_CHECK(w[i].p->get_status() == cotask::EN_TS_WAITING, "status", "%s: task %d has status %d", OPS[op], i, w[i].p->get_status());
    } else if (created && op == 5)
      MC_CHECK(w[i].p->get_status() == cotask::EN_TS_CREATED && !w[i].entered, "status", "%s: task %d has status %d", OPS[op], i, w[i].p->get_status());
    else
      done(i, op == 2 ? cotask::EN_TS_TIMEOUT : op == 4 ? cotask::EN_TS_CANCELED : op == 6 || op == 8 ? cotask::EN_TS_DONE : cotask::EN_TS_KILLED, OPS[op]);
    if (tm) {
      task_ptr p = tm->find_task(w[i].id);
      MC_CHECK(p.get() == (there ? w[i].p : nullptr), there ? "not-there" : "still-there", "%s: task %d (kind %d) found: %d", OPS[op], i, kind[i], p.get() != nullptr);
    }
    left += there;
  }
  if (tm) {
    MC_CHECK((int)tm->get_task_size() == left, "size", "%s: the manager has %d tasks, expected %d", OPS[op], (int)tm->get_task_size(), left);
    MC_CHECK(tm->get_tick_checkpoint_size() == 0, "deadlines", "%s: %d deadlines are left", OPS[op], (int)tm->get_tick_checkpoint_size());
    delete tm;
    for (int i = 0; i < n; ++i)
      if (kind[i] == OUTSIDE && by_id) done(i, cotask::EN_TS_KILLED, "destruction");
  }
  goal(op);
  finish();
}
static void deadlines() {
  clock_now = 0;
  manager_type *tm = new manager_type();
  n = count();
  bool first = choose(2, "ticked before");
  int change = choose((pattern ? 3 : n) + 1, "changed"), to[MAXW], due = 0;
  if (first) tm->tick(100);
  for (int i = 0; i < n; ++i) {
    make(i);
    to[i] = kind_of(i, 4, "timeout");
    if (i % 3 != 2) w[i].p->start();
    MC_CHECK(tm->add_task(w[i].own, to[i], 0) == 0, "add", "adding task %d failed", i);
  }
  if (pattern && change == 3) change = n;
  if (change < n) {
    to[change] = (to[change] + 2) % 4;
    tm->set_timeout(w[change].id, to[change], 0);
  }
  if (!first) tm->tick(100);
  for (int i = 0; i < n; ++i) due += to[i] > 0;
  MC_CHECK((int)tm->get_tick_checkpoint_size() == due, "deadlines", "%d tasks have deadlines, the manager counts %d", due, (int)tm->get_tick_checkpoint_size());
  int now = 100;
  for (int k = 0; k < param(2); ++k) {
    step();
    now += 1 + choose(4, "tick");
    tm->tick(now);
    int left = 0;
    due = 0;
    for (int i = 0; i < n; ++i) {
      bool out = to[i] && 100 + to[i] < now;
      if (out) done(i, cotask::EN_TS_TIMEOUT, "tick");
      else MC_CHECK(w[i].p->get_status() == (i % 3 == 2 ? cotask::EN_TS_CREATED : cotask::EN_TS_WAITING), "fired", "task %d of %d with deadline %d has status %d at %d", i, n, to[i] ? 100 + to[i] : 0, w[i].p->get_status(), now);
      left += !out, due += !out && to[i];
    }
    MC_CHECK((int)tm->get_task_size() == left && (int)tm->get_tick_checkpoint_size() == due, "size", "at %d the manager has %d tasks and %d deadlines, expected %d and %d", now,
             (int)tm->get_task_size(), (int)tm->get_tick_checkpoint_size(), left, due);
  }
  goal(due ? 0 : 1);
  delete tm;
  finish();
}
// one task and those which follow it
static void followers() {
  clock_now = 0;
  n = count() + 1;
  make(0);
  enum { NO, CREATED, WAITING, ENDED, FORGOTTEN, THROWS };
  int kind[MAXW], throwers = 0;
  bool started = choose(2, "started") == 1;
  if (started) w[0].p->start();
  for (int i = 1; i < n; ++i) {
    make(i);
    kind[i] = kind_of(i - 1, 6, "follower");
    w[i].throws = kind[i] == THROWS;
    if (kind[i] == WAITING || kind[i] == THROWS) w[i].p->start();
    if (kind[i] == ENDED) w[i].p->start(), w[i].p->resume();
    if (kind[i] == NO) continue;
    MC_CHECK(w[0].p->next(w[i].own, reinterpret_cast<void *>(static_cast<intptr_t>(100 + i))).get() == w[i].p, "result", "next of follower %d does not return it", i);
    if (kind[i] == FORGOTTEN) w[i].own.reset();
    throwers += w[i].throws;
    if (w[0].ended) fail("early", "the first task has ended");
  }
  step();
  int how = choose(3, "end"), caught = 0, before = clock_now;
  for (int i = 0; i < n; ++i) w[i].order = 0;
  try {
    if (how == 0) {
      if (!started) w[0].p->start();
      w[0].order = 0, before = clock_now;
      w[0].p->resume();
    } else if (how == 1) w[0].p->kill(cotask::EN_TS_KILLED);
    else w[0].p->cancel();
  } catch (Thrown &t) {
    ++caught;
    MC_CHECK(t.i > 0 && t.i < n && w[t.i].throws, "exceptions", "exception of task %d", t.i);
  }
  MC_CHECK(caught == (throwers > 0), "exceptions", "%d followers throw, %d exceptions arrived", throwers, caught);
  done(0, how == 0 ? cotask::EN_TS_DONE : how == 1 ? cotask::EN_TS_KILLED : cotask::EN_TS_CANCELED, "end");
  int last = before;
  for (int i = 1; i < n; ++i) {
    W &x = w[i];
    if (kind[i] == NO) {
      MC_CHECK(!x.entered, "unexpected-run", "task %d, which follows nobody, ran", i);
      continue;
    }
    if (kind[i] == ENDED) continue;
    MC_CHECK(x.entered == 1, "lost-follower", "follower %d of %d was entered %d times", i, n - 1, x.entered);
    if (kind[i] == WAITING || kind[i] == THROWS) done(i, cotask::EN_TS_DONE, "follower");
    if (kind[i] == CREATED) MC_CHECK(x.p->get_status() == cotask::EN_TS_WAITING, "status", "follower %d has status %d", i, x.p->get_status());
    if (kind[i] == FORGOTTEN) MC_CHECK(x.ended == 1 && !x.alive, "left", "follower %d, to which nobody else referred, exists %d", i, x.alive);
    else MC_CHECK(x.data == 100 + i, "data", "follower %d got %d", i, (int)x.data);
    MC_CHECK(x.order > last, "order", "follower %d ran before an earlier one", i);
    last = x.order;
  }
  goal(how);
  finish();
}
}  // namespace wide
