// C13: several threads use the same manager of stackful tasks.
#include <mc.h>
#include <libcotask/task.h>
#include <libcotask/task_manager.h>
#include <exception>
#include <list>
using namespace mc;
using namespace copp;
using task_t = cotask::task<>;
using ptr_t = task_t::ptr_type;
using mgr_t = cotask::task_manager<task_t>;

enum Kind { ADD, ADDT, REMOVE, START, RESUME, CANCEL, KILL, DRUN, DKILL, SETT, CLRT, FIND, TICK1, TICK2, RESET, NKIND };
static const char *const NAME[] = {"add", "add with a timeout", "remove", "start", "resume", "cancel", "kill", "run the task itself", "kill the task itself", "set timeout", "clear timeout", "find", "tick 10", "tick 12", "reset"};
#define BIT(k) (1 << (k))
enum { MAXT = 3, MAGIC = 0x5A17 };
struct T {
  task_t *p;
  uint64_t id;
  int inside, seg, fin, alive, destroyed;
  bool ended, timeless;
  int adds, takes, ends, end_status;
  int timed, cleared;
};
struct Op {
  Kind k;
  int i;
};
struct Sh {
  T t[MAXT];
  Op prog[4][4];
  int ticks, resets;
};
static Sh *sh;
static mgr_t *M;

struct Act : cotask::impl::task_action_impl {
  int i, yields;
  int magic;
  bool real;
  Act(int k, int y) : i(k), yields(y), magic(MAGIC), real(false) {}
  Act(Act &&o) : i(o.i), yields(o.yields), magic(MAGIC), real(true) { sh->t[i].alive++; }
  ~Act() {
    MC_CHECK(magic == MAGIC, "action-destroyed-twice", "the action of task %d is destroyed twice", i);
    magic = 0;
    if (!real) return;
    T &t = sh->t[i];
    MC_CHECK(t.ended || !t.seg, "destroyed-early", "the action of task %d is destroyed before its body has ended", i);
    t.alive--, t.destroyed++;
  }
  void enter() {
    T &t = sh->t[i];
    MC_CHECK(t.inside == 0, "exclusion", "the body of task %d is entered while it is running on another thread", i);
    MC_CHECK(!t.ended && t.alive == 1, "restarted", "the body of task %d is entered after its end", i);
    t.inside = tid() + 1;
    t.seg++;
    log("task %d: segment %d", i, t.seg);
  }
  void leave() {
    T &t = sh->t[i];
    MC_CHECK(t.inside == tid() + 1, "exclusion", "the body of task %d has moved to another thread", i);
    t.inside = 0;
  }
  int operator()(void *) override {
    enter();
    for (int k = 0; k < yields; ++k) {
      sched();
      leave();
      sh->t[i].p->yield();
      enter();
    }
    sched();
    leave();
    sh->t[i].ended = true;
    log("task %d: end", i);
    return 7;
  }
  int on_finished(cotask::impl::task_impl &x) override {
    T &t = sh->t[i];
    MC_CHECK(&x == t.p && t.ended && x.is_exiting() && magic == MAGIC, "on-finished", "on_finished of task %d before its end", i);
    MC_CHECK(++t.fin == 1, "on-finished-twice", "on_finished of task %d called again", i);
    return 0;
  }
};
static void end_by(T &t, int s) {
  MC_CHECK(++t.ends == 1, "ended-twice", "task %d was cancelled or killed twice", (int)(&t - sh->t));
  t.end_status = s;
}
static void run_op(Op o) {
  T &t = sh->t[o.i];
  log("%s %d", NAME[o.k], o.i);
  int r = 0;
  auto codes = [&](std::initializer_list<int> l) {
    for (int c : l)
      if (c == r) return;
    fail("code", "%s of task %d returned %d", NAME[o.k], o.i, r);
  };
  switch (o.k) {
    case ADD:
    case ADDT:
      r = o.k == ADD ? M->add_task(ptr_t(t.p)) : M->add_task(ptr_t(t.p), 1, 0);
      codes({0, COPP_EC_ALREADY_EXIST, COPP_EC_TASK_IS_EXITING, COPP_EC_TASK_ALREADY_IN_ANOTHER_MANAGER, COPP_EC_IN_RESET});
      if (r == 0) {
        ++t.adds;
        ++(o.k == ADD ? t.cleared : t.timed);
      }
      break;
    case REMOVE:
      r = M->remove_task(t.id);
      codes({0, COPP_EC_NOT_FOUND, COPP_EC_ALREADY_FINISHED, COPP_EC_IN_RESET});
      if (r != COPP_EC_NOT_FOUND && r != COPP_EC_IN_RESET) ++t.takes;
      break;
    case START:
    case RESUME:
      r = o.k == START ? M->start(t.id) : M->resume(t.id);
      codes({0, COPP_EC_NOT_FOUND, COPP_EC_IS_RUNNING, COPP_EC_ALREADY_FINISHED, COPP_EC_IN_RESET});
      break;
    case CANCEL:
      r = M->cancel(t.id);
      codes({0, COPP_EC_NOT_FOUND, COPP_EC_IS_RUNNING, COPP_EC_ALREADY_FINISHED, COPP_EC_IN_RESET});
      if (r == 0) end_by(t, cotask::EN_TS_CANCELED);
      break;
    case KILL:
      r = M->kill(t.id, cotask::EN_TS_KILLED);
      codes({0, COPP_EC_NOT_FOUND, COPP_EC_ALREADY_FINISHED, COPP_EC_IN_RESET});
      if (r == 0) end_by(t, cotask::EN_TS_KILLED);
      if (r == 0 || r == COPP_EC_ALREADY_FINISHED) ++t.takes;
      break;
    case DRUN:
      r = t.p->get_status() == cotask::EN_TS_CREATED ? t.p->start() : t.p->resume();
      codes({0, COPP_EC_IS_RUNNING, COPP_EC_ALREADY_FINISHED});
      break;
    case DKILL:
      r = t.p->kill(cotask::EN_TS_KILLED);
      codes({0, COPP_EC_ALREADY_FINISHED});
      if (r == 0) end_by(t, cotask::EN_TS_KILLED);
      break;
    case SETT:
    case CLRT:
      r = M->set_timeout(t.id, o.k == SETT, 0);
      codes({0, COPP_EC_NOT_FOUND, COPP_EC_IN_RESET});
      if (r == 0) ++(o.k == SETT ? t.timed : t.cleared);
      break;
    case FIND: {
      ptr_t f = M->find_task(t.id);
      MC_CHECK(!f || f.get() == t.p, "find", "found the wrong task");
      break;
    }
    case TICK1:
    case TICK2:
      ++sh->ticks;
      r = M->tick(o.k == TICK1 ? 10 : 12, 0);
      codes({0, COPP_EC_IN_RESET});
      break;
    default:
      ++sh->resets;
      M->reset();
  }
  step();
  log("%s %d -> %d", NAME[o.k], o.i, r);
  if (r == 0 && o.k <= KILL) goal(o.k);
}
static int per_task(int k) { return k < TICK1; }
static void check_end(int nt, bool probe) {
  size_t n = 0, timed = 0;
  auto &cp = M->get_checkpoints();
  for (int i = 0; i < nt; ++i) {
    T &t = sh->t[i];
    ptr_t f = M->find_task(t.id);
    bool in = (bool)f;
    n += in;
    int c = 0;
    for (auto &x : cp)
      if (x.task_id == t.id) {
        ++c;
        long s = (long)x.expired_time.tv_sec;
        MC_CHECK(x.expired_time.tv_nsec == 0 && (s == 1 || s == 6 || s == 11 || s == 13), "deadline", "the deadline of task %d is %ld.%09d", i, s, x.expired_time.tv_nsec);
      }
    timed += c;
    MC_CHECK(c <= (in ? 1 : 0), "deadlines", "task %d has %d deadlines, contained %d", i, c, in);
    if (in && t.adds == 1) {
      if (!t.cleared && t.timed) MC_CHECK(c == 1, "deadline-lost", "the timeout of task %d is lost", i);
      if (!t.timed) MC_CHECK(c == 0, "deadline-made-up", "task %d has a deadline", i);
    }
    int s = t.p->get_status();
    if (s < cotask::EN_TS_DONE) {
      MC_CHECK(in == (t.adds - t.takes == 1), "contents", "task %d is %scontained, added %d times, taken out %d times", i, in ? "" : "not ", t.adds, t.takes);
      MC_CHECK(!t.ended && !t.fin && t.inside == 0, "unfinished", "task %d has status %d and has ended", i, s);
    } else {
      MC_CHECK(!in, "contents", "ended task %d (status %d) is still contained", i, s);
      MC_CHECK(t.ended && t.fin == 1, "unfinished", "task %d has status %d, ended %d, on_finished %d", i, s, t.ended, t.fin);
    }
    if (t.ends) MC_CHECK(s == t.end_status, "final-status", "task %d has status %d, it should be %d", i, s, t.end_status);
    if (s == cotask::EN_TS_TIMEOUT) {
      MC_CHECK(sh->ticks && t.timed, "timed-out-early", "task %d has timed out", i);
      goal(NKIND);
    }
    if (probe) {  // add it again
      int r = M->add_task(ptr_t(t.p));
      int want = in ? COPP_EC_ALREADY_EXIST : s >= cotask::EN_TS_DONE ? COPP_EC_TASK_IS_EXITING : 0;
      MC_CHECK(r == want, "add-again", "adding task %d (status %d, contained %d) at the end returned %d", i, s, in, r);
      if (r == 0) ++n;
    }
  }
  MC_CHECK(M->get_task_size() == n, "size", "the manager contains %zu tasks, it should be %zu", M->get_task_size(), n);
  MC_CHECK(M->get_tick_checkpoint_size() == timed, "timers", "the manager has %zu deadlines, it should be %zu", M->get_tick_checkpoint_size(), timed);
}
static ptr_t make(int i, int yields) {
  ptr_t p = task_t::create_with_delegate<Act>(Act(i, yields), *[] { static task_t::coroutine_type::allocator_type a; return &a; }(), 16 * 1024, 32);
  MC_CHECK(p, "create", "task creation failed");
  sh->t[i].p = p.get(), sh->t[i].id = p->get_id();
  return p;
}
// param: 0 threads, 1 tasks, 2 operations, 3 initial states: 1 absent, 2 added, 4 added with a timeout, 8 started, 16 not started, 4 ticked before
static void world() {
  sh = shared<Sh>();
  int n = param(0), nt = param(1), len = depth(), init = param(3);
  {
    mgr_t mgr;
    M = &mgr;
    ptr_t own[MAXT];
    if (param(4) > 1 ? choose(2, "ticked before") : param(4)) mgr.tick(5, 0);
    for (int i = 0; i < nt; ++i) {
      own[i] = make(i, 1);
      T &t = sh->t[i];
      int m[3], k = 0, r = 0;
      for (int j = 0; j < 3; ++j)
        if (init >> j & 1) m[k++] = j;
      int a = m[choose(k, "added before")];
      if (a == 1) ++t.adds, ++t.cleared, r = mgr.add_task(own[i]);
      if (a == 2) ++t.adds, ++t.timed, r = mgr.add_task(own[i], 1, 0);
      MC_CHECK(r == 0, "add", "adding task %d returned %d", i, r);
      if ((init & 24) == 24 ? choose(2, "started before") : init & 8) own[i]->start();
    }
    Op all[NKIND * MAXT];
    int na = 0;
    for (int k = 0; k < NKIND; ++k)
      if (param(2) >> k & 1)
        for (int i = 0; i < (per_task(k) ? nt : 1); ++i) all[na++] = {(Kind)k, i};
    long last = -1;
    for (int t = 1; t <= n; ++t) {
      long code = 0;
      for (int k = 0; k < len; ++k) {
        int c = choose(na, "program");
        sh->prog[t][k] = all[c];
        code = code * na + c;
      }
      if (code < last) prune();
      last = code;
    }
    for (int t = 1; t <= n; ++t)
      spawn([t, len] {
        for (int k = 0; k < len; ++k) run_op(sh->prog[t][k]);
      });
    run_threads();
    M->find_task(0);
    check_end(nt, false);
    uint64_t h = 0;
    for (int i = 0; i < nt; ++i) h = h * 16 + sh->t[i].p->get_status() + 8 * (bool)M->find_task(sh->t[i].id);
    state(h);
    if (!sh->resets && !sh->ticks) check_end(nt, true);
    // still ticks
    MC_CHECK(mgr.tick(100, 0) == 0 && mgr.tick(200, 0) == 0, "stuck", "ticks fail at the end");
    auto tm = mgr.get_last_tick_time();
    MC_CHECK(tm.tv_sec == 200, "stuck", "ticks are ignored at the end");
    MC_CHECK(mgr.get_tick_checkpoint_size() == 0, "stuck", "timeouts do not fire at the end");
    mgr.reset();
    MC_CHECK(mgr.get_task_size() == 0, "reset", "tasks left after the reset");
    for (int i = 0; i < nt; ++i) {
      T &t = sh->t[i];
      MC_CHECK(t.p->use_count() == 1, "use-count", "use count of task %d is %zu", i, t.p->use_count());
      own[i].reset();
      MC_CHECK(t.destroyed == 1 && !t.alive && (t.ended || !t.seg), "never-destroyed", "task %d was not destroyed", i);
    }
    ptr_t fresh = make(nt, 0);
    MC_CHECK(mgr.add_task(fresh, 1, 0) == 0, "stuck", "a new task is refused at the end");
    MC_CHECK(mgr.tick(300, 0) == 0 && mgr.tick(302, 0) == 0 && fresh->is_timeout(), "stuck", "a new task does not time out");
    MC_CHECK(mgr.get_task_size() == 0, "stuck", "a timed out task is still contained");
  }
  check_no_leak("leak");
}
#define ALLOPS ((1 << NKIND) - 1)
#define NORESET (ALLOPS & ~(1 << RESET))
#define G {"added", "added with a timeout", "removed", "started", "resumed", "cancelled", "killed", "-", "-", "-", "-", "-", "-", "-", "-", "timed out"}
static const Scenario LIST[] = {
    {"pair", world, 1, 1, 3, 4, true, "2 threads, 1 task, any operation each", {2, 1, ALLOPS, 31, 2}, G},
    {"triple", world, 1, 1, 1, 2, true, "3 threads, 1 task, any operation each", {3, 1, ALLOPS, 31, 2}, G},
    {"run", world, 2, 2, 2, 3, true, "2 threads, 1 task, 2 operations each: run and end it", {2, 1, BIT(ADDT) | BIT(REMOVE) | BIT(START) | BIT(RESUME) | BIT(CANCEL) | BIT(KILL) | BIT(DRUN), 1 | 2 | 8 | 16, 1}, {"-", "added with a timeout", "removed", "started", "resumed", "cancelled", "killed"}},
    {"time", world, 2, 2, 1, 3, true, "2 threads, 1 task, 2 operations each: timeouts", {2, 1, BIT(ADDT) | BIT(REMOVE) | BIT(SETT) | BIT(CLRT) | BIT(TICK1) | BIT(TICK2) | BIT(DKILL) | BIT(RESET), 1 | 4 | 16, 2}, {"-", "added with a timeout", "removed", "-", "-", "-", "-", "-", "-", "-", "-", "-", "-", "-", "-", "timed out"}},
    {"tasks", world, 1, 1, 2, 3, true, "2 threads, 2 tasks, any operation each", {2, 2, ALLOPS, 7 | 8, 2}, G},
};
MC_MAIN(LIST)
