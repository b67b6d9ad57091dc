// C13: several threads use the same manager of C++20 tasks, each with tasks of its own.
#include <mc.h>
#include <libcotask/task_promise.h>
#include <libcotask/task_manager.h>
#include <coroutine>
#include <optional>
#include <utility>
using namespace mc;
using task = cotask::task_future<int, int>;
using mgr_t = cotask::task_manager<task>;
using ST = copp::promise_status;

enum Kind { ADD, ADDT, REMOVE, START, CANCEL, KILL, SETT, CLRT, FIND, RAW, TICK1, TICK2, RESET, NKIND };
static const char *const NAME[] = {"add", "add with a timeout", "remove", "start", "cancel", "kill", "set timeout", "clear timeout", "find", "let the body end", "tick 10", "tick 12", "reset"};
#define BIT(k) (1 << (k))
enum { MAXT = 4 };
struct T {
  uint64_t id;
  std::coroutine_handle<> raw;
  int segs, ends, alive;
  bool in, timed, started, ended;
};
struct Op {
  int k, i;
};
struct Sh {
  T t[MAXT];
  Op prog[4][4];
};
static Sh *sh;
static mgr_t *M;
static std::optional<task> *own;

struct Local {
  int i;
  explicit Local(int k) : i(k) { sh->t[i].alive++; }
  ~Local() { sh->t[i].alive--; }
};
struct Raw {
  int i;
  bool await_ready() { return false; }
  void await_suspend(std::coroutine_handle<> h) { sh->t[i].raw = h; }
  void await_resume() {}
};
static task body(int i) {
  Local l(i);
  sh->t[i].segs++;
  log("task %d: begins", i);
  co_await Raw{i};
  sh->t[i].ends++;
  log("task %d: ends", i);
  co_return 7;
}
static void run_op(Op o) {
  T &t = sh->t[o.i];
  log("%s %d", NAME[o.k], o.i);
  int r = 0, want = 0;
  if (param(4)) {  // others reset the manager meanwhile
    if (o.k == RESET) M->reset();
    if (o.k == FIND) M->find_task(t.id);
    if (o.k == SETT || o.k == CLRT) r = M->set_timeout(t.id, o.k == SETT ? 100 : 0, 0);
    if (o.k == TICK1 || o.k == TICK2) r = M->tick(o.k == TICK1 ? 10 : 12, 0);
    step();
    log("%s %d -> %d", NAME[o.k], o.i, r);
    MC_CHECK(r == 0 || r == copp::COPP_EC_IN_RESET || ((o.k == SETT || o.k == CLRT) && r == copp::COPP_EC_NOT_FOUND), "code", "%s of task %d returned %d", NAME[o.k], o.i, r);
    goal(o.k);
    return;
  }
  switch (o.k) {
    case ADD:
    case ADDT:
      want = t.in ? copp::COPP_EC_ALREADY_EXIST : 0;
      if (t.ended) want = copp::COPP_EC_TASK_IS_EXITING;
      r = o.k == ADD ? M->add_task(*own[o.i]) : M->add_task(*own[o.i], 100, 0);
      if (want == 0) t.in = true, t.timed = o.k == ADDT;
      break;
    case SETT:
    case CLRT:
      want = t.in ? 0 : copp::COPP_EC_NOT_FOUND;
      r = M->set_timeout(t.id, o.k == SETT ? 100 : 0, 0);
      if (t.in) t.timed = o.k == SETT;
      break;
    case START:
      want = t.in ? 0 : copp::COPP_EC_NOT_FOUND;
      r = M->start(t.id);
      if (t.in) t.started = true;
      break;
    case REMOVE:
    case CANCEL:
    case KILL:
      want = t.in ? 0 : copp::COPP_EC_NOT_FOUND;
      r = o.k == REMOVE ? M->remove_task(t.id) : o.k == CANCEL ? M->cancel(t.id) : M->kill(t.id);
      if (t.in && (o.k != REMOVE || t.started)) t.ended = true;
      t.in = t.timed = false;
      break;
    case RAW:
      if (!t.raw) break;
      std::exchange(t.raw, nullptr).resume();
      t.ended = true, t.in = t.timed = false;
      break;
    case FIND: {
      const task *f = M->find_task(t.id);
      MC_CHECK((f != nullptr) == t.in, "find", "task %d is %sfound", o.i, f ? "" : "not ");
      MC_CHECK(!f || f->get_context() == own[o.i]->get_context(), "find", "found the wrong task");
      break;
    }
    default:
      r = M->tick(o.k == TICK1 ? 10 : 12, 0);
  }
  step();
  log("%s %d -> %d", NAME[o.k], o.i, r);
  MC_CHECK(r == want, "code", "%s of task %d returned %d, it should be %d", NAME[o.k], o.i, r, want);
  MC_CHECK(own[o.i]->is_exiting() == t.ended, "ended", "task %d is %sended after %s", o.i, t.ended ? "not " : "", NAME[o.k]);
  MC_CHECK(t.segs == t.started && t.ends <= t.ended, "segments", "the body of task %d was begun %d times and ended %d times", o.i, t.segs, t.ends);
  if (r == 0) goal(o.k);
}
// param: 0 threads, 1 tasks per thread, 2 operations, 3 initial states: 1 absent, 2 added, 4 added with a timeout, 8 started, 16 not started
static void world() {
  sh = shared<Sh>();
  int n = param(0), per = param(1), len = depth(), init = param(3), nt = n * per;
  {
    mgr_t mgr;
    M = &mgr;
    std::optional<task> slots[MAXT];
    own = slots;
    bool before = choose(2, "ticked before");
    if (before) mgr.tick(5, 0);
    for (int i = 0; i < nt; ++i) {
      T &t = sh->t[i];
      own[i].emplace(body(i));
      t.id = own[i]->get_id();
      int m[3], k = 0, r = 0;
      for (int j = 0; j < 3; ++j)
        if (init >> j & 1) m[k++] = j;
      int a = m[choose(k, "added before")];
      if (a) r = a == 1 ? mgr.add_task(*own[i]) : mgr.add_task(*own[i], 100, 0), t.in = true, t.timed = a == 2;
      MC_CHECK(r == 0, "add", "adding task %d returned %d", i, r);
      if ((init & 24) == 24 ? choose(2, "started before") : init & 8) own[i]->start(), t.started = true;
    }
    long last = -1;
    for (int t = 1; t <= n; ++t) {
      long code = 0;
      for (int k = 0; k < len; ++k) {
        Op all[NKIND * MAXT];
        int na = 0;
        for (int q = 0; q < NKIND; ++q)
          if (param(2) >> q & 1)
            for (int i = 0; i < (q < TICK1 ? per : 1); ++i) all[na++] = {q, (t - 1) * per + i};
        int c = choose(na, "program");
        sh->prog[t][k] = all[c];
        code = code * na + c;
      }
      if (code < last) prune();
      last = code;
    }
    for (int t = 1; t <= n; ++t)
      spawn([t, len] {
        for (int k = 0; k < len; ++k) run_op(sh->prog[t][k]);
      });
    run_threads();
    if (param(4)) {
      bool reset = false;
      for (int t = 1; t <= n; ++t)
        for (int k = 0; k < len; ++k) reset |= sh->prog[t][k].k == RESET;
      if (!reset) prune();
      for (int i = 0; i < nt; ++i) {
        T &t = sh->t[i];
        if (t.in) t.ended = true;
        t.in = t.timed = false;
      }
    }
    size_t in = 0, timed = 0;
    uint64_t h = 0;
    for (int i = 0; i < nt; ++i) {
      T &t = sh->t[i];
      in += t.in, timed += t.timed;
      h = h * 16 + t.in + 2 * t.timed + 4 * t.started + 8 * t.ended;
      MC_CHECK((mgr.find_task(t.id) != nullptr) == t.in, "contents", "task %d is %scontained", i, t.in ? "not " : "");
      int c = 0;
      for (auto &x : mgr.get_checkpoints())
        if (x.task_id == t.id) {
          ++c;
          long s = (long)x.expired_time.tv_sec;
          MC_CHECK(x.expired_time.tv_nsec == 0 && (s == 100 || s == 105 || s == 110 || s == 112), "deadline", "the deadline of task %d is %ld.%09d", i, s, x.expired_time.tv_nsec);
        }
      MC_CHECK(c == t.timed, "deadlines", "task %d has %d deadlines", i, c);
    }
    state(h);
    MC_CHECK(mgr.get_task_size() == in && mgr.get_tick_checkpoint_size() == timed, "size", "%zu tasks and %zu deadlines, it should be %zu and %zu", mgr.get_task_size(), mgr.get_tick_checkpoint_size(), in, timed);
    if (param(4)) mgr.tick(90, 0);
    mgr.tick(100, 0);  // begins to count for those never ticked before
    auto tm = mgr.get_last_tick_time();
    MC_CHECK(tm.tv_sec == 100, "stuck", "ticks are ignored at the end");
    mgr.tick(300, 0);
    for (int i = 0; i < nt; ++i) {
      T &t = sh->t[i];
      if (t.timed) {
        MC_CHECK(own[i]->get_status() == ST::kTimeout, "timeout", "task %d has not timed out", i);
        --in, --timed, t.in = false, t.ended = true;
        goal(NKIND);
      }
      MC_CHECK(own[i]->is_exiting() == t.ended, "ended", "task %d is %sended", i, t.ended ? "not " : "");
    }
    MC_CHECK(mgr.get_task_size() == in && mgr.get_tick_checkpoint_size() == 0, "size", "%zu tasks and %zu deadlines after all timeouts", mgr.get_task_size(), mgr.get_tick_checkpoint_size());
    mgr.reset();
    MC_CHECK(mgr.get_task_size() == 0, "reset", "tasks left after the reset");
    for (int i = 0; i < nt; ++i) {
      own[i].reset();
      MC_CHECK(sh->t[i].alive == 0, "never-destroyed", "task %d was not destroyed", i);
    }
  }
  check_no_leak("leak");
}
#define ALLOPS ((1 << RESET) - 1)
#define G {"added", "added with a timeout", "removed", "started", "cancelled", "killed", "timeout set", "timeout cleared", "found", "body ended", "ticked", "ticked later", "-", "timed out"}
static const Scenario LIST[] = {
    {"pair20", world, 1, 1, 3, 4, true, "C++20: 2 threads with a task each, any operation", {2, 1, ALLOPS, 31}, G},
    {"two20", world, 2, 2, 1, 2, true, "C++20: 2 threads with a task each, any 2 operations", {2, 1, ALLOPS, 1 | 4 | 8 | 16}, G},
    {"triple20", world, 1, 1, 1, 2, true, "C++20: 3 threads with a task each, any operation", {3, 1, ALLOPS, 1 | 4 | 8}, G},
    {"reset20", world, 1, 1, 3, 4, true, "C++20: 2 threads, one of them resets the manager", {2, 1, BIT(FIND) | BIT(SETT) | BIT(CLRT) | BIT(TICK1) | BIT(TICK2) | BIT(RESET), 2 | 4 | 8 | 16, 1}, {"-", "-", "-", "-", "-", "-", "timeout set", "timeout cleared", "found", "-", "ticked", "ticked later", "reset"}},
};
MC_MAIN(LIST)
