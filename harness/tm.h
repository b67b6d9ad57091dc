// Task managers of stackful tasks: every sequence of operations on managers and tasks, from outside and from inside the
// bodies of the tasks, against a model.  Shared by the checks of the task table (C10) and of the timeouts (C11).
#pragma once
#include <mc.h>
#include <exception>
#include <list>
#include <libcotask/task.h>
#include <libcotask/task_manager.h>
#include <libcotask/this_task.h>
using namespace mc;
using namespace copp;
using cotask::EN_TASK_STATUS;
using task_t = cotask::task<>;
using ptr_t = task_t::ptr_type;
using tm_t = cotask::task_manager<task_t>;

enum { MAXK = 3, MAXM = 2, BIL = 1000000000 };
struct Time {
  int64_t s;
  int64_t n;
};
static Time norm(Time a) {
  a.s += a.n / BIL;
  a.n %= BIL;
  return a;
}
static Time operator+(Time a, Time b) { return norm({a.s + b.s, a.n + b.n}); }
static bool operator<(Time a, Time b) { return a.s != b.s ? a.s < b.s : a.n < b.n; }
static bool operator<=(Time a, Time b) { return !(b < a); }

struct TM {
  ptr_t own;
  task_t *p;
  uint64_t id;
  bool alive;  // action object exists
  int st;      // model of the status
  bool entered, co_done, draining;
  int fin;
  intptr_t data, killdata;
  int mgr;            // manager which contains it
  bool timed;         // with a deadline in [lo, hi]
  Time lo, hi;
  bool fire, may_fire;  // the tick in progress has to / may end it
  int resetting;        // 1 + manager whose reset in progress has to end it
  int on_stack;
  int closing;    // the call this deep ended its body and is still telling others
  int following;  // the call this deep started or resumed it because its predecessor ended
};
struct MM {
  tm_t *tm;
  Time last;
  int busy, in_tick, in_reset;
  Time now;  // of the tick in progress
};
static TM T[MAXK];
static MM M[MAXM];
static int K, NM, ops_left, ids;
static unsigned mask;
static int dep;            // calls in progress
static bool chain, chained;  // task 1 follows task 0; has not been told yet

enum Kind { ADD, ADDT, SETT, REMOVE, REMOVEX, START, CANCEL, KILL, TICK, RESET, DESTROY, DSTART, DKILL, DCANCEL, DROP, YIELD, RETURN, THROW };
static const char *const NAME[] = {"add", "add with timeout", "set timeout", "remove", "remove another", "start/resume", "cancel", "kill", "tick", "reset", "destroy",
                                   "task start/resume", "task kill", "task cancel", "drop", "yield", "return", "throw"};
#define BIT(k) (1u << (k))
static const Time *TMO;
static int NTMO;
static const Time *TICKS;
static int NTICKS;

struct Ex {
  int id;
};
static int raised[64][8], nraised[64];  // exceptions which left bodies that the call this deep ran
static int destroying;

static bool one_op(int a);
static void settle(int j);
static void follow() {  // task 0 ends: task 1 is started or resumed
  if (!chained) return;
  chained = false;
  TM &f = T[1];
  settle(1);
  if (f.st == cotask::EN_TS_CREATED || f.st == cotask::EN_TS_WAITING) f.st = cotask::EN_TS_RUNNING, f.data = 0, f.following = dep, goal(16);
}

static int body(int i, void *data) {
  TM &t = T[i];
  MC_CHECK(!t.entered, "restarted", "the body of task %d is entered a second time", i);
  settle(i);
  t.entered = true;
  MC_CHECK(t.st != cotask::EN_TS_CREATED && t.st != cotask::EN_TS_WAITING, "unexpected-run", "task %d is started by nobody", i);
  MC_CHECK(data == reinterpret_cast<void *>(t.data), "data", "task %d started with data %p, expected %p", i, data, reinterpret_cast<void *>(t.data));
  t.on_stack++;
  int ex = 0;
  try {
    while (one_op(i)) {
    }
  } catch (Ex &e) {
    ex = e.id;
    MC_CHECK(dep < 64 && nraised[dep] < 8, "harness", "too many exceptions");
    raised[dep][nraised[dep]++] = ex;
  }
  t.on_stack--;
  t.co_done = true;
  t.closing = dep;
  if (t.st == cotask::EN_TS_RUNNING) t.st = cotask::EN_TS_DONE;
  if (i == 0) follow();
  if (ex) throw Ex{ex};
  return 0;
}
struct Act : cotask::impl::task_action_impl {
  int i;
  bool real;
  explicit Act(int k) : i(k), real(false) {}
  Act(Act &&o) : i(o.i), real(true) { T[i].alive = true; }
  ~Act() {
    if (!real) return;
    MC_CHECK(T[i].alive, "destroyed-twice", "the action of task %d is destroyed twice", i);
    MC_CHECK(T[i].co_done || !T[i].entered, "destroyed-early", "task %d is destroyed while its body is suspended", i);
    T[i].alive = false;
  }
  int operator()(void *d) override { return body(i, d); }
  int on_finished(cotask::impl::task_impl &t) override {
    MC_CHECK(&t == T[i].p && T[i].alive, "on-finished", "on_finished got another task");
    MC_CHECK(T[i].co_done, "on-finished-early", "on_finished of task %d before its body has ended", i);
    MC_CHECK(T[i].fin == 0, "on-finished-twice", "on_finished of task %d called again", i);
    T[i].fin = 1;
    return 0;
  }
};

static bool loose(const TM &t) { return t.mgr >= 0 && t.st >= cotask::EN_TS_DONE && (!t.co_done || t.closing); }
static void ended(TM &t) {  // no manager has to do anything with it any more
  t.fire = t.may_fire = false;
}
static void gone(TM &t) {
  t.mgr = -1;
  t.timed = false;
  ended(t);
}
// the task may have been ended by a tick or reset in progress, whose order is not specified
static void settle(int j) {
  TM &t = T[j];
  if (!t.alive) return;
  int real = t.p->get_status();
  if (real == t.st || t.st >= cotask::EN_TS_DONE) return;
  if (real == cotask::EN_TS_TIMEOUT && (t.fire || t.may_fire)) {
    gone(t);
  } else if (real == cotask::EN_TS_KILLED && t.resetting) {
    t.resetting = 0;
  } else if (real == cotask::EN_TS_TIMEOUT && t.following && !t.own && t.mgr < 0) {  // only the list of followers referred to it
  } else {
    return;
  }
  if (t.st == cotask::EN_TS_RUNNING) {
    t.killdata = 0;
  } else {
    t.draining = true;
    t.data = 0;
  }
  t.st = real;
}

static void check_world(int a, const char *op) {
  uint64_t h = a + 1;
  for (int i = 0; i < K; ++i) settle(i);
  for (int i = 0; i < K; ++i) {
    TM &t = T[i];
    if (t.mgr >= 0 && t.co_done && t.fin && !t.closing) gone(t);
    bool held = t.own || t.mgr >= 0 || t.on_stack || t.resetting || (i == 1 && chained);
    if (!held && a < 0) {
      MC_CHECK(!t.alive, "task-leak", "after %s: task %d is referred to by nobody and still exists", op, i);
      MC_CHECK(t.fin == t.entered && t.co_done == t.entered, "on-finished-missing", "after %s: task %d is gone, body entered %d, on_finished called %d times", op, i, t.entered, t.fin);
    }
    if (t.own || (t.mgr >= 0 && !loose(t))) MC_CHECK(t.alive, "destroyed-early", "after %s: task %d was destroyed", op, i);
    h = hash_mix(h, (t.mgr + 1) * 64 + t.st * 8 + t.co_done * 4 + t.timed * 2 + !!t.own);
    if (!t.alive) continue;
    MC_CHECK(t.p->get_status() == t.st, "status", "after %s: task %d has status %d, expected %d", op, i, t.p->get_status(), t.st);
    if (!t.on_stack && t.st >= cotask::EN_TS_DONE && a < 0)
      MC_CHECK(t.fin == 1 && t.co_done, "on-finished-missing", "after %s: task %d ended, on_finished called %d times, body ended %d", op, i, t.fin, t.co_done);
  }
  for (int m = 0; m < NM; ++m) {
    MM &g = M[m];
    if (!g.tm || g.in_reset) continue;
    size_t n = 0, x = 0, timed = 0;
    for (int i = 0; i < K; ++i) {
      TM &t = T[i];
      if (t.mgr == m) {
        n++, timed += t.timed;
        if (loose(t)) x++;
      }
      ptr_t f = g.tm->find_task(t.id);
      if (t.mgr == m && loose(t)) {
        if (f) MC_CHECK(f.get() == t.p, "find", "after %s: manager %d finds something else for task %d", op, m, i);
      } else {
        MC_CHECK(f.get() == (t.mgr == m ? t.p : nullptr), "table", "after %s: manager %d %s task %d (status %d)", op, m,
                 f ? "still contains" : "lost", i, t.st);
      }
    }
    MC_CHECK(g.tm->get_task_size() <= n && g.tm->get_task_size() + x >= n, "table-size", "after %s: manager %d counts %zu tasks, expected %zu", op, m, g.tm->get_task_size(), n);
    MC_CHECK(g.tm->get_tick_checkpoint_size() <= timed && g.tm->get_tick_checkpoint_size() + x >= timed, "timer-count",
             "after %s: manager %d has %zu deadlines, expected %zu", op, m, g.tm->get_tick_checkpoint_size(), timed);
  }
  state(h);
}

static void set_deadline(TM &t, MM &g, Time tmo) {
  t.fire = t.may_fire = false;
  t.timed = !(tmo.s <= 0 && tmo.n <= 0);
  if (!t.timed) return;
  t.lo = t.hi = g.last + tmo;
  if (g.in_tick) {  // the last tick is the one in progress, or the one before
    Time other = g.now + tmo;
    if (other < t.lo) t.lo = other;
    if (t.hi < other) t.hi = other;
    if (t.lo < g.now) t.may_fire = true;
  }
}

// after a call which ran task j
static void after_run(TM &t, int j, const char *op, bool to_end) {
  if (to_end || t.st >= cotask::EN_TS_DONE) {
    MC_CHECK(t.co_done && t.fin == 1, "drain", "%s of task %d returned: status %d, body ended %d, on_finished %d", op, j, t.st, t.co_done, t.fin);
  }
  if (t.co_done) {
    if (t.st == cotask::EN_TS_RUNNING) t.st = cotask::EN_TS_DONE;
    gone(t);
  } else if (t.st == cotask::EN_TS_RUNNING) {
    t.st = cotask::EN_TS_WAITING;
  }
}

static int begin_reset(int m) {
  int n = 0;
  for (int j = 0; j < K; ++j)
    if (T[j].mgr == m) {
      gone(T[j]);
      if (T[j].st < cotask::EN_TS_DONE) T[j].resetting = m + 1, ++n;
    }
  M[m].last = {0, 0};
  M[m].in_reset++;
  M[m].busy++;
  return n;
}
static void end_reset(int m, const char *op) {
  M[m].in_reset--;
  M[m].busy--;
  for (int j = 0; j < K; ++j) {
    settle(j);
    TM &t = T[j];
    if (t.resetting == m + 1) {
      // destroyed, or ended in another way before its turn
      if (!t.alive && t.co_done) t.st = cotask::EN_TS_KILLED;
      MC_CHECK(t.st >= cotask::EN_TS_DONE, "reset", "%s of manager %d left task %d with status %d", op, m, j, t.st);
      t.resetting = 0;
    }
  }
}

// a call ends: what it drove has ended or waits
static void finish() {
  for (int i = 0; i < K; ++i) {
    TM &t = T[i];
    settle(i);
    if (t.closing >= dep) {
      t.closing = 0;
      if (t.mgr >= 0) gone(t);
    }
    if (t.following >= dep) {
      t.following = 0;
      if (!t.co_done && t.st == cotask::EN_TS_RUNNING) t.st = cotask::EN_TS_WAITING;
    }
  }
}
struct Op {
  int kind, m, j, arg;
};

static void perform(int a, Op o) {
  TM &t = T[o.j < 0 ? 0 : o.j];
  MM &g = M[o.m < 0 ? 0 : o.m];
  int j = o.j, m = o.m;
  const char *name = NAME[o.kind];
  log("%d: %s m%d t%d arg %d", a, name, m, j, o.arg);
  int r = 0, want = 0;
  bool any = false;  // result not specified
  intptr_t d = 16 * ++ids;
  void *dv = reinterpret_cast<void *>(d);
  bool in = t.mgr == m && m >= 0;
  bool lo = in && loose(t);
  int before = t.st;
  bool can_run = before == cotask::EN_TS_CREATED || before == cotask::EN_TS_WAITING;
  if (m >= 0) g.busy++;
  dep++;
  nraised[dep] = 0;
  int got[8], ngot = 0;
  std::list<std::exception_ptr> eptrs;
  bool list = (o.kind == START || o.kind == CANCEL || o.kind == KILL) && o.arg;
  auto call = [&](auto f) -> int {
    try {
      return f();
    } catch (Ex &e) {
      got[ngot++] = e.id;
      any = true;
      return 0;
    }
  };
  switch (o.kind) {
    case ADD:
    case ADDT: {
      if (g.in_reset) want = COPP_EC_IN_RESET;
      else if (before >= cotask::EN_TS_DONE) want = COPP_EC_TASK_IS_EXITING, goal(0);
      else if (in) want = COPP_EC_ALREADY_EXIST, goal(1);
      else if (t.mgr >= 0) want = COPP_EC_TASK_ALREADY_IN_ANOTHER_MANAGER, goal(2);
      Time tmo = o.kind == ADD ? Time{0, 0} : TMO[o.arg];
      if (want == 0) {
        t.mgr = m;
        t.fire = t.may_fire = false;
        set_deadline(t, g, tmo);
      }
      r = o.kind == ADD ? g.tm->add_task(t.own) : g.tm->add_task(t.own, tmo.s, static_cast<int>(tmo.n));
      break;
    }
    case SETT: {
      Time tmo = TMO[o.arg];
      if (g.in_reset) want = COPP_EC_IN_RESET;
      else if (!in) want = COPP_EC_NOT_FOUND;
      any = lo;
      if (want == 0) set_deadline(t, g, tmo);
      r = g.tm->set_timeout(t.id, tmo.s, static_cast<int>(tmo.n));
      break;
    }
    case REMOVEX: {  // the id of one task together with another task
      want = g.in_reset ? COPP_EC_IN_RESET : COPP_EC_NOT_FOUND;
      r = g.tm->remove_task(t.id, T[(j + 1) % K].own);
      break;
    }
    case REMOVE: {
      want = g.in_reset ? COPP_EC_IN_RESET : in ? 0 : COPP_EC_NOT_FOUND;
      any = lo;
      bool run = false;
      if (want == 0) {
        gone(t);
        if (before == cotask::EN_TS_CREATED && !t.own && j == 0) follow();
        if (before == cotask::EN_TS_WAITING) t.st = cotask::EN_TS_KILLED, t.data = 0, t.draining = run = true, goal(3);
        if (before == cotask::EN_TS_RUNNING) t.st = cotask::EN_TS_KILLED, t.killdata = 0, goal(4);
      }
      r = call([&] { return o.arg ? g.tm->remove_task(t.id, t.own) : g.tm->remove_task(t.id); });
      if (run) after_run(t, j, name, true);
      break;
    }
    case START: {
      if (g.in_reset) want = COPP_EC_IN_RESET;
      else if (!in) want = COPP_EC_NOT_FOUND, goal(5);
      else want = can_run ? 0 : before == cotask::EN_TS_RUNNING ? COPP_EC_IS_RUNNING : COPP_EC_ALREADY_FINISHED;
      any = lo;
      bool run = want == 0;
      if (run) t.st = cotask::EN_TS_RUNNING, t.data = d;
      r = call([&] {
        if (list) return before == cotask::EN_TS_WAITING ? g.tm->resume(t.id, eptrs, dv) : g.tm->start(t.id, eptrs, dv);
        return before == cotask::EN_TS_WAITING ? g.tm->resume(t.id, dv) : g.tm->start(t.id, dv);
      });
      if (run) after_run(t, j, name, false);
      break;
    }
    case CANCEL: {
      if (g.in_reset) want = COPP_EC_IN_RESET;
      else if (!in) want = COPP_EC_NOT_FOUND;
      else if (before == cotask::EN_TS_RUNNING) want = COPP_EC_IS_RUNNING, goal(6);
      any = lo;
      bool run = want == 0 && can_run;
      if (run) t.st = cotask::EN_TS_CANCELED, t.data = d, t.draining = true, ended(t);
      r = call([&] { return list ? g.tm->cancel(t.id, eptrs, dv) : g.tm->cancel(t.id, dv); });
      if (run) after_run(t, j, name, true);
      break;
    }
    case KILL: {
      if (g.in_reset) want = COPP_EC_IN_RESET;
      else if (!in) want = COPP_EC_NOT_FOUND;
      any = lo;
      bool run = want == 0 && can_run;
      if (want == 0 && before < cotask::EN_TS_DONE) {
        if (run) t.data = d, t.draining = true;
        else t.killdata = d;
        t.st = cotask::EN_TS_KILLED;
        ended(t);
      }
      r = call([&] { return list ? g.tm->kill(t.id, eptrs, cotask::EN_TS_KILLED, dv) : g.tm->kill(t.id, dv); });
      if (run) after_run(t, j, name, true);
      break;
    }
    case TICK: {
      static const Time STEP[4] = {{0, 1}, {1, 1}, {0, 0}, {0, 999999999}};
      Time now = is_history() && g.last.s ? g.last + STEP[o.arg % 4] : TICKS[o.arg];
      if (now <= g.last || g.in_tick) {
        goal(7);
        r = call([&] { return g.tm->tick(now.s, static_cast<int>(now.n)); });
        any = g.in_reset;
      } else if (g.in_reset) {
        want = COPP_EC_IN_RESET;
        r = call([&] { return g.tm->tick(now.s, static_cast<int>(now.n)); });
      } else if (g.last.s == 0 && g.last.n == 0) {
        for (int i = 0; i < K; ++i)
          if (T[i].mgr == m && T[i].timed) T[i].lo = T[i].lo + now, T[i].hi = T[i].hi + now, goal(8);
        g.last = now;
        r = call([&] { return g.tm->tick(now.s, static_cast<int>(now.n)); });
      } else {
        for (int i = 0; i < K; ++i) {
          TM &x = T[i];
          if (x.mgr != m || !x.timed) continue;
          if (x.lo < now) x.may_fire = true;
          if (x.hi < now) x.fire = true, goal(x.st == cotask::EN_TS_CREATED ? 9 : x.st == cotask::EN_TS_RUNNING ? 10 : 11);
        }
        g.in_tick++;
        g.now = now;
        r = call([&] { return g.tm->tick(now.s, static_cast<int>(now.n)); });
        g.in_tick--;
        g.last = now;
        for (int i = 0; i < K; ++i) {
          settle(i);
          TM &x = T[i];
          if (x.fire && x.mgr == m) {
            if (!x.alive && x.co_done) {  // nobody else referred to it
              x.st = cotask::EN_TS_TIMEOUT;
              gone(x);
            }
            MC_CHECK(x.st >= cotask::EN_TS_DONE, "not-timed-out", "tick(%lld, %lld) left task %d (deadline %lld, %lld) with status %d", (long long)now.s, (long long)now.n, i,
                     (long long)x.hi.s, (long long)x.hi.n, x.st);
          }
          if (x.mgr == m && x.may_fire && x.alive && x.st >= cotask::EN_TS_DONE && !x.on_stack) gone(x);
          if (x.mgr == m) x.fire = x.may_fire = false;
        }
      }
      break;
    }
    case RESET:
      if (g.in_reset) {
        g.tm->reset();
        break;
      }
      if (begin_reset(m)) goal(12);
      call([&] {
        g.tm->reset();
        return 0;
      });
      end_reset(m, name);
      break;
    case DESTROY: {
      if (begin_reset(m)) goal(a < 0 ? 13 : 14);
      tm_t *x = g.tm;
      destroying++;
      delete x;
      destroying--;
      g.tm = nullptr;
      end_reset(m, name);
      break;
    }
    case DSTART: {
      want = can_run ? 0 : before == cotask::EN_TS_RUNNING ? COPP_EC_IS_RUNNING : COPP_EC_ALREADY_FINISHED;
      if (can_run) t.st = cotask::EN_TS_RUNNING, t.data = d;
      r = call([&] { return before == cotask::EN_TS_CREATED ? t.p->start(dv) : t.p->resume(dv); });
      if (can_run) after_run(t, j, name, false);
      break;
    }
    case DKILL:
    case DCANCEL: {
      bool c = o.kind == DCANCEL;
      want = before >= cotask::EN_TS_DONE ? COPP_EC_ALREADY_FINISHED : c && before == cotask::EN_TS_RUNNING ? COPP_EC_IS_RUNNING : 0;
      if (want == 0) {
        t.st = c ? cotask::EN_TS_CANCELED : cotask::EN_TS_KILLED;
        ended(t);
        if (can_run) t.data = d, t.draining = true;
        else t.killdata = d;
      }
      r = call([&] { return c ? t.p->cancel(dv) : t.p->kill(cotask::EN_TS_KILLED, dv); });
      if (want == 0 && can_run) after_run(t, j, name, true);
      break;
    }
    case DROP: {
      goal(15);
      ptr_t x = std::move(t.own);
      x.reset();
      break;
    }
  }
  finish();
  for (auto &e : eptrs) {
    try {
      std::rethrow_exception(e);
    } catch (Ex &x) {
      if (ngot < 8) got[ngot++] = x.id;
    }
  }
  int n = nraised[dep], want_n = list ? n : n > 0;
  MC_CHECK(ngot == want_n, "exceptions", "%s (manager %d, task %d) delivered %d exceptions, %d left the bodies it ran", name, m, j, ngot, n);
  for (int k = 0; k < ngot; ++k) {
    bool known = false;
    for (int x = 0; x < n; ++x) known |= raised[dep][x] == got[k];
    MC_CHECK(known, "exceptions", "%s (manager %d, task %d) delivered an exception of another call", name, m, j);
  }
  if (n) goal(list ? 17 : 18);
  if (n > 1) goal(19);
  dep--;
  if (m >= 0) g.busy--;
  if (m >= 0 && g.tm && g.in_reset && want) any = r != 0;  // more than one reason
  if (!any) MC_CHECK(r == want, "result", "%s (manager %d, task %d with status %d) returned %d, expected %d", name, m, j, before, r, want);
  check_world(a, name);
}

static bool one_op(int a) {
  for (int i = 0; i < K; ++i) settle(i);
  Op list[160];
  int n = 0;
  auto put = [&](int kind, int m, int j, int args = 1) {
    if (!(mask & BIT(kind))) return;
    for (int x = 0; x < args; ++x) list[n++] = {kind, m, j, x};
  };
  if (ops_left <= 0) {
    if (a < 0) return false;
    return false;
  }
  for (int m = 0; m < NM; ++m) {
    if (!M[m].tm) continue;
    for (int j = 0; j < K; ++j) {
      TM &t = T[j];
      if (t.resetting) continue;
      if (t.own) {
        put(ADD, m, j);
        put(ADDT, m, j, NTMO);
        if (K > 1 && T[(j + 1) % K].own) put(REMOVEX, m, j);
      }
      put(SETT, m, j, NTMO);
      put(REMOVE, m, j, t.own ? 2 : 1);
      int lists = mask & BIT(THROW) ? 2 : 1;
      put(START, m, j, lists);
      put(CANCEL, m, j, lists);
      put(KILL, m, j, lists);
    }
    put(TICK, m, -1, NTICKS);
    put(RESET, m, -1);
    if (!M[m].busy) put(DESTROY, m, -1);
  }
  for (int j = 0; j < K; ++j) {
    TM &t = T[j];
    if (t.resetting || !t.own) continue;
    put(DSTART, -1, j);
    put(DKILL, -1, j);
    put(DCANCEL, -1, j);
    if (a < 0 && t.mgr >= 0) put(DROP, -1, j);
  }
  if (a >= 0) {
    put(YIELD, -1, a);
    list[n++] = {RETURN, -1, a, 0};
    if (T[a].own && !destroying) put(THROW, -1, a);  // a destructor must not throw
  }
  if (n == 0) return false;
  --ops_left;
  Op o = list[choose(n, "op")];
  step();
  if (o.kind == RETURN) return false;
  if (o.kind == THROW) {
    log("%d: throw", a);
    throw Ex{1000 + ++ids};
  }
  if (o.kind == YIELD) {
    TM &t = T[a];
    log("%d: yield", a);
    if (t.st >= cotask::EN_TS_DONE && !t.draining) t.draining = true, t.data = t.killdata;
    t.on_stack--;
    void *out = &out;
    int r = t.p->yield(&out);
    t.on_stack++;
    settle(a);
    MC_CHECK(r == 0, "yield", "yield returned %d", r);
    MC_CHECK(t.st != cotask::EN_TS_CREATED && t.st != cotask::EN_TS_WAITING, "unexpected-run", "task %d is resumed by nobody", a);
    MC_CHECK(out == reinterpret_cast<void *>(t.data), "data", "task %d resumed with data %p, expected %p", a, out, reinterpret_cast<void *>(t.data));
    return true;
  }
  perform(a, o);
  return true;
}

static void world() {
  K = param(0);
  NM = param(1);
  mask = static_cast<unsigned>(param(2));
  ops_left = depth();
  chain = chained = param(3);
  dep = 0;
  destroying = 0;
  ids = 0;
  static task_t::coroutine_type::allocator_type alloc;
  for (int m = 0; m < NM; ++m) M[m] = MM(), M[m].tm = new tm_t();
  auto make = [](int i) {
    TM &t = T[i];
    t.mgr = -1;
    t.own = task_t::create_with_delegate<Act>(Act(i), alloc, 16 * 1024, 32);
    t.p = t.own.get();
    MC_CHECK(t.p && t.alive, "create", "task creation failed");
    t.st = cotask::EN_TS_CREATED;
    t.id = t.p->get_id();
  };
  for (int i = 0; i < K; ++i) make(i);
  if (chain) T[0].p->next(T[1].own);
  check_world(-1, "creation");
  history();
  int dead = 0;
  while (one_op(-1)) {
    if (!is_history()) continue;
    for (int i = 0; i < K; ++i) {  // after some time dead ones are replaced
      TM &t = T[i];
      if (t.alive && (t.mgr >= 0 || t.st < cotask::EN_TS_DONE || t.resetting || (t.own && ++dead % 4))) continue;
      t.own.reset();
      MC_CHECK(!t.alive, "drop", "an ended task %d was dropped and still exists", i);
      t = TM();
      make(i);
      goal(23);
    }
    for (int m = 0; m < NM; ++m)
      if (!M[m].tm && ++dead % 4 == 0) M[m] = MM(), M[m].tm = new tm_t();
  }
  ops_left = 0;
  for (int m = 0; m < NM; ++m) {
    if (!M[m].tm) continue;
    begin_reset(m);
    dep++;
    delete M[m].tm;
    M[m].tm = nullptr;
    finish();
    dep--;
    end_reset(m, "destruction");
    check_world(-1, "destruction");
  }
  for (int i = 0; i < K; ++i) {
    TM &t = T[i];
    if (t.own) {
      if (t.st == cotask::EN_TS_WAITING) t.st = cotask::EN_TS_TIMEOUT, t.data = 0, t.draining = true;
      if (t.st == cotask::EN_TS_CREATED && i == 0) follow();
      dep++;
      t.own.reset();
      finish();
      dep--;
    }
    MC_CHECK(!t.alive && t.fin == t.entered && t.co_done == t.entered, "drop", "task %d at the end: exists %d, entered %d, ended %d, on_finished %d", i, t.alive, t.entered,
             t.co_done, t.fin);
  }
  check_no_leak("leak");
}
