// Task chains: next/then/await, sequentially against a model and concurrently.
#include <mc.h>
#include <libcotask/task.h>
#include <libcotask/this_task.h>
#include "wide.h"
using namespace mc;
using namespace copp;
using cotask::EN_TASK_STATUS;
using task_t = cotask::task<>;
using ptr_t = task_t::ptr_type;
enum { CREATED = cotask::EN_TS_CREATED, RUNNING = cotask::EN_TS_RUNNING, WAITING = cotask::EN_TS_WAITING, DONE = cotask::EN_TS_DONE };

enum { MAXK = 3, MAXE = 12 };
struct Entry {
  int f;
  intptr_t data;
};
struct TM {
  ptr_t own;
  task_t *p;
  int st;
  bool entered, co_done, draining, gone, forgotten, alive, dying, throws, fin_throws;
  int fin, runs, awaiting;
  intptr_t data, killdata;
  Entry next[MAXE];
  int nn;
};
static TM T[MAXK];
static int K, ops_left, ids;
static int stack_of[16], sp;

// tasks which have ended and whose followers the library is running now, innermost last
struct Frame {
  int x;
  Entry e[MAXE];
  int n, pos;
};
static Frame F[16];
static int nf, base;  // frames below base belong to calls further out

// calls into the library which are going on, innermost last, and what was thrown in each of them
struct Ex {
  int id;
};
static struct Call {
  bool no_throw;  // a destructor: nothing may be thrown through it
  int raised[8], n;
} calls[16];
static int nc;
static void raise_one() {
  Call &c = calls[nc - 1];
  MC_CHECK(c.n < 8, "harness", "exceptions");
  int id = 100 * nc + c.n;
  c.raised[c.n++] = id;
  throw Ex{id};
}

static bool one_op(int a);
static bool exiting(int j) { return T[j].st >= DONE || T[j].co_done; }
static bool invisible(int f) {  // resumed and goes back to waiting for its awaited task
  TM &t = T[f];
  return t.awaiting >= 0 && !exiting(t.awaiting) && t.st < DONE;
}
// passes over followers which cannot be run; true if one that runs visibly is next
static bool next_runnable() {
  Frame &f = F[nf - 1];
  for (; f.pos < f.n; ++f.pos) {
    TM &t = T[f.e[f.pos].f];
    if (t.gone) continue;
    if (t.st == CREATED) return true;
    if (t.st == WAITING && !invisible(f.e[f.pos].f)) return true;
  }
  return false;
}
static void pop_frames(int to, const char *why) {
  while (nf > to) {
    if (next_runnable())
      fail("lost-follower", "%s: task %d ended and its follower %d (status %d) was not run", why, F[nf - 1].x, F[nf - 1].e[F[nf - 1].pos].f,
           T[F[nf - 1].e[F[nf - 1].pos].f].st);
    --nf;
  }
}
static void push_frame(int x) {
  MC_CHECK(nf < 16, "harness", "frames");
  Frame &f = F[nf++];
  f.x = x;
  f.n = T[x].nn;
  f.pos = 0;
  for (int i = 0; i < f.n; ++i) f.e[i] = T[x].next[i];
  T[x].nn = 0;
}
// the body of f runs although no operation on f was called: it must be the follower which is due
static void activate(int f) {
  TM &t = T[f];
  MC_CHECK(t.st == CREATED || t.st == WAITING, "unexpected-run", "task %d runs with status %d", f, t.st);
  for (;;) {
    MC_CHECK(nf > base, "unexpected-run", "task %d was resumed by nobody", f);
    if (!next_runnable()) {
      --nf;
      continue;
    }
    Entry &e = F[nf - 1].e[F[nf - 1].pos++];
    MC_CHECK(e.f == f, "order", "task %d runs after the end of task %d, follower %d was due", f, F[nf - 1].x, e.f);
    t.st = RUNNING;
    t.data = e.data;
    goal(F[nf - 1].pos > 1 ? 1 : 0);
    return;
  }
}

static void check_world(int a, const char *op);
static int body(int i, void *data);
struct Act : cotask::impl::task_action_impl {
  int i;
  bool real;
  explicit Act(int k) : i(k), real(false) {}
  Act(Act &&o) : i(o.i), real(true) { T[i].alive = true; }
  ~Act() {
    if (real) T[i].alive = false;
  }
  int operator()(void *d) override { return body(i, d); }
  int on_finished(cotask::impl::task_impl &) override {
    TM &t = T[i];
    MC_CHECK(t.co_done && t.fin == 0, "on-finished", "on_finished of %d: body ended %d, calls %d", i, t.co_done, t.fin);
    t.fin = 1;
    if (t.st < DONE) t.st = DONE;
    push_frame(i);
    if (t.fin_throws && !calls[nc - 1].no_throw) raise_one();
    return 0;
  }
};
static void check_world(int a, const char *op) {
  MC_CHECK(cotask::this_task::get_task() == (a < 0 ? nullptr : T[a].p), "this-task", "after %s: wrong current task", op);
  uint64_t h = a + 1;
  for (int i = 0; i < K; ++i) {
    TM &t = T[i];
    if (t.gone) {
      MC_CHECK(!t.alive, "lifetime", "after %s: task %d is still alive", op, i);
      continue;
    }
    MC_CHECK(t.alive, "lifetime", "after %s: task %d was destroyed", op, i);
    MC_CHECK(t.p->get_status() == t.st, "status", "after %s: task %d has status %d, expected %d", op, i, t.p->get_status(), t.st);
    h = hash_mix(h, t.st * 8 + t.nn + t.awaiting * 64 + t.forgotten * 1024);
  }
  state(h);
}
static bool reaches(int from, int to) {
  if (from == to) return true;
  for (int i = 0; i < T[from].nn; ++i)
    if (reaches(T[from].next[i].f, to)) return true;
  return false;
}
static bool in_lists(int j) {
  for (int i = 0; i < K; ++i)
    for (int k = 0; k < T[i].nn; ++k)
      if (T[i].next[k].f == j) return true;
  for (int i = base; i < nf; ++i)
    for (int k = 0; k < F[i].n; ++k)
      if (F[i].e[k].f == j) return true;
  return false;
}
static bool referenced(int j) {
  for (int i = 0; i < nf; ++i)
    if (F[i].x == j) return true;  // an operation on it is going on: its caller keeps it
  if (in_lists(j)) return true;
  for (int i = 0; i < 16; ++i)
    if (i < nf)
      for (int k = 0; k < F[i].n; ++k)
        if (F[i].e[k].f == j) return true;
  for (int i = 0; i < K; ++i)
    if (T[i].awaiting == j) return true;
  for (int k = 0; k < sp; ++k)
    if (stack_of[k] == j) return true;
  return false;
}
// tasks without a handle disappear when nothing refers to them
static void collect() {
  for (int i = 0; i < K; ++i)
    if (T[i].forgotten && !T[i].gone && !referenced(i)) {
      MC_CHECK(T[i].co_done, "harness", "forgotten task %d has not ended", i);
      T[i].gone = true;
      goal(6);
    }
}
template <class C>
static bool drive(int j, C call) {  // false: the call has thrown
  int old = base, got = 0;
  base = nf;
  MC_CHECK(nc < 16, "harness", "calls");
  calls[nc].n = 0;
  calls[nc++].no_throw = false;
  try {
    call();
  } catch (Ex &e) {
    got = e.id;
  }
  Call &c = calls[--nc];
  bool known = got == 0 && c.n == 0;
  for (int i = 0; i < c.n; ++i) known |= got == c.raised[i];
  MC_CHECK(known, "exception", "%d exceptions left bodies during the call, it %s", c.n, got == 0 ? "threw none" : c.n ? "threw another one" : "threw one");
  if (c.n) goal(8);
  if (c.n > 1) goal(9);
  if (T[j].awaiting >= 0 && T[j].st == RUNNING) {
    bool wake = exiting(T[j].awaiting);
    MC_CHECK(!wake, "await", "task %d keeps waiting for task %d which is exiting", j, T[j].awaiting);
    T[j].st = WAITING;
  }
  pop_frames(base, "operation returned");
  base = old;
  collect();
  return got == 0;
}
static int run_op(int j, int what, intptr_t d) {
  TM &t = T[j];
  int r = 0;
  if (what == 0) {
    if (t.st == CREATED || t.st == WAITING) t.st = RUNNING, t.data = d;
    drive(j, [&] { r = t.p->resume(reinterpret_cast<void *>(d)); });
  } else {
    if (t.st == CREATED || t.st == WAITING) t.draining = true, t.data = d, t.st = what == 1 ? cotask::EN_TS_KILLED : cotask::EN_TS_CANCELED;
    else if (t.st == RUNNING && what == 1) t.killdata = d, t.st = cotask::EN_TS_KILLED;
    drive(j, [&] { r = what == 1 ? t.p->kill(reinterpret_cast<void *>(d)) : t.p->cancel(reinterpret_cast<void *>(d)); });
  }
  return r;
}

static bool one_op(int a) {
  // start/resume j, kill j, cancel j, attach j->k, drop j, forget j | yield, return, await j
  const int A = 3 * K, B = A + K * K, C = B + K, D = C + K;
  int op;
  if (ops_left <= 0) {
    if (a < 0) return false;
    op = D + 1;
    if (param(1) && !calls[nc - 1].no_throw && choose(2, "throw")) op = D + 2 + K;  // costs nothing
  } else {
    --ops_left;
    op = choose(a < 0 ? D : D + 2 + K + (param(1) ? 2 : 0), "op");
  }
  step();
  intptr_t d = 16 * ++ids;
  if (op < A) {
    int j = op % K, what = op / K;
    if (T[j].gone || T[j].forgotten) prune();
    log("%d: %s %d", a, what == 0 ? "resume" : what == 1 ? "kill" : "cancel", j);
    run_op(j, what, d);
    check_world(a, "operation");
  } else if (op < B) {
    int j = (op - A) / K, k = (op - A) % K;
    if (T[j].gone || T[j].forgotten || T[k].gone || T[k].forgotten || T[k].dying || T[j].nn >= MAXE) prune();
    log("%d: attach %d -> %d", a, j, k);
    ptr_t r;
    if (j == k) {
      r = T[j].p->next(ptr_t(T[k].p), nullptr);
      MC_CHECK(r.get() == T[j].p, "self", "attaching a task to itself returned another one");
      r.reset();
      r = T[j].p->next(ptr_t(), nullptr);
      MC_CHECK(r.get() == T[j].p, "self", "attaching nothing returned another task");
      goal(7);
    } else if (exiting(j)) {
      bool can = T[k].st == CREATED || T[k].st == WAITING;
      if (can) T[k].st = RUNNING, T[k].data = d, goal(2);
      bool back = drive(k, [&] { r = (ids & 1) ? T[j].p->next(ptr_t(T[k].p), reinterpret_cast<void *>(d)) : T[j].p->then(ptr_t(T[k].p), reinterpret_cast<void *>(d)); });
      if (back) MC_CHECK(r == ptr_t(T[k].p), "attach", "attach returned another task");
    } else {
      if (reaches(k, j)) prune();
      T[j].next[T[j].nn++] = {k, d};
      r = (ids & 1) ? T[j].p->next(ptr_t(T[k].p), reinterpret_cast<void *>(d)) : T[j].p->then(ptr_t(T[k].p), reinterpret_cast<void *>(d));
      MC_CHECK(r == ptr_t(T[k].p), "attach", "attach returned another task");
    }
    r.reset();
    check_world(a, "attach");
  } else if (op < C) {
    int j = op - B;
    if (T[j].gone || T[j].forgotten || referenced(j) || T[j].awaiting >= 0 || T[j].st == RUNNING) prune();
    log("%d: drop %d", a, j);
    TM &t = T[j];
    int old = base;
    base = nf;
    ptr_t x = std::move(t.own);
    if (t.st == CREATED) {
      if (t.nn) goal(3);
      push_frame(j);
      t.st = DONE;
      t.gone = true;
    } else if (t.st == WAITING)
      t.st = cotask::EN_TS_TIMEOUT, t.draining = true, t.data = 0, t.dying = true;
    calls[nc].n = 0;
    calls[nc++].no_throw = true;
    x.reset();
    --nc;
    t.gone = true;
    pop_frames(base, "last reference dropped");
    base = old;
    collect();
    check_world(a, "drop");
  } else if (op < D) {
    int j = op - C;
    // only for a follower which will be started, and then ends at once
    if (T[j].gone || T[j].forgotten || T[j].st != CREATED || !in_lists(j)) prune();
    bool held = false;
    for (int i = 0; i < K; ++i)
      for (int k = 0; k < T[i].nn; ++k) held |= T[i].next[k].f == j;
    if (!held) prune();
    log("%d: forget %d", a, j);
    T[j].forgotten = true;
    T[j].own.reset();
    check_world(a, "forget");
  } else if (op == D) {
    TM &t = T[a];
    if (t.forgotten) prune();
    log("%d: yield", a);
    if (t.st >= DONE) {
      if (!t.draining) t.draining = true, t.data = t.killdata;
    } else
      t.st = WAITING;
    --sp;
    void *out = nullptr;
    int r = t.p->yield(&out);
    stack_of[sp++] = a;
    if (t.st == WAITING) activate(a);
    MC_CHECK(r == 0 && out == reinterpret_cast<void *>(t.data), "data", "task %d resumed with %p, expected %p", a, out, reinterpret_cast<void *>(t.data));
    check_world(a, "yield");
  } else if (op == D + 1) {
    return false;
  } else if (op >= D + 2 + K) {
    TM &t = T[a];
    bool fin = op > D + 2 + K;
    if (calls[nc - 1].no_throw || (fin && t.fin_throws)) prune();
    log("%d: %s", a, fin ? "on_finished will throw" : "throw");
    if (fin) t.fin_throws = true;
    else t.throws = true;
    return fin;
  } else {
    TM &t = T[a];
    int j = op - D - 2;
    if (T[j].gone || T[j].forgotten || t.forgotten) prune();
    bool waits = false;
    int want = 0;
    if (j == a) want = COPP_EC_TASK_CAN_NOT_WAIT_SELF;
    else if (exiting(j) || t.st >= DONE) want = COPP_EC_TASK_IS_EXITING;
    else waits = true;
    log("%d: await %d%s", a, j, waits ? "" : " refused");
    if (waits) {
      if (reaches(a, j)) prune();
      for (int i = 0; i < K; ++i)
        if (T[i].awaiting == a && reaches(a, i)) prune();
      T[j].next[T[j].nn++] = {a, 0};
      t.awaiting = j;
      t.st = WAITING;
      --sp;
    }
    if (!waits && K > 1) {  // waiting in the name of another task, and for nothing
      int o = (a + 1) % K;
      if (!T[o].gone && !T[o].forgotten && o != j && !exiting(j) && T[o].st < DONE)
        MC_CHECK(T[o].p->await_task(ptr_t(T[j].p)) == COPP_EC_TASK_NOT_IN_ACTION, "await", "a task which is not running may wait");
      MC_CHECK(t.p->await_task(ptr_t()) == COPP_EC_ARGS_ERROR, "await", "waiting for nothing");
    }
    int r = t.p->await_task(ptr_t(T[j].p));
    if (waits) {
      stack_of[sp++] = a;
      MC_CHECK(exiting(j) || t.st >= DONE, "await-early", "task %d does not wait for task %d any more, neither is exiting", a, j);
      if (t.st == WAITING) activate(a), goal(4);
      t.awaiting = -1;
      want = exiting(j) ? r : COPP_EC_TASK_IS_EXITING;  // both: either answer
      if (exiting(j) && t.st < DONE) want = 0;
      if (t.st >= DONE) goal(5);
    }
    MC_CHECK(r == want, "await", "await_task returned %d, expected %d", r, want);
    check_world(a, "await");
  }
  return true;
}
static int body(int i, void *data) {
  TM &t = T[i];
  MC_CHECK(!t.entered, "restarted", "the body of task %d is entered a second time", i);
  t.entered = true;
  if (t.st == CREATED) activate(i);
  MC_CHECK(data == reinterpret_cast<void *>(t.data), "data", "task %d started with data %p, expected %p", i, data, reinterpret_cast<void *>(t.data));
  stack_of[sp++] = i;
  check_world(i, "entry");
  while (one_op(i)) {
  }
  t.co_done = true;
  --sp;
  if (t.throws) raise_one();
  return i;
}
static void world() {
  K = param(0);
  ops_left = depth();
  ids = sp = nf = base = nc = 0;
  for (int i = 0; i < K; ++i) {
    TM &t = T[i];
    task_t::coroutine_type::allocator_type al;
    t.own = task_t::create_with_delegate<Act>(Act(i), al, 16 * 1024, 0);
    t.p = t.own.get();
    t.st = CREATED;
    t.awaiting = -1;
  }
  check_world(-1, "creation");
  while (one_op(-1)) {
  }
  // end everything in an order which leaves no cycles
  for (int round = 0; round < K; ++round)
    for (int i = 0; i < K; ++i)
      if (!T[i].gone && !T[i].forgotten && !T[i].co_done) {
        run_op(i, 1, 16 * ++ids);
        check_world(-1, "final kill");
      }
  for (int i = 0; i < K; ++i) {
    if (T[i].gone) continue;
    MC_CHECK(!T[i].forgotten, "lifetime", "task %d is still alive", i);
    MC_CHECK(T[i].p->use_count() == 1, "leak", "task %d still has %zu references", i, T[i].p->use_count());
    T[i].own.reset();
    T[i].gone = true;
    check_world(-1, "destruction");
  }
  check_no_leak("leak");
}

// the overloads which create the follower
static int fn_runs;
static void *fn_data;
static int plain_fn(void *d) {
  ++fn_runs;
  fn_data = d;
  return 0;
}
struct Obj {
  int runs = 0;
  void *data = nullptr;
  int mem(void *d) {
    ++runs;
    data = d;
    return 0;
  }
};
static void overloads() {
  fn_runs = 0;
  Obj o;
  int runs = 0;
  void *fdata = nullptr;
  void *D = reinterpret_cast<void *>(0x40);
  task_t::coroutine_type::allocator_type al;
  {
    int kind = choose(8, "overload"), when = choose(3, "attach before start, while waiting, after the end"), twice = choose(2, "two followers");
    ptr_t a = task_t::create([](void *) -> int {
      cotask::this_task::get_task()->yield();
      return 0;
    }, 16 * 1024, 48);
    auto f = [&runs, &fdata](void *d) -> int {
      ++runs;
      fdata = d;
      return 0;
    };
    if (when >= 1) a->start();
    if (when == 2) a->resume();
    int n = 1 + twice;
    for (int i = 0; i < n; ++i) {
      ptr_t r;
      switch (kind) {
        case 0: r = a->next(f, D, 16 * 1024); break;
        case 1: r = a->next(f, al, D, 16 * 1024, 16); break;
        case 2: r = a->next(plain_fn, D, 16 * 1024); break;
        case 3: r = a->next(plain_fn, al, D, 16 * 1024); break;
        case 4: r = a->next(&Obj::mem, &o, D, 16 * 1024); break;
        case 5: r = a->next(&Obj::mem, &o, al, D, 16 * 1024); break;
        case 6: r = a->then(f, D); break;
        default: r = a->then(plain_fn, D); break;
      }
      MC_CHECK(r && r != a, "attach", "no task was created");
      if (kind >= 6) MC_CHECK(r->get_private_buffer_size() >= 48, "attach", "private buffer of %zu bytes", r->get_private_buffer_size());
      MC_CHECK((r->get_status() == DONE) == (when == 2), "attach", "status %d of the follower", r->get_status());
      step();
    }
    int total = runs + fn_runs + o.runs;
    MC_CHECK(total == (when == 2 ? n : 0), "early", "%d followers ran", total);
    while (!a->is_completed()) {
      MC_CHECK(runs + fn_runs + o.runs == 0, "early", "a follower ran before its predecessor ended");
      a->resume();
    }
    total = runs + fn_runs + o.runs;
    MC_CHECK(total == n, "lost-follower", "%d of %d followers ran", total, n);
    MC_CHECK((kind == 0 || kind == 1 || kind == 6) ? fdata == D && runs == n : (kind == 4 || kind == 5) ? o.data == D && o.runs == n : fn_data == D && fn_runs == n,
             "data", "follower got other data");
    state(kind * 8 + when * 2 + twice);
    goal(when);
  }
  check_no_leak("leak");
}

// --- concurrently -----------------------------------------------------------------------------------------------------
struct Sh {
  int ran[4];
  void *data[4];
  int ended;
  int flag;
};
static void attach_race() {
  Sh *sh = shared<Sh>();
  int end = choose(3, "body ends / killed while waiting / cancelled while waiting"), created = 1, n = param(0);
  {
    long *seen = new long(0);
    race_strict(seen, sizeof *seen);
    ptr_t a = task_t::create([sh, seen, end](void *) -> int {
      if (end) cotask::this_task::get_task()->yield();
      *seen = 42;
      sh->ended = 1;
      return 0;
    }, 16 * 1024);
    ptr_t b[3];
    for (int i = 0; i < n; ++i)
      b[i] = task_t::create([sh, seen, i, end, pa = a.get()](void *d) -> int {
        // attached to a task which is being killed, a follower is run at once
        MC_CHECK(sh->ended == 1 || (end && pa->is_exiting()), "early", "follower runs before its predecessor ended");
        if (!end) MC_CHECK(*seen == 42, "visibility", "the follower does not see what its predecessor did");
        sh->ran[i]++;
        sh->data[i] = d;
        return 0;
      }, 16 * 1024);
    if (end) a->start();
    (void)created;
    for (int i = 0; i < n; ++i)
      spawn([&, i] {
        ptr_t r = a->next(b[i], reinterpret_cast<void *>(16 * (i + 1)));
        MC_CHECK(r == b[i], "attach", "attach returned another task");
        step();
      });
    spawn([&, end] {
      if (end == 0) a->start();
      else if (end == 1) a->kill();
      else a->cancel();
      step();
    });
    run_threads();
    MC_CHECK(a->is_completed() && a->is_exiting(), "end", "the predecessor has status %d", a->get_status());
    uint64_t h = end;
    for (int i = 0; i < n; ++i) {
      MC_CHECK(sh->ran[i] == 1, sh->ran[i] ? "run-twice" : "lost-follower", "follower %d ran %d times", i, sh->ran[i]);
      MC_CHECK(sh->data[i] == reinterpret_cast<void *>(16 * (i + 1)), "data", "follower %d got other data", i);
      MC_CHECK(b[i]->get_status() == DONE && b[i]->use_count() == 1, "end", "follower %d: status %d, %zu references", i, b[i]->get_status(), b[i]->use_count());
      h = h * 3 + b[i]->get_status();
    }
    state(h);
    goal(end);
    for (int i = 0; i < n; ++i) b[i].reset();
    a.reset();
    delete seen;
  }
  check_no_leak("leak");
}
// a waits for w while another thread ends w
static void await_race() {
  Sh *sh = shared<Sh>();
  int end = choose(2, "w ends by resume / kill");
  {
    ptr_t w = task_t::create([](void *) -> int {
      cotask::this_task::get_task()->yield();
      return 5;
    }, 16 * 1024);
    w->start();
    // runs right before the waiter is woken: what the waiter was doing when w ended
    ptr_t probe = task_t::create([sh](void *p) -> int {
      sh->flag = 1 + (*static_cast<ptr_t *>(p))->get_status();
      return 0;
    }, 16 * 1024);
    ptr_t a;
    w->next(probe, &a);
    a = task_t::create([sh, w](void *) -> int {
      int r = task_t::this_task()->await_task(w);
      MC_CHECK(r == 0 || r == COPP_EC_TASK_IS_EXITING, "await", "await_task returned %d", r);
      MC_CHECK(w->is_exiting() || w->is_completed(), "await-early", "await_task returned while the awaited task goes on");
      sh->ran[0]++;
      return 0;
    }, 16 * 1024);
    spawn([&] {
      a->start();
      step();
    });
    spawn([&, end] {
      if (end == 0) w->resume();
      else w->kill();
      step();
    });
    run_threads();
    MC_CHECK(w->is_completed(), "end", "the awaited task did not end");
    goal(end);
    state(a->get_status());
    MC_CHECK(sh->flag, "probe", "the other follower of the awaited task did not run");
    MC_CHECK(a->is_completed() && sh->ran[0] == 1, sh->flag - 1 == cotask::EN_TS_RUNNING ? "lost-wakeup-while-running" : "lost-wakeup",
             "the awaited task has ended, the waiter (status %d, was %d when the awaited task ended) sleeps", a->get_status(), sh->flag - 1);
  }
  check_no_leak("leak");
}
#define GS {"follower ran", "second follower ran", "attached after the end", "unstarted task dropped", "await woken", "awaiting task killed", "follower destroyed", "attached to itself"}
#define GA {"end", "kill", "cancel"}
static const Scenario LIST[] = {
    {"two_tasks", world, 5, 6, -1, -1, false, "2 tasks: resume/kill/cancel/attach/drop/forget/await/yield/return", {2},
     {"follower ran", "-", "attached after the end", "unstarted task dropped", "await woken", "awaiting task killed", "follower destroyed", "attached to itself"}},
    {"three_tasks", world, 4, 5, -1, -1, false, "3 tasks", {3}, GS},
    {"throwing", world, 5, 6, -1, -1, false, "2 tasks, bodies and on_finished throw", {2, 1},
     {"follower ran", "-", "attached after the end", "unstarted task dropped", "-", "-", "follower destroyed", "attached to itself", "thrown", "two thrown in one call"}},
    {"throwing_three", world, 4, 4, -1, -1, false, "3 tasks, bodies and on_finished throw", {3, 1},
     {"follower ran", "second follower ran", "attached after the end", "-", "-", "-", "-", "attached to itself", "thrown", "two thrown in one call"}},
    {"overloads", overloads, 1, 1, -1, -1, false, "every overload of next and then", {0}, {"before start", "while waiting", "after the end"}},
    {"attach_one", attach_race, 1, 1, 6, 12, false, "2 threads: one attaches, one ends the task", {1}, GA},
    {"attach_two", attach_race, 1, 1, 3, 5, false, "3 threads: two attach, one ends the task", {2}, GA},
    {"await_race", await_race, 1, 1, 4, 6, false, "2 threads: one awaits the task the other ends", {0}, {"end", "kill"}},
    {"many", wide::followers, 1, 2, -1, -1, false, "one task and up to 4 followers of every kind", {4}, {"ended", "killed", "cancelled"}},
    {"very_many", wide::followers, 1, 1, -1, -1, false, "one task and 8 to 64 followers of every kind", {0, 8}, {"ended", "killed", "cancelled"}},
};
MC_MAIN(LIST)
