// Many coroutines at once: up to six waiters of one callable, generator, C++20 task or stackful task, up to six follow-ups of a task, and up
// to six tasks in a manager, in every combination of kinds and of what happened to them before.  Few operations each; the histories of
// operations are explored with fewer coroutines in co20.h, which this is included after.
#pragma once
namespace wide {
enum { MAXW = 68 };
enum Way { ABSENT, WAITS, KILLED };
struct W {
  bool is_task, ended;
  int goes, v;
  ST st;
};
static W w[MAXW];
static int n, alive, entered;
static bool pattern;  // very many: the kind of a coroutine is that of the one three before
static int picked[3];
static int count() {
  pattern = param(1) != 0;
  return pattern ? 8 + choose(param(1), "how many") : param(0) + depth() - 1;
}
static int kind_of(int i, int kinds, const char *what) {
  if (pattern && i >= 3) return picked[i % 3];
  int k = choose(kinds, what);
  if (pattern) picked[i] = k;
  return k;
}
struct Local {
  Local() { ++alive; }
  ~Local() { --alive; }
};
template <class R, class F>
static R waiter(int i, F *f) {
  Local l;
  int v = NONE;
  if constexpr (std::is_same<F, stackful>::value) v = co_await *f;
  else AWAIT(v, *f);
  ++w[i].goes;
  w[i].v = v;
  ST now = co_yield R::yield_status();
  w[i].st = now;
  MC_CHECK(!w[i].ended, "twice", "waiter %d goes on twice", i);
  w[i].ended = true;
#ifdef VOID20
  co_return;
#else
  co_return Val(100 + i);
#endif
}
// what is waited for, if it is a coroutine: waits itself for a generator, and returns 42
static gen *event;
template <class R>
static R target() {
  Local l;
  ++entered;
  int v = NONE;
  AWAIT(v, *event);
  (void)v;
#ifdef VOID20
  co_return;
#else
  co_return Val(42);
#endif
}
static stackful *sp;
template <class F>
static void waiters() {
  n = count();
  alive = entered = 0;
  std::optional<callable> c[MAXW + 1];
  std::optional<task> t[MAXW + 1];
  static int suspends, resumes;
  suspends = resumes = 0;
  auto fresh = [] { return gen([](std::shared_ptr<gen::context_type>) { ++suspends; }, [](const gen::context_type &) { ++resumes; }); };
  std::optional<gen> ev;
  ev.emplace(fresh());
  event = &*ev;
  std::optional<F> f;
  stackful::ptr_type s;
  constexpr bool sf = std::is_same<F, stackful>::value, is_gen = std::is_same<F, gen>::value, takes_along = std::is_same<F, callable>::value;
  if constexpr (sf) {
    s = stackful::create([](void *) -> int {
      ++entered;
      sp->yield();
      return 42;
    }, 16 * 1024);
    sp = s.get();
    s->start();
  } else if constexpr (is_gen) {
    ev.reset();
    f.emplace(fresh());
  } else {
    f.emplace(target<F>());
    if constexpr (std::is_same<F, task>::value) f->start();
  }
  F *to;
  if constexpr (sf) to = s.get();
  else to = &*f;
  int way[MAXW];
  for (int i = 0; i <= n; ++i) w[i] = W();
  for (int i = 0; i < n; ++i) {
    int x = kind_of(i, takes_along ? 3 : 5, "waiter");
    way[i] = x == 0 ? ABSENT : (x - 1) / 2 == 0 ? WAITS : KILLED;
    w[i].is_task = x > 0 && (x - 1) % 2;
    if (way[i] == ABSENT) continue;
    if (w[i].is_task) t[i].emplace(waiter<task>(i, to)), t[i]->start();
    else c[i].emplace(waiter<callable>(i, to));
    MC_CHECK(!w[i].goes, "spurious", "waiter %d goes on although nothing has finished", i);
  }
  bool back = !takes_along && choose(2, "order of killing") == 1;
  for (int j = 0; j < n; ++j) {
    int i = back ? n - 1 - j : j;
    if (way[i] != KILLED) continue;
    step();
    if (w[i].is_task) t[i]->kill(ST::kTimeout);
    else c[i]->kill(ST::kTimeout);
    MC_CHECK(w[i].goes == 1 && w[i].ended, "kill-ignored", "waiter %d was killed and has gone on %d times", i, w[i].goes);
    if (KNOWN || sf) MC_CHECK(w[i].v < 0 && w[i].v > -100000, "error-value", "waiter %d was killed and got %d", i, w[i].v);
    MC_CHECK(w[i].st == ST::kTimeout, "status", "waiter %d was killed and has status %d", i, (int)w[i].st);
    for (int k = 0; k < n; ++k) MC_CHECK(way[k] != WAITS || !w[k].goes, "spurious", "waiter %d goes on although nothing has finished", k);
  }
  // the end
  step();
  int how = choose(sf ? 4 : is_gen ? 2 : takes_along ? 4 : 3, "end");
  bool value = true, dropped = false;
  if constexpr (sf) {
    if (how == 0) s->resume();
    else if (how == 1) s->kill(cotask::EN_TS_KILLED), value = false;
    else if (how == 2) s->cancel(), value = false;
    else s.reset(), value = false, dropped = true;
  } else if constexpr (is_gen) {
    if (how == 0) SETV(f->get_context(), 32);
    else f.reset(), value = false, dropped = true;
  } else {
    if (how == 0) SETV(ev->get_context(), 0);
    else if (how == 1) f->kill(ST::kKilled);
    else if (how == 2) ev.reset();  // what the target waits for goes away
    else {  // a callable ends with the waiter that is killed
      int k = choose(n, "which");
      if (way[k] != WAITS) prune();
      way[k] = KILLED;
      if (w[k].is_task) t[k]->kill(ST::kTimeout);
      else c[k]->kill(ST::kTimeout);
      MC_CHECK(w[k].st == ST::kTimeout, "status", "waiter %d was killed and has status %d", k, (int)w[k].st);
    }
  }
  int waiting = 0;
  for (int i = 0; i < n; ++i) {
    if (way[i] == ABSENT) continue;
    waiting += way[i] == WAITS;
    MC_CHECK(w[i].goes == 1, way[i] == WAITS && !w[i].goes ? "lost-wakeup" : "twice", "waiter %d of %d has gone on %d times after the end of what it waited for", i, n, w[i].goes);
    if (way[i] != WAITS) continue;
    MC_CHECK(w[i].ended && w[i].st == ST::kRunning, "status", "waiter %d has status %d", i, (int)w[i].st);
    if (value && (KNOWN || sf)) MC_CHECK(w[i].v == 42, "value", "waiter %d of %d got %d, expected 42", i, n, w[i].v);
    if (!value && (KNOWN || sf)) MC_CHECK(w[i].v < 0, "error-value", "waiter %d got %d from something which was killed or dropped", i, w[i].v);
    if (w[i].is_task) MC_CHECK(t[i]->get_status() == ST::kDone, "status", "task %d which waited has status %d", i, (int)t[i]->get_status());
    else MC_CHECK(c[i]->get_status() == ST::kDone, "status", "callable %d which waited has status %d", i, (int)c[i]->get_status());
  }
  goal(waiting == n ? 0 : waiting == 0 ? 1 : 2);
  if (is_gen) MC_CHECK(suspends >= resumes, "hooks", "the suspend hook ran %d times, the resume hook %d times", suspends, resumes);
  if (!dropped) {  // a late one does not wait
    c[n].emplace(waiter<callable>(n, to));
    MC_CHECK(w[n].goes == 1 && w[n].ended, "suspended-ready", "somebody waits for something which has finished");
  }
  for (int i = 0; i <= n; ++i) c[i].reset(), t[i].reset();
  f.reset();
  s.reset();
  ev.reset();
  event = nullptr;
  MC_CHECK(alive == 0 && (is_gen || entered == 1), "frames", "%d bodies are left", alive);
  for (int i = 0; i <= n; ++i) MC_CHECK(w[i].goes <= 1, "twice", "waiter %d goes on again", i);
  check_no_leak("leak");
}

// up to 6 follow-ups of one task (callables, tasks, dropped ones, mixed with waiters)
static void thens() {
  n = count();
  alive = entered = 0;
  std::optional<gen> ev;
  ev.emplace([](std::shared_ptr<gen::context_type>) {}, [](const gen::context_type &) {});
  event = &*ev;
  std::optional<task> f;
  f.emplace(target<task>());
  bool early = choose(2, "started before");
  if (early) f->start();
  std::optional<copp::callable_future<VT>> c[MAXW];
  std::optional<cotask::task_future<VT, void>> t[MAXW];
  std::optional<task> wt[MAXW];
  int kind[MAXW];
  static int calls[MAXW], got[MAXW];
  for (int i = 0; i < n; ++i) {
    w[i] = W();
    calls[i] = 0, got[i] = NONE;
    kind[i] = kind_of(i, 4, "follow-up");  // none, callable, task, waiter
#ifdef VOID20
    auto fn = [i](task::context_pointer_type &&) { ++calls[i]; };
#else
    auto fn = [i](task::context_pointer_type &&, Val v) {
      ++calls[i], got[i] = v.v;
      return Val(v.v + 1);
    };
#endif
    if (kind[i] == 1) c[i].emplace(f->then(fn));
    if (kind[i] == 2) t[i].emplace(f->then(fn, nullptr));
    if (kind[i] == 3) wt[i].emplace(waiter<task>(i, &*f)), wt[i]->start();
    MC_CHECK(!calls[i] && !w[i].goes, "then-early", "follow-up %d runs before the task has ended", i);
  }
  if (!early) f->start();
  step();
  int how = choose(3, "end");
  if (how == 0) SETV(ev->get_context(), 0);
  else if (how == 1) f->kill(ST::kKilled);
  else ev.reset();
  for (int i = 0; i < n; ++i) {
    if (kind[i] == 0) continue;
    int k = kind[i] == 3 ? w[i].goes : calls[i], v = kind[i] == 3 ? w[i].v : got[i];
    MC_CHECK(k == 1, k ? "then-twice" : "then-lost", "follow-up %d of %d has been called %d times", i, n, k);
    if (KNOWN) MC_CHECK(v == 42, "then-value", "follow-up %d got %d", i, v);
    ST s = kind[i] == 1 ? c[i]->get_status() : kind[i] == 2 ? t[i]->get_status() : wt[i]->get_status();
    MC_CHECK(s == ST::kDone, "then-status", "follow-up %d has status %d", i, (int)s);
  }
  goal(how);
  for (int i = 0; i < n; ++i) c[i].reset(), t[i].reset(), wt[i].reset();
  f.reset();
  ev.reset();
  event = nullptr;
  MC_CHECK(alive == 0 && entered == 1, "frames", "%d bodies are left", alive);
  check_no_leak("leak");
}

// up to 6 tasks in one manager and one operation which concerns all of them or some of them
template <class R>
static R managed(int i) {
  Local l;
  int v = NONE;
  AWAIT(v, *event);
  (void)v;
  ++w[i].goes;
  ST now = co_yield R::yield_status();
  w[i].st = now;
  w[i].ended = true;
#ifdef VOID20
  co_return;
#else
  co_return Val(i);
#endif
}
static void managers() {
  n = count();
  alive = 0;
  std::optional<gen> ev;
  ev.emplace([](std::shared_ptr<gen::context_type>) {}, [](const gen::context_type &) {});
  event = &*ev;
  std::optional<task> t[MAXW];
  manager *tm = new manager();
  int op = choose(8, "operation");  // reset, destroy, ticks, kill, cancel, remove, start, the event
  bool by_id = op >= 3 && op < 7;
  enum { CREATED = 0, WAITING = 1, OUTSIDE = 2, OWNED = 3 };  // outside: or not concerned by an operation by id; owned: only by the manager
  int kind[MAXW], in = 0;
  uint64_t id[MAXW];
  for (int i = 0; i < n; ++i) {
    w[i] = W();
    t[i].emplace(managed<task>(i));
    id[i] = t[i]->get_id();
    kind[i] = kind_of(i, op == 6 ? 3 : 4, "task");
    if (kind[i] != CREATED) t[i]->start();
    if (kind[i] != OUTSIDE || by_id) {
      int r = op == 2 ? tm->add_task(*t[i], 1 + i % 2, 0) : tm->add_task(*t[i]);
      MC_CHECK(r == 0, "add", "adding task %d returned %d", i, r);
      ++in;
    }
    if (kind[i] == OWNED) t[i].reset();
  }
  MC_CHECK((int)tm->get_task_size() == in, "size", "%d tasks were added, the manager has %d", in, (int)tm->get_task_size());
  step();
  switch (op) {
    case 0: tm->reset(); break;
    case 1: delete tm; tm = nullptr; break;
    case 2: tm->tick(10), tm->tick(20); break;
    case 7: SETV(ev->get_context(), 0); break;
    default:
      for (int i = 0; i < n; ++i)
        if (kind[i] != OUTSIDE) {
          int r = op == 3 ? tm->kill(id[i], ST::kTimeout) : op == 4 ? tm->cancel(id[i]) : op == 5 ? tm->remove_task(id[i]) : tm->start(id[i]);
          MC_CHECK(r == 0 || op == 6, "result", "operation %d on task %d returned %d", op, i, r);
        }
  }
  int left = 0;
  for (int i = 0; i < n; ++i) {
    bool stays = kind[i] == OUTSIDE && op != 7, created = kind[i] == CREATED;
    int want = op == 2 || op == 3 ? (int)ST::kTimeout : op == 4 ? (int)ST::kCancle : op == 7 ? (int)ST::kRunning : (int)ST::kKilled;
    if (op == 6) stays = true;  // all of them run
    if (op == 7 && created) stays = true;
    if (!stays && !created) {
      MC_CHECK(w[i].goes == 1 && w[i].ended, "not-ended", "task %d of %d is still waiting after operation %d", i, n, op);
      MC_CHECK((int)w[i].st == want, "status", "task %d ended with status %d after operation %d, expected %d", i, (int)w[i].st, op, want);
      if (t[i]) MC_CHECK((int)t[i]->get_status() == (op == 7 ? (int)ST::kDone : want), "status", "task %d has status %d after operation %d", i, (int)t[i]->get_status(), op);
    } else
      MC_CHECK(!w[i].goes, "bystander", "task %d went on because of operation %d", i, op);
    if (created && op == 5) want = (int)ST::kCreated;
    if (created && !stays && op != 6) MC_CHECK((int)t[i]->get_status() == want, "status", "task %d, which was not started, has status %d after operation %d, expected %d", i, (int)t[i]->get_status(), op, want);
    if (created && op == 6) MC_CHECK(t[i]->get_status() == ST::kRunning, "status", "task %d was started and has status %d", i, (int)t[i]->get_status());
    bool there = tm && (stays && (kind[i] != OUTSIDE || by_id));
    if (tm) {
      auto p = tm->find_task(id[i]);
      bool found = p && p->get_id() == id[i];
      MC_CHECK(found == there, found ? "still-there" : "not-there", "task %d: found %d in the manager after operation %d", i, found, op);
    }
    left += there;
  }
  if (tm) {
    MC_CHECK((int)tm->get_task_size() == left, "size", "the manager has %d tasks after operation %d, expected %d", (int)tm->get_task_size(), op, left);
    if (op != 6 && op != 7) MC_CHECK(tm->get_tick_checkpoint_size() == 0, "deadlines", "%d deadlines are left", (int)tm->get_tick_checkpoint_size());
  }
  goal(op);
  delete tm;
  for (int i = 0; i < n; ++i)
    if (t[i] && by_id && kind[i] == OUTSIDE) MC_CHECK(w[i].ended && t[i]->get_status() == ST::kKilled, "not-ended", "task %d is not ended by the destruction of its manager", i);
  for (int i = 0; i < n; ++i) t[i].reset();
  ev.reset();
  event = nullptr;
  MC_CHECK(alive == 0, "frames", "%d bodies are left", alive);
  check_no_leak("leak");
}

// up to 6 tasks with deadlines, the ticks around them
static void deadlines() {
  n = count();
  alive = 0;
  std::optional<gen> ev;
  ev.emplace([](std::shared_ptr<gen::context_type>) {}, [](const gen::context_type &) {});
  event = &*ev;
  std::optional<task> t[MAXW];
  manager *tm = new manager();
  bool first = choose(2, "ticked before");
  int change = choose((pattern ? 3 : n) + 1, "changed"), to[MAXW], due = 0;
  if (first) tm->tick(100);
  for (int i = 0; i < n; ++i) {
    w[i] = W();
    t[i].emplace(managed<task>(i));
    to[i] = kind_of(i, 4, "timeout");
    if (i % 3 != 2) t[i]->start();
    MC_CHECK(tm->add_task(*t[i], to[i], 0) == 0, "add", "adding task %d failed", i);
  }
  if (pattern && change == 3) change = n;
  if (change < n) {
    to[change] = (to[change] + 2) % 4;
    tm->set_timeout(t[change]->get_id(), to[change], 0);
  }
  if (!first) tm->tick(100);
  for (int i = 0; i < n; ++i) due += to[i] > 0;
  MC_CHECK((int)tm->get_tick_checkpoint_size() == due, "deadlines", "%d tasks have deadlines, the manager counts %d", due, (int)tm->get_tick_checkpoint_size());
  int now = 100;
  for (int k = 0; k < param(2); ++k) {
    step();
    now += 1 + choose(4, "tick");
    tm->tick(now);
    int left = 0;
    due = 0;
    for (int i = 0; i < n; ++i) {
      bool out = to[i] && 100 + to[i] < now;
      ST want = out ? ST::kTimeout : i % 3 == 2 ? ST::kCreated : ST::kRunning;
      MC_CHECK(t[i]->get_status() == want, out ? "not-fired" : "fired", "task %d of %d with deadline %d has status %d at %d", i, n, to[i] ? 100 + to[i] : 0, (int)t[i]->get_status(), now);
      if (out && i % 3 != 2) MC_CHECK(w[i].ended, "not-ended", "task %d has timed out and is still waiting", i);
      left += !out, due += !out && to[i];
    }
    MC_CHECK((int)tm->get_task_size() == left && (int)tm->get_tick_checkpoint_size() == due, "size", "at %d the manager has %d tasks and %d deadlines, expected %d and %d", now,
             (int)tm->get_task_size(), (int)tm->get_tick_checkpoint_size(), left, due);
  }
  goal(due ? 0 : 1);
  delete tm;
  for (int i = 0; i < n; ++i) t[i].reset();
  ev.reset();
  event = nullptr;
  MC_CHECK(alive == 0, "frames", "%d bodies are left", alive);
  check_no_leak("leak");
}
}  // namespace wide
