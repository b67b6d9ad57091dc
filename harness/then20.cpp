// C23: follow-ups of C++20 tasks (then).  Every combination of what the task returns (a value or nothing), what the follow-up returns
// (a value, nothing, a callable or a task, with and without a value) and what then() makes of it (a callable, a task with private data,
// a task without), each under every sequence of operations, also from inside the follow-ups.
#include <mc.h>
#include <libcopp/coroutine/callable_promise.h>
#include <libcopp/coroutine/generator_promise.h>
#include <libcotask/task_promise.h>
#include <coroutine>
#include <memory>
#include <optional>
using namespace mc;
using ST = copp::promise_status;

enum { MOVED = -777, NONE = -778, FREED = -779 };
static int vals_alive, priv_alive, fns_alive;
struct Val {
  int v;
  Val() : v(NONE) { ++vals_alive; }
  explicit Val(int x) : v(x) { ++vals_alive; }
  explicit Val(ST s) : v(-(int)s) { ++vals_alive; }
  Val(const Val &o) : v(o.v) { ++vals_alive; }
  Val(Val &&o) noexcept : v(o.v) { o.v = MOVED, ++vals_alive; }
  Val &operator=(const Val &o) { v = o.v; return *this; }
  Val &operator=(Val &&o) noexcept {
    if (this != &o) v = o.v, o.v = MOVED;
    return *this;
  }
  ~Val() { v = FREED, --vals_alive; }
};
struct Priv {
  int tag;
  Priv() : tag(0) { ++priv_alive; }
  explicit Priv(int t) : tag(t) { ++priv_alive; }
  Priv(const Priv &o) : tag(o.tag) { ++priv_alive; }
  Priv &operator=(const Priv &o) = default;
  ~Priv() { tag = FREED, --priv_alive; }
};
template <class V>
using callable = copp::callable_future<V>;
template <class V, class P = Priv>
using task = cotask::task_future<V, P>;

enum { NF = 3 };
enum FnKind { F_VALUE, F_VOID, F_CALLABLE, F_CALLABLE_VOID, F_TASK, F_TASK_VOID, F_KINDS };
enum At { A_CALLABLE, A_TASK_PRIV, A_TASK, A_KINDS };
enum Kind { END, START, EVENT, ATTACH, CHAIN, KILLP, KILLF, DROPP, DROPF };
static const char *const NAME[] = {"end", "start", "event", "attach", "attach to follow-up", "kill task", "kill follow-up", "drop task", "drop follow-up"};

// --- what the operations work on --------------------------------------------------------------------------------------
struct FBase {
  virtual ~FBase() {}
  virtual int status() = 0;
  virtual bool ready() = 0;
  virtual int value() = 0;
  virtual int tag() = 0;
  virtual bool kill(ST st, bool force) = 0;
  virtual FBase *attach(int k) = 0;
  virtual bool is_task() = 0;
};
struct Par {
  bool held, started, ended, taken;
  int st, refs;  // references of the follow-ups
  uint64_t id;
};
struct Fol {
  bool used, dropped, dropping, killed, executing;
  int kind, at, on;  // on: -1 the task, otherwise the follow-up it is attached to
  int calls, got;
  bool returned, inner, inner_ended;
  int st;
  bool taken;
  uint64_t id;
  bool completed() const { return returned && (kind < F_CALLABLE || inner_ended); }
};
static Par P;
static Fol F[NF];
static FBase *fp[NF];
static int nf, ops_left, depth_in;
static std::coroutine_handle<> ev[NF + 1];
static int combo[NF];

struct Event {
  int e;
  bool await_ready() { return false; }
  void await_suspend(std::coroutine_handle<> h) { ev[e] = h; }
  void await_resume() { ev[e] = nullptr; }
};

struct PBase {
  virtual ~PBase() {}
  virtual bool start() = 0;
  virtual bool kill(ST st, bool force) = 0;
  virtual int status() = 0;
  virtual FBase *attach(int k) = 0;
};
static PBase *pp;

struct Op {
  Kind k;
  int a, x;
};
static void perform(const Op &o, int self);
static Op pick(int self);

static bool target_ended(const Fol &f) { return f.on < 0 ? P.ended : F[f.on].completed(); }
static int target_status(const Fol &f) { return f.on < 0 ? P.st : F[f.on].st; }

template <class V>
static task<V> parent() {
  if (choose(2, "wait")) co_await Event{NF};
  P.ended = true;
  if (P.st < (int)ST::kDone) P.st = (int)ST::kDone;
  log("the task returns");
  if constexpr (std::is_void<V>::value)
    co_return;
  else
    co_return Val(100);
}
template <class R>
static R inner(int k) {
  F[k].inner = true;
  if (choose(2, "inner waits")) {
    goal(1);
    co_await Event{k};
  }
  F[k].inner_ended = true;
  log("what follow-up %d waits for returns", k);
  if constexpr (std::is_void<typename R::value_type>::value)
    co_return;
  else
    co_return Val(300 + k);
}

// the follow-up itself
struct FnBase {
  int k;
  bool valid;
  explicit FnBase(int n) : k(n), valid(true) { ++fns_alive; }
  FnBase(const FnBase &o) : k(o.k), valid(o.valid) { ++fns_alive; }
  FnBase(FnBase &&o) : k(o.k), valid(o.valid) { o.valid = false, ++fns_alive; }
  ~FnBase() { valid = false, --fns_alive; }
  void enter(uint64_t id, int got) {
    MC_CHECK(valid && k >= 0 && k < nf, "fn-gone", "the function object of a follow-up is called after it is gone");
    Fol &f = F[k];
    ++f.calls;
    log("follow-up %d is called with %d", k, got);
    MC_CHECK(f.calls == 1, "twice", "follow-up %d is called twice", k);
    MC_CHECK(id == (f.on < 0 ? P.id : F[f.on].id), "context", "follow-up %d is given the context of another task", k);
    bool te = target_ended(f), gone = f.killed || f.dropping, tk = target_status(f) >= (int)ST::kDone;
    MC_CHECK(te || tk || gone, "early", "follow-up %d is called before its task has ended", k);
    bool &taken = f.on < 0 ? P.taken : F[f.on].taken;
    if (got != NONE) {
      int want = f.on < 0 ? 100 : F[f.on].kind >= F_CALLABLE ? 300 + f.on : 200 + f.on;
      bool error_of_target = f.on >= 0 && F[f.on].killed;  // what it waited for was cut short
      if (te && !gone && !error_of_target)
        MC_CHECK(got == want || (taken && got == MOVED), "value", "follow-up %d got %d, its task returned %d", k, got, want);
      else
        MC_CHECK(got < 0 || (te && got == want), "error-value", "follow-up %d got %d", k, got);
      if (got == want) taken = true;
    }
    f.executing = true;
    ++depth_in;
    if (f.on >= 0) goal(5);
    for (;;) {
      Op o = pick(k);
      if (o.k == END) break;
      goal(6);
      perform(o, k);
    }
    --depth_in;
    f.executing = false;
    f.returned = true;
    if (f.kind < F_CALLABLE) ended(k);
  }
  static void ended(int k) {
    if (F[k].st < (int)ST::kDone) F[k].st = (int)ST::kDone;
  }
};
template <FnKind K>
struct Fn : FnBase {
  using FnBase::FnBase;
  auto result() {
    int n = k;
    if constexpr (K == F_VALUE) return Val(200 + n);
    if constexpr (K == F_CALLABLE) return inner<callable<Val>>(n);
    if constexpr (K == F_CALLABLE_VOID) return inner<callable<void>>(n);
    if constexpr (K == F_TASK) return inner<task<Val>>(n);
    if constexpr (K == F_TASK_VOID) return inner<task<void, void>>(n);
  }
  template <class C>
  auto operator()(C ctx) {
    enter(ctx->get_id(), NONE);
    return result();
  }
  template <class C>
  auto operator()(C ctx, Val v) {
    enter(ctx->get_id(), v.v);
    return result();
  }
};

template <class T>
static FBase *attach_to(T &t, int k);

template <class R>
struct FC : FBase {
  callable<R> c;
  explicit FC(callable<R> &&x) : c(std::move(x)) {}
  int status() override { return (int)c.get_status(); }
  bool ready() override { return c.is_ready(); }
  int value() override {
    if constexpr (std::is_void<R>::value) return NONE;
    else return c.get_internal_promise().data().v;
  }
  int tag() override { return 0; }
  bool kill(ST st, bool force) override { return c.kill(st, force); }
  FBase *attach(int) override { return nullptr; }
  bool is_task() override { return false; }
};
template <class R, class PD>
struct FT : FBase {
  task<R, PD> t;
  explicit FT(task<R, PD> &&x) : t(std::move(x)) {}
  int status() override { return (int)t.get_status(); }
  bool ready() override { return t.is_completed(); }
  int value() override {
    if constexpr (std::is_void<R>::value) return NONE;
    else return t.get_context()->data() ? t.get_context()->data()->v : NONE;
  }
  int tag() override {
    if constexpr (std::is_void<PD>::value) return 0;
    else return t.get_private_data()->tag;
  }
  bool kill(ST st, bool force) override { return t.kill(st, force); }
  FBase *attach(int k) override { return attach_to(t, k); }
  bool is_task() override { return true; }
};
template <class R>
static FBase *wrap(callable<R> &&c) { return new FC<R>(std::move(c)); }
template <class R, class PD>
static FBase *wrap(task<R, PD> &&t) {
  return new FT<R, PD>(std::move(t));
}

template <FnKind K, class T>
static FBase *attach_fn(T &t, int k) {
  Fn<K> fn(k);
  switch (F[k].at) {
    case A_CALLABLE: return wrap(t.then(std::move(fn)));
    case A_TASK_PRIV: return wrap(t.then(fn, Priv(50 + k)));
    default: return wrap(t.then(std::move(fn), nullptr));
  }
}
template <class T>
static FBase *attach_to(T &t, int k) {
  switch (F[k].kind) {
    case F_VALUE: return attach_fn<F_VALUE>(t, k);
    case F_VOID: return attach_fn<F_VOID>(t, k);
    case F_CALLABLE: return attach_fn<F_CALLABLE>(t, k);
    case F_CALLABLE_VOID: return attach_fn<F_CALLABLE_VOID>(t, k);
    case F_TASK: return attach_fn<F_TASK>(t, k);
    default: return attach_fn<F_TASK_VOID>(t, k);
  }
}
template <class V>
struct PT : PBase {
  task<V> t;
  PT() : t(parent<V>()) { P.id = t.get_id(); }
  bool start() override { return t.start(); }
  bool kill(ST st, bool force) override { return t.kill(st, force); }
  int status() override { return (int)t.get_status(); }
  FBase *attach(int k) override { return attach_to(t, k); }
};

// a follow-up whose inner one has ended goes on at once
static void settle() {
  for (int k = 0; k < nf; ++k)
    if (F[k].completed() && F[k].st < (int)ST::kDone) F[k].st = (int)ST::kDone;
}
static void quiet() {
  settle();
  uint64_t h = P.ended + 2 * P.st + 16 * P.held;
  for (int k = 0; k < nf; ++k) {
    Fol &f = F[k];
    h = hash_mix(h, f.calls + 2 * f.inner + 4 * f.inner_ended + 8 * f.st + 128 * f.dropped + 256 * f.killed + 512 * (f.on + 1));
    if (!f.used) continue;
    MC_CHECK(f.calls || (!f.killed && !f.dropping), "not-called", "follow-up %d was killed or dropped and not called", k);
    MC_CHECK(f.calls || !target_ended(f), "lost", "follow-up %d is not called although its task has ended", k);
    MC_CHECK(!f.returned || f.kind < F_CALLABLE || f.inner, "not-started", "what follow-up %d returned was not started", k);
    if (f.dropped) continue;
    MC_CHECK(fp[k]->ready() == f.completed(), "ready", "follow-up %d is %sready, called %d", k, fp[k]->ready() ? "" : "not ", f.calls);
    MC_CHECK(fp[k]->status() == (f.completed() || f.killed ? f.st : (int)ST::kRunning), "status", "follow-up %d has status %d, expected %d", k, fp[k]->status(), f.st);
    if (f.at == A_TASK_PRIV) MC_CHECK(fp[k]->tag() == 50 + k, "private", "follow-up %d has private data %d", k, fp[k]->tag());
    if (f.completed() && !f.killed && !(f.kind & 1)) {
      int want = (f.kind >= F_CALLABLE ? 300 : 200) + k, v = fp[k]->value();
      MC_CHECK(v == want || (f.taken && v == MOVED), "result", "follow-up %d has the value %d, expected %d", k, v, want);
    }
  }
  if (P.held) MC_CHECK(pp->status() == P.st, "task-status", "the task has status %d, expected %d", pp->status(), P.st);
  state(h);
}

static bool other_ok(int k, int self) {  // does dropping follow-up k leave what is executing alone?
  if (F[k].executing || F[k].dropping) return false;
  for (int j = F[k].on; j >= 0; j = F[j].on)
    if (F[j].executing || F[j].dropping) return F[j].used && !F[j].dropped && !F[j].dropping;
  (void)self;
  return true;
}

static Op pick(int self) {
  if (ops_left <= 0) return {END, 0, 0};
  Op o[40];
  int n = 0;
  o[n++] = {END, 0, 0};
  bool in = self >= 0;
  if (P.held) {
    if (!in && !P.started) o[n++] = {START, 0, 0};
    if (nf < param(1)) o[n++] = {ATTACH, 0, 0};
    if (!in || P.ended) o[n++] = {KILLP, 0, 0}, o[n++] = {KILLP, 0, 1};
    o[n++] = {DROPP, 0, 0};
  }
  for (int k = 0; k < nf; ++k) {
    if (!F[k].used || F[k].dropped || !fp[k]) continue;
    if (fp[k]->is_task() && nf < param(1)) o[n++] = {CHAIN, k, 0};
    if (!F[k].executing && !F[k].dropping) o[n++] = {KILLF, k, 0}, o[n++] = {KILLF, k, 1};
    if (other_ok(k, self)) o[n++] = {DROPF, k, 0};
  }
  for (int e = 0; e <= NF; ++e)
    if (ev[e] && (!in || e != self)) o[n++] = {EVENT, e, 0};
  int c = choose(n, "operation");
  if (o[c].k != END) {
    log("%*s%s %d %d", depth_in * 2, "", NAME[o[c].k], o[c].a, o[c].x);
    --ops_left;
    step();
  }
  return o[c];
}

static bool waits_for(int k, int j) {  // does k wait, through others, for j
  for (int i = k; i >= 0; i = F[i].on)
    if (i == j) return true;
  return false;
}

static void perform(const Op &o, int self) {
  switch (o.k) {
    case START: {
      bool want = P.st == (int)ST::kCreated;
      P.started = true;
      if (want) P.st = (int)ST::kRunning;
      bool r = pp->start();
      MC_CHECK(r == want, "start", "start returned %d", r);
      break;
    }
    case EVENT: {
      auto h = ev[o.a];
      h.resume();
      break;
    }
    case ATTACH:
    case CHAIN: {
      int k = nf++;
      Fol &f = F[k];
      f = Fol();
      f.used = true, f.kind = combo[k] % F_KINDS, f.at = combo[k] / F_KINDS, f.on = o.k == ATTACH ? -1 : o.a;
      f.st = (int)ST::kRunning;
      fp[k] = nullptr;
      settle();
      bool now = target_ended(f) || target_status(f) >= (int)ST::kDone;
      fp[k] = f.on < 0 ? pp->attach(k) : fp[f.on]->attach(k);
      MC_CHECK((f.calls == 1) == now || f.calls == (target_ended(f) ? 1 : 0), "attach", "follow-up %d was called %d times", k, f.calls);
      if (now) {
        MC_CHECK(f.calls == 1, "attach-late", "follow-up %d of a task which has ended is not called", k);
        goal(0);
      }
      if (auto *t = dynamic_cast<FT<Val, Priv> *>(fp[k])) f.id = t->t.get_id();
      if (auto *t = dynamic_cast<FT<void, Priv> *>(fp[k])) f.id = t->t.get_id();
      if (auto *t = dynamic_cast<FT<Val, void> *>(fp[k])) f.id = t->t.get_id();
      if (auto *t = dynamic_cast<FT<void, void> *>(fp[k])) f.id = t->t.get_id();
      break;
    }
    case KILLP: {
      bool can = P.st < (int)ST::kDone;
      if (can) P.st = o.x ? (int)ST::kTimeout : (int)ST::kKilled;
      bool r = pp->kill(o.x ? ST::kTimeout : ST::kKilled, o.x);
      MC_CHECK(r == can, "kill", "kill of the task returned %d", r);
      break;
    }
    case KILLF: {
      Fol &f = F[o.a];
      settle();
      bool can = !f.killed && !f.completed();
      // what it waits for may just be telling its waiters, or be executing
      if (can) {
        f.killed = true, f.st = o.x ? (int)ST::kCancle : (int)ST::kKilled;
        goal(f.calls ? 3 : 2);
      }
      bool r = fp[o.a]->kill(o.x ? ST::kCancle : ST::kKilled, o.x);
      MC_CHECK(r == can, "kill-follow", "kill of follow-up %d returned %d", o.a, r);
      MC_CHECK(!can || f.completed(), "kill-end", "follow-up %d was killed and has not ended", o.a);
      break;
    }
    case DROPP: {
      P.held = false;
      PBase *p = pp;
      pp = nullptr;
      delete p;
      break;
    }
    case DROPF: {
      Fol &f = F[o.a];
      if (!f.completed()) goal(4);
      settle();
      f.dropped = true;
      FBase *p = fp[o.a];
      fp[o.a] = nullptr;
      for (int j = o.a; j >= 0; j = F[j].on) {  // the references it holds go too
        bool last = F[j].dropped;
        for (int i = 0; i < nf; ++i) last = last && !(F[i].used && F[i].on == j && !(F[i].dropped && F[i].dropping));
        if (!last) break;
        F[j].dropping = true;
        if (!F[j].completed() && F[j].st < (int)ST::kDone) F[j].killed = true, F[j].st = (int)ST::kKilled;
      }
      delete p;
      break;
    }
    default: break;
  }
  settle();
}

static void run() {
  P = Par();
  for (int k = 0; k < NF; ++k) F[k] = Fol(), fp[k] = nullptr, ev[k] = nullptr;
  ev[NF] = nullptr;
  nf = depth_in = 0;
  vals_alive = priv_alive = fns_alive = 0;
  ops_left = depth();
  bool none = param(0) == 1 || (param(0) == 2 && choose(2, "without value"));
  for (int k = 0; k < NF; ++k) combo[k] = 0;
  for (int k = 0; k < param(1); ++k) combo[k] = param(2) ? choose(F_KINDS * A_KINDS, "combination") : choose(A_KINDS, "made of it") * F_KINDS + (choose(2, "coroutine") ? (k & 1 ? F_TASK : F_CALLABLE) : F_VALUE);
  P.held = true, P.st = (int)ST::kCreated;
  if (none) pp = new PT<void>();
  else pp = new PT<Val>();
  while (ops_left > 0) {
    Op o = pick(-1);
    if (o.k == END) break;
    perform(o, -1);
    quiet();
  }
  ops_left = 0;
  int order = choose(2, "order of destruction");
  if (order && P.held) perform({DROPP, 0, 0}, -1), quiet();
  for (int i = 0; i < nf; ++i) {
    int k = order ? nf - 1 - i : i;
    if (!F[k].dropped) perform({DROPF, k, 0}, -1), quiet();
  }
  if (P.held) perform({DROPP, 0, 0}, -1);
  MC_CHECK(P.ended, "never-ended", "the task was never finished");
  for (int k = 0; k < nf; ++k) MC_CHECK(F[k].calls == 1 && F[k].completed(), "never-called", "follow-up %d: %d calls", k, F[k].calls);
  MC_CHECK(vals_alive == 0, "values", "%d values were not destroyed", vals_alive);
  MC_CHECK(fns_alive == 0, "functions", "%d function objects were not destroyed", fns_alive);
  MC_CHECK(priv_alive == 0, "private-leak", "%d private data were not destroyed", priv_alive);
  check_no_leak("leak");
}
static const Scenario LIST[] = {
    {"one", run, 6, 8, -1, -1, false, "one follow-up, every combination of types", {2, 1, 1}, {"called at once", "inner one waits", "killed waiting for the task", "killed waiting for the inner one", "dropped unfinished", "-", "acted inside"}},
    {"two", run, 5, 6, -1, -1, false, "two follow-ups of a task or of each other", {2, 2, 0}, {"called at once", "inner one waits", "killed waiting for the task", "killed waiting for the inner one", "dropped unfinished", "follow-up of a follow-up", "acted inside"}},
    {"types", run, 3, 4, -1, -1, false, "two follow-ups, every combination of types", {2, 2, 1}, {"called at once", "inner one waits", "killed waiting for the task", "-", "dropped unfinished", "follow-up of a follow-up", "acted inside"}},
};
MC_MAIN(LIST)
