// C++20 coroutines: callables, generators and tasks.  Every sequence of operations on up to three callables, tasks and
// generators, from outside and from inside their bodies, which may wait for each other.  Shared by C17, C18 and C19.
//
// Assumed of the user: a coroutine is not destroyed (or resumed by force) while its own body is executing, and nobody
// kills or drops the one that waits for the body being executed and owns it; bodies do not wait for each other in a circle.
#pragma once
#include <mc.h>
#include <libcopp/coroutine/callable_promise.h>
#include <libcopp/coroutine/generator_promise.h>
#include <libcotask/task_promise.h>
#include <libcotask/task_manager.h>
#include <libcotask/task.h>
#include <utility>
#include <optional>
#include <coroutine>
using namespace mc;
using copp::promise_status;
using ST = promise_status;

enum { MOVED = -777, NONE = -778, FREED = -779 };
static int vals_alive, priv_alive;
struct Val {  // not trivially copyable: can be seen to be moved or copied
  int v;
  Val() : v(NONE) { ++vals_alive; }
  explicit Val(int x) : v(x) { ++vals_alive; }
  explicit Val(ST s) : v(-1000 - (int)s) { ++vals_alive; }  // not what the given transformation makes of it
  Val(const Val &o) : v(o.v) { ++vals_alive; }
  Val(Val &&o) noexcept : v(o.v) { o.v = MOVED, ++vals_alive; }
  Val &operator=(const Val &o) { v = o.v; return *this; }
  Val &operator=(Val &&o) noexcept {
    if (this != &o) v = o.v, o.v = MOVED;
    return *this;
  }
  ~Val() { v = FREED, --vals_alive; }
};
struct Err {  // the error transformation of all of them
  Val operator()(ST s) const { return Val(-(int)s); }
};
struct Priv {
  int tag;
  Priv() : tag(0) { ++priv_alive; }
  Priv(const Priv &o) : tag(o.tag) { ++priv_alive; }
  ~Priv() { --priv_alive; }
};
#ifdef VOID20  // no values
using VT = void;
using PT = void;  // nor private data of tasks
enum { KNOWN = 0 };
#define AWAIT(v, e) co_await e
#define SETV(c, n) (c)->set_value()
#else
using VT = Val;
using PT = Priv;
enum { KNOWN = 1 };
#define AWAIT(v, e)      \
  do {                   \
    Val r = co_await e;  \
    v = r.v;             \
  } while (0)
#define SETV(c, n) (c)->set_value(Val(10 + (n)))
#endif
#ifdef VOID20
using callable = copp::callable_future<VT>;
using task = cotask::task_future<VT, PT>;
using gen = copp::generator_future<VT>;
#else
using callable = copp::callable_future<VT, Err>;
using task = cotask::task_future<VT, PT, Err>;
using gen = copp::generator_future<VT, Err>;
#endif

enum Wait { W_NO, W_BODY, W_GEN, W_RAW, W_SF };
#ifndef MAXBODY
#define MAXBODY 30
#endif
enum { MAXB = MAXBODY, SLOTS = 3, MAXG = 30, MAXS = 20 };
struct B {
  bool is_task, started, ended, gone, executing;
  int owner;  // body which waits for this temporary
  Wait wait;
  int on;  // body or generator it waits for
  bool pending;  // the other one had not been finished when the waiting began
  bool due;      // the other one has finished, or this one was killed: it must go on
  int st;        // model of the status
  unsigned may;  // statuses it may have got through somebody else
  int ret;
  bool taken;  // somebody has got the value
  int copies;  // handles in slots
  int thens;
  int opseq;
  bool was_ready;  // what it waits for had finished before
  int mid;         // calls in progress which may have resumed it
  unsigned marks;  // whom it marked so
  int mgr;         // manager it is in, -1: none
  long long deadline;  // 0: none
  uint64_t id;
  int extra;  // handles of managers during calls
};
using manager = cotask::task_manager<task>;
struct M {
  bool alive;
  int calls, resetting, ticking;
  long long last, now;  // last tick; the one in progress
};
static M m[2];
static manager **MG;
static unsigned mmask;
static int mflags;  // 1: small steps around the deadlines
struct G {
  bool ready, gone, taken;
  int v, held;
  int suspends, resumes;
};
// stackful tasks, which the others may wait for
using stackful = cotask::task<>;
struct S {
  stackful *p;
  int st;     // model of the status
  int refs;   // 0: it is being destroyed or has been
  bool entered, ended, running;
  int ret;
};
static S s[MAXS];
static int ns;
static stackful::ptr_type *SP;
static int sid[2];
static B b[MAXB];
static G g[MAXG];
static int nb, ng, ops_left, opseq, on_stack, in_drop;
static std::optional<callable> *C;  // slots
static int cid[SLOTS];
static std::optional<task> *H;
static int hid[SLOTS];
static std::optional<gen> *Q;
static int qid[2];
static std::coroutine_handle<> raw[MAXB];
static bool raw_killed_ok;
struct Then {
  bool used, dropped;
  int target, calls, v;
  std::optional<copp::callable_future<VT>> c;
  std::optional<cotask::task_future<VT, void>> t;
};
static Then *TH;
static int nth;

enum Kind { NEWC, NEWT, NEWG, START, KILL, KILLF, DROPC, DROPT, COPYT, MOVEC, SWAPT, ASSIGNT, SET, UNSET, DROPG, COPYG, ASSIGNG, RAW, THENC, THENT, DROPTH, NEWS, SSTART, SKILL, SDROP, AWAITC, AWAITT, AWAITG, AWAITS, AWAITN, WAITRAW, RET, NEWM, DROPM, RESET, ADD, REMOVE, MSTART, MCANCEL, MKILL, SETTIME, TICK };
static const char *const NAME[] = {"new callable", "new task", "new generator", "start", "kill", "kill by force", "drop callable", "drop task handle", "copy task handle", "move callable", "move task handle", "assign task handle",
                                   "set generator", "unset generator", "drop generator", "copy generator", "assign generator", "resume raw", "then (callable)", "then (task)", "drop then",
                                   "new stackful task", "start stackful task", "kill stackful task", "drop stackful task", "await callable", "await task",
                                   "await generator", "await stackful task", "await a new callable", "await raw event", "return",
                                   "new manager", "drop manager", "reset manager", "add", "remove by id", "start by id", "cancel by id", "kill by id", "set timeout", "tick"};
#define MBIT(k) (1u << ((k)-NEWM))
#define BIT(k) (1u << (k))
static unsigned mask;
static int nslot, ngslot, tflags;
static int hook;  // 0: suspend hook only counts; 1: it may set the value; 2: it may perform any operation

// --- the model ------------------------------------------------------------------------------------------------------
static unsigned mark(int i) {  // i and whom it waits for may be resumed by the call which begins
  unsigned m = 0;
  for (;;) {
    if (m >> i & 1) break;
    m |= 1u << i;
    ++b[i].mid;
    if (b[i].wait != W_BODY) break;
    i = b[i].on;
  }
  return m;
}
static void unmark(unsigned m) {
  for (int k = 0; k < nb; ++k)
    if (m >> k & 1) --b[k].mid;
}
struct Mid {
  unsigned m;
  explicit Mid(int i) : m(mark(i)) {}
  ~Mid() { unmark(m); }
};
static bool busy(int i);
static bool owns_busy(int i);
static bool busy(int i) {  // executing, or it owns (through temporaries) somebody who is
  if (b[i].executing || b[i].mid || owns_busy(i)) return true;
  for (int k = 0; k < nb; ++k)
    if (b[k].wait == W_BODY && b[k].on == i && b[k].mid) return true;
  return false;
}
static bool owns_busy(int i) {
  for (int j = i, n = 0; n < MAXB && b[j].wait == W_BODY; ++n) {  // it waits, through callables, for the one which is executing
    j = b[j].on;
    if (b[j].is_task) break;
    if (b[j].executing) return true;
  }
  for (int k = 0; k < nb; ++k)
    if (b[k].owner == i && !b[k].gone && busy(k)) return true;
  return false;
}
// the callables which get killed with i, because it waits for them
static void spread(int i, int s) {
  for (int n = 0; n < MAXB; ++n) {
    B &x = b[i];
    if (x.wait != W_BODY || b[x.on].is_task) return;
    i = x.on;
    b[i].may |= 1u << s;
  }
}
static bool killed(const B &x) { return x.st > (int)ST::kDone; }
static void sync(int i, int s) {  // the status was observed
  B &x = b[i];
  if (s == x.st) return;
  if (x.st < (int)ST::kDone && s > (int)ST::kDone && (x.may >> s & 1)) {
    x.st = s;
    spread(i, s);
    return;
  }
  if (x.ended && x.st == (int)ST::kRunning && s == (int)ST::kDone) {
    x.st = s;
    return;
  }
  fail("status", "the status of %s %d is %d, it should be %d", x.is_task ? "task" : "callable", i, s, x.st);
}
static bool reaches(int i, int j) {  // i waits, through others, for j
  for (int n = 0; n < MAXB; ++n) {
    if (i == j) return true;
    for (int k = 0; k < nb; ++k)
      if (b[k].owner == i && !b[k].gone && !(b[i].wait == W_BODY && b[i].on == k) && reaches(k, j)) return true;
    if (b[i].wait != W_BODY) return false;
    i = b[i].on;
  }
  return false;
}
static int gid_of(const void *ctx);
struct Op {
  Kind k;
  int a, x;
};
static Op pick(int self);
static bool perform(const Op &o, int self);
static void due_of(Wait w, int on) {
  for (int k = 0; k < nb; ++k)
    if (b[k].wait == w && b[k].on == on) b[k].due = true;
}

// --- bodies ---------------------------------------------------------------------------------------------------------
static void quiet();

struct Frame {
  int i;
  explicit Frame(int n) : i(n) {
    B &x = b[i];
    MC_CHECK(!x.started, "twice", "the body of %d is run a second time", i);
    x.started = true;
    go();
    if (x.st == (int)ST::kCreated) x.st = (int)ST::kRunning;
  }
  void go() {
    MC_CHECK(!b[i].executing, "recursion", "the body of %d is resumed while it is executing", i);
    MC_CHECK(!b[i].gone, "resumed-dead", "the body of %d is resumed after its end", i);
    b[i].executing = true;
    ++opseq;
    ++on_stack;
  }
  void away() { b[i].executing = false, --on_stack; }
  ~Frame() {
    B &x = b[i];
    if (x.executing) away();
    MC_CHECK(x.ended, "cut", "the body of %d is destroyed before its end", i);
    MC_CHECK(!x.gone, "destroyed-twice", "the locals of %d are destroyed twice", i);
    x.gone = true;
    log("%d ended", i);
  }
};
struct Raw {  // an event of the user: knows nothing about killing
  int i;
  bool await_ready() const noexcept { return false; }
  void await_suspend(std::coroutine_handle<> h) const noexcept { raw[i] = h; }
  void await_resume() const noexcept { raw[i] = nullptr; }
};
template <class R>
static R body(int i);
static callable make(int *id, int owner) {
  if (nb >= MAXB) prune();
  *id = nb++;
  b[*id].owner = owner, b[*id].st = (int)ST::kCreated, b[*id].mgr = -1;
  return body<callable>(*id);
}
static void wait_begin(int i, Wait w, int on, bool ready) {
  B &x = b[i];
  x.wait = w, x.on = on, x.pending = !ready && !killed(x), x.due = false;
  x.was_ready = w == W_GEN || w == W_SF ? ready : w == W_BODY && b[on].ended;
  x.marks = w == W_BODY && (killed(x) || x.may || killed(b[on]) || b[on].may) ? mark(i) : 0;  // the other one may be driven to its end here
  if (w == W_BODY && !b[on].is_task && killed(x) && !b[on].ended) {  // a killed one takes the callable it waits for along
    b[on].may |= 1u << x.st;
    b[on].may |= 1u << (int)ST::kKilled;
    spread(on, x.st);
    spread(on, (int)ST::kKilled);
  }
  x.opseq = ++opseq;
}
// returns whether it got a value of a finished body or generator
static void wait_end(int i, int v, int st) {
  B &x = b[i];
  sync(i, st);
  bool k = killed(x);
  if (x.wait == W_BODY) {
    B &y = b[x.on];
    log("%d goes on with %d from %d", i, v, x.on);
    MC_CHECK(y.ended || k || killed(y) || y.may, "spurious", "%d goes on although %d has not finished", i, x.on);
    if (k && !y.is_task && x.pending)  // it is taken along
      MC_CHECK(y.ended || y.executing || y.due || (y.wait != W_GEN && y.wait != W_SF), "left-waiting", "%d was killed and %d, for which it waited, still waits", i, x.on);
    if (!KNOWN) {
    } else if (y.ended && !k && (x.pending || !y.taken)) {
      MC_CHECK(v == y.ret, "value", "%d got %d from %d which returned %d", i, v, x.on, y.ret);
      y.taken = true;
    } else if (y.ended) {
      MC_CHECK(v == y.ret || v == MOVED || (k && v < 0 && v >= -6), "value", "%d got %d from %d which returned %d", i, v, x.on, y.ret);
      if (v == y.ret) y.taken = true;
    } else
      MC_CHECK(v < 0 && v >= -6, "error-value", "%d got %d from %d which has not returned", i, v, x.on);
  } else if (x.wait == W_GEN) {
    G &y = g[x.on];
    log("%d goes on with %d from generator %d", i, v, x.on);
    MC_CHECK(y.ready || k, "spurious", "%d goes on although generator %d has no value", i, x.on);
    if (!KNOWN) {
    } else if (y.ready && (x.pending || !y.taken)) {
      MC_CHECK(v == y.v, "value", "%d got %d from generator %d which has %d", i, v, x.on, y.v);
      y.taken = true;
    } else if (y.ready) {
      MC_CHECK(v == y.v || v == MOVED, "value", "%d got %d from generator %d which has %d", i, v, x.on, y.v);
      if (v == y.v) y.taken = true;
    } else
      MC_CHECK(x.pending ? v == -st : v < 0 && v >= -6, "error-value", "%d, killed with %d, got %d", i, st, v);
  } else if (x.wait == W_SF) {
    S &y = s[x.on];
    log("%d goes on with %d from stackful task %d", i, v, x.on);
    MC_CHECK(y.ended || y.st >= cotask::EN_TS_DONE || y.refs == 0 || k, "spurious", "%d goes on although stackful task %d has not ended", i, x.on);
    if (y.ended && y.st <= cotask::EN_TS_DONE && (x.pending || !k))
      MC_CHECK(v == y.ret || (k && v < 0), "value", "%d got %d from stackful task %d which returned %d", i, v, x.on, y.ret);
    else
      MC_CHECK(v < 0 || (k && y.ended && v == y.ret), "error-value", "%d got %d from stackful task %d, status %d", i, v, x.on, y.st);
    goal(14);
  } else
    log("%d goes on after its event", i);
  unmark(x.marks);
  if (x.was_ready) MC_CHECK(x.opseq + 1 == opseq, "suspended-ready", "%d was suspended by something finished", i);
  x.wait = W_NO;
  x.due = false;
}

// a reference to a stackful task goes away
static void unref(int j, stackful::ptr_type &p) {
  S &y = s[j];
  if (y.refs == 1 && !y.ended) {
    if (y.st == cotask::EN_TS_WAITING) y.st = cotask::EN_TS_TIMEOUT, goal(16);
    else goal(15), due_of(W_SF, j);
  }
  --y.refs;
  bool last = y.refs == 0, in = y.entered;
  p.reset();
  if (last) MC_CHECK(y.ended == in, "drop-unfinished", "stackful task %d was dropped and its body has not ended", j);
}
static int stackful_body(int j) {
  S &y = s[j];
  MC_CHECK(!y.entered, "twice", "the body of stackful task %d is run a second time", j);
  y.entered = true;
  log("stackful task %d begins", j);
  for (;;) {
    MC_CHECK(!y.running, "recursion", "stackful task %d is resumed while it is executing", j);
    y.running = true;
    ++opseq, ++on_stack;
    Op o{RET, 0, 0};
    for (;;) {
      o = pick(-10 - j);
      if (o.k == RET) break;
      perform(o, -10 - j);
    }
    --on_stack;
    y.running = false;
    if (!o.x) break;
    int r = y.p->yield();
    MC_CHECK(r == 0, "yield", "yield returned %d", r);
  }
  y.ended = true;
  if (y.st == cotask::EN_TS_RUNNING) y.st = cotask::EN_TS_DONE;
  y.ret = 1000 + j;
  log("stackful task %d returns %d", j, y.ret);
  due_of(W_SF, j);
  return y.ret;
}

template <class R>
static R body(int i) {
  Frame f(i);
  log("%s %d begins", b[i].is_task ? "task" : "callable", i);
  if constexpr (std::is_same<R, task>::value) {
#ifndef VOID20
    Priv *p = co_yield task::yield_private_data();
    MC_CHECK(p && p->tag == i + 100, "private-data", "task %d does not get its private data", i);
#endif
    uint64_t id = co_yield task::yield_task_id();
    MC_CHECK(id != 0 && (!b[i].id || id == b[i].id), "task-id", "task %d gets id %d, has %d", i, (int)id, (int)b[i].id);
  }
  for (;;) {
    ST s0 = co_yield R::yield_status();
    sync(i, (int)s0);
    Op o = pick(i);
    int j, v = 0;
    std::optional<callable> tmp;
    if (o.k == RET) break;
    switch (o.k) {
      case AWAITC: {
        j = cid[o.a];
        wait_begin(i, W_BODY, j, b[j].ended || killed(b[j]) || b[j].may);
        f.away();
        AWAIT(v, *C[o.a]);
        f.go();
        break;
      }
      case AWAITT: {
        j = hid[o.a];
        wait_begin(i, W_BODY, j, b[j].ended || killed(b[j]) || b[j].may);
        f.away();
        AWAIT(v, *H[o.a]);
        f.go();
        break;
      }
      case AWAITG: {
        j = qid[o.a];
        wait_begin(i, W_GEN, j, g[j].ready);
        f.away();
        AWAIT(v, *Q[o.a]);
        f.go();
        break;
      }
      case AWAITS: {
        j = sid[o.a];
        stackful::ptr_type hold, own = o.x & 1 ? SP[o.a] : stackful::ptr_type();  // it may hold the task
        if (own) ++s[j].refs;
        stackful *p = s[j].p;
        wait_begin(i, W_SF, j, s[j].st >= cotask::EN_TS_DONE);
        f.away();
        if (own) v = co_await own;
        else v = co_await *p;
        f.go();
        ST st = co_yield R::yield_status();
        wait_end(i, v, (int)st);
        if (own) unref(j, own);
        continue;
      }
      case AWAITN: {
        int n = 0;
        tmp.emplace(make(&n, i));
        if ((killed(b[i]) || b[i].may) && busy(n)) prune();
        wait_begin(i, W_BODY, n, b[n].ended || killed(b[n]) || b[n].may);
        f.away();
        AWAIT(v, *tmp);
        f.go();
        break;
      }
      case WAITRAW:
        wait_begin(i, W_RAW, i, false);
        f.away();
        co_await Raw{i};
        f.go();
        break;
      default: perform(o, i); continue;
    }
    ST s = co_yield R::yield_status();
    wait_end(i, v, (int)s);
  }
  B &x = b[i];
  ST s = co_yield R::yield_status();
  sync(i, (int)s);
  x.ret = 100 * (i + 1) + opseq % 100;
  x.ended = true;
  x.mgr = -1;
  log("%d returns %d", i, x.ret);
  due_of(W_BODY, i);
  if (x.st < (int)ST::kDone) x.st = (int)ST::kDone;
#ifdef VOID20
  co_return;
#else
  co_return Val(x.ret);
#endif
}

// --- operations -----------------------------------------------------------------------------------------------------
static bool quiet_now() { return on_stack == 0; }
static int handles(int i) {  // which surely exist
  int n = b[i].mgr >= 0;
  for (int k = 0; k < SLOTS; ++k) n += hid[k] == i;
  for (int k = 0; k < nth; ++k) n += TH[k].used && !TH[k].dropped && TH[k].target == i;
  return n;
}
static bool is_last(int i) { return handles(i) == 1 && b[i].extra == 0; }
static void maybe_last(int i) {
  if (handles(i) == 1 && b[i].extra) {
    b[i].may |= 1u << (int)ST::kKilled;
    spread(i, (int)ST::kKilled);
  }
}
static bool gen_last(int a) {
  for (int k = 0; k < 2; ++k)
    if (k != a && qid[k] == qid[a]) return false;
  return true;
}
static bool leaving(int i) {  // its manager lets go of it some time during the tick in progress
  const B &x = b[i];
  return x.mgr >= 0 && m[x.mgr].ticking && x.deadline && x.deadline < m[x.mgr].now;
}
static bool can_drop(int i) { return !owns_busy(i) && (handles(i) - leaving(i) > 1 || !busy(i)); }
static long long span() { return mflags & 1 ? 1500000000LL : 5000000000LL; }  // timeout used, in ns
static int times(const M &y, long long *t) {
  if (!y.last) {
    t[0] = mflags & 1 ? 7600000000LL : 7000000000LL;
    return 1;
  }
  if (!(mflags & 1)) {
    t[0] = y.last + 6000000000LL;
    return 1;
  }
  t[0] = y.last + span();
  t[1] = y.last + span() + 1;
  return 2;
}
static Op pick(int self) {
  Op o[64];
  int n = 0;
  if (is_history() && (nb > MAXB - 4 || ng > MAXG - 4 || ns > MAXS - 4 || nth > MAXB - 4)) ops_left = 0;
  if (ops_left <= 0) return {RET, 0, 0};
  auto add = [&](Kind k, int a, int x = 0) {
    if (k < RET ? (mask >> k & 1) == 0 : k > RET && (mmask >> (k - NEWM) & 1) == 0) return;
    if (n < 64) o[n++] = {k, a, x};
  };
  if (self != -1 || !is_history()) add(RET, 0);  // outside: the end
  if (self <= -10) add(RET, 0, 1);  // yield
  int fc = -1, fh = -1, fq = -1;
  for (int k = nslot - 1; k >= 0; --k) {
    if (cid[k] == -1) fc = k;
    if (hid[k] < 0) fh = k;
  }
  for (int k = ngslot - 1; k >= 0; --k)
    if (qid[k] < 0) fq = k;
  if (fc >= 0 && nb < MAXB) add(NEWC, fc);
  if (fh >= 0 && nb < MAXB) {
    if (!(tflags & 4)) add(NEWT, fh);
    if (tflags & 1) add(NEWT, fh, 1);  // and start it
  }
  if (fq >= 0 && ng < MAXG) add(NEWG, fq);
  for (int k = 0; k < nslot; ++k) {
    if (cid[k] >= 0) {
      int i = cid[k];
      if (!owns_busy(i)) {
        add(KILL, k, (int)ST::kTimeout);
        if (!b[i].executing && !b[i].ended) add(KILLF, k, (int)ST::kKilled);
      }
      if (!busy(i)) add(DROPC, k), add(MOVEC, k);
      if (self >= 0 && !reaches(i, self) && !((killed(b[i]) || b[i].may || killed(b[self])) && busy(i))) add(AWAITC, k);
    }
    if (hid[k] >= 0) {
      int i = hid[k];
      if (!b[i].started && !b[i].executing) add(START, k);
      else if (!b[i].executing && (tflags & 2)) add(START, k, 1);
      if (!owns_busy(i)) {
        add(KILL, k + 10, (int)ST::kCancle);
        if (!b[i].executing && !b[i].ended) add(KILLF, k + 10, (int)ST::kKilled);
      }
      if (handles(i) - leaving(i) > 1 || !busy(i)) add(DROPT, k);
      if (fh >= 0) add(COPYT, k, fh);
      if (fh >= 0) add(SWAPT, k, fh);
      for (int j = 0; j < nslot; ++j)
        if (hid[j] >= 0 && (j != k || nslot == 1) && can_drop(hid[j])) add(ASSIGNT, k, j), add(ASSIGNT, k, j | 16);
      if (self >= 0 && !reaches(i, self)) add(AWAITT, k);
      if (nth < 2) add(THENC, k), add(THENT, k);
    }
  }
  for (int k = 0; k < nth; ++k)
    if (TH[k].used && !TH[k].dropped && (handles(TH[k].target) - leaving(TH[k].target) > 1 || !busy(TH[k].target))) add(DROPTH, k);
  for (int k = 0; k < ngslot; ++k)
    if (qid[k] >= 0) {
      if (!g[qid[k]].ready) add(SET, k), add(SET, k, 1);
      else add(UNSET, k);
      add(DROPG, k);
      if (fq >= 0) add(COPYG, k, fq);
      else if (ngslot > 1) add(ASSIGNG, k, 0), add(ASSIGNG, k, 1);
      if (self >= 0) add(AWAITG, k);
    }
  if (mask & BIT(NEWS))
    for (int k = 0; k < 2; ++k) {
      if (sid[k] < 0) {
        if (ns < MAXS && (k == 0 || sid[0] >= 0)) add(NEWS, k);
        continue;
      }
      S &y = s[sid[k]];
      if (!y.refs) continue;
      add(SSTART, k), add(SKILL, k), add(SKILL, k, 1);
      add(SDROP, k);
      if (self >= 0) add(AWAITS, k), add(AWAITS, k, 1);
    }
  for (int k = 0; k < nb; ++k)
    if (raw[k] && b[k].wait == W_RAW && !b[k].executing) add(RAW, k);
  if (self >= 0) add(AWAITN, 0), add(WAITRAW, 0);
  if (mmask)
    for (int k = 0; k < 2; ++k) {
      M &y = m[k];
      if (!y.alive) {
        if (!(in_drop >> k & 1)) add(NEWM, k);
        continue;
      }
      bool all = true;  // all tasks in it may be killed and dropped
      bool due = true;  // those whose time has come by then
      long long t[3];
      int nt = times(y, t);
      for (int i = 0; i < nb; ++i)
        if (b[i].mgr == k && !can_drop(i)) {
          all = false;
          if (b[i].deadline && b[i].deadline < t[nt - 1] && y.last) due = false;
        }
      if (all && !y.calls) add(DROPM, k);
      if (all && !y.ticking) add(RESET, k);
      if (due && !y.ticking)
        for (int j = 0; j < nt; ++j) add(TICK, k, j);
      for (int i = 0; i < nb; ++i) {
        B &x = b[i];
        if (!x.is_task || x.extra) continue;
        int slot = -1;
        for (int j = 0; j < nslot; ++j)
          if (hid[j] == i) slot = j;
        if (slot >= 0 && (x.mgr < 0 || k == 0 || !y.ticking)) {
          if (!x.may) add(ADD, k * 16 + slot, 0);
          if (!x.may && (mmask & MBIT(TICK)) && (!y.ticking || can_drop(i))) add(ADD, k * 16 + slot, 1);
        }
        if (x.mgr >= 0 && k == 0) {
          bool fires = leaving(i);
          if (fires) continue;
          if (!x.started && !x.ended && !x.executing) add(MSTART, i);
          if (can_drop(i)) add(REMOVE, i), add(MCANCEL, i), add(MKILL, i);
          if (!m[x.mgr].ticking || can_drop(i)) add(SETTIME, i, 0), add(SETTIME, i, 1);
        } else if (x.mgr < 0 && slot >= 0 && !owns_busy(i)) {  // absent
          if (mflags & 2) add(REMOVE, i, k + 1), add(MCANCEL, i, k + 1), add(MKILL, i, k + 1), add(MSTART, i, k + 1), add(SETTIME, i, k + 2);
        }
      }
    }
  if (!n) return {RET, 0, 0};
  int c = choose(n, "operation");
  if (o[c].k != RET || self >= 0) log("%*s%s%d: %s %d %d", on_stack * 2, "", self >= 0 ? "by " : "outside ", self, NAME[o[c].k], o[c].a, o[c].x);
  if (self < 0 && o[c].k == RET && !o[c].x) return o[c];
  --ops_left;
  ++opseq;
  step();
  return o[c];
}
static void do_kill(int i, bool is_task, int slot, int s, bool force) {
  B &x = b[i];
  ST cur = is_task ? H[slot]->get_status() : C[slot]->get_status();
  sync(i, (int)cur);
  bool can = x.st < (int)ST::kDone && !x.ended;
  bool waits = x.wait == W_BODY || x.wait == W_GEN || x.wait == W_SF || (force && x.wait == W_RAW) || (force && is_task && !x.started);
  if (waits && x.wait == W_BODY && x.due) waits = false;  // about to go on
  bool ex = x.executing;
  int was = x.opseq;
  if (can) {
    x.st = s;
    spread(i, s);
    if (waits && x.started) x.due = true;
  }
  bool r;
  Mid mid(i);
  if (is_task) {
    if (s == (int)ST::kCancle && !force) r = H[slot]->cancel();
    else if (s == (int)ST::kKilled && force) r = H[slot]->kill(true);
    else r = H[slot]->kill((ST)s, force);
  } else
    r = C[slot]->kill((ST)s, force);
  MC_CHECK(r == can, "kill-result", "killing %d reported %d, status %d", i, r, (int)cur);
  if (can && waits && !ex) MC_CHECK(x.ended || x.wait == W_NO || x.opseq != was || x.executing || (is_task && !x.started && false), "kill-ignored", "%d was waiting and is still waiting for it after it was killed", i);
  goal(0);
}
static void drop_task(int i, bool last) {
  if (last && !b[i].ended) {
    if (b[i].st < (int)ST::kDone) b[i].st = (int)ST::kKilled, spread(i, (int)ST::kKilled), goal(1);
    b[i].due = true;
  }
}
static void dropped_task(int i, bool last) {
  if (last && !b[i].executing) MC_CHECK(b[i].ended && b[i].gone, "drop-unfinished", "task %d was dropped and its body has not ended", i);
}
static void drop_gen(int q, bool last) {
  if (last && !g[q].gone && g[q].held == 0) {
    if (!g[q].ready) g[q].ready = true, g[q].v = -(int)ST::kKilled, g[q].taken = false, goal(6);
    g[q].gone = true;
    due_of(W_GEN, q);
  }
}
static void release(int q) {  // a call with its context ends
  --g[q].held;
  drop_gen(q, qid[0] != q && qid[1] != q);
}
// task i was killed with s, if it could be, and a manager gave its handle back
static void settle(int i, int s, int mgr) {
  B &x = b[i];
  (void)mgr;
  if (handles(i) == 0 && x.extra == 0 && !x.executing) {
    MC_CHECK(x.ended && x.gone, "drop-unfinished", "the last handle of task %d was dropped and its body has not ended", i);
    return;
  }
  if (x.ended || x.st >= (int)ST::kDone) return;
  for (int k = 0; k < SLOTS; ++k)
    if (hid[k] == i) {
      int st = (int)H[k]->get_status();
      if (s >= 0 && x.mgr < 0) MC_CHECK(st >= (int)ST::kDone, "not-killed", "task %d was taken out of its manager to be killed with %d, its status is %d", i, s, st);
      sync(i, st);
      if (killed(x) && (x.wait == W_BODY || x.wait == W_GEN) && !x.executing && x.started) x.due = true;
      return;
    }
}
static void late(int i) {  // a timeout was set during a tick, which may fire yet
  B &x = b[i];
  if (x.mgr < 0) return;
  M &y = m[x.mgr];
  if (y.ticking && x.deadline && x.deadline < y.now) x.may |= 1u << (int)ST::kTimeout | 1u << (int)ST::kKilled, spread(i, (int)ST::kTimeout), spread(i, (int)ST::kKilled);
}
static bool perform(const Op &o, int self) {
  (void)self;
  switch (o.k) {
    case NEWC: {
      cid[o.a] = -2;  // being made
      int n;
      std::optional<callable> c(make(&n, -1));
      C[o.a] = std::move(c);
      cid[o.a] = n;
      break;
    }
    case NEWT: {
      int n = nb++;
      b[n].is_task = true, b[n].owner = -1, b[n].st = (int)ST::kCreated, b[n].mgr = -1;
      H[o.a].emplace(body<task>(n));
      hid[o.a] = n;
      MC_CHECK(!b[n].started, "eager-task", "the task has run before it was started");
#ifndef VOID20
      MC_CHECK(H[o.a]->get_private_data(), "private-data", "no private data");
      H[o.a]->get_private_data()->tag = n + 100;
#endif
      MC_CHECK(H[o.a]->get_id(), "task-id", "no id");
      for (int j = 0; j < n; ++j) MC_CHECK(b[j].id != H[o.a]->get_id(), "task-id", "tasks %d and %d have the same id", j, n);
      b[n].id = H[o.a]->get_id();
      if (o.x) {
        MC_CHECK(H[o.a]->start(), "start-result", "starting task %d failed", n);
        MC_CHECK(b[n].started, "not-started", "task %d was started and has not run", n);
      }
      break;
    }
    case NEWG: {
      int n = ng++;
      qid[o.a] = n;
      g[n].ready = g[n].gone = false;
      Q[o.a].emplace(
          [n](std::shared_ptr<gen::context_type> ctx) {
            ++g[n].suspends;
            ++g[n].held;
            if (hook == 2 && ops_left > 0) {
              Op o = pick(-2);
              if (o.k != RET) perform(o, -2);
            } else if (hook && ops_left > 0 && !g[n].gone && choose(2, "the hook sets the value")) {
              --ops_left, ++opseq;
              log("the hook of generator %d sets it", n);
              if (!g[n].ready) {
                g[n].ready = true, g[n].v = 10 + n, g[n].taken = false;
                due_of(W_GEN, n);
                SETV(ctx, n);
              }
            }
            release(n);
            ctx.reset();
          },
          [n](const gen::context_type &) { ++g[n].resumes; });
      break;
    }
    case START: {
      B &x = b[hid[o.a]];
      sync(hid[o.a], (int)H[o.a]->get_status());
      bool can = x.st == (int)ST::kCreated;
      bool r = H[o.a]->start();
      MC_CHECK(r == can, "start-result", "starting task %d reported %d", (int)(&x - b), r);
      if (r) MC_CHECK(x.started, "not-started", "task %d was started and has not run", (int)(&x - b));
      break;
    }
    case KILL:
    case KILLF:
      if (o.a >= 10)
        do_kill(hid[o.a - 10], true, o.a - 10, o.x, o.k == KILLF);
      else
        do_kill(cid[o.a], false, o.a, o.x, o.k == KILLF);
      break;
    case DROPC: {
      int i = cid[o.a];
      ST cur = C[o.a]->get_status();
      sync(i, (int)cur);
      if (!b[i].ended && b[i].st < (int)ST::kDone) b[i].st = (int)ST::kKilled, spread(i, b[i].st), goal(2);
      Mid mid(i);
      b[i].due = !b[i].ended;
      std::optional<callable> c(std::move(*C[o.a]));
      C[o.a].reset();
      cid[o.a] = -1;
      c.reset();
      MC_CHECK(b[i].ended && b[i].gone, "drop-unfinished", "callable %d was dropped and its body has not ended", i);
      break;
    }
    case MOVEC: {  // to the next slot: what was there is dropped
      int t = (o.a + 1) % nslot;
      if (cid[t] == -1) {
        C[t].emplace(std::move(*C[o.a]));
        C[o.a].reset();
        cid[t] = cid[o.a], cid[o.a] = -1;
        break;
      }
      int i = cid[t];
      if (i == -2 || busy(i) || t == o.a) {
        if (is_history()) break;
        prune();
      }
      sync(i, (int)C[t]->get_status());
      if (!b[i].ended && b[i].st < (int)ST::kDone) b[i].st = (int)ST::kKilled, spread(i, b[i].st);
      b[i].due = !b[i].ended;
      Mid mid(i);
      std::optional<callable> old(std::move(*C[o.a]));
      C[o.a].reset();
      int oi = cid[o.a];
      cid[o.a] = -1;
      std::optional<callable> dst(std::move(*C[t]));
      C[t].reset();
      cid[t] = -1;
      *dst = std::move(*old);
      MC_CHECK(b[i].ended && b[i].gone, "drop-unfinished", "callable %d was assigned over and its body has not ended", i);
      if (cid[t] >= 0) prune();
      C[t].emplace(std::move(*dst));
      cid[t] = oi;
      goal(3);
      break;
    }
    case DROPT: {
      int i = hid[o.a];
      bool last = is_last(i);
      maybe_last(i);
      if (last) {
        sync(i, (int)H[o.a]->get_status());
        drop_task(i, true);
      }
      Mid mid(i);
      task h = std::move(*H[o.a]);
      H[o.a].reset();
      hid[o.a] = -1;
      h.reset();
      MC_CHECK(!h.valid() && h.get_status() == ST::kInvalid, "reset-handle", "a reset handle is still valid");
      dropped_task(i, last);
      break;
    }
    case COPYT:
      H[o.x].emplace(*H[o.a]);
      hid[o.x] = hid[o.a];
      MC_CHECK(*H[o.x] == *H[o.a] && H[o.x]->get_id() == H[o.a]->get_id(), "copy", "the copy of a task handle refers to something else");
      break;
    case SWAPT: {
      task h;
      h = std::move(*H[o.a]);
      MC_CHECK(!H[o.a]->valid(), "move", "a handle that was moved from is still valid");
      H[o.a].reset();
      H[o.x].emplace(std::move(h));
      hid[o.x] = hid[o.a], hid[o.a] = -1;
      break;
    }
    case ASSIGNT: {  // over another handle, by copying or by moving
      int t = o.x & 15, i = hid[o.a], j = hid[t];
      bool mv = o.x >> 4;
      if (i == j) {  // nothing happens
        if (mv) *H[t] = std::move(*H[o.a]);
        else *H[t] = *H[o.a];
        MC_CHECK(H[o.a]->valid() && *H[t] == *H[o.a], "assign", "a handle of task %d, assigned to another one of it, is gone", i);
        break;
      }
      bool last = is_last(j);
      maybe_last(j);
      if (last) {
        sync(j, (int)H[t]->get_status());
        drop_task(j, true);
      }
      Mid mid(j);
      ++b[i].extra;
      {
        task src = std::move(*H[o.a]), dst = std::move(*H[t]);  // bodies which run meanwhile do not see the two
        H[o.a].reset(), H[t].reset();
        hid[o.a] = hid[t] = -1;
        if (mv) dst = std::move(src);
        else dst = src;
        MC_CHECK(dst.valid() && dst.get_id() == b[i].id && src.valid() == !mv, "assign", "the handle assigned to does not refer to task %d", i);
        dropped_task(j, last);
        if (hid[o.a] >= 0 || hid[t] >= 0) prune();
        if (!mv) H[o.a].emplace(std::move(src)), hid[o.a] = i;
        H[t].emplace(std::move(dst)), hid[t] = i;
      }
      --b[i].extra;
      goal(4);
      break;
    }
    case SET: {
      int q = qid[o.a];
      g[q].ready = true, g[q].v = 10 + q, g[q].taken = false;
      due_of(W_GEN, q);
      if (o.x) {  // not held by the caller
        SETV(Q[o.a]->get_context(), q);
        break;
      }
      ++g[q].held;
      auto ctx = Q[o.a]->get_context();
      SETV(ctx, q);
      release(q);
      ctx.reset();
      break;
    }
    case UNSET: {
      int q = qid[o.a];
      bool w = false;
      for (int k = 0; k < nb; ++k) w = w || (b[k].wait == W_GEN && b[k].on == q);
      if (w && is_history()) break;
      if (w) prune();  // somebody has not been woken yet
      Q[o.a]->get_context()->reset_value();
      g[q].ready = false;
      break;
    }
    case DROPG: {
      int q = qid[o.a];
      drop_gen(q, gen_last(o.a));
      qid[o.a] = -1;
      std::optional<gen> old(std::move(*Q[o.a]));
      Q[o.a].reset();
      old.reset();
      break;
    }
    case COPYG:
      Q[o.x].emplace(std::as_const(*Q[o.a]));
      qid[o.x] = qid[o.a];
      break;
    case ASSIGNG: {  // to the other slot
      int t = 1 - o.a, q = qid[t], i = qid[o.a];
      if (q == i) {
        *Q[t] = std::as_const(*Q[o.a]);
        break;
      }
      ++g[i].held;
      {
        gen src = std::move(*Q[o.a]), dst = std::move(*Q[t]);
        Q[o.a].reset(), Q[t].reset();
        qid[o.a] = qid[t] = -1;
        drop_gen(q, true);
        if (o.x) dst = std::move(src);
        else dst = std::as_const(src);
        if (qid[o.a] >= 0 || qid[t] >= 0) prune();
        if (!o.x) Q[o.a].emplace(std::move(src)), qid[o.a] = i;
        Q[t].emplace(std::move(dst)), qid[t] = i;
      }
      --g[i].held;
      goal(5);
      break;
    }
    case RAW: {
      auto h = raw[o.a];
      b[o.a].due = true;
      h.resume();
      break;
    }
    case THENC:
    case THENT: {
      int n = nth++;
      sync(hid[o.a], (int)H[o.a]->get_status());
      Then &t = TH[n];
      t.used = true, t.target = hid[o.a], t.calls = 0;
      auto called = [n](int got) {
        Then &t = TH[n];
        ++t.calls;
        t.v = got;
        log("then %d of task %d is called with %d", n, t.target, got);
        MC_CHECK(t.calls == 1, "then-twice", "then %d was called twice", n);
        B &y = b[t.target];
        MC_CHECK(y.ended || t.dropped || killed(y), "then-early", "then %d was called before task %d has ended", n, t.target);
        if (got == y.ret) y.taken = true;
        if (KNOWN && y.ended && !t.dropped) MC_CHECK(got == y.ret || (y.taken && got == MOVED), "then-value", "then %d got %d, task %d returned %d", n, got, t.target, y.ret);
      };
#ifdef VOID20
      auto fn = [called](task::context_pointer_type &&) { called(NONE); };
#else
      auto fn = [called](task::context_pointer_type &&, Val v) {
        called(v.v);
        return Val(v.v + 1);
      };
#endif
      if (o.k == THENC)
        t.c.emplace(H[o.a]->then(fn));
      else
        t.t.emplace(H[o.a]->then(fn, nullptr));
      break;
    }
    case DROPTH: {
      Then &t = TH[o.a];
      int i = t.target;
      bool last = is_last(i);
      maybe_last(i);
      t.dropped = true;
      if (last) drop_task(i, true);
      Mid mid(i);
      if (t.c) {
        auto c = std::move(t.c);
        t.c.reset();
        c.reset();
      } else {
        auto c = std::move(t.t);
        t.t.reset();
        c.reset();
      }
      MC_CHECK(t.calls == 1, "then-dropped", "then %d was dropped and called %d times", o.a, t.calls);
      dropped_task(i, last);
      break;
    }
    case NEWS: {
      int n = ns++;
      s[n] = S();
      SP[o.a] = stackful::create([n](void *) -> int { return stackful_body(n); }, 16 * 1024);
      MC_CHECK(!!SP[o.a], "create", "a stackful task was not created");
      s[n].p = SP[o.a].get();
      s[n].st = cotask::EN_TS_CREATED;
      s[n].refs = 1;
      sid[o.a] = n;
      break;
    }
    case SSTART:
    case SKILL: {
      int j = sid[o.a];
      S &y = s[j];
      stackful::ptr_type hold = SP[o.a];  // whoever calls holds the task
      ++y.refs;
      int was = y.st, want = 0, r;
      if (o.k == SSTART) {
        want = was == cotask::EN_TS_RUNNING ? copp::COPP_EC_IS_RUNNING : was >= cotask::EN_TS_DONE ? copp::COPP_EC_ALREADY_FINISHED : 0;
        if (!want) y.st = cotask::EN_TS_RUNNING;
        r = was == cotask::EN_TS_CREATED ? hold->start() : hold->resume();
        if (!want && !y.ended && y.st == cotask::EN_TS_RUNNING) y.st = cotask::EN_TS_WAITING;
      } else {
        want = was >= cotask::EN_TS_DONE ? copp::COPP_EC_ALREADY_FINISHED : o.x && was == cotask::EN_TS_RUNNING ? copp::COPP_EC_IS_RUNNING : 0;
        if (!want) y.st = o.x ? cotask::EN_TS_CANCELED : cotask::EN_TS_KILLED, goal(17);
        r = o.x ? hold->cancel() : hold->kill(cotask::EN_TS_KILLED);
        if (!want && was != cotask::EN_TS_RUNNING) MC_CHECK(y.ended, "drain", "stackful task %d was killed and its body has not ended", j);
      }
      MC_CHECK(r == want, "result", "%s %d returned %d, expected %d (status %d)", NAME[o.k], j, r, want, was);
      MC_CHECK(hold->get_status() == y.st, "status", "stackful task %d has status %d, expected %d", j, hold->get_status(), y.st);
      unref(j, hold);
      break;
    }
    case SDROP: {
      int j = sid[o.a];
      stackful::ptr_type p = std::move(SP[o.a]);
      SP[o.a].reset();
      sid[o.a] = -1;
      unref(j, p);
      break;
    }
    case NEWM: {
      MG[o.a] = new manager();
      m[o.a] = M();
      m[o.a].alive = true;
      break;
    }
    case DROPM:
    case RESET: {
      M &y = m[o.a];
      bool nested = y.resetting > 0;
      unsigned in = 0, marks[MAXB], created = 0;
      if (!nested)
        for (int i = 0; i < nb; ++i)
          if (b[i].mgr == o.a) {
            in |= 1u << i;
            B &x = b[i];
            marks[i] = mark(i);
            ++x.extra;
            x.mgr = -1, x.deadline = 0;
            if (x.st < (int)ST::kDone && !x.ended) x.may |= 1u << (int)ST::kKilled, spread(i, (int)ST::kKilled);
            if (!x.started) created |= 1u << i;
          }
      if (!nested) y.last = 0;
      ++y.calls, ++y.resetting;
      if (o.k == DROPM) {
        y.alive = false;
        in_drop |= 1 << o.a;
        delete MG[o.a];  // any use of it after this is an access to freed memory
        MG[o.a] = nullptr;
        in_drop &= ~(1 << o.a);
      } else
        MG[o.a]->reset();
      --y.calls, --y.resetting;
      for (int i = 0; i < nb; ++i)
        if (in >> i & 1) {
          B &x = b[i];
          unmark(marks[i]);
          --x.extra;
          settle(i, (int)ST::kKilled, x.mgr);
        }
      goal(8);
      break;
    }
    case ADD: {
      int k = o.a / 16, slot = o.a % 16, i = hid[slot];
      M &y = m[k];
      B &x = b[i];
      sync(i, (int)H[slot]->get_status());
      bool ok = !y.resetting && x.st < (int)ST::kDone && x.mgr < 0;
      long long t = o.x ? span() : 0;
      if (ok) x.mgr = k, x.deadline = t ? y.last + t : 0;
      late(i);
      ++y.calls;
      int r = o.x ? MG[k]->add_task(*H[slot], t / 1000000000LL, (int)(t % 1000000000LL)) : MG[k]->add_task(*H[slot]);
      --y.calls;
      MC_CHECK((r == 0) == ok, "add-result", "adding task %d to manager %d reported %d", i, k, r);
      goal(ok ? 9 : 10);
      break;
    }
    case SETTIME: {
      B &x = b[o.a];
      int k = x.mgr >= 0 ? x.mgr : o.x - 2;
      M &y = m[k];
      bool ok = !y.resetting && x.mgr == k;
      long long t = o.x ? span() : 0;
      if (ok) x.deadline = t ? y.last + t : 0;
      late(o.a);
      ++y.calls;
      int r = MG[k]->set_timeout(x.id, t / 1000000000LL, (int)(t % 1000000000LL));
      --y.calls;
      MC_CHECK((r == 0) == ok, "set-result", "setting the timeout of task %d in manager %d reported %d", o.a, k, r);
      break;
    }
    case MSTART: {
      B &x = b[o.a];
      int k = x.mgr >= 0 ? x.mgr : o.x - 1;
      M &y = m[k];
      bool ok = !y.resetting && x.mgr == k;
      bool run = ok && x.st == (int)ST::kCreated && !x.may;
      ++y.calls, ++x.extra;
      int r = MG[k]->start(x.id);
      --y.calls, --x.extra;
      MC_CHECK((r == 0) == ok, "start-result", "starting task %d by id in manager %d reported %d", o.a, k, r);
      if (run) MC_CHECK(x.started, "not-started", "task %d was started by id and has not run", o.a);
      if (x.mgr >= 0 && x.st > (int)ST::kDone && !x.ended) x.mgr = -1, x.deadline = 0;  // exiting: it is removed
      settle(o.a, -1, -1);
      break;
    }
    case REMOVE:
    case MCANCEL:
    case MKILL: {
      B &x = b[o.a];
      int k = x.mgr >= 0 ? x.mgr : o.x - 1, i = o.a;
      M &y = m[k];
      bool ok = !y.resetting && x.mgr == k;
      int s = (int)(o.k == REMOVE ? ST::kKilled : o.k == MCANCEL ? ST::kCancle : ST::kTimeout);
      if (ok) {
        x.mgr = -1, x.deadline = 0;
        if (x.st < (int)ST::kDone && !x.ended && (x.st > (int)ST::kCreated || o.k != REMOVE)) x.may |= 1u << s, spread(i, s);
        if ((x.may || handles(i) == 0) && x.st < (int)ST::kDone && !x.ended) x.may |= 1u << (int)ST::kKilled, spread(i, (int)ST::kKilled);
      }
      ++y.calls, ++x.extra;
      unsigned ms = mark(i);
      int r = o.k == REMOVE ? MG[k]->remove_task(x.id) : o.k == MCANCEL ? MG[k]->cancel(x.id) : MG[k]->kill(x.id, ST::kTimeout);
      unmark(ms);
      --y.calls, --x.extra;
      MC_CHECK((r == 0) == ok, "id-result", "%s of task %d in manager %d reported %d", NAME[o.k], o.a, k, r);
      if (ok) settle(i, o.k == REMOVE && !x.started ? -1 : s, -1);
      if (ok) goal(11);
      break;
    }
    case TICK: {
      M &y = m[o.a];
      long long t[3];
      times(y, t);
      long long now = t[o.x];
      bool first = !y.last;
      if (y.resetting) {
        MC_CHECK(MG[o.a]->tick(now / 1000000000LL, (int)(now % 1000000000LL)) != 0, "tick-result", "a tick during a reset succeeded");
        break;
      }
      unsigned in = 0, marks[MAXB];
      for (int i = 0; i < nb; ++i) {
        B &x = b[i];
        if (x.mgr != o.a || !x.deadline) continue;
        if (first)
          x.deadline += now;
        else if (x.deadline < now) {
          in |= 1u << i;
          marks[i] = mark(i);
          ++x.extra;
          if (x.st < (int)ST::kDone) x.may |= 1u << (int)ST::kTimeout | 1u << (int)ST::kKilled, spread(i, (int)ST::kTimeout), spread(i, (int)ST::kKilled);
        }
      }
      ++y.calls;
      if (!first) ++y.ticking;
      y.now = now;
      int r = MG[o.a]->tick(now / 1000000000LL, (int)(now % 1000000000LL));
      --y.calls;
      if (!first) --y.ticking;
      y.last = now;
      MC_CHECK(r == 0, "tick-result", "a tick reported %d", r);
      for (int i = 0; i < nb; ++i)
        if (in >> i & 1) {
          B &x = b[i];
          unmark(marks[i]);
          --x.extra;
        }
      if (!first)
        for (int i = 0; i < nb; ++i) {
          B &x = b[i];
          if ((in >> i & 1) || (x.mgr == o.a && x.deadline && x.deadline < now)) {
            goal(12);
            if (x.mgr == o.a && x.deadline < now) x.mgr = -1, x.deadline = 0;
            settle(i, (int)ST::kTimeout, x.mgr);
          }
        }
      break;
    }
    default: fail("harness", "operation %d", o.k);
  }
  return true;
}
// nobody is executing: whoever can go on has done so
static void quiet() {
  uint64_t h = 7;
  for (int i = 0; i < nb; ++i) {
    B &x = b[i];
    MC_CHECK(x.wait == W_NO || !x.due || x.wait == W_RAW, "lost-wakeup", "%s %d still waits for %s %d", x.is_task ? "task" : "callable", i, x.wait == W_GEN ? "generator" : "body", x.on);
    h = hash_mix(h, x.st | x.wait << 4 | x.on << 8 | x.ended << 12 | x.gone << 13 | x.is_task << 14);
  }
  for (int k = 0; k < SLOTS; ++k) {
    if (cid[k] >= 0) {
      B &x = b[cid[k]];
      sync(cid[k], (int)C[k]->get_status());
      MC_CHECK(C[k]->is_ready() == x.ended, "ready", "callable %d reports ready %d, ended %d", cid[k], C[k]->is_ready(), x.ended);
#ifndef VOID20
      if (x.ended) MC_CHECK(C[k]->get_internal_promise().data().v == x.ret || x.taken, "kept-value", "callable %d keeps %d, returned %d", cid[k], C[k]->get_internal_promise().data().v, x.ret);
#endif
    }
    if (hid[k] >= 0) {
      B &x = b[hid[k]];
      task &t = *H[k];
      sync(hid[k], (int)t.get_status());
      bool ex = x.st >= (int)ST::kDone;
      MC_CHECK(t.is_exiting() == ex && t.is_completed() == x.ended && t.is_canceled() == (x.st == (int)ST::kCancle) && t.is_faulted() == (x.st >= (int)ST::kKilled) &&
                   t.is_timeout() == (x.st == (int)ST::kTimeout),
               "queries", "queries of task %d: exiting %d completed %d cancelled %d faulted %d timeout %d, status %d ended %d", hid[k], t.is_exiting(), t.is_completed(), t.is_canceled(), t.is_faulted(),
               t.is_timeout(), x.st, x.ended);
      MC_CHECK(t.get_context()->is_ready() == x.ended, "ready", "task %d: ready %d, ended %d", hid[k], t.get_context()->is_ready(), x.ended);
#ifndef VOID20
      if (x.ended) MC_CHECK(t.get_context()->data() && (t.get_context()->data()->v == x.ret || x.taken), "kept-value", "task %d does not keep its value", hid[k]);
#endif
      bool then = false;
      for (int j = 0; j < nth; ++j) then = then || TH[j].target == hid[k];
      if (!then && !x.extra && on_stack == 0) MC_CHECK((int)t.get_ref_future_count() == handles(hid[k]), "handles", "task %d reports %zu handles, %d exist", hid[k], t.get_ref_future_count(), handles(hid[k]));
#ifndef VOID20
      MC_CHECK(t.get_private_data()->tag == hid[k] + 100, "private-data", "the private data of task %d changed", hid[k]);
#endif
    }
    h = hash_mix(h, (cid[k] + 2) | (hid[k] + 2) << 8);
  }
  for (int k = 0; k < 2; ++k)
    if (m[k].alive) {
      size_t n = 0, timed = 0;
      for (int i = 0; i < nb; ++i) {
        B &x = b[i];
        n += x.mgr == k, timed += x.mgr == k && x.deadline;
        if (x.is_task) {
          const task *t = MG[k]->find_task(x.id);
          MC_CHECK((t != nullptr) == (x.mgr == k), "contains", "manager %d %s task %d", k, t ? "still contains" : "does not contain", i);
          if (t) MC_CHECK(t->get_id() == x.id, "find", "manager %d finds the wrong task", k);
          if (t) sync(i, (int)t->get_status());
          if (t && x.st < (int)ST::kDone) x.may = 0;
        }
      }
      MC_CHECK(MG[k]->get_task_size() == n, "size", "manager %d contains %zu tasks, it should be %zu", k, MG[k]->get_task_size(), n);
      MC_CHECK(MG[k]->get_tick_checkpoint_size() == timed, "timers", "manager %d has %zu deadlines, it should be %zu", k, MG[k]->get_tick_checkpoint_size(), timed);
      h = hash_mix(h, k + n * 4 + timed * 64 + m[k].last % 997 * 1024);
    }
  for (int k = 0; k < 2; ++k)
    if (qid[k] >= 0) {
      G &y = g[qid[k]];
      MC_CHECK(Q[k]->is_ready() == y.ready && Q[k]->is_pending() == !y.ready && Q[k]->get_status() == (y.ready ? ST::kDone : ST::kRunning), "ready", "generator %d: ready %d, is %d", qid[k],
               Q[k]->is_ready(), y.ready);
      h = hash_mix(h, qid[k] + 2 + y.ready * 16);
    }
  for (int k = 0; k < 2; ++k)
    if (sid[k] >= 0) {
      S &y = s[sid[k]];
      MC_CHECK((int)y.p->use_count() == y.refs, "handles", "stackful task %d has %zu references, should be %d", sid[k], y.p->use_count(), y.refs);
      MC_CHECK(y.p->get_status() == y.st && y.p->is_completed() == y.ended, "status", "stackful task %d has status %d, expected %d", sid[k], y.p->get_status(), y.st);
      h = hash_mix(h, sid[k] + 2 + y.st * 16 + y.refs * 256);
    }
  for (int q = 0; q < ng; ++q) {
    int w = 0;
    for (int i = 0; i < nb; ++i) w += b[i].wait == W_GEN && b[i].on == q;
    MC_CHECK(g[q].suspends - g[q].resumes == w, "hooks", "generator %d: suspend hook %d times, resume hook %d times, %d waiting", q, g[q].suspends, g[q].resumes, w);
  }
  for (int k = 0; k < nth; ++k)
    if (TH[k].used && !TH[k].dropped && b[TH[k].target].ended) MC_CHECK(TH[k].calls == 1, "then-lost", "then %d was not called although task %d has ended", k, TH[k].target);
  state(h);
}
struct World {
  std::optional<callable> c[SLOTS];
  std::optional<task> h[SLOTS];
  std::optional<gen> q[2];
  Then th[2];
  manager *mg[2] = {nullptr, nullptr};
  stackful::ptr_type sp[2];
};
static World &world() {
  static union U {
    World w;
    U() {}
    ~U() {}
  } u;
  return u.w;
}
static void drop_all(Kind k) {
  if (k == DROPC) {
    for (int s = 0; s < SLOTS; ++s)
      if (cid[s] >= 0) perform({DROPC, s, 0}, -1);
  } else if (k == DROPT) {
    for (int s = 0; s < SLOTS; ++s)
      if (hid[s] >= 0) perform({DROPT, s, 0}, -1);
  } else if (k == DROPTH) {
    for (int s = 0; s < nth; ++s)
      if (TH[s].used && !TH[s].dropped) perform({DROPTH, s, 0}, -1);
  } else if (k == SDROP) {
    for (int s = 0; s < 2; ++s)
      if (sid[s] >= 0) perform({SDROP, s, 0}, -1);
  } else if (k == DROPM) {
    for (int s = 0; s < 2; ++s)
      if (m[s].alive) perform({DROPM, s, 0}, -1);
  } else
    for (int s = 0; s < 2; ++s)
      if (qid[s] >= 0) perform({DROPG, s, 0}, -1);
}
// param: 0 operations, 1 slots for callables and tasks, 2 slots for generators, 3 hook may act, 4 tasks: 1 started at once, 2 started again, 4 never created alone, 5 operations on managers, 1<<16: small steps of time, 2<<16: absent ids
static void run() {
  mask = (unsigned)param(0) | BIT(RET);
  nslot = param(1), ngslot = param(2), hook = param(3), tflags = param(4), mmask = (unsigned)param(5) & 0xffff, mflags = param(5) >> 16;
  ops_left = depth();
  World *w = new (&world()) World();
  C = w->c, H = w->h, Q = w->q, TH = w->th, MG = w->mg, SP = w->sp;
  sid[0] = sid[1] = -1;
  for (int k = 0; k < SLOTS; ++k) cid[k] = hid[k] = -1;
  qid[0] = qid[1] = -1;
  history();
  while (ops_left > 0) {
    Op o = pick(-1);
    if (o.k == RET) break;
    perform(o, -1);
    MC_CHECK(on_stack == 0, "harness", "stack");
    quiet();
  }
  ops_left = 0;
  int order = choose(2, "order of destruction");
  if (order) drop_all(SDROP);
  drop_all(order ? DROPG : DROPTH);
  quiet();
  drop_all(order ? DROPT : DROPM);
  quiet();
  drop_all(order ? DROPM : DROPC);
  quiet();
  drop_all(order ? DROPTH : DROPT);
  drop_all(order ? DROPC : DROPG);
  drop_all(SDROP);
  quiet();
  for (int j = 0; j < ns; ++j) MC_CHECK(s[j].refs == 0 && s[j].entered == s[j].ended, "never-ended", "stackful task %d: %d references left", j, s[j].refs);
  for (int i = 0; i < nb; ++i) MC_CHECK(b[i].ended && b[i].gone, "never-ended", "the body of %d was never finished", i);
  w->~World();
  MC_CHECK(vals_alive == 0, "values", "%d values were not destroyed", vals_alive);
  MC_CHECK(priv_alive == 0, "private-leak", "%d private data were not destroyed", priv_alive);
  check_no_leak("leak");
}
