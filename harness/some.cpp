// C20: awaiting some, any or all of a set of generators, callables or tasks.
//
// Assumed of the user: the resume hook of a generator does not complete other futures the same coroutine waits for, values are not
// unset while somebody waits, and what is waited for lives as long as the wait.
#include <mc.h>
#include <libcopp/coroutine/algorithm.h>
#include <libcopp/coroutine/callable_promise.h>
#include <libcopp/coroutine/generator_promise.h>
#include <libcotask/task_promise.h>
#include <functional>
#include <memory>
#include <optional>
#include <vector>
using namespace mc;
using copp::promise_status;
using ST = promise_status;
using callable = copp::callable_future<int>;
using task = cotask::task_future<int, void>;
using gen = copp::generator_future<int>;
using result = copp::callable_future<ST>;

enum { MAXN = 8, SLOTS = 2, SOMES = 8 };
struct Fut {
  bool ready, exiting, executing;
  int suspends, resumes;
  std::coroutine_handle<> raw;
};
static Fut f[MAXN];
static int total, ops_left, nslots, hook;
static bool can_kill;

struct Raw {
  int i;
  bool await_ready() const noexcept { return false; }
  void await_suspend(std::coroutine_handle<> h) const noexcept { f[i].raw = h; }
  void await_resume() const noexcept { f[i].raw = nullptr; }
};
template <class R>
static R future_body(int i) {
  if (!f[i].ready) co_await Raw{i};
  f[i].ready = f[i].exiting = true;
  co_return 10 + i;
}
struct Some {  // one wait
  bool used, done, killed, in_drop, direct;
  int bound, before, executing, id;
  ST st;
};
static Some s[SLOTS];
static int nsome, mid;  // calls in progress

template <class F>
struct World {
  std::optional<F> fut[MAXN];
  std::vector<F> vec;
  typename copp::some_ready<F>::type out[SLOTS];
  std::optional<result> c[SLOTS];

  static World *w;
  F &at(int i) { return vec[i]; }
  static F make(int i);

  static int count(bool exiting) {
    int n = 0;
    for (int i = 0; i < total; ++i) n += exiting ? f[i].exiting : f[i].ready;
    return n;
  }
  static result start(int slot, int api, int n) {
    World &o = *w;
    auto &out = o.out[slot];
    // every kind of container
    switch (api) {
      case 0: return copp::some(out, (size_t)n, o.vec);
      case 1: {
        std::vector<std::reference_wrapper<F>> v;
        for (auto &x : o.vec) v.push_back(std::ref(x));
        return n == 1 ? copp::any(out, v) : n == total ? copp::all(out, v) : copp::some(out, (size_t)n, v);
      }
      default: {
        std::vector<copp::gsl::not_null<F *>> v;
        for (auto &x : o.vec) v.push_back(copp::gsl::make_not_null(&x));
        auto sp = copp::gsl::make_span(v);
        return n == 1 ? copp::any(out, sp) : n == total ? copp::all(out, sp) : copp::some(out, (size_t)n, sp);
      }
    }
  }
  static void finished(int slot, ST st, bool exact) {
    Some &x = s[slot];
    World &o = *w;
    MC_CHECK(!x.done, "twice", "wait %d is finished twice", x.id);
    x.done = true;
    x.st = st;
    unsigned have = 0;
    int n = 0;
    for (auto &p : o.out[slot]) {
      int i = (int)(p.get() - o.vec.data());
      MC_CHECK(i >= 0 && i < total, "foreign", "wait %d reports something it did not wait for", x.id);
      MC_CHECK(!(have >> i & 1), "duplicate", "wait %d reports future %d twice", x.id, i);
      MC_CHECK(f[i].ready || f[i].exiting, "not-ready", "wait %d reports future %d which is not ready", x.id, i);
      have |= 1u << i, ++n;
    }
    log("wait %d ends with status %d, %d of %d ready", x.id, (int)st, n, x.bound);
    if (st == ST::kDone) {
      MC_CHECK(n >= x.bound, "early", "wait %d for %d futures ends with %d ready", x.id, x.bound, n);
      for (int i = 0; i < total; ++i)
        if (exact ? f[i].ready : (x.before >> i & 1)) MC_CHECK(have >> i & 1, "ready-missing", "wait %d does not report future %d which is ready", x.id, i);
    } else
      MC_CHECK(x.killed, "status", "wait %d ends with status %d and was not killed", x.id, (int)st);
    goal(st == ST::kDone ? 1 : 2);
  }
  static result parent(int slot, int api, int n) {
    ST st;
    {
      ++s[slot].executing;
      auto c = start(slot, api, n);
      --s[slot].executing;
      st = co_await c;
    }
    ++s[slot].executing;
    ST me = co_yield result::yield_status();
    if (me >= ST::kDone)
      MC_CHECK(s[slot].killed && st >= ST::kDone, "status", "the waiter has status %d, the wait %d", (int)me, (int)st);
    finished(slot, st, true);
    --s[slot].executing;
    co_return st;
  }

  struct Op {
    int k, a, x;
  };
  enum { END, SOME, SET, KILLFUT, KILLSOME, DROPSOME };
  static Op pick(bool in_hook) {
    World &o = *w;
    if (ops_left <= 0) return {END, 0, 0};
    Op v[48];
    int n = 0;
    v[n++] = {END, 0, 0};
    for (int k = 0; k < nslots; ++k) {
      Some &x = s[k];
      if (!x.used && !in_hook) {
        for (int m = 0; m <= total + 1; ++m) v[n++] = {SOME, k, m};
        break;
      }
    }
    const bool many = param(5) != 0;  // of those which are not ready, only the first or the last becomes ready
    if (many && nsome && (s[0].done || !s[0].used)) return {END, 0, 0};
    if (many && !s[0].used && !in_hook) {
      for (int m = 0; m < n - 1; ++m) v[m] = v[m + 1];
      --n;
    }
    int first = -1, last = -1;
    for (int i = 0; i < total; ++i)
      if (!f[i].ready) last = i, first = first < 0 ? i : first;
    for (int i = 0; i < total; ++i) {
      if (many && (!s[0].used || (i != first && i != last))) continue;
      if (!f[i].ready && !f[i].executing) v[n++] = {SET, i, 0};
      if (can_kill && !many && !f[i].ready && !f[i].executing && !f[i].exiting) v[n++] = {KILLFUT, i, 0}, v[n++] = {KILLFUT, i, 1};
    }
    for (int k = 0; k < nslots; ++k) {
      Some &x = s[k];
      if (!x.used || x.executing || x.in_drop || !o.c[k]) continue;
      v[n++] = {KILLSOME, k, 0};
      if (!mid) v[n++] = {DROPSOME, k, 0};
    }
    int c = choose(n, "operation");
    if (v[c].k) {
      static const char *const NAME[] = {"", "wait", "set", "kill future", "kill wait", "drop wait"};
      log("%s%s %d %d", in_hook ? "  in the hook: " : "", NAME[v[c].k], v[c].a, v[c].x);
      --ops_left;
      step();
    }
    return v[c];
  }
  static void set(int i);
  static void kill_future(int i, bool force);
  static void perform(const Op &op) {
    World &o = *w;
    ++mid;
    switch (op.k) {
      case SOME: {
        Some &x = s[op.a];
        x = Some();
        x.used = true, x.id = nsome++;
        x.bound = op.x < total ? op.x : total;
        for (int i = 0; i < total; ++i) x.before |= f[i].ready << i;
        x.direct = choose(2, "directly or by a coroutine") == 1;
        int api = (op.x + op.a + x.direct) % 3;
        ++x.executing;
        std::optional<result> r;
        if (x.direct)
          r.emplace(start(op.a, api, op.x));
        else {
          --x.executing;
          r.emplace(parent(op.a, api, op.x));
          ++x.executing;
        }
        --x.executing;
        o.c[op.a].emplace(std::move(*r));
        break;
      }
      case SET: set(op.a); break;
      case KILLFUT: kill_future(op.a, op.x != 0); break;
      case KILLSOME: {
        Some &x = s[op.a];
        bool can = !o.c[op.a]->is_ready() && (int)o.c[op.a]->get_status() < (int)ST::kDone;
        x.killed = x.killed || can;
        bool r = o.c[op.a]->kill(ST::kTimeout);
        MC_CHECK(r == can, "kill-result", "killing wait %d reported %d", x.id, r);
        MC_CHECK(!o.c[op.a] || o.c[op.a]->is_ready() || mid > 1, "kill-ignored", "wait %d is still waiting after it was killed", x.id);
        goal(0);
        break;
      }
      case DROPSOME: {
        Some &x = s[op.a];
        x.in_drop = true;
        x.killed = x.killed || !o.c[op.a]->is_ready();
        std::optional<result> c(std::move(*o.c[op.a]));
        o.c[op.a].reset();
        c.reset();
        if (!x.direct) MC_CHECK(x.done, "drop-unfinished", "wait %d was dropped and has not ended", x.id);
        x.used = false;
        break;
      }
    }
    --mid;
  }
  static void quiet() {
    World &o = *w;
    uint64_t h = 3;
    int active = 0;
    for (int k = 0; k < nslots; ++k) {
      Some &x = s[k];
      if (x.used && o.c[k]) {
        bool r = o.c[k]->is_ready();
        if (x.direct && r && !x.done) finished(k, o.c[k]->get_internal_promise().data(), false);
        MC_CHECK(r == x.done, "state", "wait %d is ready %d, has ended %d", x.id, r, x.done);
        if (!x.done) {
          MC_CHECK(count(false) < x.bound, "lost-wakeup", "wait %d for %d futures goes on although %d are ready", x.id, x.bound, count(false));
          ++active;
        }
      }
      h = hash_mix(h, x.used | x.done << 1 | x.bound << 2 | x.killed << 8 | (int)x.st << 12 | (int)o.out[k].size() << 16);
    }
    for (int i = 0; i < total; ++i) {
      h = hash_mix(h, f[i].ready | f[i].exiting << 1);
      int d = f[i].suspends - f[i].resumes;
      if (std::is_same<F, gen>::value)
        MC_CHECK(f[i].ready ? d >= 0 && d <= active : d == active, "hooks", "generator %d: suspend hook %d times, resume hook %d times, %d waits", i, f[i].suspends, f[i].resumes, active);
    }
    state(h);
  }
  static void run() {
    w = new World();
    total = param(1), nslots = param(2), hook = param(3);
    ops_left = depth();
    can_kill = !std::is_same<F, gen>::value;
    for (int i = 0; i < total; ++i) {
      f[i].ready = f[i].exiting = false;
      w->vec.push_back(make(i));
    }
    // those which are ready from the beginning
    int pre = choose(1 << total, "ready from the beginning");
    for (int i = 0; i < total; ++i)
      if (pre >> i & 1) set(i);
    while (ops_left > 0) {
      Op op = pick(false);
      if (op.k == END) break;
      perform(op);
      quiet();
    }
    ops_left = 0;
    bool late = choose(2, "order of destruction");
    if (!late)
      for (int k = 0; k < nslots; ++k)
        if (w->c[k]) perform({DROPSOME, k, 0});
    quiet();
    if (late) {
      for (int i = 0; i < total; ++i)
        if (!f[i].ready) set(i);
      quiet();
      for (int k = 0; k < nslots; ++k)
        if (w->c[k]) {
          MC_CHECK(s[k].done, "lost-wakeup", "wait %d goes on although everything is ready", s[k].id);
          perform({DROPSOME, k, 0});
        }
    }
    delete w;
    check_no_leak("leak");
  }
};
template <class F>
World<F> *World<F>::w;

template <>
gen World<gen>::make(int i) {
  return gen(
      [i](std::shared_ptr<gen::context_type>) {
        ++f[i].suspends;
        if (!hook) return;
        Op op = pick(true);
        if (op.k != END) perform(op);
      },
      [i](const gen::context_type &) {
        ++f[i].resumes;
        MC_CHECK(f[i].resumes <= f[i].suspends, "hooks", "the resume hook of generator %d runs without a suspend hook", i);
      });
}
template <>
void World<gen>::set(int i) {
  f[i].ready = f[i].exiting = true;
  w->at(i).get_context()->set_value(10 + i);
}
template <>
void World<gen>::kill_future(int, bool) {}
template <>
callable World<callable>::make(int i) { return future_body<callable>(i); }
template <>
void World<callable>::set(int i) {
  auto h = f[i].raw;
  f[i].executing = true;
  h.resume();
  f[i].executing = false;
  MC_CHECK(f[i].ready, "harness", "not ended");
}
template <>
void World<callable>::kill_future(int i, bool force) {
  f[i].exiting = true;
  f[i].executing = true;
  w->at(i).kill(ST::kCancle, force);
  f[i].executing = false;
}
template <>
task World<task>::make(int i) {
  task t = future_body<task>(i);
  t.start();
  return t;
}
template <>
void World<task>::set(int i) {
  auto h = f[i].raw;
  f[i].executing = true;
  h.resume();
  f[i].executing = false;
  MC_CHECK(f[i].ready, "harness", "not ended");
}
template <>
void World<task>::kill_future(int i, bool force) {
  f[i].exiting = true;
  f[i].executing = true;
  w->at(i).kill(ST::kCancle, force);
  f[i].executing = false;
}
// param: 1 futures, 2 waits, 3 hooks act
static const Scenario LIST[] = {
    {"generators", World<gen>::run, 5, 6, -1, -1, false, "3 generators, 2 waits", {0, 3, 2, 0}, {"killed", "ended", "ended by kill"}},
    {"hooks", World<gen>::run, 5, 6, -1, -1, false, "4 generators whose suspend hooks set them, kill or drop the wait", {0, 4, 1, 1}, {"killed", "ended", "ended by kill"}},
    {"hooks2", World<gen>::run, 5, 6, -1, -1, false, "2 generators whose suspend hooks set them, kill or drop, 2 waits", {0, 2, 2, 1}, {"killed", "ended", "ended by kill"}},
    {"callables", World<callable>::run, 5, 6, -1, -1, false, "3 callables, 2 waits", {0, 3, 2, 0}, {"killed", "ended", "ended by kill"}},
    {"tasks", World<task>::run, 5, 6, -1, -1, false, "3 tasks, 2 waits", {0, 3, 2, 0}, {"killed", "ended", "ended by kill"}},
    {"none", World<gen>::run, 2, 2, -1, -1, false, "no generators", {0, 0, 1, 0}, {"killed", "ended"}},
    {"many_generators", World<gen>::run, 9, 10, -1, -1, false, "8 generators, 1 wait", {0, 8, 1, 0, 0, 1}, {"killed", "ended", "ended by kill"}},
    {"many_callables", World<callable>::run, 9, 10, -1, -1, false, "8 callables, 1 wait", {0, 8, 1, 0, 0, 1}, {"killed", "ended", "ended by kill"}},
    {"many_tasks", World<task>::run, 9, 10, -1, -1, false, "8 tasks, 1 wait", {0, 8, 1, 0, 0, 1}, {"killed", "ended", "ended by kill"}},
};
MC_MAIN(LIST)
