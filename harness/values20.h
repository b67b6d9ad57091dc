// C++20 coroutines with values of every kind (which are stored and handed over in different ways): waiters that come before and after the
// value, are dropped and killed.  Shared by C17 (callables), C18 (generators) and C19 (tasks).
#pragma once
#include <mc.h>
#include <libcopp/coroutine/callable_promise.h>
#include <libcopp/coroutine/generator_promise.h>
#include <libcotask/task_promise.h>
#include <coroutine>
#include <memory>
#include <optional>
#include <string>
#include <vector>
using namespace mc;
using ST = copp::promise_status;

static int alive;
enum { MOVED = -777 };
struct Small {  // trivially copyable, fits everywhere
  int a, b;
};
struct Big {  // trivially copyable, too big to be moved around for nothing
  long w[9];
};
struct Odd {  // neither default constructible nor assignable in parts
  int v;
  explicit Odd(int x) : v(x) { ++alive; }
  explicit Odd(ST s) : v(-(int)s) { ++alive; }
  Odd(const Odd &o) : v(o.v) { ++alive; }
  Odd(Odd &&o) noexcept : v(o.v) { o.v = MOVED, ++alive; }
  Odd &operator=(const Odd &o) { v = o.v; return *this; }
  Odd &operator=(Odd &&o) noexcept {
    if (this != &o) v = o.v, o.v = MOVED;
    return *this;
  }
  ~Odd() { --alive; }
};
struct Unique {  // can only be moved
  int v;
  Unique() : v(0) { ++alive; }
  explicit Unique(int x) : v(x) { ++alive; }
  explicit Unique(ST s) : v(-(int)s) { ++alive; }
  Unique(Unique &&o) noexcept : v(o.v) { o.v = MOVED, ++alive; }
  Unique &operator=(Unique &&o) noexcept {
    if (this != &o) v = o.v, o.v = MOVED;
    return *this;
  }
  ~Unique() { --alive; }
};
enum Mode { ASYNC_C, ASYNC_G, ASYNC_T };

template <class T>
struct Trait;  // make a value, read one, is it still there after it has been read
template <>
struct Trait<int> {
  static int make() { return 42; }
  static int read(const int &v) { return v; }
  static int err(ST s) { return -(int)s; }
  enum { KEPT = 1, COPY = 1 };
};
template <>
struct Trait<Small> {
  static Small make() { return {42, 43}; }
  static int read(const Small &v) { return v.b == v.a + 1 ? v.a : -1000; }
  static Small err(ST s) { return {-(int)s, -(int)s + 1}; }
  enum { KEPT = 1, COPY = 1 };
};
template <>
struct Trait<Big> {
  static Big fill(int v) {
    Big b;
    for (int k = 0; k < 9; ++k) b.w[k] = v + k;
    return b;
  }
  static Big make() { return fill(42); }
  static int read(const Big &v) {
    for (int k = 0; k < 9; ++k)
      if (v.w[k] != v.w[0] + k) return -1000;
    return (int)v.w[0];
  }
  static Big err(ST s) { return fill(-(int)s); }
  enum { KEPT = 1, COPY = 1 };  // moving one is copying it
};
static int target = 42;
static int errors[16] = {0, -1, -2, -3, -4, -5, -6, -7};
template <>
struct Trait<int *> {
  static int *make() { return &target; }
  static int read(int *const &v) { return v ? *v : -1000; }
  static int *err(ST s) { return &errors[(int)s]; }
  enum { KEPT = 1, COPY = 1 };
};
template <>
struct Trait<std::shared_ptr<int>> {
  static std::shared_ptr<int> make() { return std::make_shared<int>(42); }
  static int read(const std::shared_ptr<int> &v) { return v ? *v : MOVED; }
  static std::shared_ptr<int> err(ST s) { return std::make_shared<int>(-(int)s); }
  enum { KEPT = 0, COPY = 1 };
};
template <>
struct Trait<std::string> {
  static std::string make() { return std::string(42, 'x'); }
  static int read(const std::string &v) { return v.empty() ? MOVED : v[0] == 'x' ? (int)v.size() : -(int)v.size(); }
  static std::string err(ST s) { return std::string((int)s, 'e'); }
  enum { KEPT = 0, COPY = 1 };
};
template <>
struct Trait<Odd> {
  static Odd make() { return Odd(42); }
  static int read(const Odd &v) { return v.v; }
  static Odd err(ST s) { return Odd(s); }
  enum { KEPT = 0, COPY = 1 };
};
template <>
struct Trait<Unique> {
  static Unique make() { return Unique(42); }
  static int read(const Unique &v) { return v.v; }
  static Unique err(ST s) { return Unique(s); }
  enum { KEPT = 0, COPY = 0 };
};
template <class T>
struct Err {
  T operator()(ST s) const { return Trait<T>::err(s); }
};

struct Event {
  std::coroutine_handle<> *h;
  bool await_ready() { return false; }
  void await_suspend(std::coroutine_handle<> x) { *h = x; }
  void await_resume() { *h = nullptr; }
};
static std::coroutine_handle<> event;
enum { NW = 3 };
struct W {
  bool used, gone, went;
  int got, st;
  bool early;  // it was there before the value
};
static W w[NW];
static int taken;  // how many have got it

template <class F>
static copp::callable_future<int> waiter(F &f, int k) {
  auto v = co_await f;
  w[k].went = true;
  w[k].got = Trait<decltype(v)>::read(v);
  log("waiter %d got %d", k, w[k].got);
  co_return w[k].got;
}
template <class R, class T>
static R source() {
  co_await Event{&event};
  log("it ends");
  co_return Trait<T>::make();
}

template <class T, Mode M>
static void drive() {
  using callable = copp::callable_future<T, Err<T>>;
  using gen = copp::generator_future<T, Err<T>>;
  using task = cotask::task_future<T, void, Err<T>>;
  using F = typename std::conditional<M == ASYNC_C, callable, typename std::conditional<M == ASYNC_G, gen, task>::type>::type;
  event = nullptr;
  taken = 0;
  for (auto &x : w) x = W();
  {
    std::optional<F> f;
    if constexpr (M == ASYNC_C) f.emplace(source<callable, T>());
    else if constexpr (M == ASYNC_G) f.emplace([](typename gen::context_pointer_type) {});
    else {
      f.emplace(source<task, T>());
      f->start();
    }
    std::optional<copp::callable_future<int>> c[NW];
    bool ready = false, set_killed = false;
    for (int left = depth(); left > 0; --left) {
      int n = 0, o[16];
      o[n++] = 0;
      int fw = -1;
      for (int k = NW - 1; k >= 0; --k)
        if (!w[k].used) fw = k;
      if (fw >= 0) o[n++] = 1;
      if (!ready) o[n++] = 2;
      for (int k = 0; k < NW; ++k)
        if (w[k].used && !w[k].gone) o[n++] = 10 + k, o[n++] = 20 + k;
      int op = o[choose(n, "operation")];
      if (op == 0) break;
      step();
      if (op == 1) {
        log("a new waiter %d", fw);
        w[fw].used = true, w[fw].early = !ready;
        c[fw].emplace(waiter(*f, fw));
        MC_CHECK(w[fw].went == (ready || set_killed), "ready", "waiter %d %s, ready %d", fw, w[fw].went ? "went on" : "waits", ready);
      } else if (op == 2) {
        log("the value comes");
        if constexpr (M == ASYNC_G) f->get_context()->set_value(Trait<T>::make());
        else {
          auto h = event;
          MC_CHECK(h, "lost", "the source does not wait");
          h.resume();
        }
        ready = true;
        goal(0);
      } else if (op < 20) {
        int k = op - 10;
        log("kill waiter %d", k);
        bool was = w[k].went;
        bool r = c[k]->kill();
        MC_CHECK(r == !was && w[k].went, "kill", "killing waiter %d returned %d, it %s", k, r, w[k].went ? "ended" : "did not end");
        if (!was) {
          w[k].st = (int)ST::kKilled;
          MC_CHECK(w[k].got == -(int)ST::kKilled, "error-value", "waiter %d was killed and got %d", k, w[k].got);
          if (M == ASYNC_C) {
            // what it waited for has its status, too; its waiters are woken when it ends
            set_killed = true;
          }
          goal(1);
        }
      } else {
        int k = op - 20;
        log("drop waiter %d", k);
        bool was = w[k].went;
        w[k].gone = true;
        c[k].reset();
        MC_CHECK(w[k].went, "drop", "waiter %d was dropped and did not end", k);
        if (!was) {
          w[k].st = (int)ST::kKilled;
          MC_CHECK(w[k].got == -(int)ST::kKilled, "error-value", "waiter %d was dropped and got %d", k, w[k].got);
          if (M == ASYNC_C) set_killed = true;
        }
      }
      int early = 0, late = 0, right = 0, moved = 0;
      for (int k = 0; k < NW; ++k) {
        if (!w[k].used) continue;
        if (!ready && !w[k].st && !set_killed) MC_CHECK(!w[k].went, "spurious", "waiter %d went on without a value", k);
        if (ready) MC_CHECK(w[k].went, "lost-wakeup", "waiter %d waits although there is a value", k);
        if (!ready || w[k].st) continue;
        ++(w[k].early ? early : late);
        if (set_killed) {
          MC_CHECK(w[k].got == 42 || w[k].got == MOVED || (w[k].got < 0 && w[k].got >= -6), "value", "waiter %d got %d", k, w[k].got);
          continue;
        }
        MC_CHECK(w[k].got == 42 || w[k].got == MOVED, "value", "waiter %d got %d", k, w[k].got);
        if (Trait<T>::KEPT || (Trait<T>::COPY && w[k].early)) MC_CHECK(w[k].got == 42, "value-moved", "waiter %d got %d", k, w[k].got);
        ++(w[k].got == 42 ? right : moved);
      }
      if (early + late && !set_killed) {
        MC_CHECK(right, "value-lost", "none of %d waiters got the value", early + late);
        if (!Trait<T>::COPY) MC_CHECK(right == 1, "value-copied", "%d waiters got the value", right);
        if (early > 1) goal(2);
        if (late > 0) goal(3);
      }
      state(hash_mix(hash_mix(ready * 2 + set_killed, early * 8 + late), right * 64 + moved * 8));
    }
    if (choose(2, "order of destruction")) {
      for (auto &x : c) x.reset();
      f.reset();
    } else {
      for (int k = NW - 1; k >= 0; --k) c[k].reset();
      if constexpr (M == ASYNC_G)
        if (!ready) f->get_context()->set_value(Trait<T>::make());
      f.reset();
    }
  }
  MC_CHECK(alive == 0, "values", "%d values were not destroyed", alive);
  check_no_leak("leak");
}
template <Mode M>
static void values() {
  alive = 0;
  switch (choose(7, "kind of value")) {
    case 0: return drive<int, M>();
    case 1: return drive<Small, M>();
    case 2: return drive<Big, M>();
    case 3: return drive<int *, M>();
    case 4: return drive<std::shared_ptr<int>, M>();
    case 5: return drive<std::string, M>();
    default:
      if constexpr (M == ASYNC_C) return drive<Unique, M>();
      else return drive<Odd, M>();
  }
}
