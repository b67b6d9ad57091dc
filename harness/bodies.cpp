// Stackful tasks: every kind of body (functors of every signature, functions, member functions, actions) through every way to
// create a task or a follow-up, under every history of operations, with an allocator that keeps account of its stacks.
#include <mc.h>
#include <libcotask/task.h>
#include <libcotask/this_task.h>
#include <functional>
#include <list>
using namespace mc;
using namespace copp;
using cotask::EN_TASK_STATUS;

enum { STACK = 16 * 1024, MAGIC = 0x7A11, NSLOT = 2 };
struct Ex {
  int id;
};

// ---- an allocator that owns something: its stacks must come back to it
struct Ledger {
  int n;
  int total;
  void *sp[4];
  size_t size[4];
  int fail;  // 1: no stack, 2: a stack that is too small
  size_t last;
};
static Ledger L[3];  // 0 passed for the first task, 1 passed for the second one, 2 of default constructed allocators
struct owning_allocator {
  Ledger *l;
  owning_allocator() noexcept : l(&L[2]) {}
  explicit owning_allocator(Ledger *p) noexcept : l(p) {}
  owning_allocator(const owning_allocator &o) noexcept : l(o.l) {}
  owning_allocator(owning_allocator &&o) noexcept : l(o.l) { o.l = nullptr; }
  owning_allocator &operator=(const owning_allocator &o) noexcept {
    l = o.l;
    return *this;
  }
  owning_allocator &operator=(owning_allocator &&o) noexcept {
    Ledger *x = o.l;
    o.l = nullptr;
    l = x;
    return *this;
  }
  void allocate(stack_context &c, size_t n) noexcept {
    MC_CHECK(l, "allocator-lost", "a stack is allocated with an allocator that was given away");
    l->last = n;
    if (l->fail == 2) n = 600;
    if (l->fail == 1) {
      c.sp = nullptr;
      c.size = 0;
      return;
    }
    c.size = n;
    c.sp = static_cast<char *>(malloc(n)) + n;
    l->sp[l->n] = c.sp;
    l->size[l->n] = n;
    ++l->n;
    ++l->total;
  }
  void deallocate(stack_context &c) noexcept {
    MC_CHECK(l, "allocator-lost", "a stack is given back to an allocator that was given away");
    int k = 0;
    while (k < l->n && l->sp[k] != c.sp) ++k;
    MC_CHECK(k < l->n && l->size[k] == c.size, "foreign-stack", "a stack is given back to an allocator it does not come from");
    l->sp[k] = l->sp[l->n - 1];
    l->size[k] = l->size[l->n - 1];
    --l->n;
    free(static_cast<char *>(c.sp) - c.size);
  }
};
struct own_macro {
  using stack_allocator_type = owning_allocator;
  using coroutine_type = coroutine_context_container<owning_allocator>;
  using value_type = int;
};
template <class T>
struct maker;
template <>
struct maker<owning_allocator> {
  static owning_allocator get(int k) { return owning_allocator(&L[k]); }
};
template <>
struct maker<allocator::default_statck_allocator> {
  static allocator::default_statck_allocator get(int) { return {}; }
};

enum Kind {
  F_INT_D, F_INT_DC, F_VOID_D, F_VOID_DC, F_INT, F_INT_C, F_VOID, F_VOID_C, F_LAMBDA, F_STD, F_MOVE_ONLY, F_ACTION,
  P_INT, P_VOID, P_SHORT, P_LONG, P_PTR,
  M_INT, M_INT_C, M_VOID, M_SHORT, M_VIRTUAL, KINDS
};
enum Form { CREATE, CREATE_LVALUE, CREATE_ALLOC, CREATE_WITH, NEXT, NEXT_ALLOC, THEN, FORMS };

struct Slot {
  cotask::impl::task_impl *p;
  int kind, form;
  size_t priv, stack;
  void *priv_at;
  int st;
  bool exists, entered, co_done, dropped, attached, activated, draining, activating, thrown;
  intptr_t data, nextdata;
  int ret, fin, ids;
  uint64_t id;
};
static Slot S[NSLOT];
static int ops_left, ids, live, cur, refused;
static bool created_once;
static bool can_throw;
static int op_on;  // slot an operation was called on, -1 none

static int run(int i, void *data, bool has_data);
static coroutine_context *co;  // the coroutine of the scenarios without tasks
static int run_co(void *data);

// ---- bodies
struct Tok {
  int i;
  int magic;
  explicit Tok(int k) : i(k), magic(MAGIC) { ++live; }
  Tok(const Tok &o) : i(o.i), magic(MAGIC) {
    MC_CHECK(o.magic == MAGIC, "dead-body", "a destroyed body is copied");
    ++live;
  }
  Tok(Tok &&o) : i(o.i), magic(MAGIC) {
    MC_CHECK(o.magic == MAGIC, "dead-body", "a destroyed body is moved");
    o.i = -1;
    ++live;
  }
  ~Tok() {
    MC_CHECK(magic == MAGIC, "body-destroyed-twice", "a body is destroyed twice");
    if (i >= 0 && S[i].entered && cur == i) mc::fail("body-destroyed-early", "the body of a running task is destroyed");
    magic = 0;
    --live;
  }
  int go(void *d, bool has) const {
    MC_CHECK(magic == MAGIC, "dead-body", "a destroyed body is called");
    MC_CHECK(i >= 0, "moved-body", "a body that was moved away is called");
    int k = i;
    int r = run(k, d, has);
    MC_CHECK(magic == MAGIC && i == k, "dead-body", "the body of task %d is destroyed while it executes", k);
    return r;
  }
};
struct FIntD : Tok { using Tok::Tok; int operator()(void *d) { return go(d, true); } };
struct FIntDC : Tok { using Tok::Tok; int operator()(void *d) const { return go(d, true); } };
struct FVoidD : Tok { using Tok::Tok; void operator()(void *d) { go(d, true); } };
struct FVoidDC : Tok { using Tok::Tok; void operator()(void *d) const { go(d, true); } };
struct FInt : Tok { using Tok::Tok; int operator()() { return go(nullptr, false); } };
struct FIntC : Tok { using Tok::Tok; int operator()() const { return go(nullptr, false); } };
struct FVoid : Tok { using Tok::Tok; void operator()() { go(nullptr, false); } };
struct FVoidC : Tok { using Tok::Tok; void operator()() const { go(nullptr, false); } };
struct FMoveOnly : Tok {
  using Tok::Tok;
  FMoveOnly(FMoveOnly &&) = default;
  FMoveOnly(const FMoveOnly &) = delete;
  int operator()(void *d) { return go(d, true); }
};
struct Act : cotask::impl::task_action_impl, Tok {
  using Tok::Tok;
  int operator()(void *d) override { return go(d, true); }
  int on_finished(cotask::impl::task_impl &t) override {
    MC_CHECK(magic == MAGIC && i >= 0, "dead-body", "on_finished of a destroyed action");
    MC_CHECK(&t == S[i].p && S[i].co_done && S[i].fin == 0, "on-finished", "on_finished of task %d: %d earlier calls, ended %d", i, S[i].fin, S[i].co_done);
    ++S[i].fin;
    return 0;
  }
};
template <int I>
struct Func {
  static int f_int(void *d) { return run(I, d, true); }
  static void f_void(void *d) { run(I, d, true); }
  static short f_short(void *d) { return static_cast<short>(run(I, d, true)); }
  static long f_long(void *d) { return run(I, d, true); }
  static void *f_ptr(void *d) {
    run(I, d, true);
    return d;
  }
};
struct Base {
  int pad;
  virtual ~Base() {}
  virtual int v_int(void *d) = 0;
};
struct Inst : Base {
  int i;
  int check() const {
    MC_CHECK(i == 0 || i == 1, "wrong-instance", "a member function is called on another object");
    return i;
  }
  int m_int(void *d) { return run(check(), d, true); }
  int m_int_c(void *d) const { return run(check(), d, true); }
  void m_void(void *d) { run(check(), d, true); }
  short m_short(void *d) { return static_cast<short>(run(check(), d, true)); }
  int v_int(void *d) override { return run(check(), d, true); }
};
static Inst *inst;  // two objects

static bool is_member(int k) { return k == M_INT || k == M_INT_C || k == M_VOID || k == M_SHORT || k == M_VIRTUAL; }
static bool gives_result(int k) {
  return k == F_INT_D || k == F_INT_DC || k == F_INT || k == F_INT_C || k == F_LAMBDA || k == F_STD || k == F_MOVE_ONLY || k == F_ACTION || k == P_INT || k == P_SHORT ||
         k == P_LONG;
}

// ---- creation
template <class T>
struct Maker {
  using task_t = T;
  using ptr_t = typename T::ptr_type;
  using alloc_t = typename T::coroutine_type::allocator_type;
  static ptr_t own[NSLOT];

  template <class F>
  static ptr_t functor(int i, F make) {
    Slot &s = S[i];
    alloc_t a = maker<alloc_t>::get(i);
    void *nd = reinterpret_cast<void *>(s.nextdata);
    switch (s.form) {
      case CREATE:
        return T::create(make(), s.stack, s.priv);
      case CREATE_LVALUE: {
        auto f = make();
        ptr_t r;
        if constexpr (std::is_copy_constructible<decltype(f)>::value) {
          r = T::create(f, s.stack, s.priv);
        } else {
          prune();
        }
        if (r) MC_CHECK(still(f, i), "stolen-body", "the body was moved out of an object that was passed by reference");
        return r;
      }
      case CREATE_ALLOC:
        return T::create(make(), a, s.stack, s.priv);
      case NEXT:
        return own[0]->next(make(), nd, s.stack, s.priv);
      case NEXT_ALLOC:
        return by_ref(i, make(), [&](auto &&f) { return own[0]->next(std::forward<decltype(f)>(f), a, nd, s.stack, s.priv); });
      case THEN:
        return by_ref(i, make(), [&](auto &&f) { return own[0]->then(std::forward<decltype(f)>(f), nd); });
    }
    prune();
    return {};
  }
  template <class F, class C>
  static ptr_t by_ref(int i, F f, C call) {
    if constexpr (std::is_copy_constructible<F>::value) {
      ptr_t r = call(f);
      MC_CHECK(still(f, i), "stolen-body", "the body was moved out of an object that was passed by reference");
      return r;
    } else {
      return call(std::move(f));
    }
  }
  template <class F>
  static bool still(const F &f, int i) {
    if constexpr (std::is_base_of<Tok, F>::value) return f.i == i;
    else if constexpr (std::is_same<std::function<int(void *)>, F>::value) return static_cast<bool>(f);
    else return reinterpret_cast<const Tok &>(f).i == i;  // a lambda with a Tok
  }
  template <class F>
  static ptr_t functor_c(int i) {
    if (S[i].form == CREATE_WITH) {
      alloc_t a = maker<alloc_t>::get(i);
      return T::template create_with<F>(a, S[i].stack, S[i].priv, i);
    }
    return functor(i, [i] { return F(i); });
  }
  template <class R>
  static ptr_t function(int i, R (*f)(void *)) {
    Slot &s = S[i];
    alloc_t a = maker<alloc_t>::get(i);
    void *nd = reinterpret_cast<void *>(s.nextdata);
    switch (s.form) {
      case CREATE:
        return T::create(f, s.stack, s.priv);
      case CREATE_ALLOC:
        return T::create(f, a, s.stack, s.priv);
      case NEXT:
        return own[0]->next(f, nd, s.stack, s.priv);
      case NEXT_ALLOC:
        return own[0]->next(f, a, nd, s.stack, s.priv);
      case THEN:
        return own[0]->then(f, nd);
    }
    prune();
    return {};
  }
  template <class F, class C>
  static ptr_t member(int i, F f, C *o) {
    Slot &s = S[i];
    alloc_t a = maker<alloc_t>::get(i);
    void *nd = reinterpret_cast<void *>(s.nextdata);
    switch (s.form) {
      case CREATE:
        return T::create(f, o, s.stack, s.priv);
      case CREATE_ALLOC:
        return T::create(f, o, a, s.stack, s.priv);
      case NEXT:
        return own[0]->next(f, o, nd, s.stack, s.priv);
      case NEXT_ALLOC:
        return own[0]->next(f, o, a, nd, s.stack, s.priv);
    }
    prune();
    return {};
  }
  static ptr_t make(int i) {
    switch (S[i].kind) {
      case F_INT_D: return functor_c<FIntD>(i);
      case F_INT_DC: return functor_c<FIntDC>(i);
      case F_VOID_D: return functor_c<FVoidD>(i);
      case F_VOID_DC: return functor_c<FVoidDC>(i);
      case F_INT: return functor_c<FInt>(i);
      case F_INT_C: return functor_c<FIntC>(i);
      case F_VOID: return functor_c<FVoid>(i);
      case F_VOID_C: return functor_c<FVoidC>(i);
      case F_LAMBDA:
        return functor(i, [i] {
          Tok t(i);
          return [t](void *d) { return t.go(d, true); };
        });
      case F_STD:
        return functor(i, [i] { return std::function<int(void *)>(FIntD(i)); });
      case F_MOVE_ONLY: return functor_c<FMoveOnly>(i);
      case F_ACTION: return functor_c<Act>(i);
      case P_INT: return function(i, i ? Func<1>::f_int : Func<0>::f_int);
      case P_VOID: return function(i, i ? Func<1>::f_void : Func<0>::f_void);
      case P_SHORT: return function(i, i ? Func<1>::f_short : Func<0>::f_short);
      case P_LONG: return function(i, i ? Func<1>::f_long : Func<0>::f_long);
      case P_PTR: return function(i, i ? Func<1>::f_ptr : Func<0>::f_ptr);
      case M_INT: return member(i, &Inst::m_int, &inst[i]);
      case M_INT_C: return member(i, &Inst::m_int_c, &inst[i]);
      case M_VOID: return member(i, &Inst::m_void, &inst[i]);
      case M_SHORT: return member(i, &Inst::m_short, &inst[i]);
      case M_VIRTUAL: return member(i, &Base::v_int, static_cast<Base *>(&inst[i]));
    }
    prune();
    return {};
  }
  static int ledger_of(int i) {
    int f = S[i].form;
    if (f == CREATE_ALLOC || f == CREATE_WITH || f == NEXT_ALLOC) return i;
    if (f == THEN) return ledger_of(0);
    return 2;
  }
  static bool owning() { return std::is_same<alloc_t, owning_allocator>::value; }
  static bool has_tok(int k) { return k <= F_ACTION; }

  static void settle() {
    int want_live = 0, want_n[3] = {0, 0, 0};
    uint64_t h = 1;
    for (int i = 0; i < NSLOT; ++i) {
      Slot &s = S[i];
      if (!s.exists) continue;
      if (s.st == cotask::EN_TS_RUNNING) s.st = s.co_done ? cotask::EN_TS_DONE : cotask::EN_TS_WAITING;
      bool there = own[i] || (i == 1 && s.attached && !s.activated);
      h = hash_mix(h, s.kind * 64 + s.st * 4 + s.dropped * 2 + s.activated);
      if (there) {
        ++want_n[ledger_of(i)];
        if (has_tok(s.kind)) ++want_live;
        MC_CHECK(s.p->get_status() == s.st, "status", "task %d has status %d, expected %d", i, s.p->get_status(), s.st);
        MC_CHECK(s.p->is_completed() == s.co_done, "completed", "task %d: is_completed %d, its body has ended %d", i, s.p->is_completed(), s.co_done);
        if (s.co_done && !is_member(s.kind))  // the tests of the project ask for the results of members to be ignored
          MC_CHECK(s.p->get_ret_code() == s.ret, "result", "task %d has result %d, its body returned %d", i, s.p->get_ret_code(), s.ret);
        check_priv(i);
      }
      if (s.kind == F_ACTION) MC_CHECK(s.fin == s.co_done, "on-finished", "task %d: on_finished called %d times, ended %d", i, s.fin, s.co_done);
    }
    MC_CHECK(cotask::this_task::get_task() == nullptr, "this-task", "a task is still the current one");
    MC_CHECK(live == want_live, "body-lifetime", "%d bodies exist, expected %d", live, want_live);
    if (owning())
      for (int k = 0; k < 3; ++k) MC_CHECK(L[k].n == want_n[k], "stacks", "allocator %d has %d stacks in use, expected %d", k, L[k].n, want_n[k]);
    state(h);
  }
  static void check_priv(int i) {
    Slot &s = S[i];
    T *t = static_cast<T *>(s.p);
    MC_CHECK(t->get_private_buffer() == s.priv_at, "private-buffer", "the private buffer of task %d moved", i);
    MC_CHECK(t->get_private_buffer_size() >= s.priv, "private-buffer", "the private buffer of task %d has %zu bytes, asked for %zu", i,
             (size_t)t->get_private_buffer_size(), s.priv);
    const unsigned char *b = static_cast<const unsigned char *>(s.priv_at);
    for (size_t k = 0; k < s.priv; ++k) MC_CHECK(b[k] == (unsigned char)(0x30 + i * 64 + k), "private-buffer", "the private buffer of task %d was overwritten", i);
  }
  static bool new_task(int i) {
    Slot &s = S[i];
    s.exists = true;
    s.st = cotask::EN_TS_CREATED;
    bool follows = s.form >= NEXT;
    // a follow-up of an ended task is started at once
    bool at_once = follows && S[0].co_done;
    if (follows) {
      s.attached = true;
      op_on = -1;
    }
    s.p = nullptr;
    bool fails = owning() && L[ledger_of(i)].fail;
    own[i] = make(i);
    if (fails) {
      goal(6);
      s.exists = s.attached = false;
      if (follows)
        MC_CHECK(own[i].get() == own[0].get(), "create-failure", "a follow-up which could not be created is not answered with the task itself");
      else
        MC_CHECK(!own[i], "create-failure", "a task without stack was created");
      own[i].reset();
      MC_CHECK(L[ledger_of(i)].n == (follows && ledger_of(0) == ledger_of(i)), "stacks", "a stack that is too small was not given back");
      return false;
    }
    MC_CHECK(own[i], "create", "task %d (kind %d, form %d) was not created", i, s.kind, s.form);
    MC_CHECK(!follows || own[i].get() != own[0].get(), "create", "the follow-up was not created");
    s.p = own[i].get();
    s.id = own[i]->get_id();
    MC_CHECK(!at_once || s.entered, "not-started", "a follow-up of an ended task was not started");
    if (at_once) goal(3);
    MC_CHECK(s.form != THEN || own[i]->get_private_buffer_size() == own[0]->get_private_buffer_size(), "private-buffer",
             "then() made a private buffer of %zu bytes, the task has %zu", (size_t)own[i]->get_private_buffer_size(), (size_t)own[0]->get_private_buffer_size());
    if (s.form == THEN) s.priv = S[0].priv, s.stack = S[0].stack;
    if (owning()) MC_CHECK(L[ledger_of(i)].last >= s.stack, "stack-size", "the stack of task %d has %zu bytes, asked for %zu", i, L[ledger_of(i)].last, s.stack);
    MC_CHECK(own[i]->get_private_buffer_size() >= s.priv && own[i]->get_private_buffer_size() < s.priv + 64, "private-buffer",
             "the private buffer of task %d has %zu bytes, asked for %zu", i, (size_t)own[i]->get_private_buffer_size(), s.priv);
    s.priv_at = own[i]->get_private_buffer();
    unsigned char *b = static_cast<unsigned char *>(s.priv_at);
    for (size_t k = 0; k < s.priv; ++k) b[k] = (unsigned char)(0x30 + i * 64 + k);
    return true;
  }
  static void drop(int i) {
    Slot &s = S[i];
    if (s.st == cotask::EN_TS_WAITING && !(i == 1 && s.attached && !s.activated)) s.st = cotask::EN_TS_TIMEOUT, s.data = 0, s.draining = true;
    bool unstarted = s.st == cotask::EN_TS_CREATED;
    s.dropped = true;
    if (i == 0 && unstarted) s.co_done = true;  // for the follow-up: it is let go now
    own[i].reset();
    if (i == 0 && unstarted) s.co_done = false;
  }
  static void end_of_first(bool was_ended) {
    Slot &s = S[1];
    bool ended = S[0].co_done || (S[0].dropped && !S[0].entered);
    if (!s.exists || !s.attached || was_ended || !ended || s.activated) return;
    // nobody let it go: it must have ended before
    MC_CHECK(s.co_done, "follow-up-lost", "the task has ended and its follow-up was not run");
    s.activated = true;
  }
  static bool one_op(int n) {
    if (ops_left <= 0) return false;
    --ops_left;
    step();
    static const char *const NAME[] = {"start", "resume", "cancel", "kill", "drop", "create"};
    int per = 5, op = choose(1 + per * n + (n < NSLOT && param(1) && !created_once), "op") - 1;
    if (op < 0) return false;
    bool was = S[0].co_done || (S[0].dropped && !S[0].entered);
    if (op == per * n) {
      created_once = param(2);
      S[1].form = NEXT + choose(FORMS - NEXT, "form");
      S[1].kind = choose(KINDS, "kind");
      if (S[0].dropped) prune();
      if (S[1].form == THEN && S[1].kind >= M_INT) prune();
      S[1].priv = choose(2, "private buffer") ? 104 : 0;
      S[1].stack = S[1].priv ? 2 * STACK : STACK;
      S[1].nextdata = 16 * ++ids;
      if (param(2)) L[S[1].form == THEN ? ledger_of(0) : S[1].form == NEXT_ALLOC ? 1 : 2].fail = 1 + choose(2, "failure");
      log("main: create follow-up, kind %d form %d", S[1].kind, S[1].form);
      new_task(1);
      settle();
      return true;
    }
    int i = op / per, what = op % per;
    Slot &s = S[i];
    if (!s.exists || s.dropped) prune();
    int before = s.st;
    bool can_run = before == cotask::EN_TS_CREATED || before == cotask::EN_TS_WAITING;
    if (what < 4 && !can_run && refused++) prune();  // one refused operation is enough
    intptr_t d = 16 * ++ids;
    log("main: %s %d", NAME[what], i);
    if (what == 4) {
      drop(i);
    } else {
      int want = can_run ? 0 : COPP_EC_ALREADY_FINISHED, r = 0;
      if (can_run) {
        s.data = d;
        s.st = what < 2 ? cotask::EN_TS_RUNNING : what == 2 ? cotask::EN_TS_CANCELED : cotask::EN_TS_KILLED;
        s.draining = what >= 2;
        op_on = i;
      }
      void *v = reinterpret_cast<void *>(d);
      T *t = own[i].get();
      try {
        r = what == 0 ? t->start(v) : what == 1 ? t->resume(v) : what == 2 ? t->cancel(v) : t->kill(cotask::EN_TS_KILLED, v);
        MC_CHECK(!can_run || !s.thrown, "exception-lost", "the exception of the body of task %d is lost", i);
      } catch (Ex &e) {
        MC_CHECK(can_run && s.thrown && e.id == 500 + i, "exception", "an exception of task %d is delivered again or is another one", i);
        r = 0;
        goal(5);
      }
      op_on = -1;
      if (r != want) mc::fail("op-result", "an operation has the wrong result");
      if (can_run) MC_CHECK(s.entered, "not-called", "the body of task %d was not called", i);
      if (can_run && what >= 2) MC_CHECK(s.co_done, "drain", "task %d was killed and its body has not ended", i);
    }
    end_of_first(was);
    settle();
    return true;
  }
  static void world() {
    memset(S, 0, sizeof S);
    memset(L, 0, sizeof L);
    ids = live = refused = 0;
    cur = op_on = -1;
    created_once = false;
    ops_left = depth();
    can_throw = !param(1);
    Inst objs[2];
    inst = objs;
    objs[0].i = 0;
    objs[1].i = 1;
    {
      if (param(1)) {  // the first task of a chain
        S[0].kind = F_INT_D;
        S[0].form = choose(2, "form") ? CREATE_ALLOC : CREATE;
        S[0].priv = choose(2, "private buffer") ? 40 : 0;
        S[0].stack = S[0].priv ? 3 * STACK : STACK;
      } else {
        S[0].kind = choose(KINDS, "kind");
        S[0].form = choose(NEXT, "form");
        static const size_t PRIV[] = {0, 1, 24, 100};
        S[0].priv = PRIV[choose(4, "private buffer")];
        S[0].stack = S[0].priv == 100 ? 2 * STACK : STACK;
        if (S[0].form == CREATE_LVALUE && S[0].kind > F_ACTION) prune();
        if (S[0].form == CREATE_WITH && (S[0].kind > F_ACTION || S[0].kind == F_LAMBDA || S[0].kind == F_STD)) prune();
        if (param(2)) L[ledger_of(0)].fail = 1 + choose(2, "failure");
      }
      log("main: create, kind %d form %d", S[0].kind, S[0].form);
      if (!new_task(0)) {
        MC_CHECK(live == 0, "body-lifetime", "%d bodies left by a task that was not created", live);
        check_no_leak("leak");
        done();
      }
      settle();
      while (one_op(S[1].exists ? 2 : 1)) {
      }
      for (int i = 0; i < NSLOT; ++i)
        if (S[i].exists && !S[i].dropped) {
          bool was = S[0].co_done || (S[0].dropped && !S[0].entered);
          drop(i);
          end_of_first(was);
          settle();
        }
    }
    MC_CHECK(live == 0, "body-lifetime", "%d bodies are left", live);
    check_no_leak("leak");
  }
};
template <class T>
typename T::ptr_type Maker<T>::own[NSLOT];
using Plain = Maker<cotask::task<>>;
using Own = Maker<cotask::task<own_macro>>;

static int run(int i, void *data, bool has_data) {
  if (param(3)) return run_co(data);
  Slot &s = S[i];
  MC_CHECK(!s.entered, "called-twice", "the body of task %d is called again", i);
  s.entered = true;
  bool let_go = op_on != i;  // by the end of the first task
  if (let_go) {
    MC_CHECK(i == 1 && s.attached && !s.activated && S[0].co_done, "called-early", "the body of task %d is called though nobody started it", i);
    s.activated = true;
    s.st = cotask::EN_TS_RUNNING;
    s.data = s.nextdata;
    goal(2);
  }
  if (has_data) MC_CHECK(data == reinterpret_cast<void *>(s.data), "data", "task %d is started with data %p, expected %p", i, data, reinterpret_cast<void *>(s.data));
  int outer = cur;
  cur = i;
  cotask::impl::task_impl *me = cotask::this_task::get_task();
  MC_CHECK(me && (s.p == nullptr || me == s.p), "this-task", "the current task is another one in the body of task %d", i);
  s.p = me;
  void *mine = &outer;
  for (int k = 0; k < 2; ++k) {
    int w = choose(2 + (can_throw && !s.dropped), "body");
    step();
    if (w == 0) break;
    if (w == 2) {
      s.thrown = true;
      s.co_done = true;
      cur = outer;
      throw Ex{500 + i};
    }
    log("%d: yield", i);
    if (s.dropped && (s.activated || i == 0) && !s.draining) s.st = cotask::EN_TS_TIMEOUT, s.data = 0, s.draining = true, goal(4);
    cur = outer;
    void *out = &out;
    int r = me->yield(&out);
    cur = i;
    MC_CHECK(r == 0, "yield", "yield returned %d", r);
    if (op_on != i && !s.draining) {  // resumed by the end of the first task
      MC_CHECK(i == 1 && s.attached && !s.activated && S[0].co_done, "resumed-early", "the body of task %d goes on though nobody resumed it", i);
      s.activated = true;
      s.st = cotask::EN_TS_RUNNING;
      s.data = s.nextdata;
      goal(7);
    }
    MC_CHECK(out == reinterpret_cast<void *>(s.data), "data", "task %d is resumed with data %p, expected %p", i, out, reinterpret_cast<void *>(s.data));
    MC_CHECK(cotask::this_task::get_task() == me, "this-task", "the current task is another one after task %d was resumed", i);
    MC_CHECK(mine == &outer, "frame", "the frame of task %d changed", i);
  }
  s.co_done = true;
  s.ret = gives_result(s.kind) ? 70 + i : 0;
  if (s.draining) goal(1);
  goal(0);
  cur = outer;
  return 70 + i;
}
// ---- coroutines without a task
static int run_co(void *data) {
  Slot &s = S[0];
  MC_CHECK(!s.entered && op_on == 0, "called-twice", "the body is called again or though nobody started it");
  s.entered = true;
  MC_CHECK(data == reinterpret_cast<void *>(s.data), "data", "started with data %p, expected %p", data, reinterpret_cast<void *>(s.data));
  cur = 0;
  MC_CHECK(this_coroutine::get_coroutine() == co, "this-coroutine", "the current coroutine is another one in the body");
  while (int w = choose(3, "body")) {
    step();
    if (w == 2) {
      s.thrown = s.co_done = true;
      cur = -1;
      throw Ex{500};
    }
    cur = -1;
    void *out = &out;
    int r = co->yield(&out);
    cur = 0;
    MC_CHECK(r == 0 && out == reinterpret_cast<void *>(s.data), "data", "yield returned %d, data %p, expected %p", r, out, reinterpret_cast<void *>(s.data));
  }
  s.co_done = true;
  s.ret = 70;
  cur = -1;
  return 70;
}
static void coroutines() {
  using co_t = coroutine_context_container<owning_allocator>;
  memset(S, 0, sizeof S);
  memset(L, 0, sizeof L);
  ids = live = 0;
  cur = op_on = -1;
  Slot &s = S[0];
  Inst none;
  inst = &none;
  enum { CALLBACK, LAMBDA, POINTER, FUNCTION, EMPTY, NULL_POINTER, NULL_FUNCTION, N };
  static const char *const NAME[] = {"callback", "lambda", "pointer to a functor", "function", "empty callback", "null pointer", "null function"};
  s.kind = choose(N, "kind");
  bool with_alloc = choose(2, "allocator");
  static const size_t PRIV[] = {0, 8, 104};
  size_t priv = PRIV[choose(3, "private buffer")];
  if (param(2)) L[with_alloc ? 0 : 2].fail = 1 + choose(2, "failure");
  if (s.kind == NULL_POINTER && !with_alloc) prune();  // this form needs a functor
  if (s.kind == NULL_FUNCTION && !with_alloc) prune();
  log("main: create from %s", NAME[s.kind]);
  bool owned = s.kind == CALLBACK || s.kind == LAMBDA, has = s.kind < EMPTY;
  {
    co_t::ptr_type p;
    FIntD f(0);
    Tok t(0);
    owning_allocator a(&L[0]);
    const int mine = live;
    auto lam = [t](void *d) { return t.go(d, true); };
    int (*fn)(void *) = s.kind == NULL_FUNCTION ? nullptr : Func<0>::f_int;
    FIntD *fp = s.kind == NULL_POINTER ? nullptr : &f;
    switch (s.kind) {
      case CALLBACK: p = with_alloc ? co_t::create(co_t::callback_type(f), a, STACK, priv) : co_t::create(co_t::callback_type(f), STACK, priv); break;
      case LAMBDA: p = with_alloc ? co_t::create(lam, a, STACK, priv) : co_t::create(lam, STACK, priv); break;
      case POINTER:
      case NULL_POINTER: p = with_alloc ? co_t::create(fp, a, STACK, priv) : co_t::create(fp, STACK, priv); break;
      case FUNCTION:
      case NULL_FUNCTION: p = with_alloc ? co_t::create(fn, a, STACK, priv) : co_t::create(fn, STACK, priv); break;
      case EMPTY: p = with_alloc ? co_t::create(co_t::callback_type(), a, STACK, priv) : co_t::create(co_t::callback_type(), STACK, priv); break;
    }
    const int base = mine + 1;  // and the lambda
    if (param(2)) {
      MC_CHECK(!p, "create-failure", "a coroutine without stack was created");
      MC_CHECK(live == base, "body-lifetime", "%d bodies left by a coroutine that was not created", live - base);
      goal(0);
    } else {
      MC_CHECK(p, "create", "the coroutine was not created");
      co = p.get();
      MC_CHECK(p->get_private_buffer_size() >= priv && p->get_private_buffer_size() < priv + 64, "private-buffer", "private buffer of %zu bytes, asked for %zu", p->get_private_buffer_size(), priv);
      memset(p->get_private_buffer(), 0x5a, priv);
      bool refused_once = false;
      for (int n = depth(); n > 0; --n) {
        MC_CHECK(live == base + owned, "body-lifetime", "%d bodies of the coroutine exist, expected %d", live - base, owned);
        MC_CHECK(p->use_count() == 1, "use-count", "use count %zu", p->use_count());
        for (int k = 0; k < 3; ++k) MC_CHECK(L[k].n == (k == (with_alloc ? 0 : 2)), "stacks", "allocator %d has %d stacks in use", k, L[k].n);
        MC_CHECK(p->is_finished() == s.co_done, "finished", "is_finished %d, the body has ended %d", p->is_finished(), s.co_done);
        if (s.co_done) MC_CHECK(p->get_ret_code() == s.ret, "result", "result %d, the body returned %d", p->get_ret_code(), s.ret);
        for (size_t k = 0; k < priv; ++k)
          MC_CHECK(static_cast<unsigned char *>(p->get_private_buffer())[k] == 0x5a, "private-buffer", "the private buffer was overwritten");
        MC_CHECK(this_coroutine::get_coroutine() == nullptr, "this-coroutine", "a coroutine is still the current one");
        state(hash_mix(hash_mix(s.kind, has * 4 + s.entered * 2 + s.co_done), owned));
        int op = choose(4, "op");
        step();
        if (op == 0) break;
        intptr_t d = 16 * ++ids;
        if (op == 3) {
          int want = has ? COPP_EC_ALREADY_INITED : 0;
          if (want && refused_once) prune();
          refused_once = want != 0;
          log("main: set_runner");
          int r = p->set_runner(co_t::callback_type(f));
          MC_CHECK(r == want, "op-result", "set_runner returned %d, expected %d", r, want);
          if (!want) has = owned = true, goal(1);
          continue;
        }
        int want = !has ? COPP_EC_NOT_INITED : s.co_done ? COPP_EC_NOT_READY : 0, r = 0;
        if (want && refused_once) prune();
        refused_once = refused_once || want;
        log("main: %s", op == 1 ? "start" : "resume");
        bool thrown = s.thrown, got = false;
        if (!want) op_on = 0, s.data = d;
        try {
          r = op == 1 ? p->start(reinterpret_cast<void *>(d)) : p->resume(reinterpret_cast<void *>(d));
        } catch (Ex &e) {
          got = true;
          goal(2);
        }
        op_on = -1;
        MC_CHECK(got == (s.thrown && !thrown), "exception", "an exception is lost or delivered again");
        if (!got) MC_CHECK(r == want, "op-result", "the operation returned %d, expected %d", r, want);
        if (!want) MC_CHECK(s.entered, "not-called", "the body was not called");
      }
      if (s.entered && !s.co_done) goal(3);
      p.reset();
      MC_CHECK(live == base, "body-lifetime", "%d bodies are left", live - base);
    }
    for (int k = 0; k < 3; ++k) MC_CHECK(L[k].n == 0, "stacks", "allocator %d has %d stacks in use", k, L[k].n);
  }
  MC_CHECK(live == 0, "body-lifetime", "%d bodies are left", live);
  check_no_leak("leak");
}
#define GS "ended by itself", "drained", "-", "-", "-", "exception", "-", "-"
#define GC "ended by itself", "drained", "follow-up started", "follow-up of an ended task", "follow-up without handle killed", "-", "-", "follow-up resumed"
#define GF "-", "-", "-", "-", "-", "-", "not created", "-"
static const Scenario LIST[] = {
    {"single", Plain::world, 5, 6, -1, -1, false, "1 task: every kind of body, form of creation and private buffer", {0, 0, 0}, {GS}},
    {"single_owning", Own::world, 4, 6, -1, -1, false, "the same with an allocator that keeps account", {0, 0, 0}, {GS}},
    {"chain", Plain::world, 4, 5, -1, -1, false, "a task and a follow-up made from every kind of body", {0, 1, 0}, {GC}},
    {"chain_owning", Own::world, 4, 5, -1, -1, false, "the same with an allocator that keeps account", {0, 1, 0}, {GC}},
    {"coroutines", coroutines, 6, 9, -1, -1, false, "1 coroutine without a task: every kind of runner and form of creation", {0, 0, 0, 1},
     {"-", "runner set later", "exception", "destroyed while suspended"}},
    {"no_stack_coroutine", coroutines, 1, 1, -1, -1, false, "the stack of a coroutine cannot be allocated", {0, 0, 1, 1}, {"not created"}},
    {"no_stack", Own::world, 2, 2, -1, -1, false, "the stack of a task cannot be allocated", {0, 0, 1}, {GF}},
    {"no_stack_chain", Own::world, 4, 5, -1, -1, false, "the stack of a follow-up cannot be allocated", {0, 1, 1}, {"-", "-", "-", "-", "-", "-", "not created", "-"}},
};
MC_MAIN(LIST)
