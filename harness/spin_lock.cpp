// Spin lock, scoped lock holders and the atomic integer wrappers.
#include <mc.h>
#include <libcopp/utils/lock_holder.h>
#include <libcopp/utils/spin_lock.h>
#include <limits>
#include <memory>
#include <optional>
using namespace mc;
#define SKIP { if (is_history()) continue; prune(); }
using namespace copp::util::lock;

struct Sh {
  int inside;
  int entered[4];
  int refused;
};
struct Guarded {
  spin_lock l;
  int value = 0;  // plain data protected by the lock: the race detector judges the memory orders of the lock
};

enum How { LOCK, TRY, HOLDER, TRY_HOLDER, MOVED_HOLDER };
using try_holder = lock_holder<spin_lock, detail::default_try_lock_action<spin_lock>, detail::default_unlock_action<spin_lock>>;
using tryu_holder =
    lock_holder<spin_lock, detail::default_try_lock_action<spin_lock>, detail::default_try_unlock_action<spin_lock>>;

static void critical(Sh *sh, Guarded *p, int i) {
  MC_CHECK(sh->inside == 0, "mutual-exclusion", "thread %d entered while %d thread(s) are inside", i, sh->inside);
  sh->inside++;
  p->value++;  // before any other operation on the lock, which could order what the entry does not
  MC_CHECK(p->l.is_locked(), "not-locked", "lock reports free while it is held");
  sched();
  MC_CHECK(sh->inside == 1, "mutual-exclusion", "%d threads inside", sh->inside);
  sh->inside--;
  sh->entered[i]++;
}
static void mutex_n(int nthreads, int rounds, const How *how) {
  Sh *sh = shared<Sh>();
  {
    auto g = std::make_unique<Guarded>();
    Guarded *p = g.get();
    for (int i = 0; i < nthreads; ++i)
      spawn([=] {
        for (int r = 0; r < rounds; ++r) {
          step();
          switch (how[i]) {
            case LOCK:
              p->l.lock();
              critical(sh, p, i);
              p->l.unlock();
              break;
            case TRY:
              if (p->l.try_lock()) {
                critical(sh, p, i);
                p->l.try_unlock();
              } else {
                sh->refused++;
              }
              break;
            case HOLDER: {
              lock_holder<spin_lock> h(p->l);
              MC_CHECK(h.is_available(), "holder", "holder without its lock");
              critical(sh, p, i);
              break;
            }
            case TRY_HOLDER: {
              try_holder h(p->l);
              if (h.is_available())
                critical(sh, p, i);
              else
                sh->refused++;
              break;
            }
            case MOVED_HOLDER: {
              lock_holder<spin_lock> a(p->l);
              lock_holder<spin_lock> b(std::move(a));
              critical(sh, p, i);
              b.reset();
              break;
            }
          }
        }
      });
    run_threads();
    int sum = 0;
    for (int i = 0; i < nthreads; ++i) sum += sh->entered[i];
    MC_CHECK(p->value == sum, "lost-update", "counter is %d, %d critical sections ran", p->value, sum);
    MC_CHECK(sum + sh->refused == nthreads * rounds, "lost-round", "%d rounds entered, %d refused", sum, sh->refused);
    MC_CHECK(sum > 0, "no-entry", "every thread was refused");
    MC_CHECK(!p->l.is_locked(), "left-locked", "lock still held after every owner released it");
    state(sum * 16 + sh->refused);
    goal(sh->refused ? 1 : 0);
  }
  check_no_leak("leak");
}
static void two() {
  static const How h[] = {LOCK, LOCK};
  mutex_n(2, depth(), h);
}
static void three() {
  static const How h[] = {LOCK, LOCK, LOCK};
  mutex_n(3, depth(), h);
}
static void trying() {
  static const How h[] = {LOCK, TRY, TRY};
  mutex_n(3, depth(), h);
}
static void holders() {
  static const How h[] = {HOLDER, TRY_HOLDER, MOVED_HOLDER};
  mutex_n(3, depth(), h);
}

// ---- every sequence of holder operations -------------------------------------------------------------------------
// counting lock: sees each lock and unlock action
struct CLock {
  spin_lock l;
  int locks = 0, unlocks = 0, bad = 0;
  void lock() {
    if (l.is_locked()) ++bad;
    l.lock();
    ++locks;
  }
  bool try_lock() {
    bool r = l.try_lock();
    if (r) ++locks;
    return r;
  }
  void unlock() {
    if (!l.is_locked()) ++bad;
    l.unlock();
    ++unlocks;
  }
  void read_lock() { lock(); }
  void read_unlock() { unlock(); }
  void write_lock() { lock(); }
  void write_unlock() { unlock(); }
};
template <class H>
static void holder_ops(bool trying) {
  constexpr int NH = 3, NL = 2;
  {
    CLock lk[NL];
    std::optional<H> h[NH];
    int own[NH];    // model: which lock each holder owns, -1 none
    bool alive[NH];
    int locks[NL] = {}, unlocks[NL] = {};
    for (int i = 0; i < NH; ++i) own[i] = -1, alive[i] = false;
    auto held = [&](int l) {
      for (int i = 0; i < NH; ++i)
        if (own[i] == l) return true;
      return false;
    };
    auto check = [&](const char *op) {
      for (int l = 0; l < NL; ++l) {
        MC_CHECK(lk[l].bad == 0, "bad-lock-op", "after %s: lock %d was locked twice or released while not held", op, l);
        MC_CHECK(lk[l].l.is_locked() == held(l), "ownership", "after %s: lock %d is %s, but it should be %s", op, l,
                 lk[l].l.is_locked() ? "held" : "free", held(l) ? "held" : "free");
        MC_CHECK(lk[l].locks == locks[l] && lk[l].unlocks == unlocks[l], "balance",
                 "after %s: lock %d acquired %d times (expected %d), released %d times (expected %d)", op, l, lk[l].locks, locks[l],
                 lk[l].unlocks, unlocks[l]);
      }
      for (int i = 0; i < NH; ++i)
        if (alive[i])
          MC_CHECK(h[i]->is_available() == (own[i] >= 0), "available", "after %s: holder %d available=%d", op, i,
                   h[i]->is_available());
      uint64_t s = 0;
      for (int i = 0; i < NH; ++i) s = s * 8 + own[i] + 1 + (alive[i] ? 4 : 0);
      state(s);
    };
    auto release = [&](int i) {
      if (own[i] >= 0) unlocks[own[i]]++;
      own[i] = -1;
    };
    history();
    for (int d = 0; d < depth(); ++d) {
      step();
      int op = choose(5, "op");
      int a = choose(NH, "holder");
      if (op == 0) {  // construct over a lock
        if (alive[a]) SKIP;
        int l = choose(NL, "lock");
        if (held(l) && !trying) SKIP;  // would spin forever, as it should
        bool got = !held(l);
        log("construct h%d over lock %d", a, l);
        h[a].emplace(lk[l]);
        alive[a] = true;
        if (got) locks[l]++, own[a] = l;
        check("construct");
      } else if (op == 1) {  // move construct
        int b = choose(NH, "from");
        if (alive[a] || !alive[b]) SKIP;
        log("move construct h%d from h%d", a, b);
        h[a].emplace(std::move(*h[b]));
        alive[a] = true;
        own[a] = own[b];
        own[b] = -1;
        check("move construction");
      } else if (op == 2) {  // move assign
        int b = choose(NH, "from");
        if (!alive[a] || !alive[b]) SKIP;
        log("move assign h%d = h%d", a, b);
        *h[a] = std::move(*h[b]);
        if (a != b) {
          release(a);
          own[a] = own[b];
          own[b] = -1;
        }
        check("move assignment");
        goal(0);
      } else if (op == 3) {
        if (!alive[a]) SKIP;
        log("reset h%d", a);
        h[a]->reset();
        release(a);
        check("reset");
      } else {
        if (!alive[a]) SKIP;
        log("destroy h%d", a);
        h[a].reset();
        release(a);
        alive[a] = false;
        check("destruction");
      }
    }
    for (int i = 0; i < NH; ++i) {
      h[i].reset();
      release(i);
      alive[i] = false;
    }
    check("final destruction");
  }
  check_no_leak("leak");
}
static void holder_seq() { holder_ops<lock_holder<CLock>>(false); }
static void holder_seq_try() {
  holder_ops<lock_holder<CLock, detail::default_try_lock_action<CLock>, detail::default_unlock_action<CLock>>>(true);
}
static void rw_holders() {
  CLock l;
  int kind = choose(2);
  bool inner = false;
  {
    if (kind == 0) {
      read_lock_holder<CLock> h(l);
      inner = l.l.is_locked() && h.is_available();
      if (choose(2)) h.reset();
    } else {
      write_lock_holder<CLock> h(l);
      inner = l.l.is_locked() && h.is_available();
      if (choose(2)) h.reset();
    }
  }
  MC_CHECK(inner && !l.l.is_locked() && l.locks == 1 && l.unlocks == 1 && !l.bad, "rw-holder", "locks %d unlocks %d", l.locks,
           l.unlocks);
  state(kind);
}

// ---- atomic integer wrappers against plain integers ----------------------------------------------------------------
template <class A, class T>
static void atomic_ops() {
  static const T V[] = {T(0), T(1), T(5), std::numeric_limits<T>::max(), T(~T(0))};
  auto add = [](T x, T y) { return T(uint64_t(x) + uint64_t(y)); };
  auto sub = [](T x, T y) { return T(uint64_t(x) - uint64_t(y)); };
  A a(V[choose(5, "init")]);
  T m = a.load();
  history();
  for (int d = 0; d < depth(); ++d) {
    step();
    int op = choose(15, "op");
    T v = (op >= 4 && op < 13) ? V[choose(5, "value")] : T(0);
    T got = 0, want = 0;
    switch (op) {
      case 0: got = ++a, want = m = add(m, 1); break;
      case 1: got = a++, want = m, m = add(m, 1); break;
      case 2: got = --a, want = m = sub(m, 1); break;
      case 3: got = a--, want = m, m = sub(m, 1); break;
      case 4: a.store(v), m = v; break;
      case 5: got = (a = v), want = m = v; break;
      case 6: got = a.exchange(v), want = m, m = v; break;
      case 7: got = a.fetch_add(v), want = m, m = add(m, v); break;
      case 8: got = a.fetch_sub(v), want = m, m = sub(m, v); break;
      case 9: got = a.fetch_and(v), want = m, m = T(m & v); break;
      case 10: got = a.fetch_or(v), want = m, m = T(m | v); break;
      case 11: got = a.fetch_xor(v), want = m, m = T(m ^ v); break;
      case 12: {
        int e = choose(4, "expected");
        T ex = (e & 1) ? m : add(m, 1), before = ex;
        bool strong = e & 2;
        bool ok = strong ? a.compare_exchange_strong(ex, v, memory_order_acq_rel, memory_order_acquire)
                         : a.compare_exchange_weak(ex, v, memory_order_acq_rel, memory_order_acquire);
        MC_CHECK(ok == (before == m), "cas", "compare_exchange returned %d", ok);
        MC_CHECK(ok || ex == m, "cas", "failed compare_exchange did not report the current value");
        MC_CHECK(!ok || ex == before, "cas", "successful compare_exchange changed the expected value");
        if (ok) m = v;
        break;
      }
      case 13: {
        T ex = m;
        bool ok = a.compare_exchange_strong(ex, add(m, 3));
        MC_CHECK(ok, "cas", "compare_exchange_strong failed");
        m = add(m, 3);
        break;
      }
      case 14: got = static_cast<T>(a), want = m; break;
    }
    MC_CHECK(got == want, "result", "operation %d returned %lld, expected %lld", op, (long long)got, (long long)want);
    MC_CHECK(a.load() == m, "value", "after operation %d the value is %lld, expected %lld", op, (long long)a.load(), (long long)m);
    state(hash_mix(op, (uint64_t)m));
  }
}
static void atomics_int() { atomic_ops<atomic_int_type<int>, int>(); }
static void atomics_u64() { atomic_ops<atomic_int_type<uint64_t>, uint64_t>(); }
static void atomics_u8() { atomic_ops<atomic_int_type<uint8_t>, uint8_t>(); }
static void atomics_unsafe() { atomic_ops<atomic_int_type<unsafe_int_type<unsigned>>, unsigned>(); }

static const Scenario LIST[] = {
    {"lock_two_threads", two, 3, 4, 6, 9, true, "2 threads lock/unlock", {}, {"all entered"}},
    {"lock_three_threads", three, 2, 3, 4, 5, true, "3 threads lock/unlock", {}, {"all entered"}},
    {"trylock_three_threads", trying, 2, 3, 4, 5, true, "1 locks, 2 try", {}, {"all entered", "some refused"}},
    {"holders_three_threads", holders, 2, 3, 4, 5, true, "plain, try and moved holder compete", {}, {"all entered", "some refused"}},
    {"holder_sequences", holder_seq, 6, 8, -1, -1, false, "all sequences over 3 holders and 2 locks", {}, {"move assigned"}},
    {"try_holder_sequences", holder_seq_try, 6, 8, -1, -1, false, "all sequences over 3 try-holders and 2 locks", {}, {"move assigned"}},
    {"long_holders", holder_seq, 60, 100, -1, -1, false, "long histories: every sequence which repeats after so many choices", {}, {"move assigned"}, 6, 7, 5},
    {"long_try_holders", holder_seq_try, 60, 100, -1, -1, false, "the same with try-holders", {}, {"move assigned"}, 6, 7, 5},
    {"long_atomic_int", atomics_int, 200, 300, -1, -1, false, "long histories of an atomic integer", {}, {}, 4, 5, 15},
    {"rw_holders", rw_holders, 1, 1, -1, -1, false, "read and write holders"},
    {"atomic_int", atomics_int, 3, 4, -1, -1, false, "all operation sequences, int"},
    {"atomic_u64", atomics_u64, 3, 4, -1, -1, false, "all operation sequences, uint64"},
    {"atomic_u8", atomics_u8, 3, 4, -1, -1, false, "all operation sequences, uint8"},
    {"atomic_unsafe", atomics_unsafe, 3, 4, -1, -1, false, "all operation sequences, unsynchronised variant"},
};
MC_MAIN(LIST)
