// C16: pollers, futures and results hold exactly one value and destroy it exactly once.
#include <libcopp/future/future.h>
#include <libcopp/future/poller.h>

#include <cstring>
#include <memory>
#include <new>

#include "mc.h"

using namespace mc;
namespace fu = copp::future;

// ---- values ----------------------------------------------------------------------------------------------------------
struct Live {
  int made, gone;
  const void *at[64];
  int n;
};
static Live *L;
static void born(const void *p) {
  L->made++;
  for (int i = 0; i < L->n; ++i) MC_CHECK(L->at[i] != p, "constructed-twice", "an object is constructed where one is alive");
  if (L->n < 64) L->at[L->n++] = p;
}
static void dies(const void *p) {
  L->gone++;
  for (int i = 0; i < L->n; ++i)
    if (L->at[i] == p) {
      L->at[i] = L->at[--L->n];
      return;
    }
  fail("destroyed-twice", "an object is destroyed that is not alive");
}
struct Counted {
  long v, neg;
  explicit Counted(long x = 0) : v(x), neg(-x) { born(this); }
  Counted(long x, long y) : v(x), neg(-y) { born(this); }
  Counted(const Counted &o) : v(o.v), neg(o.neg) { born(this); }
  Counted(Counted &&o) : v(o.v), neg(o.neg) {
    o.v = o.neg = 77;
    born(this);
  }
  Counted &operator=(const Counted &o) { return v = o.v, neg = o.neg, *this; }
  virtual ~Counted() {
    v = neg = 99;
    dies(this);
  }
  long get() const {
    MC_CHECK(v == -neg, "mangled", "a value is torn: %ld/%ld", v, neg);
    return v;
  }
  void set(long x) { v = x, neg = -x; }
};
struct CountedChild : Counted {
  long more[3];
  explicit CountedChild(long x) : Counted(x), more{x, x, x} {}
};
template <int N>
struct Plain {
  long v[N];
  Plain() = default;
  explicit Plain(long x) {
    for (int i = 0; i < N; ++i) v[i] = x + i;
  }
  long get() const {
    for (int i = 0; i < N; ++i) MC_CHECK(v[i] == v[0] + i, "mangled", "a value is torn");
    return v[0];
  }
  void set(long x) { *this = Plain(x); }
};
struct SmallPlain : Plain<2> {
  SmallPlain() = default;
  explicit SmallPlain(long x) : Plain<2>(x) {}
};
static long get(const int &x) { return x; }
static long get(const char &x) { return x; }
template <class T>
static long get(const T &x) {
  return x.get();
}
static void put(int &x, long v) { x = static_cast<int>(v); }
static void put(char &x, long v) { x = static_cast<char>(v); }
template <class T>
static void put(T &x, long v) {
  x.set(v);
}

// ---- pollers and futures ---------------------------------------------------------------------------------------------
// a storage kind: how a value gets in
template <class T, class PTR = typename fu::poll_storage_ptr_selector<T>::type>
struct Unique {
  using F = fu::future<T, PTR>;
  using PO = typename F::poller_type;
  enum { MAKES = 5 };
  static bool make(F &f, int how, long v, bool) {
    switch (how) {
      case 0: f.reset_data(T(v)); return true;
      case 1: {
        const T x(v);
        f.poll_data() = x;
        return true;
      }
      case 2: f.reset_data(std::unique_ptr<T>(new T(v))); return true;
      case 3: f.poll_data() = std::unique_ptr<T>(new T(v)); return true;
      default: f.reset_data(std::unique_ptr<T>()); return false;
    }
  }
  static PO *fresh(int how, long v) {
    if (how == 0) return new PO(T(v));
    return new PO(std::unique_ptr<T>(new T(v)));
  }
  static long value(const F &f) { return get(*f.data()); }
  static bool change(F &f, long v) { return put(*f.data(), v), true; }
};
struct KDerived : Unique<Counted> {
  static bool make(F &f, int how, long v, bool x) {
    if (how == 3) return f.reset_data(std::unique_ptr<CountedChild>(new CountedChild(v))), true;
    return Unique<Counted>::make(f, how, v, x);
  }
};
struct KVoid {
  using F = fu::future<void>;
  using PO = F::poller_type;
  enum { MAKES = 5 };
  static bool make(F &f, int how, long v, bool) {
    switch (how) {
      case 0: f.reset_data(true); return true;
      case 1: {
        bool t = false;
        f.poll_data() = t;
        return false;
      }
      case 2: f.reset_data(std::unique_ptr<int>(new int(static_cast<int>(v)))); return true;
      case 3: f.poll_data() = 1; return true;
      default: f.reset_data(std::unique_ptr<int>()); return false;
    }
  }
  static PO *fresh(int, long) { return new PO(true); }
  static long value(const F &) { return -1; }
  static bool change(F &, long) { return false; }
};
struct KShared {
  using F = fu::future<Counted, std::shared_ptr<Counted>>;
  using PO = F::poller_type;
  enum { MAKES = 5 };
  static std::shared_ptr<Counted> *outside;
  static bool make(F &f, int how, long v, bool) {
    switch (how) {
      case 0: f.reset_data(std::shared_ptr<Counted>(std::make_shared<Counted>(v))); return true;
      case 1: f.poll_data() = std::shared_ptr<CountedChild>(std::make_shared<CountedChild>(v)); return true;
      case 2: f.reset_data(std::unique_ptr<Counted>(new Counted(v))); return true;
      case 3: f.reset_data(Counted(v)); return true;
      default: f.reset_data(std::shared_ptr<Counted>()); return false;
    }
  }
  static PO *fresh(int, long v) { return new PO(std::make_shared<Counted>(v)); }
  static long value(const F &f) { return get(*f.data()); }
  static bool change(F &f, long v) { return put(*f.data(), v), true; }
};

enum { NF = 2 };
template <class K>
struct Futures {
  using F = typename K::F;
  F *f[NF];
  bool has[NF];
  long val[NF];
};

template <class K>
static void check(Futures<K> &w, const char *after, bool counts) {
  uint64_t h = 5;
  int full = 0;
  const void *at[NF];
  for (int i = 0; i < NF; ++i) {
    const typename K::F &c = *w.f[i];
    MC_CHECK(c.is_ready() == w.has[i] && c.is_pending() == !w.has[i], "ready", "after %s: future %d is %s, expected %s", after, i, c.is_ready() ? "ready" : "pending",
             w.has[i] ? "ready" : "pending");
    MC_CHECK(c.poll_data().is_ready() == w.has[i] && c.poll_data().is_pending() == !w.has[i], "ready", "after %s: the poller of future %d tells otherwise", after, i);
    MC_CHECK((c.data() != nullptr) == w.has[i] && static_cast<const void *>(c.data()) == static_cast<const void *>(w.f[i]->data()), "data",
             "after %s: future %d gives %s", after, i, c.data() ? "data although it is empty" : "no data");
    MC_CHECK(static_cast<const void *>(c.raw_ptr().get()) == static_cast<const void *>(c.data()), "data", "after %s: raw pointer and data of future %d differ", after, i);
    at[i] = static_cast<const void *>(c.data());
    if (w.has[i]) {
      ++full;
      long v = K::value(c);
      MC_CHECK(v == -1 || v == w.val[i], "value", "after %s: future %d holds %ld, expected %ld", after, i, v, w.val[i]);
      MC_CHECK(at[i] != nullptr && mc::in_arena(at[i]), "data", "after %s: the value of future %d is not in memory it owns", after, i);
      access_check(at[i], 1, false);
      for (int k = 0; k < i; ++k) MC_CHECK(at[k] != at[i], "shared", "after %s: two futures hold the same object", after);
    }
    h = hash_mix(h, w.has[i]);
  }
  if (counts) MC_CHECK(L->n == full, "lifetime", "after %s: %d objects are alive, %d futures are ready", after, L->n, full);
  state(h);
  step();
}

template <class K>
static void futures(bool counts) {
  Live live;
  memset(&live, 0, sizeof live);
  L = &live;
  Futures<K> w;
  using F = typename K::F;
  using PO = typename K::PO;
  for (int i = 0; i < NF; ++i) w.f[i] = new F(), w.has[i] = false, w.val[i] = 0;
  int n = depth();
  long next = 1;
  check<K>(w, "construction", counts);
  history();
  for (int st = 0; st < n; ++st) {
    int op = choose(9, "op");
    const char *name = "?";
    int i = choose(NF, "i"), j = i;
    switch (op) {
      case 0:
        name = "giving a value";
        w.val[i] = next;
        w.has[i] = K::make(*w.f[i], choose(K::MAKES, "how"), next, false);
        next++;
        break;
      case 1:
        name = "moving";
        j = choose(NF, "j");
        if (i == j) goal(0);
        if (i != j && w.has[i] && w.has[j]) goal(1);
        w.f[i]->poll_data() = std::move(w.f[j]->poll_data());
        if (i != j) w.has[i] = w.has[j], w.val[i] = w.val[j], w.has[j] = false;
        break;
      case 2:
        name = "swapping";
        j = choose(NF, "j");
        if (w.has[i] != w.has[j]) goal(2);
        if (choose(2, "how")) {
          w.f[i]->poll_data().swap(w.f[j]->poll_data());
        } else {
          swap(w.f[i]->poll_data(), w.f[j]->poll_data());
        }
        std::swap(w.has[i], w.has[j]);
        std::swap(w.val[i], w.val[j]);
        break;
      case 3:
        name = "resetting";
        if (choose(2, "how")) w.f[i]->reset_data();
        else w.f[i]->poll_data().reset();
        w.has[i] = false;
        break;
      case 4:  // a poller constructed from another one takes the value over
        name = "constructing by move";
        j = 1 - i;
        {
          PO *p = new PO(std::move(w.f[j]->poll_data()));
          MC_CHECK(p->is_ready() == w.has[j], "ready", "a poller constructed from a %s one is %s", w.has[j] ? "ready" : "pending", p->is_ready() ? "ready" : "pending");
          w.f[i]->poll_data() = std::move(*p);
          MC_CHECK(p->is_pending() && !p->is_ready() && p->data() == nullptr, "ready", "a poller moved from is still ready");
          delete p;
          w.has[i] = w.has[j];
          w.val[i] = w.val[j];
          w.has[j] = false;
        }
        break;
      case 5:
        name = "constructing with a value";
        {
          PO *p = K::fresh(choose(2, "how"), next);
          w.f[i]->poll_data() = std::move(*p);
          delete p;
          w.has[i] = true;
          w.val[i] = next++;
        }
        break;
      case 6:
        name = "destroying";
        delete w.f[i];
        w.f[i] = new F();
        w.has[i] = false;
        break;
      case 7:
        name = "changing the value in place";
        if (!w.has[i] && is_history()) break;
        if (!w.has[i]) prune();
        if (!K::change(*w.f[i], next)) prune();
        w.val[i] = next++;
        goal(3);
        break;
      case 8:
        name = "taking an unrelated poller's place";  // assign from a temporary
        {
          PO p;
          MC_CHECK(p.is_pending(), "ready", "a new poller is ready");
          w.f[i]->poll_data() = std::move(p);
          w.has[i] = false;
        }
        break;
    }
    check<K>(w, name, counts);
  }
  for (int i = 0; i < NF; ++i) delete w.f[i];
  MC_CHECK(L->n == 0 && L->made == L->gone, "lifetime", "%d objects are left when all futures are gone", L->n);
  check_no_leak("leak");
  L = nullptr;
}

// ---- results ---------------------------------------------------------------------------------------------------------
enum { NRES = 2 };
enum Mode { NONE, OK, ERR };
template <class R>
static Mode mode_of(const R &r) {
  MC_CHECK(!(r.is_success() && r.is_error()), "mode", "a result is success and error at once");
  return r.is_success() ? OK : r.is_error() ? ERR : NONE;
}
template <class R, bool TRIVIAL>
struct Results {
  R *r[NRES];
  Mode m[NRES];
  long v[NRES];
  bool loose[NRES];  // moved from: may be empty or keep its value
};
template <class R, bool TRIVIAL>
static void check(Results<R, TRIVIAL> &w, const char *after, int counted_ok, int counted_err) {
  int alive = 0;
  uint64_t h = 3;
  for (int i = 0; i < NRES; ++i) {
    const R &c = *w.r[i];
    Mode m = mode_of(c);
    if (w.loose[i]) {
      if (m == NONE) w.m[i] = NONE;
      w.loose[i] = false;
    }
    MC_CHECK(m == w.m[i], "mode", "after %s: result %d is %s, expected %s", after, i, m == OK ? "a success" : m == ERR ? "an error" : "empty",
             w.m[i] == OK ? "a success" : w.m[i] == ERR ? "an error" : "empty");
    MC_CHECK((c.get_success() != nullptr) == (m == OK) && (c.get_error() != nullptr) == (m == ERR), "mode", "after %s: result %d offers the wrong data", after, i);
    MC_CHECK(w.r[i]->get_success() == c.get_success() && w.r[i]->get_error() == c.get_error(), "mode", "after %s: const and mutable access to result %d differ", after, i);
    if (m == OK) {
      MC_CHECK(get(*c.get_success()) == w.v[i], "value", "after %s: result %d holds %ld, expected success %ld", after, i, get(*c.get_success()), w.v[i]);
      alive += counted_ok;
    }
    if (m == ERR) {
      MC_CHECK(get(*c.get_error()) == w.v[i], "value", "after %s: result %d holds %ld, expected error %ld", after, i, get(*c.get_error()), w.v[i]);
      alive += counted_err;
    }
    h = hash_mix(h, m);
  }
  MC_CHECK(L->n == alive, "lifetime", "after %s: %d objects are alive, expected %d", after, L->n, alive);
  state(h);
  step();
}

template <class R>
static R *boxed(R &&r) {
  return new R(std::move(r));
}
template <class R>
static R *boxed(std::unique_ptr<R> &&r) {
  return r.release();
}

template <class TOK, class TERR, bool TRIVIAL>
static void results() {
  using R = fu::result_type<TOK, TERR>;
  using FR = fu::future<R>;
  Live live;
  memset(&live, 0, sizeof live);
  L = &live;
  const int cok = std::is_same<TOK, Counted>::value, cerr = std::is_same<TERR, Counted>::value;
  Results<R, TRIVIAL> w;
  long next = 1;
  for (int i = 0; i < NRES; ++i) w.r[i] = new R(R::create_success(TOK(next))), w.m[i] = OK, w.v[i] = next++, w.loose[i] = false;
  check(w, "construction", cok, cerr);
  int n = depth();
  history();
  for (int st = 0; st < n; ++st) {
    int op = choose(7, "op"), i = choose(NRES, "i"), j = i;
    const char *name = "?";
    switch (op) {
      case 0:
      case 1:
        name = op == 0 ? "assigning a success" : "assigning an error";
        if (op == 0) *w.r[i] = R::create_success(TOK(next));
        else *w.r[i] = R::create_error(TERR(next));
        w.m[i] = op == 0 ? OK : ERR;
        w.v[i] = next++;
        break;
      case 2:
        name = "moving";
        j = choose(NRES, "j");
        if (i != j && w.m[i] != w.m[j]) goal(4);
        *w.r[i] = std::move(*w.r[j]);
        if (i != j) {
          w.m[i] = w.m[j];
          w.v[i] = w.v[j];
          if (TRIVIAL) w.loose[j] = true;
          else w.m[j] = NONE;
        } else {
          goal(0);
        }
        break;
      case 3:
        name = "swapping";
        j = choose(NRES, "j");
        if (w.m[i] != w.m[j]) goal(5);
        swap(*w.r[i], *w.r[j]);
        std::swap(w.m[i], w.m[j]);
        std::swap(w.v[i], w.v[j]);
        break;
      case 4:
        name = "constructing by move";
        {
          R *x = new R(std::move(*w.r[i]));
          delete w.r[i];
          w.r[i] = x;
        }
        break;
      case 5:  // through a future, as promises do
        name = "passing through a future";
        {
          bool good = choose(2, "good");
          FR *f = new FR();
          MC_CHECK(f->is_pending(), "ready", "a new future is ready");
          if (good) f->reset_data(R::make_success(TOK(next)));
          else f->poll_data() = R::make_error(TERR(next));
          MC_CHECK(f->is_ready() && f->data() && f->data()->is_success() == good, "mode", "a future of a result does not hold it");
          *w.r[i] = std::move(*f->data());
          delete f;
          w.m[i] = good ? OK : ERR;
          w.v[i] = next++;
          goal(6);
        }
        break;
      case 6:
        name = "constructing with make";
        {
          bool good = choose(2, "good");
          delete w.r[i];
          w.r[i] = good ? boxed<R>(R::make_success(TOK(next))) : boxed<R>(R::make_error(TERR(next)));
          w.m[i] = good ? OK : ERR;
          w.v[i] = next++;
        }
        break;
    }
    check(w, name, cok, cerr);
  }
  for (int i = 0; i < NRES; ++i) delete w.r[i];
  MC_CHECK(L->n == 0 && L->made == L->gone, "lifetime", "%d objects are left when all results are gone", L->n);
  check_no_leak("leak");
  L = nullptr;
}

static void f_void() { futures<KVoid>(false); }
static void f_int() { futures<Unique<int>>(false); }
static void f_small() { futures<Unique<SmallPlain>>(false); }
static void f_edge() { futures<Unique<Plain<3>>>(false); }
static void f_big() { futures<Unique<Plain<4>>>(false); }
static void f_counted() { futures<KDerived>(true); }
static void f_shared() { futures<KShared>(true); }
static void r_trivial() { results<int, char, true>(); }
static void r_plain() { results<SmallPlain, Plain<4>, true>(); }
static void r_okcount() { results<Counted, int, false>(); }
static void r_errcount() { results<int, Counted, false>(); }
static void r_both() { results<Counted, Counted, false>(); }
static void r_big() { results<Plain<6>, int, false>(); }

#define FG {"self move", "move over a value", "swap of ready and pending", "changed in place"}
#define RG {"self move", "-", "-", "-", "move over another kind", "swap success and error", "through a future"}
static const Scenario list[] = {
    {"void", f_void, 4, 5, -1, -1, true, "future<void>: all operation sequences on two futures", {0}, {"self move", "move over a value", "swap of ready and pending"}},
    {"int", f_int, 4, 5, -1, -1, true, "small value kept in place", {0}, FG},
    {"small", f_small, 4, 5, -1, -1, true, "small trivial struct kept in place", {0}, FG},
    {"edge", f_edge, 4, 5, -1, -1, true, "largest struct kept in place", {0}, FG},
    {"big", f_big, 4, 5, -1, -1, true, "trivial struct kept behind a pointer", {0}, FG},
    {"counted", f_counted, 4, 5, -1, -1, true, "object with constructor and destructor, also a derived one, every lifetime counted", {0}, FG},
    {"shared", f_shared, 4, 5, -1, -1, true, "object kept by shared pointer", {0}, FG},
    {"long", f_int, 60, 100, -1, -1, true, "long histories: every sequence which repeats after so many choices", {0}, FG, 5, 6, 9},
    {"long-counted", f_counted, 60, 100, -1, -1, true, "the same with objects", {0}, FG, 5, 6, 9},
    {"long-shared", f_shared, 60, 100, -1, -1, true, "the same with shared objects", {0}, FG, 5, 6, 9},
    {"result-trivial", r_trivial, 5, 6, -1, -1, true, "result of trivial types of different size: all operation sequences on two results", {0}, RG},
    {"result-plain", r_plain, 5, 6, -1, -1, true, "result of small and large trivial structs", {0}, RG},
    {"result-object", r_okcount, 5, 6, -1, -1, true, "result with an object for success", {0}, RG},
    {"result-object-error", r_errcount, 5, 6, -1, -1, true, "result with an object for error", {0}, RG},
    {"result-objects", r_both, 5, 6, -1, -1, true, "result with objects for both", {0}, RG},
    {"result-big", r_big, 5, 6, -1, -1, true, "result with a trivial struct too large to be kept in place", {0}, RG},
};
MC_MAIN(list)
