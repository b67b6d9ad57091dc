// C21: intrusive pointers keep their object alive exactly as long as one of them refers to it.
#include <libcopp/utils/atomic_int_type.h>
#include <libcopp/utils/intrusive_ptr.h>

#include <cstring>
#include <memory>
#include <type_traits>
#include <vector>

#include "mc.h"

using namespace mc;
using copp::util::intrusive_ptr;

struct World;
static World *W;

struct Base {
  int id;
  long refs;
  intrusive_ptr<Base> next;
  explicit Base(int i) : id(i), refs(0) {}
  virtual ~Base();
};
struct Derived : Base {
  int extra;
  explicit Derived(int i) : Base(i), extra(i * 10) {}
};
static void intrusive_ptr_add_ref(Base *p) {
  MC_CHECK(p != nullptr, "null", "add_ref of null");
  p->refs++;
}
static void intrusive_ptr_release(Base *p) {
  MC_CHECK(p != nullptr, "null", "release of null");
  MC_CHECK(p->refs > 0, "over-release", "object %d released more often than acquired", p->id);
  if (--p->refs == 0) delete p;
}

using BP = intrusive_ptr<Base>;
using DP = intrusive_ptr<Derived>;
enum { NB = 2, ND = 1, NS = NB + ND, NO = 3 };

struct World {
  BP b[NB];
  DP d[ND];
  Base *obj[NO];       // live objects
  int destroyed[NO];
  int ptr[NS];         // model: which object the pointer refers to (-1: none)
  int owed[NO];        // references taken by detach and held as raw pointers
  int nx[NO];          // model of obj->next
  int nobj;
  int reenter;         // destructor of an object resets this pointer
};
Base::~Base() {
  if (W) {
    W->destroyed[id]++;
    W->obj[id] = nullptr;
    if (W->reenter >= 0) {
      int r = W->reenter;
      W->reenter = -1;
      if (r < NB) W->b[r].reset();
      else W->d[0].reset();
    }
  }
}

static long model_refs(World &w, int o) {
  long n = w.owed[o];
  for (int i = 0; i < NS; ++i) n += w.ptr[i] == o;
  for (int i = 0; i < w.nobj; ++i)
    if (w.obj[i] && w.nx[i] == o) n++;
  return n;
}
// objects without references disappear, together with what only they referred to
static void collect(World &w, bool alive[NO]) {
  for (int i = 0; i < NO; ++i) alive[i] = i < w.nobj && !w.destroyed[i];
}
static bool is_der(int o) { return o == 0; }

static void verify(World &w, const char *after) {
  // model: repeat dropping unreferenced objects (their next pointers drop too)
  bool dead[NO];
  for (int i = 0; i < NO; ++i) dead[i] = i >= w.nobj || false;
  for (bool again = true; again;) {
    again = false;
    for (int i = 0; i < w.nobj; ++i) {
      if (dead[i]) continue;
      long n = w.owed[i];
      for (int k = 0; k < NS; ++k) n += w.ptr[k] == i;
      for (int k = 0; k < w.nobj; ++k)
        if (!dead[k] && w.nx[k] == i) n++;
      if (n == 0) dead[i] = true, again = true;
    }
  }
  for (int i = 0; i < w.nobj; ++i) {
    long n = w.owed[i];
    for (int k = 0; k < NS; ++k) n += w.ptr[k] == i;
    for (int k = 0; k < w.nobj; ++k)
      if (!dead[k] && w.nx[k] == i) n++;
    if (dead[i]) {
      MC_CHECK(w.destroyed[i] == 1, "not-destroyed", "after %s: object %d is referred to by nobody and destroyed %d times", after, i, w.destroyed[i]);
    } else {
      MC_CHECK(w.destroyed[i] == 0, "destroyed-early", "after %s: object %d has %ld references and was destroyed", after, i, n);
      MC_CHECK(w.obj[i]->refs == n, "count", "after %s: object %d counts %ld references, really %ld", after, i, w.obj[i]->refs, n);
      Base *x = w.obj[i]->next.get();
      MC_CHECK(x == (w.nx[i] < 0 ? nullptr : w.obj[w.nx[i]]), "target", "after %s: member of object %d refers to the wrong object", after, i);
    }
  }
  uint64_t h = 1;
  for (int k = 0; k < NS; ++k) {
    Base *p = k < NB ? w.b[k].get() : w.d[k - NB].get();
    Base *m = w.ptr[k] < 0 ? nullptr : w.obj[w.ptr[k]];
    MC_CHECK(p == m, "target", "after %s: pointer %d refers to the wrong object", after, k);
    bool t = k < NB ? static_cast<bool>(w.b[k]) : static_cast<bool>(w.d[k - NB]);
    bool no = k < NB ? !w.b[k] : !w.d[k - NB];
    MC_CHECK(t == (m != nullptr) && no == (m == nullptr), "bool", "after %s: pointer %d tells the wrong truth", after, k);
    h = hash_mix(h, w.ptr[k] + 1);
  }
  for (int i = 0; i < NO; ++i) h = hash_mix(h, (dead[i] ? 0 : 1) + 2 * (w.nx[i] + 1) + 16 * w.owed[i]);
  state(h);
}
static void compare(World &w) {
  for (int i = 0; i < NB; ++i)
    for (int k = 0; k < NS; ++k) {
      Base *x = w.b[i].get(), *y = k < NB ? w.b[k].get() : w.d[0].get();
      bool eq = k < NB ? w.b[i] == w.b[k] : w.b[i] == w.d[0], ne = k < NB ? w.b[i] != w.b[k] : w.b[i] != w.d[0];
      bool eq2 = k < NB ? w.b[i] == y : y == w.b[i];
      bool lt = k < NB ? w.b[i] < w.b[k] : w.b[i] < y, ge = k < NB ? w.b[i] >= w.b[k] : w.b[i] >= y;
      bool gt = k < NB ? w.b[i] > w.b[k] : w.b[i] > y, le = k < NB ? w.b[i] <= w.b[k] : w.b[i] <= y;
      MC_CHECK(eq == (x == y) && ne == (x != y) && eq2 == eq, "compare", "equality of pointers is wrong");
      MC_CHECK(lt == (x < y) && ge == !lt && gt == (x > y) && le == !gt, "compare", "order of pointers is wrong");
      MC_CHECK((w.b[i] == nullptr) == (x == nullptr) && (nullptr == w.b[i]) == (x == nullptr), "compare", "comparison with null is wrong");
    }
}

static void sequences() {
  World w;
  W = &w;
  memset(w.destroyed, 0, sizeof w.destroyed);
  memset(w.owed, 0, sizeof w.owed);
  for (int i = 0; i < NS; ++i) w.ptr[i] = -1;
  for (int i = 0; i < NO; ++i) w.nx[i] = -1, w.obj[i] = nullptr;
  w.nobj = 0;
  w.reenter = -1;
  int n = depth();
  history();
  for (int st = 0; st < n; ++st) {
    int op = choose(14, "op");
    const char *name = "?";
    switch (op) {
      case 0: {  // create
        if (w.nobj >= NO) prune();
        int k = choose(NS, "into"), how = choose(3, "how");
        int o = w.nobj++;
        // object 0 is a Derived and may go anywhere, the others are plain
        if (k >= NB && !is_der(o)) { w.nobj--; prune(); }
        Base *p = is_der(o) ? new Derived(o) : new Base(o);
        w.obj[o] = p;
        if (how == 0) {  // from a raw pointer
          name = "reset(p)";
          w.ptr[k] = o;
          if (k < NB) w.b[k].reset(p);
          else w.d[0].reset(static_cast<Derived *>(p));
        } else if (how == 1) {  // adopting a reference
          name = "reset(p, false)";
          p->refs = 1;
          w.ptr[k] = o;
          if (k < NB) w.b[k].reset(p, false);
          else w.d[0].reset(static_cast<Derived *>(p), false);
        } else {
          name = "= unique_ptr";
          w.ptr[k] = o;
          if (k < NB) w.b[k] = std::unique_ptr<Base>(p);
          else w.d[0] = std::unique_ptr<Derived>(static_cast<Derived *>(p));
        }
        break;
      }
      case 1: {  // copy assignment
        int i = choose(NB, "to"), k = choose(NS, "from");
        name = i == k ? "self copy" : k < NB ? "copy" : "converting copy";
        w.ptr[i] = w.ptr[k];
        if (k < NB) w.b[i] = w.b[k];
        else w.b[i] = w.d[0];
        if (i == k) goal(0);
        if (k >= NB) goal(1);
        break;
      }
      case 2: {  // move assignment
        int i = choose(NB, "to"), k = choose(NS, "from");
        name = i == k ? "self move" : k < NB ? "move" : "converting move";
        if (i != k) {
          w.ptr[i] = w.ptr[k];
          w.ptr[k] = -1;
        }
        if (k < NB) {
          BP &src = w.b[k];
          w.b[i] = std::move(src);
        } else
          w.b[i] = BP(std::move(w.d[0]));
        if (i == k) goal(2);
        break;
      }
      case 3: {  // reset
        int k = choose(NS, "which");
        name = "reset()";
        w.ptr[k] = -1;
        if (k < NB) w.b[k].reset();
        else w.d[0].reset();
        break;
      }
      case 4: {  // reset to the same or another raw pointer
        int k = choose(NB, "which"), o = choose(NO, "object");
        if (o >= w.nobj || !w.obj[o]) prune();
        name = w.ptr[k] == o ? "reset to itself" : "reset to a known object";
        w.ptr[k] = o;
        w.b[k].reset(w.obj[o]);
        break;
      }
      case 5: {  // swap
        int i = choose(NB, "a"), k = choose(NB, "b");
        name = "swap";
        int t = w.ptr[i];
        w.ptr[i] = w.ptr[k];
        w.ptr[k] = t;
        w.b[i].swap(w.b[k]);
        break;
      }
      case 6: {  // detach: the reference is kept as a raw pointer
        int k = choose(NS, "which");
        name = "detach";
        Base *p = k < NB ? w.b[k].detach() : w.d[0].detach();
        MC_CHECK(p == (w.ptr[k] < 0 ? nullptr : w.obj[w.ptr[k]]), "detach", "detach returned the wrong pointer");
        if (w.ptr[k] >= 0) w.owed[w.ptr[k]]++;
        w.ptr[k] = -1;
        break;
      }
      case 7: {  // give a detached reference back
        int k = choose(NB, "which"), o = choose(NO, "object");
        if (!w.owed[o]) prune();
        name = "adopt";
        w.owed[o]--;
        w.ptr[k] = o;
        w.b[k] = BP(w.obj[o], false);
        goal(3);
        break;
      }
      case 8: {  // construct copies, by copy, move and conversion, and drop them
        int k = choose(NS, "from"), how = choose(3, "how");
        name = "temporaries";
        if (k < NB) {
          if (how == 0) {
            BP t(w.b[k]);
            BP u(t);
            MC_CHECK(t.get() == w.b[k].get() && u.get() == t.get(), "target", "a copy refers to another object");
          } else if (how == 1) {
            BP t(std::move(w.b[k]));
            MC_CHECK(!w.b[k], "moved-from", "the source of a move still refers to the object");
            w.b[k] = std::move(t);
            MC_CHECK(!t, "moved-from", "the source of a move still refers to the object");
          } else {
            BP t(w.b[k].get());
            MC_CHECK(t.get() == w.b[k].get(), "target", "a pointer made from the raw pointer differs");
          }
        } else {
          if (how == 0) {
            BP t(w.d[0]);
            MC_CHECK(t.get() == w.d[0].get(), "target", "a converted copy refers to another object");
          } else if (how == 1) {
            BP t(std::move(w.d[0]));
            MC_CHECK(!w.d[0], "moved-from", "the source of a converting move still refers to the object");
            w.ptr[NB] = -1;
            int old = -1;
            for (int o = 0; o < w.nobj; ++o)
              if (w.obj[o] && w.obj[o] == t.get()) old = o;
            if (old >= 0) w.owed[old]++;
            t.detach();
          } else {
            DP t(w.d[0].get());
            DP u;
            u = t;
            MC_CHECK(u.get() == w.d[0].get(), "target", "a copy refers to another object");
          }
        }
        break;
      }
      case 9: {  // member of a referred object
        int o = choose(NO, "object"), k = choose(NB + 1, "target");
        if (o >= w.nobj || !w.obj[o]) prune();
        name = "set member";
        if (k < NB && w.ptr[k] == o) prune();  // no cycles
        if (k < NB && w.ptr[k] >= 0) {
          for (int x = w.ptr[k], c = 0; x >= 0 && c < NO; x = w.nx[x], ++c)
            if (x == o) prune();
        }
        w.nx[o] = k < NB ? w.ptr[k] : -1;
        if (k < NB) w.obj[o]->next = w.b[k];
        else w.obj[o]->next.reset();
        break;
      }
      case 10: {  // walk: p = p->next, the old object may go away while its member is the source
        int k = choose(NB, "which");
        if (w.ptr[k] < 0) prune();
        name = "p = p->next";
        int o = w.ptr[k];
        w.ptr[k] = w.nx[o];
        w.b[k] = w.b[k]->next;
        goal(4);
        break;
      }
      case 11: {  // p = move(p->next)
        int k = choose(NB, "which");
        if (w.ptr[k] < 0) prune();
        name = "p = move(p->next)";
        int o = w.ptr[k];
        w.ptr[k] = w.nx[o];
        w.nx[o] = -1;
        w.b[k] = std::move(w.b[k]->next);
        goal(5);
        break;
      }
      case 12: {  // the destructor of the object resets one of our pointers
        int k = choose(NB, "which"), r = choose(NS, "reset in destructor");
        name = "reset with re-entrance";
        w.reenter = r;
        int o = w.ptr[k];
        w.ptr[k] = -1;
        int before = 0;
        for (int i = 0; i < NO; ++i) before += w.destroyed[i];
        w.b[k].reset();
        int after = 0;
        for (int i = 0; i < NO; ++i) after += w.destroyed[i];
        (void)o;
        if (after > before) {
          w.ptr[r] = -1;
          goal(6);
        }
        w.reenter = -1;
        break;
      }
      case 13: {  // derived pointer copies and moves
        int how = choose(3, "how");
        name = "derived";
        if (how == 0) {
          DP &x = w.d[0];
          w.d[0] = x;
        } else if (how == 1) {
          DP &x = w.d[0];
          w.d[0] = std::move(x);
        } else {
          DP x(w.d[0]);
          w.d[0] = DP();
          w.d[0].swap(x);
        }
        break;
      }
    }
    step();
    if (verbose()) mc::log("%s", name);
    verify(w, name);
  }
  compare(w);
  // let everything go
  for (int o = 0; o < w.nobj; ++o)
    while (w.owed[o] > 0) {
      w.owed[o]--;
      BP t(w.obj[o], false);
    }
  for (int k = 0; k < NB; ++k) w.b[k].reset(), w.ptr[k] = -1;
  w.d[0].reset();
  w.ptr[NB] = -1;
  for (int o = 0; o < w.nobj; ++o) w.nx[o] = -1;
  verify(w, "the end");
  W = nullptr;
  check_no_leak("leak");
}

// ------------------------------------------------------------------------------------------------------- several threads
struct Counted {
  copp::util::lock::atomic_int_type<size_t> refs;
  int payload;
  int mark[3];
  int *destroyed;
  explicit Counted(int *d) : refs(0), payload(7), mark(), destroyed(d) {}
  ~Counted() {
    // whoever destroys the object must see what the others did to it
    MC_CHECK(mark[0] + mark[1] + mark[2] == param(0), "lost-write", "the destructor does not see the last writes");
    ++*destroyed;
  }
};
static void intrusive_ptr_add_ref(Counted *p) { ++p->refs; }
static void intrusive_ptr_release(Counted *p) {
  if (0 == --p->refs) delete p;
}
using CP = intrusive_ptr<Counted>;
struct Sh {
  int destroyed;
};
static void threads() {
  Sh *sh = shared<Sh>();
  int n = param(0);
  {
    CP mine[3];
    mine[0].reset(new Counted(&sh->destroyed));
    for (int i = 1; i < n; ++i) mine[i] = mine[0];
    for (int i = 0; i < n; ++i)
      spawn([&, i, sh] {
        for (int r = 0; r < depth(); ++r) {
          switch (choose(4, "op")) {
            case 0: {
              CP t(mine[i]);
              MC_CHECK(t->payload == 7, "payload", "object changed");
              break;
            }
            case 1: {
              CP t(mine[i].get());
              mine[i] = std::move(t);
              break;
            }
            case 2: {
              CP t;
              t.swap(mine[i]);
              CP u(t);
              mine[i] = u;
              break;
            }
            case 3: {
              Counted *p = mine[i].detach();
              CP u(p);
              mine[i].reset(p, false);
              break;
            }
          }
          step();
          MC_CHECK(sh->destroyed == 0, "destroyed-early", "the object was destroyed while thread %d refers to it", i);
        }
        MC_CHECK(mine[i]->payload == 7, "payload", "object changed");
        mine[i]->mark[i] = 1;
        mine[i].reset();
        step();
      });
    run_threads();
    MC_CHECK(sh->destroyed == 1, "not-destroyed", "all references are gone, the object was destroyed %d times", sh->destroyed);
    state(sh->destroyed);
  }
  check_no_leak("leak");
}

#define GS {"self copy", "converting copy", "self move", "adopted", "walked", "moved from member", "destructor re-entered"}
static const Scenario LIST[] = {
    {"sequences", sequences, 4, 5, -1, -1, false, "3 pointers of 2 types, 3 objects that may refer to each other", {0}, GS},
    {"two_threads", threads, 2, 3, 8, 6, false, "2 threads copying, moving and dropping references of one object", {2}},
    {"three_threads", threads, 1, 2, 4, 3, false, "3 threads copying, moving and dropping references of one object", {3}},
};
MC_MAIN(LIST)
