// Stack pool: every sequence of operations against a model of the pool.
#include "pool.h"
#include <algorithm>
#include <vector>
static Book book_store;
Book *book = &book_store;

template <class A>
static void pool_ops(bool guard) {
  using pool_t = copp::stack_pool<counted<A>>;
  const size_t page = copp::stack_traits::page_size();
  *book = Book();
  {
    auto pool = pool_t::create();
    pool_t &p = *pool;
    const size_t unit = copp::stack_traits::round_to_page_size(copp::stack_traits::minimum_size());  // sizes of interest exceed the minimum
    const size_t base = unit + page;
    size_t conf = base;
    MC_CHECK(p.is_auto_gc(), "default", "auto gc is off by default");
    MC_CHECK(p.get_stack_size() == copp::stack_traits::default_size(), "default", "default stack size");
    MC_CHECK(p.set_stack_size(base) == base && p.get_stack_size() == base, "conf", "set_stack_size");
    size_t off = guard ? page : 0;
    // configuration
    size_t gcn = 0, maxn = 0, maxs = 0, minn = 0, mins = 0;
    bool agc = true;
    switch (param(0)) {
      case 0:  // gc
        gcn = choose(3, "gc number");
        agc = choose(2, "auto gc");
        break;
      case 1:  // upper limits
        maxn = choose(2) ? 2 : 0;
        maxs = choose(2) ? 2 * (base + off) + page : 0;
        if (choose(2) && maxs) maxs = 2 * base;
        agc = choose(2);
        break;
      case 2:  // lower limits
        minn = choose(2) ? 2 : 0;
        mins = choose(2) ? 3 * (base + off) : 0;
        gcn = choose(2);
        break;
      default: break;
    }
    p.set_gc_once_number(gcn);
    p.set_auto_gc(agc);
    p.set_max_stack_number(maxn);
    p.set_max_stack_size(maxs);
    p.set_min_stack_number(minn);
    p.set_min_stack_size(mins);
    MC_CHECK(p.get_gc_once_number() == gcn && p.is_auto_gc() == agc && p.get_max_stack_number() == maxn && p.get_max_stack_size() == maxs &&
                 p.get_min_stack_number() == minn && p.get_min_stack_size() == mins,
             "conf", "a setting was not stored");

    stack_context used[24];
    int nu = 0;
    const int maxu = param(1);
    // model of the free list: sizes, oldest first
    size_t fr[64];
    int nf = 0;
    size_t last_alloc_conf = 0;  // configured size at the last fresh allocation, for the accepted size of returned stacks
    (void)last_alloc_conf;
    size_t stack_off = 0;  // surplus of the last fresh stack over the size configured then
    auto usize = [&] {
      size_t s = 0;
      for (int i = 0; i < nu; ++i) s += used[i].size;
      return s;
    };
    auto fsize = [&] {
      size_t s = 0;
      for (int i = 0; i < nf; ++i) s += fr[i];
      return s;
    };
    auto check = [&](const char *op) {
      auto &l = p.get_limit();
      MC_CHECK((int)l.used_stack_number == nu && l.used_stack_size == usize(), "used-count",
               "after %s: pool reports %zu stacks/%zu bytes in use, really %d/%zu", op, l.used_stack_number, l.used_stack_size, nu, usize());
      MC_CHECK((int)l.free_stack_number == nf && l.free_stack_size == fsize(), "free-count",
               "after %s: pool reports %zu free stacks/%zu bytes, expected %d/%zu", op, l.free_stack_number, l.free_stack_size, nf, fsize());
      MC_CHECK(book->n == nu + nf, "lost-stack", "after %s: %d stacks exist, %d in use and %d free", op, book->n, nu, nf);
      for (int i = 0; i < nu; ++i) {
        MC_CHECK(book->find(used[i].sp) >= 0, "freed-in-use", "after %s: a stack in use was given back to the system", op);
        unsigned char *top = static_cast<unsigned char *>(used[i].sp);
        size_t n = used[i].size - off;
        MC_CHECK(top[-1] == 0xA0 + i && top[-(long)n] == 0xB0 + i, "contents", "after %s: contents of a stack in use changed", op);
      }
      MC_CHECK(p.get_stack_size() == conf, "conf", "after %s: stack size %zu", op, p.get_stack_size());
      state(hash_mix(hash_mix(nu * 8 + nf, usize()), fsize() * 4 + conf / page));
    };
    auto mark = [&](int i) {
      unsigned char *top = static_cast<unsigned char *>(used[i].sp);
      size_t n = used[i].size - off;
      top[-1] = 0xA0 + i;
      top[-(long)n] = 0xB0 + i;
    };
    auto model_gc = [&]() -> int {
      size_t us = usize(), fs = fsize();
      if (us >= fs && nu >= nf) return 0;
      if (minn || mins) {
        bool a = !mins || us + fs <= mins, b = !minn || nu + nf <= (int)minn;
        if (a && b) return 0;
      }
      size_t ks = fs / 2, kn = nf / 2;
      int n = 0;
      while (nf > 0 && (fsize() > ks || nf > (int)kn)) {
        for (int i = 1; i < nf; ++i) fr[i - 1] = fr[i];
        --nf;
        ++n;
        if (gcn && n == (int)gcn) break;
      }
      return n;
    };
    auto release = [&](int i, const char *op) {
      size_t sz = used[i].size;
      int frees = book->frees;
      p.deallocate(used[i]);
      for (int k = i; k + 1 < nu; ++k) used[k] = used[k + 1];
      --nu;
      int expect = 0;
      if (sz == conf + stack_off)
        fr[nf++] = sz;
      else
        expect = 1, goal(5);
      if (agc) {
        int g = model_gc();
        expect += g;
        if (g) goal(0);
      }
      MC_CHECK(book->frees - frees == expect, "gc-number", "%s gave %d stacks back to the system, expected %d", op, book->frees - frees, expect);
      for (int k = 0; k < nu; ++k) mark(k);
      check(op);
    };
    check("creation");
    history();
    for (int d = 0; d < depth(); ++d) {
      step();
      int nops = 4 + (nu ? (nu > 1 ? 2 : 1) : 0) + (param(2) ? 3 : 0);
      int op = choose(nops, "op");
      if (op == 0 || op == 3) {
        if (nu >= maxu) {
          if (is_history()) continue;
          prune();
        }
        bool fails = op == 3;
        if (fails) book->fail = 1;
        bool refused = (maxn && nu >= (int)maxn) || (maxs && usize() + conf > maxs);
        bool reuse = !refused && nf > 0;
        int allocs = book->allocs;
        log("allocate%s (%s)", fails ? " while the system is out of memory" : "", refused ? "over the limit" : reuse ? "reuse" : "fresh");
        stack_context c;
        p.allocate(c);
        book->fail = 0;
        if (refused || (fails && !reuse)) {
          MC_CHECK(c.sp == nullptr, refused ? "over-limit" : "failure", "a stack was handed out: %s", refused ? "limit reached" : "no memory");
          if (refused) goal(1);
          if (fails) goal(4);
        } else {
          MC_CHECK(c.sp != nullptr, "refused", "no stack although the limits allow one");
          MC_CHECK(c.size >= conf, "short-stack", "stack of %zu bytes, configured are %zu", c.size, conf);
          MC_CHECK(book->allocs - allocs == (reuse ? 0 : 1), "reuse", "%d fresh allocations with %d free stacks", book->allocs - allocs, nf);
          int li = book->find(c.sp);
          MC_CHECK(li >= 0, "dead-stack", "the pool handed out a stack which was already given back to the system");
          MC_CHECK(book->live[li].size == c.size, "size-changed", "stack of %zu handed out as %zu", book->live[li].size, c.size);
          for (int i = 0; i < nu; ++i) MC_CHECK(used[i].sp != c.sp, "duplicate-stack", "one stack handed out twice");
          if (reuse) {
            int k = -1;
            for (int i = nf - 1; i >= 0; --i)
              if (fr[i] == c.size) {
                k = i;
                break;
              }
            MC_CHECK(k >= 0, "reuse", "handed out a stack of unknown size");
            for (; k + 1 < nf; ++k) fr[k] = fr[k + 1];
            --nf;
            goal(2);
          } else {
            stack_off = c.size - conf;
          }
          used[nu] = c;
          mark(nu);
          ++nu;
        }
        check("allocate");
      } else if (op == 1) {
        int frees = book->frees;
        int want = model_gc();
        log("gc expects %d", want);
        size_t n = p.gc();
        MC_CHECK((int)n == want && book->frees - frees == want, "gc-number", "gc reports %zu, freed %d, expected %d", n, book->frees - frees, want);
        if (want) goal(0);
        check("gc");
      } else if (op == 2) {
        int frees = book->frees;
        log("clear");
        p.clear();
        MC_CHECK(book->frees - frees == nf, "clear", "clear freed %d of %d", book->frees - frees, nf);
        if (nf) goal(3);
        nf = 0;
        check("clear");
      } else if (op < 4 + (nu ? (nu > 1 ? 2 : 1) : 0)) {
        int i = op == 4 ? nu - 1 : 0;
        log("deallocate %d", i);
        release(i, "deallocate");
      } else {
        const size_t sizes[3] = {base, unit + 2 * page, 2 * unit + 3 * page};
        size_t want = sizes[op - (nops - 3)];
        int frees = book->frees;
        log("set_stack_size %zu", want);
        size_t r = p.set_stack_size(want - (op & 1) * 100);
        MC_CHECK(r == want, "conf", "set_stack_size returned %zu", r);
        if (want != conf) {
          MC_CHECK(book->frees - frees == nf, "clear", "changing the stack size freed %d of %d", book->frees - frees, nf);
          nf = 0;
        }
        conf = want;
        check("set_stack_size");
      }
    }
    while (nu) release(choose(2) ? 0 : nu - 1, "final deallocate");
    pool.reset();
    MC_CHECK(book->n == 0, "lost-stack", "%d stacks left after the pool is destroyed", book->n);
  }
  check_no_leak("leak");
}
static void m() { pool_ops<copp::allocator::stack_allocator_malloc>(false); }
static void x() { pool_ops<copp::allocator::stack_allocator_posix>(true); }

// many stacks: so many are taken, so many given back, and then the pool is collected, cleared, resized or destroyed
static void many() {
  using pool_t = copp::stack_pool<counted<copp::allocator::stack_allocator_malloc>>;
  *book = Book();
  {
    auto pool = pool_t::create();
    pool_t &p = *pool;
    const size_t unit = copp::stack_traits::round_to_page_size(copp::stack_traits::minimum_size());
    p.set_stack_size(unit);
    static const int NUMS[] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 33, 64, 100};
    int total = NUMS[choose(param(0), "how many")];
    int back = choose(4, "given back");  // all, all but one, half, one
    back = back == 0 ? total : back == 1 ? total - 1 : back == 2 ? total / 2 : 1;
    bool lifo = choose(2, "order");
    int gcn = choose(3, "gc number");
    gcn = gcn == 2 ? 7 : gcn;
    bool agc = choose(2, "auto gc");
    p.set_auto_gc(agc);
    p.set_gc_once_number(gcn);
    int left = choose(3, "limit");  // none, exactly reached, one less
    int limit = left == 0 ? 0 : left == 1 ? total : total - 1;
    bool by_size = left && choose(2, "limit of the size");
    if (left && !limit) prune();
    if (by_size) p.set_max_stack_size(limit * unit);
    else p.set_max_stack_number(limit);
    std::vector<stack_context> used;
    std::vector<void *> fr;
    auto check = [&](const char *op) {
      auto &l = p.get_limit();
      MC_CHECK(l.used_stack_number == used.size() && l.used_stack_size == used.size() * unit, "used-count", "after %s: the pool reports %zu stacks in use, really %zu", op, l.used_stack_number, used.size());
      MC_CHECK(l.free_stack_number == fr.size() && l.free_stack_size == fr.size() * unit, "free-count", "after %s: the pool reports %zu free stacks, expected %zu", op, l.free_stack_number, fr.size());
      MC_CHECK(book->n == (int)(used.size() + fr.size()), "lost-stack", "after %s: %d stacks exist, %zu in use and %zu free", op, book->n, used.size(), fr.size());
      for (size_t i = 0; i < used.size(); ++i) {
        MC_CHECK(book->find(used[i].sp) >= 0, "freed-in-use", "after %s: a stack in use was given back to the system", op);
        unsigned char *top = static_cast<unsigned char *>(used[i].sp), *low = top - unit;
        MC_CHECK(*reinterpret_cast<void **>(low) == top, "contents", "after %s: contents of a stack in use changed", op);
      }
    };
    auto take = [&](int n, const char *op) {
      for (int i = 0; i < n; ++i) {
        stack_context c;
        int allocs = book->allocs;
        p.allocate(c);
        bool refused = limit && (int)used.size() >= limit;
        MC_CHECK((c.sp == nullptr) == refused, refused ? "over-limit" : "refused", "%s: stack %d of %d with a limit of %d: handed out %d", op, i, n, limit, c.sp != nullptr);
        if (refused) {
          goal(3);
          continue;
        }
        MC_CHECK(c.size == unit && book->find(c.sp) >= 0, "dead-stack", "%s: not a stack", op);
        for (auto &u : used) MC_CHECK(u.sp != c.sp, "duplicate-stack", "one stack handed out twice");
        MC_CHECK(book->allocs - allocs == (fr.empty() ? 1 : 0), "reuse", "%s: %d fresh allocations with %zu free stacks", op, book->allocs - allocs, fr.size());
        if (!fr.empty()) {
          auto it = std::find(fr.begin(), fr.end(), c.sp);
          MC_CHECK(it != fr.end(), "reuse", "handed out an unknown stack");
          fr.erase(it);
          goal(1);
        }
        unsigned char *top = static_cast<unsigned char *>(c.sp);
        *reinterpret_cast<void **>(top - unit) = top;
        used.push_back(c);
      }
      check(op);
    };
    auto collect = [&]() -> int {
      int n = 0;
      if (used.size() >= fr.size()) return 0;
      size_t keep = fr.size() / 2;
      while (fr.size() > keep && !(gcn && n == gcn)) fr.erase(fr.begin()), ++n;
      goal(0);
      return n;
    };
    take(total, "allocate");
    for (int i = 0; i < back && !used.empty(); ++i) {
      step();
      size_t k = lifo ? used.size() - 1 : 0;
      stack_context c = used[k];
      int frees = book->frees;
      used.erase(used.begin() + k);
      fr.push_back(c.sp);
      p.deallocate(c);
      int want = agc ? collect() : 0;
      MC_CHECK(book->frees - frees == want, "gc-number", "giving a stack back gave %d to the system, expected %d", book->frees - frees, want);
      check("deallocate");
    }
    int end = choose(4, "then");
    int frees = book->frees;
    if (end == 0) {
      for (int want = 1; want;) {
        want = collect();
        MC_CHECK((int)p.gc() == want, "gc-number", "gc does not report %d", want);
        check("gc");
      }
      take(total, "allocate again");
    } else if (end == 1) {
      p.clear();
      MC_CHECK(book->frees - frees == (int)fr.size(), "clear", "clear gave %d of %zu free stacks back", book->frees - frees, fr.size());
      fr.clear();
      check("clear");
      take(total, "allocate again");
    } else if (end == 2) {
      p.set_stack_size(2 * unit);
      MC_CHECK(book->frees - frees == (int)fr.size(), "clear", "changing the stack size freed %d of %zu", book->frees - frees, fr.size());
      fr.clear();
    } else
      take(total, "allocate again");
    goal(4);
    while (!used.empty()) {
      p.deallocate(used.back());
      used.pop_back();
    }
    pool.reset();
    MC_CHECK(book->n == 0, "lost-stack", "%d stacks left after the pool is destroyed", book->n);
  }
  check_no_leak("leak");
}

#define G {"gc freed stacks", "over the limit", "reused", "cleared free stacks", "out of memory", "returned stack of another size"}
static const Scenario LIST[] = {
    {"gc", m, 8, 9, -1, -1, false, "all sequences, gc configurations", {0, 4, 0}, G},
    {"upper_limits", m, 7, 8, -1, -1, false, "all sequences, upper limits", {1, 4, 0}, G},
    {"lower_limits", m, 7, 8, -1, -1, false, "all sequences, lower limits", {2, 4, 0}, G},
    {"resize", m, 7, 8, -1, -1, false, "all sequences with changes of the stack size", {3, 4, 1}, G},
    {"guarded_resize", x, 6, 7, -1, -1, false, "mmap stacks with guard page, changes of the stack size", {0, 4, 1}, G},
    {"guarded_limits", x, 6, 7, -1, -1, false, "mmap stacks with guard page, upper limits", {1, 4, 0}, G},
    {"long_gc", m, 60, 100, -1, -1, false, "long histories, gc configurations: every sequence which repeats after 5 operations", {0, 24, 0}, {"gc freed stacks", "-", "reused", "cleared free stacks", "out of memory", "-"}, 5, 6, 6},
    {"long_upper", m, 60, 100, -1, -1, false, "the same, upper limits", {1, 24, 0}, {"gc freed stacks", "over the limit", "reused", "cleared free stacks", "out of memory", "-"}, 5, 6, 6},
    {"long_lower", m, 60, 100, -1, -1, false, "the same, lower limits", {2, 24, 0}, {"gc freed stacks", "-", "reused", "cleared free stacks", "out of memory", "-"}, 5, 6, 6},
    {"long_resize", m, 60, 100, -1, -1, false, "the same, with changes of the stack size", {3, 24, 1}, {"gc freed stacks", "-", "reused", "cleared free stacks", "out of memory", "returned stack of another size"}, 5, 6, 9},
    {"many", many, 1, 1, -1, -1, false, "1 to 100 stacks taken and given back, then collected, cleared, resized or taken again", {16}, {"gc freed stacks", "reused", "-", "over the limit", "done"}},
};
MC_MAIN(LIST)
