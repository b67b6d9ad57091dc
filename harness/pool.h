// shared by the stack pool harnesses: an allocator below the pool which records every stack it hands out
#pragma once
#include <mc.h>
#include <libcopp/stack/allocator/stack_allocator_malloc.h>
#include <libcopp/stack/allocator/stack_allocator_pool.h>
#include <libcopp/stack/allocator/stack_allocator_posix.h>
#include <libcopp/stack/stack_context.h>
#include <libcopp/stack/stack_pool.h>
#include <libcopp/stack/stack_traits.h>
using namespace mc;
using copp::stack_context;

struct Live {
  void *sp;
  size_t size;
};
struct Book {
  Live live[256];
  int n;
  int allocs, frees;
  int fail;  // the next allocations fail
  int find(void *sp) {
    for (int i = 0; i < n; ++i)
      if (live[i].sp == sp) return i;
    return -1;
  }
};
extern Book *book;

template <class A>
struct counted : A {
  using A::A;
  counted() {}
  counted(const counted &) = default;
  counted(counted &&) = default;
  counted &operator=(const counted &) = default;
  void allocate(stack_context &ctx, size_t size) noexcept {
    if (book->fail > 0) {
      --book->fail;
      ctx.sp = nullptr;
      return;
    }
    A::allocate(ctx, size);
    if (!ctx.sp) return;
    MC_CHECK(ctx.size >= size, "short-stack", "allocator returned %zu bytes, %zu requested", ctx.size, size);
    MC_CHECK(book->n < 256, "harness", "too many stacks");
    MC_CHECK(book->find(ctx.sp) < 0, "duplicate-stack", "allocator returned a stack which is in use");
    book->live[book->n++] = {ctx.sp, ctx.size};
    book->allocs++;
  }
  void deallocate(stack_context &ctx) noexcept {
    int i = book->find(ctx.sp);
    MC_CHECK(i >= 0, "foreign-free", "a stack which is not allocated (any more) is given back: %p size %zu", ctx.sp, ctx.size);
    MC_CHECK(book->live[i].size == ctx.size, "size-changed", "stack allocated with %zu bytes is given back with %zu", book->live[i].size,
             ctx.size);
    book->live[i] = book->live[--book->n];
    book->frees++;
    A::deallocate(ctx);
  }
};
