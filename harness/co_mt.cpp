// Several threads resume the same stackful coroutine(s).
#include <mc.h>
#include <memory>
#include <libcopp/coroutine/coroutine_context_container.h>
#include <libcopp/stack/stack_allocator.h>
#include <libcopp/coroutine/coroutine_context.h>
using namespace mc;
using co_t = copp::coroutine_context_default;

struct Sh {
  int inside;
  int seg;         // body segments executed
  int ok, fin;
  int segs_total;
  int started_tid;
};

static void compete(int nthreads, int yields, int tries) {
  Sh *sh = shared<Sh>();
  {
    auto plain = std::make_unique<long>(0);  // written by every segment: a resume must see what the last segment did
    long *pl = plain.get();
    race_strict(pl, sizeof *pl);
    auto body = [sh, yields, pl](void *d) -> int {
      void *data = d;
      for (int i = 0;; ++i) {
        MC_CHECK(sh->inside == 0, "exclusion", "coroutine body entered while it is already running on another thread");
        sh->inside = tid() + 1;
        MC_CHECK(reinterpret_cast<intptr_t>(data) == tid() * 16, "data", "data passed by another thread's resume was received");
        sh->seg++;
        *pl += 1;
        MC_CHECK(*pl == i + 1, "visibility", "segment %d sees %ld", i, *pl);
        MC_CHECK(sh->seg == i + 1, "progress", "body segment %d executed as number %d", i, sh->seg);
        sched();
        MC_CHECK(sh->inside == tid() + 1, "exclusion", "coroutine migrated while running");
        sh->inside = 0;
        if (i == yields) break;
        data = nullptr;
        int r = copp::this_coroutine::yield(&data);
        MC_CHECK(r == 0, "yield", "yield returned %d", r);
      }
      return 7;
    };
    co_t::ptr_type co = co_t::create(body, 16 * 1024);
    co_t *p = co.get();
    bool watched = param(1);
    for (int t = 0; t < nthreads; ++t)
      spawn([=] {
        for (int k = 0; k < tries; ++k) {
          if (watched && t == nthreads - 1) {  // who sees that it has finished sees all that it did
            step();
            if (!p->is_finished()) continue;
            MC_CHECK(*pl == yields + 1, "visibility", "finished, but %ld segments are visible", *pl);
            MC_CHECK(p->get_ret_code() == 7, "visibility", "finished, but the return code is %d", p->get_ret_code());
            goal(3);
            break;
          }
          int r = p->resume(reinterpret_cast<void *>(static_cast<intptr_t>(tid() * 16)));
          step();
          log("resume -> %d this=%p", r, (void*)copp::this_coroutine::get_coroutine());
          if (r == 0)
            sh->ok++;
          else
            MC_CHECK(r == copp::COPP_EC_IS_RUNNING || r == copp::COPP_EC_NOT_READY, "code", "resume returned %d", r);
          MC_CHECK(copp::this_coroutine::get_coroutine() == nullptr, "this", "this_coroutine not restored");
        }
      });
    run_threads();
    MC_CHECK(sh->ok == sh->seg, "progress", "%d resumes succeeded, %d body segments ran", sh->ok, sh->seg);
    MC_CHECK(sh->ok >= 1, "progress", "no resume succeeded");
    bool fin = sh->seg == yields + 1;
    MC_CHECK(co->is_finished() == fin, "finish", "finished flag %d, body completed %d", co->is_finished(), fin);
    if (fin) {
      MC_CHECK(co->get_ret_code() == 7, "finish", "return code %d", co->get_ret_code());
      MC_CHECK(co->resume() == copp::COPP_EC_NOT_READY, "finish", "finished coroutine resumed again");
    } 
    state(sh->seg * 100 + sh->ok);
    goal(fin ? 0 : 1);
    if (sh->ok < (nthreads - watched) * tries) goal(2);
    co.reset();
  }
  check_no_leak("leak");
}
static void two() { compete(2, param(0), depth()); }
static void three() { compete(3, param(0), depth()); }

// Every thread owns a reference, resumes and drops it; the last one destroys the coroutine exactly once.
struct Probe {
  int *count;
  explicit Probe(int *c) : count(c) { ++*count; }
  Probe(const Probe &o) : count(o.count) { ++*count; }
  ~Probe() { --*count; }
};
static void drop() {
  Sh *sh = shared<Sh>();
  int n = param(0);
  {
    co_t::ptr_type own[4];
    {
      Probe pr(&sh->started_tid);
      own[0] = co_t::create(
          [sh, pr](void *) -> int {
            sh->seg++;
            copp::this_coroutine::yield();
            sh->seg++;
            copp::this_coroutine::yield();
            sh->seg++;
            return 1;
          },
          16 * 1024);
    }
    for (int i = 1; i < n; ++i) own[i] = own[0];
    MC_CHECK((int)own[0]->use_count() == n, "use-count", "use count %zu", own[0]->use_count());
    for (int t = 0; t < n; ++t) {
      co_t *raw = own[t].detach();
      spawn([=] {
        co_t::ptr_type mine(raw, false);
        co_t::ptr_type copy = mine;
        if (copy->resume() == 0) sh->ok++;
        step();
        mine.reset();
        MC_CHECK(sh->started_tid == 1, "lifetime", "coroutine destroyed while a reference exists");
        copy.reset();
      });
    }
    run_threads();
    MC_CHECK(sh->started_tid == 0, "lifetime", "%d runner objects left after the last reference is gone", sh->started_tid);
    MC_CHECK(sh->seg == sh->ok && sh->ok >= 1, "progress", "%d resumes, %d segments", sh->ok, sh->seg);
    state(sh->ok);
    goal(sh->ok == n ? 0 : 1);
  }
  check_no_leak("leak");
}

// Two coroutines; the outer one resumes the inner one, while other threads try to resume either.
static void nested() {
  Sh *sh = shared<Sh>();
  {
    struct In {
      int inside;
      int seg;
    };
    co_t::ptr_type inner = co_t::create(
        [sh](void *) -> int {
          for (int i = 0; i < 3; ++i) {
            MC_CHECK((sh->fin & 1) == 0, "exclusion", "inner coroutine entered twice");
            sh->fin |= 1;
            sched();
            sh->segs_total++;
            sh->fin &= ~1;
            copp::this_coroutine::yield();
          }
          return 0;
        },
        16 * 1024);
    co_t *in = inner.get();
    co_t::ptr_type outer = co_t::create(
        [sh, in](void *) -> int {
          for (int i = 0; i < 2; ++i) {
            MC_CHECK((sh->fin & 2) == 0, "exclusion", "outer coroutine entered twice");
            sh->fin |= 2;
            copp::coroutine_context *me = copp::this_coroutine::get_coroutine();
            int r = in->resume();
            if (r == 0) sh->ok++;
            MC_CHECK(copp::this_coroutine::get_coroutine() == me, "this", "this_coroutine after a nested resume");
            sh->seg++;
            sh->fin &= ~2;
            copp::this_coroutine::yield();
          }
          return 0;
        },
        16 * 1024);
    co_t *out = outer.get();
    int n = param(0);
    for (int t = 0; t < n; ++t)
      spawn([=] {
        for (int k = 0; k < depth(); ++k) {
          bool first = (t + k) & 1;
          int r = (first ? in : out)->resume();
          step();
          if (r == 0) (first ? sh->ok : sh->inside)++;
          MC_CHECK(copp::this_coroutine::get_coroutine() == nullptr, "this", "this_coroutine not restored");
        }
      });
    run_threads();
    // the resume which only runs the function to its end executes no further segment
    int inner_expect = sh->ok > 3 ? 3 : sh->ok, outer_expect = sh->inside > 2 ? 2 : sh->inside;
    MC_CHECK(sh->segs_total == inner_expect, "progress", "inner: %d resumes, %d segments", sh->ok, sh->segs_total);
    MC_CHECK(sh->seg == outer_expect, "progress", "outer: %d resumes, %d segments", sh->inside, sh->seg);
    state(sh->segs_total * 10 + sh->seg);
    goal(0);
  }
  check_no_leak("leak");
}

static const Scenario LIST[] = {
    {"resume_two", two, 2, 3, 5, 7, false, "2 threads, coroutine with 1 yield", {1}, {"finished", "-", "refused"}},
    {"resume_two_once", two, 1, 1, 8, 12, false, "2 threads, one try each", {1}, {"finished", "unfinished", "refused"}},
    {"resume_two_long", two, 3, 4, 4, 5, false, "2 threads, coroutine with 3 yields", {3}, {"finished", "unfinished", "refused"}},
    {"resume_three", three, 1, 2, 4, 4, false, "3 threads, coroutine with 1 yield", {1}, {"finished", "unfinished", "refused"}},
    {"resume_watched", two, 3, 4, 6, 8, false, "a thread resumes, another one watches", {1, 1}, {"finished", "-", "-", "end seen"}},
    {"resume_two_watched", three, 2, 3, 4, 5, false, "2 threads resume, another one watches", {1, 1}, {"finished", "-", "refused", "end seen"}},
    {"last_reference_two", drop, 1, 1, 6, 8, false, "2 threads resume and drop their reference", {2}, {"all resumed", "some refused"}},
    {"last_reference_three", drop, 1, 1, 3, 4, false, "3 threads resume and drop their reference", {3}, {"all resumed", "some refused"}},
    {"nested_two", nested, 2, 3, 4, 4, false, "coroutine resumed by another coroutine and by threads", {2}, {"ran"}},
    {"nested_three", nested, 1, 2, 3, 3, false, "coroutine resumed by another coroutine and by threads", {3}, {"ran"}},
};
MC_MAIN(LIST)
