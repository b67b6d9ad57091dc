"""The properties: text, anchors and what their checks give.  gen.py turns this into properties.jsonl and MANIFEST.json."""


def P(id, title, statement, over, text, why, files, mech, note, state=(), technique=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                          state=[dict(name=a, meaning=b) for a, b in state]), note=note)
    if technique:
        d["technique"] = technique
    return d


SEQ = "model checking: exhaustive enumeration of operation sequences on the real code against a reference model"
MT = "model checking: stateless exploration of all interleavings of the real code up to a preemption bound"
BOTH = "model checking: exhaustive operation sequences against a model, and all interleavings up to a preemption bound"
CO = "include/libcopp/coroutine/"
SCO = "src/libcopp/coroutine/"
ST = "include/libcopp/stack/"
TK = "include/libcotask/"
SEQNOTE = ("Every sequence up to the depth in the evidence is executed on the real code and compared with a reference model after every "
           "step; every access to heap memory is checked for use after free and out of bounds. Nothing is said beyond the depth.")
MTNOTE = ("Every schedule of the listed drivers with at most the stated number of preemptions is executed on the real code; scheduling "
          "points at every atomic operation and lock; happens-before race detection and heap checks on each. Sequentially consistent.")

CATALOG = [
    P("C01", "Stackful coroutines: switching, status, current coroutine and passed data",
      "Resuming a suspended or new stackful coroutine continues its body exactly where it stopped, with locals and callee-saved registers "
      "intact, and returns to the caller when the body yields or ends; resuming a running, finished or unready one changes nothing and reports it. "
      "The value given to resume is what the body receives, 'current coroutine' and the finished flag and return code are right inside "
      "and outside at every moment, for any nesting of coroutines resuming each other.",
      ["histories"], "all sequences of create/resume/yield/return by the outside and by up to 3 coroutines acting on each other, to a depth, and up to 64 nested coroutines; all histories of dozens of operations whose choices repeat",
      "The existing tests run a handful of fixed resume/yield patterns; nesting orders and illegal resumes of running or finished coroutines are unbounded.",
      [CO + "coroutine_context.h", SCO + "coroutine_context.cpp", SCO + "coroutine_context_base.cpp", CO + "coroutine_context_container.h", CO + "coroutine_context_base.h"],
      [("status transitions around a context switch", SCO + "coroutine_context.cpp"), ("current coroutine in thread-local storage", SCO + "coroutine_context_base.cpp")],
      SEQNOTE, [("status", "created, ready, running, finished"), ("caller/callee context", "where the next switch goes")], SEQ),
    P("C02", "A stackful coroutine runs on at most one thread at a time",
      "When several threads resume the same stackful coroutine, each body segment is executed by exactly one successful resume, on that "
      "thread, with that thread's data, and the losers return an error without running anything; a segment sees everything the previous one "
      "wrote, and so does a thread that sees the coroutine finished. The last reference dropped, on whichever thread, destroys the coroutine exactly once and not while anybody still uses it.",
      ["schedules"], "all interleavings of 2-3 threads resuming and releasing shared coroutines up to a preemption bound",
      "The tests resume from one thread, or from two in an order the operating system happens to choose.",
      [CO + "coroutine_context.h", SCO + "coroutine_context.cpp", SCO + "coroutine_context_base.cpp", CO + "coroutine_context_container.h", "include/libcopp/utils/intrusive_ptr.h"],
      [("compare-and-swap on the status before switching", SCO + "coroutine_context.cpp"), ("ready state published after the context is saved", SCO + "coroutine_context.cpp")],
      MTNOTE, technique=MT),
    P("C03", "An exception that leaves a coroutine body reaches the resume that ran it, once",
      "An exception leaving the body of a stackful coroutine unwinds the coroutine's stack, finishes the coroutine, and is delivered exactly "
      "once: rethrown by, or handed out through the exception argument of, the resume call that ran the throwing segment, on its thread; no "
      "other call receives it and the library stays usable.",
      ["histories", "schedules"], "all sequences of resume/yield/return/throw/catch with up to 3 nested coroutines; 2-3 threads resuming a throwing coroutine",
      "Tests throw from one place in one coroutine; which resume gets which exception depends on nesting and history.",
      [SCO + "coroutine_context.cpp", CO + "coroutine_context.h", SCO + "coroutine_context_base.cpp"],
      [("unhandled exception stored by the running coroutine and taken by the resumer", SCO + "coroutine_context.cpp")],
      SEQNOTE + " Yielding from inside a catch handler is assumed not to happen.", technique=BOTH),
    P("C04", "Coroutine memory: every stack fits, nothing overlaps, nothing leaks",
      "For every stack allocator and every combination of stack size, private buffer size and extra object size, a created coroutine gets a usable "
      "stack of at least the usable requested size whose regions (stack, private data, coroutine object, extra object) are aligned, disjoint "
      "and inside one allocation, and its destruction gives the same allocation back exactly once. Creation that cannot be satisfied (no memory, limit, impossible sizes) "
      "yields an empty result and leaks nothing.",
      ["configurations", "fault_sequences", "histories"], "all combinations of sizes (ordinary, every size around the point where nothing is left, overflowing ones) and allocators from boundary sets, every stack allocation failure, all attach/allocate/deallocate/move sequences to a depth",
      "Tests use one or two sizes and never fail an allocation.",
      [CO + "coroutine_context_container.h", SCO + "coroutine_context.cpp", ST + "allocator/stack_allocator_memory.h", "src/libcopp/stack/allocator/stack_allocator_memory.cpp",
       "src/libcopp/stack/allocator/stack_allocator_malloc.cpp", "src/libcopp/stack/allocator/stack_allocator_posix.cpp", ST + "allocator/stack_allocator_pool.h", TK + "task.h"],
      [("layout of coroutine, private buffer and stack", CO + "coroutine_context_container.h"), ("allocators", "src/libcopp/stack/allocator")],
      SEQNOTE, technique=SEQ),
    P("C05", "Stack pool: exact accounting, limits, reuse and garbage collection",
      "Whatever sequence of allocations, returns, failures, garbage collections, clears and reconfigurations a stack pool sees, a stack is in exactly one place (in use, "
      "kept for reuse, or given back to the system once), the reported used/free numbers and sizes are exact, stacks in use are never touched, and every stack handed out has at least the configured size. "
      "The upper limits refuse exactly the requests beyond them, the lower limits and the per-run number bound what garbage collection releases, and destroying the pool releases everything.",
      ["histories", "configurations", "fault_sequences"], "all operation sequences to a depth over all limit/gc configurations from a boundary set, with allocation failures, and pools of up to 100 stacks taken, given back and collected; all histories of dozens of operations whose choices repeat",
      "Tests exercise a few fixed sequences and never combine limits, clears, resizing and failures.",
      [ST + "stack_pool.h", ST + "allocator/stack_allocator_pool.h"],
      [("free list and limits", ST + "stack_pool.h")], SEQNOTE, [("limits", "used and free counts and sizes"), ("free list", "stacks kept for reuse")], SEQ),
    P("C06", "Stack pool: threads never share a stack and accounting survives concurrency",
      "Threads allocating, returning, collecting and clearing on one stack pool at the same time never get the same stack, never use or "
      "release a stack that another one holds, and leave the pool's counts exact when they are done; no operation blocks for ever.",
      ["schedules"], "all interleavings of 2-3 threads with up to 3 operations each up to a preemption bound, with and without automatic collection and limits",
      "No test uses a pool from two threads in a controlled order.",
      [ST + "stack_pool.h", "include/libcopp/utils/spin_lock.h"], [("pool lock", ST + "stack_pool.h")],
      MTNOTE + " What the calls return and leave must be what one order of the calls gives. The pool is configured, and its statistics are read, when no other thread is at work.", technique=MT),
    P("C07", "Stackful tasks: one life cycle, ended exactly once",
      "A stackful task moves from created through running and waiting to exactly one final status (done, cancelled, killed or timed out), which never changes again; its body "
      "runs at most once, is always run to its end when the task is cancelled, killed or dropped while waiting, and the finish notification comes exactly once, after "
      "the body has ended and while the task's action is still alive. Starting, resuming, cancelling or killing in a status that does not allow it "
      "reports so and changes nothing; data passed to start, resume, cancel and kill, return codes and exceptions reach exactly their receiver.",
      ["histories"], "all sequences of start/resume/cancel/kill/timeout/drop/yield/return/throw from outside and from inside up to 3 tasks, to a depth; all histories of dozens of operations whose choices repeat",
      "Tests run a few fixed scenarios; cancelling or killing at each point of each nesting is a product no test covers.",
      [TK + "task.h", TK + "impl/task_impl.h", "src/libcotask/impl/task_impl.cpp", TK + "task_actions.h"],
      [("status compare-and-swap and finish notification", TK + "task.h"), ("release of the last reference", TK + "task.h")],
      SEQNOTE, [("status", "created, running, waiting, done, cancelled, killed, timed out")], SEQ),
    P("C08", "Task chains: every follower runs exactly once when its predecessor ends",
      "A task attached to another with next/then is started, or resumed if it waits, exactly once with its data when the other one ends in whatever way (also when it is "
      "dropped unstarted), in the order attached, and at once if the other has already ended; attaching concurrently with the end never loses it. "
      "Bodies and finish callbacks that throw change none of this, and one of the exceptions thrown reaches the call that ran them. "
      "Awaiting a task suspends the waiter until the awaited task is exiting, refuses itself, empty, ended and foreign waits, and each waiter is woken.",
      ["histories", "schedules"], "all sequences of attaching, awaiting and ending over up to 3 tasks, to a depth; all interleavings of attaching against ending up to a preemption bound, and up to 64 followers of one task in every mixture of kinds",
      "Tests attach before starting, from one thread.",
      [TK + "task.h"], [("follower list and its lock", TK + "task.h")], SEQNOTE + " " + MTNOTE, technique=BOTH),
    P("C09", "Tasks under concurrency: one runner, one finish, one destruction",
      "Threads starting, resuming, cancelling, killing and releasing the same stackful task at the same time never run its body on two threads, "
      "agree on one final status, produce exactly one finish notification after the body has ended, and destroy task and action exactly once after the last reference; every call returns.",
      ["schedules"], "all interleavings of 2-3 threads with up to 2 operations each on one task up to a preemption bound",
      "The tests use tasks from one thread at a time.",
      [TK + "task.h", "src/libcotask/impl/task_impl.cpp", "include/libcopp/utils/intrusive_ptr.h"],
      [("status compare-and-swap", TK + "task.h"), ("reference count", TK + "task.h")], MTNOTE, technique=MT),
    P("C10", "Task manager: holds exactly the tasks that were added and have not ended",
      "A task manager contains a task from its successful addition until it ends, is removed, cancelled, killed or timed out, and never after; adding refuses duplicates, "
      "exiting tasks and tasks of another manager, operations on absent ids report not-found and touch nothing, and an operation that fails leaves the manager as it was. "
      "Operations by id act on exactly that task, removing or resetting finishes contained unfinished tasks, also when bodies throw: an exception reaches the operation that ran the body, which completes first. A destroyed manager is never called again.",
      ["histories"], "all sequences of add/remove/find/start/resume/cancel/kill/tick/reset/destroy on up to 2 managers and 3 tasks, from outside and from task bodies, to a depth, and one operation on up to 64 tasks in every mixture of states; all histories of dozens of operations whose choices repeat",
      "Tests use fixed sequences and one manager; operations from inside running tasks and destroyed managers are not covered.",
      [TK + "task_manager.h", TK + "task.h"], [("task table and binding", TK + "task_manager.h")], SEQNOTE, [("tasks", "id to task and timer"), ("timers", "ordered deadlines")], SEQ),
    P("C11", "Task timeouts fire on the first tick after the deadline and never before",
      "A task given a timeout in a manager (stackful or C++20) is ended with the timeout status by the first tick whose time is after the deadline - last tick plus timeout, or first tick plus timeout if none had happened - and never "
      "by an earlier one, for any seconds and nanoseconds; changing or clearing the timeout replaces the deadline, each task has at most one pending deadline, "
      "time going backwards is ignored, and tasks that end otherwise leave no deadline behind.",
      ["histories", "inputs"], "all sequences of add/set timeout/tick/end over 2-3 tasks and boundary times including nanosecond carries, to a depth, and up to 64 tasks with deadlines; all histories of dozens of operations whose choices repeat",
      "Tests use whole seconds and one order.",
      [TK + "task_manager.h"], [("deadline arithmetic and ordered set", TK + "task_manager.h")], SEQNOTE, technique=SEQ),
    P("C12", "C++20 task manager: holds exactly the tasks that were added and have not ended",
      "A manager of C++20 coroutine tasks contains a task from its successful addition until it ends, is removed, cancelled, killed or timed out, and never after; "
      "duplicates, exiting tasks and tasks of another manager are refused, absent ids report not-found, operations by id act on exactly that task, and reset or destruction finishes the rest.",
      ["histories"], "all sequences of add/remove/find/start/cancel/kill/tick/reset/destroy over 2 managers and 2 tasks with suspended, finished and nested bodies, to a depth, and one operation on up to 64 tasks in every mixture of states; all histories of dozens of operations whose choices repeat",
      "Tests run a few fixed sequences.",
      [TK + "task_manager.h", TK + "task_promise.h"], [("task table and binding", TK + "task_manager.h")], SEQNOTE, technique=SEQ),
    P("C13", "Task manager: concurrent use keeps table, timers and tasks consistent",
      "Threads adding, finding, starting, resuming, killing, removing, re-timing tasks and ticking on one manager at the same time leave it containing exactly the tasks "
      "that were added and have not ended, with one deadline for each timed one; every task is ended exactly once, no freed task is touched, and every call returns.",
      ["schedules"], "all interleavings of 2-3 threads with up to 2-3 operations each up to a preemption bound",
      "No test uses a manager from two threads in a controlled order.",
      [TK + "task_manager.h", TK + "task.h"], [("manager lock", TK + "task_manager.h")], MTNOTE + " The unlocked size and time queries are made when no other thread is at work; C++20 tasks, which are not thread-safe, are each used by one thread, only their manager is shared.", technique=MT),
    P("C14", "Task ids are never zero and never repeated",
      "Ids handed out by the id allocator are non-zero and pairwise different in one process, across any number of threads and allocations, however the clock stands still or moves.",
      ["schedules", "histories", "inputs"], "all interleavings of 2-3 threads allocating across cache and sequence boundaries up to a preemption bound; all short clock histories; all histories of dozens of operations whose choices repeat",
      "Tests compare ids of real threads under a normal clock and never reach the roll-over.",
      ["src/libcopp/utils/uint64_id_allocator.cpp", "include/libcopp/utils/uint64_id_allocator.h"], [("shared sequence and per-thread block", "src/libcopp/utils/uint64_id_allocator.cpp")],
      MTNOTE, technique=BOTH),
    P("C15", "Spin lock, lock holder and atomic integers behave as specified",
      "At most one thread holds a spin lock, what was written under it is visible to the next holder, try operations and state queries tell the truth, and a waiting thread gets the "
      "lock once it is free; a lock holder releases exactly the locks it took, once, also when moved. Atomic integers, also of unusual widths, perform each operation indivisibly with the arithmetic and return value of the standard's atomics.",
      ["schedules", "histories", "inputs"], "all interleavings of 2-3 threads up to a preemption bound; all operation sequences to a depth over boundary values; all histories of dozens of operations whose choices repeat",
      "Tests run real threads in whatever order the machine picks and check totals.",
      ["include/libcopp/utils/spin_lock.h", "include/libcopp/utils/lock_holder.h", "include/libcopp/utils/atomic_int_type.h"],
      [("exchange with acquire, store with release", "include/libcopp/utils/spin_lock.h")], MTNOTE, technique=BOTH),
    P("C16", "Futures and pollers hold exactly one value and destroy it exactly once",
      "A poller, result or future is empty or holds exactly the last value it was given, for value, pointer, shared, trivial and error types alike; copies, moves, swaps, resets and self-assignments transfer exactly that value, "
      "every contained object is constructed and destroyed exactly once, and readiness, success and error queries tell what is stored.",
      ["histories", "configurations"], "all sequences of construct/assign/move/swap/reset/emplace over 2-3 objects for each storage kind, to a depth; all histories of dozens of operations whose choices repeat",
      "Tests use a few fixed sequences per type.",
      ["include/libcopp/future/storage.h", "include/libcopp/future/poller.h", "include/libcopp/future/future.h"], [("tagged storage", "include/libcopp/future/storage.h")], SEQNOTE, technique=SEQ),
    P("C17", "C++20 callables: run once, ended exactly once, awaiters woken exactly once",
      "A C++20 callable runs its body once, from its creation; every coroutine waiting for it when it finishes is woken exactly once and gets its value, awaiting a finished one does not suspend, and nobody goes on before. "
      "Killing or dropping one at any suspension point, also by assigning over its handle, ends its body once with the requested status after waking it with the error, destroys its frame and locals exactly once, and wakes whoever waits.",
      ["histories"], "all sequences of create/await/kill/move/drop/external events over up to 3 callables waiting for each other and for temporaries, from outside and from inside their bodies, to a depth; with and without values, and up to 64 waiters of one callable; all histories of dozens of operations whose choices repeat",
      "Tests cover fixed graphs.",
      [CO + "callable_promise.h", CO + "std_coroutine_common.h", SCO + "std_coroutine_common.cpp"], [("promise status and caller list", CO + "std_coroutine_common.h")],
      SEQNOTE + " Assumed: a coroutine is not destroyed or killed through while its own body is executing, and bodies do not wait in a circle.", technique=SEQ),
    P("C18", "C++20 generators: every waiter gets the value that was set, exactly once",
      "A generator runs its suspend hook when a coroutine suspends on it and its resume hook when that one continues, in pairs; setting its value wakes every coroutine waiting for it exactly once with that value, "
      "later awaits do not suspend until it is unset, and destroying the generator, killing or dropping a waiter, or doing any of this from inside the hook leaves nobody waiting for ever and touches nothing that is gone.",
      ["histories"], "all sequences of await/set/unset/kill/drop over up to 2 generators and 3 waiters, from outside, from waiters and from the suspend hook, to a depth; with and without values, and up to 64 waiters of one generator; all histories of dozens of operations whose choices repeat",
      "Tests cover fixed orders.",
      [CO + "generator_promise.h", CO + "std_coroutine_common.h", SCO + "std_coroutine_common.cpp"], [("caller list of the generator context", CO + "generator_promise.h")], SEQNOTE, technique=SEQ),
    P("C19", "C++20 tasks: one life cycle, ended exactly once, awaiters woken",
      "A C++20 task runs its body at most once after being started, ends in exactly one final status, delivers its value or error to every coroutine waiting for it and keeps it for its handles, and runs each follow-up (then) exactly once, at once if it has already ended. "
      "Killing, cancelling or dropping the last handle at any suspension point ends it once, unblocks what awaits it with the error, and frees context, private data and frame exactly once after the last handle.",
      ["histories"], "all sequences of create/start/kill/cancel/await/then/copy/move/drop over up to 3 tasks waiting for each other, callables, events or a generator, from outside and from inside their bodies, to a depth; with and without values, and up to 64 waiters and follow-ups of one task; all histories of dozens of operations whose choices repeat",
      "Tests cover fixed graphs.",
      [TK + "task_promise.h", CO + "std_coroutine_common.h"], [("task context shared by promise and handles", TK + "task_promise.h")],
      SEQNOTE + " Assumed: a task is not destroyed or killed by force while its own body is executing, and bodies do not wait in a circle.", technique=SEQ),
    P("C20", "Awaiting some, any or all resumes exactly when enough futures are ready",
      "Awaiting any, some(n) or all of a set of futures resumes exactly when one, n (at most all) or all of them are ready, immediately if they already are, in every order of completion including while being registered; "
      "the ready output then lists exactly the ready ones, once each, every registered future is told of the end of the wait, and killing or dropping the waiter at any moment ends it with its status and leaves no callback behind.",
      ["histories", "configurations"], "all completion orders and pre-completed subsets for up to 3-4 generators, callables or tasks, all n, one or two simultaneous waits, with completions, kills and drops at every point including from the suspend hooks, and up to 8 futures",
      "Tests cover a few orders.",
      [CO + "algorithm.h", CO + "algorithm_common.h", CO + "callable_promise.h", CO + "generator_promise.h", TK + "task_promise.h"], [("registration and scan of the pending futures", CO + "callable_promise.h")],
      SEQNOTE + " Assumed: a generator's resume hook does not complete other futures of the same wait, values are not unset during a wait, and futures outlive it.", technique=SEQ),
    P("C21", "Intrusive pointers keep their object alive exactly as long as one refers to it",
      "An object managed by intrusive pointers is destroyed exactly once, when the last of them is reset, reassigned or destroyed - for any sequence of copies, moves, self-assignments, conversions, swaps and detaches, and when threads drop their references at the same time.",
      ["histories", "schedules"], "all sequences over 3 pointers and 2 objects to a depth; all interleavings of 2-3 threads copying and dropping",
      "Tests only use them indirectly.",
      ["include/libcopp/utils/intrusive_ptr.h"], [("reference counting operations", "include/libcopp/utils/intrusive_ptr.h")], SEQNOTE, technique=BOTH),
    P("C22", "C++20 coroutines awaiting a stackful task are woken once, with its result",
      "A C++20 callable or task that awaits a stackful task goes on exactly once: with the task's return value when it ends, with an error when the task was cancelled, killed, timed out or dropped, or when the waiter itself is killed; not before, "
      "and at once if the task has already ended. Killing or dropping a waiter leaves nothing behind in the task, and starting, killing, cancelling and dropping stackful tasks from inside waiters and bodies touches nothing that is gone.",
      ["histories"], "all sequences of start/resume/kill/cancel/drop over 2 stackful tasks whose bodies yield and act, and of create/await/kill/drop over up to 2 callables and 2 tasks that wait for them and for each other, from outside and from inside every body, to a depth, and up to 64 waiters of one stackful task; all histories of dozens of operations whose choices repeat",
      "Tests await one stackful task from one callable in a fixed order.",
      [TK + "task.h", CO + "std_coroutine_common.h", SCO + "std_coroutine_common.cpp"], [("awaitable of a stackful task and its list of callers", TK + "task.h")],
      SEQNOTE + " Assumed: whoever calls an operation on a stackful task holds a reference to it until the call returns, and the C++20 assumptions of C17 and C19.", technique=SEQ),
    P("C23", "C++20 task follow-ups (then) run exactly once, in every combination of types",
      "A function given to then() of a C++20 task is called exactly once: when the task's body has ended, with its value and its context, at once if the task has already ended, or with an error when the task or the follow-up is killed or dropped before. "
      "What it returns - a value, nothing, a callable or a task - becomes the result of the follow-up, which ends when that has ended, in the right status; private data given to it is in place, and function objects, values, data and frames are destroyed exactly once.",
      ["histories", "configurations"], "all combinations of value types, return kinds and kinds of follow-up, each with all sequences of start/attach/chain/kill/drop/events, also from inside the follow-ups, over up to 2 follow-ups of a task or of each other, to a depth",
      "Tests call then() on a few types in one order.",
      [TK + "task_promise.h", CO + "callable_promise.h"], [("traits and bodies of follow-ups", TK + "task_promise.h")], SEQNOTE + " Assumed: a follow-up is not dropped or killed from inside itself.", technique=SEQ),
    P("C24", "Stackful coroutines and tasks run every kind of body once and destroy it once",
      "A stackful task or coroutine runs the body it was created with - function object of any accepted signature, lambda, std::function, action class, function, member function of an object - exactly once, on the object it was given, with the data of the operation that started it; an integral result of functions (int of function objects) is the task's return code, exceptions reach the operation that ran the body. "
      "Every form of creation (create, with allocator, create_with, next and then with a body) does this alike: objects passed by reference are copied, the body is destroyed exactly once with the task, private buffers have the size asked for and are the task's own, stacks go back to the allocator they came from, and a task whose stack cannot be allocated leaves nothing behind.",
      ["histories", "configurations"], "all combinations of 22 kinds of body, 7 forms of creation, private buffer sizes, stateless and owning allocators, each with all sequences of start/resume/cancel/kill/drop/attach and of what the body does (yield, return, throw), to a depth",
      "Tests create tasks from a few kinds of bodies with stateless allocators.",
      [TK + "task_actions.h", TK + "task.h"], [("body wrappers", TK + "task_actions.h"), ("creation", TK + "task.h")], SEQNOTE, technique=SEQ),
]
