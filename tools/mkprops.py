import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state,obs,hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],state=[dict(name=x,meaning=x,where=files[0]) for x in state],observe_at=obs,hook_needed=hook)))
I="include/boost/sync/"
D=I+"detail/"
p("C01","Exclusive ownership of every mutex type",
 "At most one thread at a time owns a given mutex, timed mutex, spin mutex or (exclusively) shared spin mutex, whichever operation acquired it: blocking, non-blocking or timed locking, a scoped or movable lock object, or the re-acquisition at the end of a condition-variable wait. Ownership lasts until that owner releases it.",
 ["schedules","programs","configurations"],"every interleaving of lock/try/timed-lock/unlock/condition waits by any number of threads, in every build configuration (native timed lock or its emulation, both spin lock representations)",
 "Tests run a handful of lucky schedules on one configuration; exclusion must survive every interleaving, weak-CAS failure and timeout race.",
 [D+"mutexes/mutex_posix.hpp",D+"mutexes/timed_mutex_posix.hpp",D+"mutexes/spin_mutex.hpp",D+"mutexes/shared_spin_mutex.hpp",D+"pthread_mutex_locks.hpp",I+"locks/unique_lock.hpp",I+"locks/lock_guard.hpp"],
 [("spin lock word",D+"mutexes/spin_mutex.hpp"),("reader/writer state word",D+"mutexes/shared_spin_mutex.hpp"),("timed lock emulation: flag + mutex + condition",D+"mutexes/timed_mutex_posix.hpp")],
 ["owner of each mutex"],["return of lock/try_lock/timed_lock/try_lock_for/try_lock_until/unlock and of condition waits"])
p("C02","Critical sections are visible to the next owner",
 "Everything a thread did before it released a mutex happens-before everything the next owner does after acquiring it, for every mutex type and every acquisition path (blocking, successful try, successful timed, shared after exclusive, exclusive after every reader). Plain data accessed only under the lock is therefore never subject to a data race.",
 ["schedules","programs","configurations"],"every interleaving and every pair of release/acquire operations under the C++11 memory model, not only what x86 hardware happens to order",
 "On x86 a missing acquire/release ordering is invisible to any test; only a happens-before analysis over the memory orders used can see it.",
 [D+"mutexes/spin_mutex.hpp",D+"mutexes/shared_spin_mutex.hpp",D+"mutexes/mutex_posix.hpp",D+"mutexes/timed_mutex_posix.hpp",D+"atomic.hpp"],
 [("acquire on lock word",D+"mutexes/spin_mutex.hpp"),("release on unlock / unlock_shared",D+"mutexes/shared_spin_mutex.hpp")],
 ["happens-before view carried by each mutex"],["return of every acquisition"])
p("C03","Lock progress and truthful try/timed results",
 "When a mutex is free and nobody else is taking it, a thread waiting in a blocking lock gets it; an unlock is never lost and no schedule of correct calls deadlocks inside the library. A non-blocking or timed acquisition returns success exactly when it acquired the mutex, and reports failure only if the mutex was owned by someone (for a timed one: still at its deadline).",
 ["schedules","programs","configurations"],"every interleaving of acquirers and releasers, including timeouts racing with unlocks, for mutex, timed mutex (native and emulated) and spin mutex",
 "A lost wakeup or a spurious failure needs one specific interleaving of the releasing and the waiting thread.",
 [D+"mutexes/mutex_posix.hpp",D+"mutexes/timed_mutex_posix.hpp",D+"mutexes/spin_mutex.hpp",D+"pthread_mutex_locks.hpp"],
 [("emulated timed lock wait loop and notify",D+"mutexes/timed_mutex_posix.hpp"),("spin loop",D+"mutexes/spin_mutex.hpp")],
 ["owner, pending acquirers, virtual time"],["return of acquisitions; quiescent states with pending calls"])
p("C04","Shared spin mutex: many readers or one writer",
 "A shared spin mutex never has an exclusive owner together with any other owner, while any number of shared owners may coexist. An exclusive request succeeds once all owners left, a shared request succeeds whenever no exclusive owner exists (also the non-blocking one, even while other readers come and go), and every release gives back exactly the share it took.",
 ["schedules","programs"],"every interleaving of exclusive and shared, blocking and non-blocking acquisitions and releases by any number of threads",
 "The failures need a reader/reader or reader/writer collision inside a few instructions; no repository test runs the shared spin mutex concurrently.",
 [D+"mutexes/shared_spin_mutex.hpp",I+"mutexes/shared_spin_mutex.hpp",I+"locks/shared_lock.hpp",I+"locks/shared_lock_guard.hpp"],
 [("32-bit reader count + writer bit",D+"mutexes/shared_spin_mutex.hpp")],
 ["writer, multiset of readers"],["return of lock/try_lock/lock_shared/try_lock_shared/unlock/unlock_shared"])
p("C05","condition_variable never loses a wakeup",
 "Releasing the mutex and starting to wait on a condition variable is one atomic step: a notification issued by any thread after the waiter released the mutex wakes it. One notify_one wakes at least one waiter if there is any, one notify_all wakes every thread already waiting, and a wakeup is not consumed by a thread that starts to wait later.",
 ["schedules","programs"],"every interleaving of waits (plain, timed, with predicate, with every compatible mutex type) and notifications made with or without holding the mutex",
 "The lost-wakeup window is between unlocking and blocking; tests rely on sleeps to avoid it.",
 [D+"condition_variables/condition_variable_posix.hpp",I+"condition_variables/condition_variable.hpp",D+"pthread.hpp"],
 [("priv_wait / priv_timed_wait",D+"condition_variables/condition_variable_posix.hpp")],
 ["set of waiters and of notified waiters per condition variable"],["return of wait*/notify*; quiescent states"])
p("C06","condition_variable_any never loses a wakeup with any lock type",
 "The same guarantee holds for the generic condition variable with any lockable the user passes: unlocking the user's lock and starting to wait is atomic with respect to every notification, one notify_one wakes at least one waiter and notify_all wakes every waiter. Waiting and notifying never deadlock with the user's lock, whichever lock type is used.",
 ["schedules","programs"],"every interleaving of waits and notifications with mutex, timed mutex, spin mutex, shared locks and bare lockables",
 "Needs a notifier running exactly between the user's unlock and the internal block.",
 [D+"condition_variables/condition_variable_any_generic.hpp",I+"condition_variables/condition_variable_any.hpp"],
 [("relocker, internal mutex hand-over",D+"condition_variables/condition_variable_any_generic.hpp")],
 ["set of waiters and notified waiters"],["return of wait*/notify*; quiescent states"])
p("C07","Condition waits release the lock while blocked and return owning it",
 "While a thread is blocked in a condition wait its mutex is free for others, and on every way out of the wait (notification, timeout, spurious wakeup, deadline already past, system error, exception from the predicate) the calling thread owns the lock again, exactly once. The lock object passed in reports ownership after the call as it did before.",
 ["schedules","fault_sequences","programs"],"every exit path of every wait overload of both condition variables, under every interleaving and with injected OS failures",
 "Error and timeout exits racing with a mutex held by another thread are practically never hit by tests.",
 [D+"condition_variables/condition_variable_any_generic.hpp",D+"condition_variables/condition_variable_posix.hpp"],
 [("relocker",D+"condition_variables/condition_variable_any_generic.hpp")],
 ["owner of the user mutex during and after a wait"],["return or throw of wait*; lock.owns_lock()"])
p("C08","Predicate waits honour the predicate and the original deadline",
 "A predicate wait evaluates the predicate only while owning the lock, returns without blocking if it already holds, never returns true (or, untimed, never returns) unless it held at the last evaluation, and never misses a state in which it holds. A timed predicate wait returns the predicate's value and gives up at the deadline fixed when it was called, no matter how many notifications or spurious wakeups happen in between.",
 ["schedules","histories","programs"],"every sequence of notifications, spurious wakeups, predicate values and times, for every overload (relative, absolute, system and steady clocks) of both condition variables",
 "Tests wake a waiter once; restarting a relative timeout on each wakeup only shows with repeated wakeups and a false predicate.",
 [D+"condition_variables/condition_variable_any_generic.hpp",D+"condition_variables/condition_variable_posix.hpp",I+"condition_variables/condition_variable.hpp"],
 [("predicate loops",D+"condition_variables/condition_variable_any_generic.hpp")],
 ["predicate evaluations, deadline"],["each predicate call; return value; virtual time of return"])
p("C09","Semaphore permits are conserved",
 "Every successful wait on a semaphore takes exactly one permit from the initial count or from some post, no permit is lost or duplicated, and the operations take effect atomically in an order consistent with real time. A waiter never stays blocked while a permit is available, a failed try or timed wait takes nothing and happened when no permit was available (a post that has not returned yet need not count).",
 ["schedules","programs","configurations"],"every interleaving of post/wait/try_wait/timed_wait/wait_for/wait_until, every initial count, native and emulated semaphores",
 "Conservation races (a timeout colliding with a post) need one specific interleaving.",
 [D+"semaphore/semaphore_posix.hpp",D+"semaphore/semaphore_emulation.hpp",D+"semaphore/semaphore_dispatch.hpp",I+"semaphore.hpp"],
 [("sem_post/sem_wait wrappers",D+"semaphore/semaphore_posix.hpp"),("count under mutex + condition",D+"semaphore/semaphore_emulation.hpp")],
 ["permit count"],["return of every operation; quiescent states"])
p("C10","Auto-reset event: each post releases at most one waiter, none is lost",
 "An auto-reset event is a flag: posting sets it, and each successful wait, try or timed wait consumes it, so one post satisfies at most one wait and posting an already set event changes nothing. A post issued while threads are blocked releases one of them, n posts release n blocked threads, and no thread stays blocked while the event is set; a failed try or timed wait leaves no trace and happened when the event was not set (a post that has not returned yet need not count).",
 ["schedules","programs","configurations"],"every interleaving of posts, waits, try and timed waits by any number of threads (including more than a thousand blocked waiters), in the futex, native-semaphore and emulated configurations",
 "Counter hand-off between timed-out waiters and posters fails only for specific interleavings; counter widths only matter with very many waiters.",
 [D+"events/auto_reset_event_futex.hpp",D+"events/auto_reset_event_semaphore.hpp",D+"events/auto_reset_event_emulation.hpp",I+"events/auto_reset_event.hpp"],
 [("packed posts/waiters word",D+"events/auto_reset_event_futex.hpp"),("signed state + semaphore",D+"events/auto_reset_event_semaphore.hpp")],
 ["signalled flag, released-but-not-returned waiters"],["return of every operation; quiescent states"])
p("C11","Manual-reset event stays set until reset",
 "Once a manual-reset event is set, every current and later wait, try or timed wait succeeds until it is reset, and waits do not change its state. After a reset, waits started later block (try waits fail) until the next set; setting a set event or resetting a reset one changes nothing, and no thread stays blocked while the event is set.",
 ["schedules","programs","configurations"],"every interleaving of set, reset, wait, try and timed wait by any number of threads, in the futex and emulated configurations",
 "The waiter count shares a word with the flag; losing a wakeup or the flag needs a precise interleaving of a timed-out waiter with set/reset.",
 [D+"events/manual_reset_event_futex.hpp",D+"events/manual_reset_event_emulation.hpp",I+"events/manual_reset_event.hpp"],
 [("flag + waiter count word, futex broadcast",D+"events/manual_reset_event_futex.hpp")],
 ["signalled flag"],["return of every operation; quiescent states"])
p("C12","Posting or setting happens-before the wait it satisfies",
 "Everything a thread did before posting a semaphore, posting an auto-reset event or setting a manual-reset event is visible to the thread whose wait (blocking, try or timed) that operation satisfies, including a post that found the event already set, and to waits served by a set flag. This holds under the C++11 memory model in every configuration.",
 ["schedules","programs","configurations"],"every interleaving and every code path (fast path, slow path, timeout race) of semaphores and events",
 "x86 hides missing orderings, and the already-set path is rarely raced; only a happens-before analysis decides it.",
 [D+"events/auto_reset_event_futex.hpp",D+"events/auto_reset_event_semaphore.hpp",D+"events/manual_reset_event_futex.hpp",D+"semaphore/semaphore_posix.hpp",D+"semaphore/semaphore_emulation.hpp",D+"events/auto_reset_event_emulation.hpp",D+"events/manual_reset_event_emulation.hpp"],
 [("memory orders on the state words",D+"events/auto_reset_event_futex.hpp")],
 ["happens-before view carried by each object"],["return of every successful wait"])
p("C13","Timed operations end at their deadline, never early, never hang",
 "A timed lock, semaphore wait, event wait or condition wait reports a timeout only at or after its deadline, and once the deadline has passed it returns without further delay even if it is woken, interrupted or beaten to the resource any number of times before. A deadline in the past, or a zero or negative duration, makes it a non-blocking attempt that still succeeds if the resource is available.",
 ["schedules","inputs","histories","configurations"],"every deadline (past, present, future, negative and zero durations, sub-second carries), every interleaving of competing operations, every timed overload of every primitive and configuration",
 "Tests use a few positive timeouts without interference; negative durations, sub-second carries and repeated wakeups are not sampled.",
 [D+"time_units.hpp",D+"mutexes/timed_mutex_posix.hpp",D+"semaphore/semaphore_posix.hpp",D+"semaphore/semaphore_emulation.hpp",D+"events/auto_reset_event_futex.hpp",D+"events/auto_reset_event_semaphore.hpp",D+"events/auto_reset_event_emulation.hpp",D+"events/manual_reset_event_futex.hpp",D+"events/manual_reset_event_emulation.hpp",D+"condition_variables/condition_variable_posix.hpp",D+"futex.hpp"],
 [("deadline arithmetic",D+"time_units.hpp"),("time_left loops",D+"events/manual_reset_event_futex.hpp")],
 ["virtual clock, deadline of each pending call"],["return value and virtual time of return of each timed call"])
p("C14","Every time unit and clock denotes the same instant",
 "A timeout expressed in any supported time library (standard chrono, Boost.Chrono, Boost.Date_Time, POSIX timespec), as a duration of any resolution or as a time point of the system or another clock, makes a timed operation expire at exactly the instant it denotes, up to the resolution of the unit. In particular no sub-second part is lost, mis-scaled or carried wrongly, for instants before and after the present and for large values.",
 ["inputs","configurations"],"all durations and time points of every supported unit that a signed 64-bit count of nanoseconds can express (POSIX time and dates: all), for each kind of timed operation",
 "The input space is huge and the interesting points (carries at whole seconds, negative fractions, large values, non-system clocks) are single values.",
 [I+"support/std_chrono.hpp",I+"support/boost_chrono.hpp",I+"support/boost_date_time.hpp",I+"support/posix_time.hpp",D+"time_units.hpp",D+"time_traits.hpp"],
 [("to_sync_unit conversions",I+"support/std_chrono.hpp"),("timespec arithmetic",D+"time_units.hpp")],
 ["deadline as (seconds, nanoseconds)"],["absolute expiry instant given to the operating system and the virtual time at which the call times out"])
p("C15","Lock objects track ownership exactly and reject misuse",
 "A lock object (unique, shared, upgrade, and the scoped guards) reports ownership exactly when it holds its mutex; whatever sequence of operations is performed on it, the mutex is released exactly once for each time the object acquired or adopted it, and never if it does not own it, including at destruction and stack unwinding. Locking without a mutex or unlocking when not owning is reported as a lock error (operation not permitted), locking when already owning as a lock error (resource deadlock would occur), and neither changes anything.",
 ["programs","histories"],"every finite sequence of construction (deferred, trying, adopting, timed), lock, try, timed lock, unlock, release, swap, move and destruction on any number of lock objects",
 "The tests exercise a few straight-line usages; ownership must hold in every reachable state of the lock-object state machine.",
 [I+"locks/unique_lock.hpp",I+"locks/shared_lock.hpp",I+"locks/upgrade_lock.hpp",I+"locks/lock_guard.hpp",I+"locks/shared_lock_guard.hpp",I+"locks/unlock_guard.hpp"],
 [("m_mutex/m_is_locked bookkeeping",I+"locks/unique_lock.hpp")],
 ["(associated mutex, owns) per lock object; mode of each mutex"],["owns_lock(), mutex(), calls made on the mutex, exceptions"])
p("C16","Moving ownership between lock objects neither drops nor duplicates it",
 "Moving, move-assigning, swapping, releasing and converting lock objects (unique, shared and upgrade, in each direction the library offers) transfers the association and the ownership: afterwards exactly the intended object owns the mutex in the intended mode, and the source owns nothing (after a move assignment at most what the target owned before). A failed conversion leaves the source owning as before and the new object without a mutex, and no transfer leaves the mutex locked with no owner or owned by two objects.",
 ["programs","histories"],"every reachable combination of source and target states for every transfer operation",
 "Transfers from every pair of states, including failing conversions, are not enumerated by tests; some conversions are never even instantiated.",
 [I+"locks/unique_lock.hpp",I+"locks/shared_lock.hpp",I+"locks/upgrade_lock.hpp",I+"locks/unique_lock_fwd.hpp"],
 [("move/convert constructors, swap, release",I+"locks/upgrade_lock.hpp")],
 ["(associated mutex, owns) per lock object; mode of each mutex"],["owns_lock(), mutex(), calls made on the mutex"])
p("C17","Thread-specific values are isolated per thread and per pointer",
 "A thread-specific pointer yields, in each thread, the value that thread last stored in that very pointer object, and null if it stored none: values never leak between threads, between pointer objects, or from a destroyed pointer object to a later one. Resetting cleans up the old value exactly once (not when set to the same value) and releasing returns it without cleanup.",
 ["schedules","histories","programs","configurations"],"every history of creating and destroying pointer objects and of get/reset/release in any number of threads, concurrently",
 "Internal slots are recycled and per-thread storage grows lazily; the leak needs a destroyed and a new pointer with a value left in some thread, possibly racing.",
 ["src/tss_manager.hpp","src/tss_pthread.cpp",I+"thread_specific/thread_specific_ptr.hpp",D+"tss.hpp"],
 [("key allocation, per-thread storage vector",  "src/tss_manager.hpp")],
 ["map (thread, pointer) -> value"],["results of get/release, cleanup calls"])
p("C18","Thread-specific values are cleaned up exactly once, by the right function",
 "Every non-null value still stored when its thread ends, or in any thread when its pointer object is destroyed, is passed exactly once to the cleanup function of the pointer object it was stored in, and is never touched afterwards. This holds when threads end, store values and destroy or create pointer objects concurrently, when cleanup functions store further values, and with a custom, default or null cleanup function.",
 ["schedules","histories","programs","configurations"],"every interleaving of thread exits, pointer destruction and creation and stores, including stores made by cleanup functions",
 "Double or missed cleanup needs thread exit to race with the destruction of the pointer or with slot reuse.",
 ["src/tss_manager.hpp","src/tss_pthread.cpp",I+"thread_specific/thread_specific_ptr.hpp"],
 [("destroy_thread_context / delete_key","src/tss_manager.hpp"),("pthread key destructor","src/tss_pthread.cpp")],
 ["multiset of pending (value, cleanup)"],["cleanup calls with their value and thread; freed memory; end of execution"])
p("C19","At-exit callbacks run once, in reverse order, in their own thread",
 "Each callback registered with at_thread_exit runs exactly once, in the thread that registered it, when that thread ends, later registrations before earlier ones and none dropped. Callbacks registered while the thread is already ending also run, and callbacks registered by one thread never run in another.",
 ["histories","schedules","programs","configurations"],"every sequence of registrations in any number of threads, including registrations from callbacks and cleanups to any depth",
 "Nesting depth and interplay with other thread-exit work are unbounded; the test registers one callback.",
 ["src/tss_manager.hpp","src/tss_pthread.cpp",I+"thread_specific/at_thread_exit.hpp"],
 [("at_exit function list","src/tss_manager.hpp")],
 ["per-thread stack of callbacks"],["callback invocations with thread and order"])
p("C20","notify_all_at_thread_exit hands over at thread exit",
 "After notify_all_at_thread_exit the mutex stays locked and owned by the calling thread until that thread ends, and no lock object owns it any more. When the thread ends, the mutex is released and every thread waiting on the condition variable is woken, exactly once and only after all thread-specific cleanups and exit callbacks of the thread have run.",
 ["schedules","programs"],"every interleaving of waiters with the ending thread and every combination of registered callbacks and thread-specific values",
 "Ordering against other exit work and against racing waiters is not sampled by the tests.",
 ["src/tss_manager.hpp","src/tss_pthread.cpp",I+"condition_variables/notify_all_at_thread_exit.hpp"],
 [("notify_at_exit list","src/tss_manager.hpp")],
 ["pending exit notifications, mutex owner"],["return of waits, order of exit callbacks"])
p("C21","Interruptions and spurious wakeups are invisible",
 "Signal interruptions of a blocking call and spurious wakeups by the operating system never surface: no lock, semaphore, event or predicate wait returns, fails or throws because of one, loses or gains a permit, or misses its deadline. The outcome is one the operation could have had without the interruption.",
 ["fault_sequences","schedules","configurations"],"every placement of interruptions and spurious wakeups in every blocking operation, timed or not, in every configuration",
 "Tests never deliver a signal or a spurious wakeup to a blocked thread.",
 [D+"semaphore/semaphore_posix.hpp",D+"events/auto_reset_event_futex.hpp",D+"events/manual_reset_event_futex.hpp",D+"semaphore/semaphore_emulation.hpp",D+"events/auto_reset_event_emulation.hpp",D+"events/manual_reset_event_emulation.hpp",D+"pthread.hpp",D+"mutexes/timed_mutex_posix.hpp"],
 [("EINTR handling",D+"semaphore/semaphore_posix.hpp"),("futex retry loops",D+"events/auto_reset_event_futex.hpp")],
 ["same abstract state as the uninterrupted object"],["results of operations with injected EINTR / spurious wakeups"])
p("C22","System failures are reported, with the object left usable",
 "When the operating system refuses a request (creating an object, locking, waiting, posting beyond the maximum), the library reports it with the documented exception type carrying the system's error code, instead of ignoring it, returning success or blocking. The operation has no other effect: nothing was acquired, consumed or leaked, no lock object claims ownership it does not have, and the object can still be used.",
 ["fault_sequences","programs","configurations"],"every failure code the specification of each system call allows, at every call, in every state",
 "The OS calls essentially never fail in tests.",
 [D+"mutexes/mutex_posix.hpp",D+"mutexes/timed_mutex_posix.hpp",D+"semaphore/semaphore_posix.hpp",D+"semaphore/semaphore_emulation.hpp",D+"condition_variables/condition_variable_posix.hpp",D+"throw_exception.hpp",D+"pthread_mutex_locks.hpp",I+"exceptions/lock_error.hpp",I+"exceptions/wait_error.hpp",I+"exceptions/resource_error.hpp",I+"exceptions/overflow_error.hpp"],
 [("result checks after each native call",D+"mutexes/mutex_posix.hpp")],
 ["abstract state unchanged by a failed call"],["exception type and code; behaviour of later operations"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
