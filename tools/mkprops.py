#!/usr/bin/env python3
# Writes properties.jsonl (kept as a script so that the text stays reviewable).
import json, os
I="include/"
ALLMTX=[I+f for f in ("naive_spin_mutex.hpp","ttas_spin_mutex.hpp","yamc_backoff_spin.hpp","checked_mutex.hpp",
 "checked_shared_mutex.hpp","fair_mutex.hpp","fair_shared_mutex.hpp","alternate_mutex.hpp","alternate_shared_mutex.hpp",
 "yamc_rwlock_sched.hpp","posix_native_mutex.hpp")]
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
        mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=list(observe) or ["public API calls and their results"],hook_needed=None)))

prop("C01","Mutual exclusion of exclusive ownership",
 "For every mutex type of the library (spin, checked, fair, alternate and posix families, every backoff, fairness and scheduling parameter), at most one thread owns a mutex exclusively at any instant, however ownership was obtained (lock, try_lock or a timed attempt). An acquisition reported as successful really gives ownership, which lasts until that thread releases it.",
 ["schedules","programs","configurations"],"all interleavings of any number of threads using any mix of acquisition and release operations, on every mutex type",
 "The stress tests run one happy-path loop per type and look at a counter at the end; a narrow window between two specific steps (a timeout racing a release, a failed weak compare-exchange) is practically never hit by them.",
 ALLMTX,[("state/owner word changed only under the internal mutex or by compare-exchange","lock/try_lock/do_try_lockwait/unlock of each class"),
 ("ticket / wait queue hand-off","include/fair_mutex.hpp:lock, include/fair_shared_mutex.hpp:impl_lock")],
 [("owner / state / ticket / queue","who holds the mutex","members of each class")])
prop("C02","Recursive mutexes count nested ownership exactly",
 "On every recursive mutex type the owning thread re-acquires immediately and successfully through any acquisition operation, other threads stay excluded until it has released as many times as it acquired, and at that point, not before and not later, the mutex becomes available. A failed attempt by another thread never changes the nesting depth.",
 ["schedules","programs","histories"],"all nestings of lock/try_lock/timed acquisitions and releases, interleaved with other threads' attempts",
 "Tests nest two or three fixed deep with one form of acquisition each and no concurrent timeouts or racing waiters.",
 [I+f for f in ("checked_mutex.hpp","fair_mutex.hpp","alternate_mutex.hpp","posix_native_mutex.hpp")],
 [("owner id compared before waiting; depth counter; release only at zero","recursive_mutex / recursive_timed_mutex lock, try_lock, do_try_lockwait, unlock")],
 [("ncount_, owner_","nesting depth and owner","recursive classes")])
prop("C03","No lost wakeup: an available mutex is granted to a waiter",
 "Whenever a mutex is in a state in which its rules allow a waiting request to be granted and every thread is otherwise idle, one such request has been granted: no thread sleeps or spins forever on a mutex it could have. Every unlock, unlock_shared, failed attempt or exception leaves no eligible waiter asleep.",
 ["schedules","programs","configurations"],"all interleavings of waiting, releasing and giving-up threads, for exclusive and shared requests, on every mutex type",
 "A lost wakeup needs the waiter to be exactly between its check and its sleep, or a specific mixture of readers, writers and timeouts; tests would hang only by luck and mostly have one waiter.",
 ALLMTX,[("notify after every state change that can enable a waiter","unlock/unlock_shared/timeout paths"),("predicate re-check loops under the internal mutex","all wait loops")])
prop("C04","try_lock and try_lock_shared are non-blocking and truthful",
 "try_lock and try_lock_shared always return without waiting for another thread's release; they succeed exactly when the request could be granted at some instant of the call under the mutex's rules, and a failed attempt changes nothing. Only the spinlocks may additionally fail spuriously when the hardware's weak compare-exchange does.",
 ["schedules","programs","configurations"],"all states of ownership and waiting, all interleavings with concurrent acquisitions and releases, every mutex type",
 "Tests call try_lock in one free and one held state per type; states with queued waiters, pending hand-off or mixed readers and writers are not sampled.",
 ALLMTX,[("single check-and-take under the internal mutex / one compare-exchange","try_lock, try_lock_shared")])
prop("C05","Timed acquisition: never early, never overdue, never a false failure",
 "A timed (shared or exclusive) acquisition reports failure only after its deadline has passed on the clock it was given and only if the mutex could not be granted to it at that point; it waits no longer than its deadline plus scheduling delay; with a deadline already past it behaves like the try operation. Relative timeouts of the library's own (non-posix) mutexes are unaffected by adjustments of the wall clock, and a deadline on the wall clock is judged by that clock, however it is adjusted meanwhile.",
 ["schedules","inputs","histories"],"all deadlines (past, present, future, any clock and duration type), all positions of the deadline relative to releases, all spurious wakeups",
 "Tests use a few real-time sleeps with an uncontended or permanently held mutex; the race between expiry and release, spurious wakeups and clock adjustments are never produced.",
 [I+f for f in ("checked_mutex.hpp","checked_shared_mutex.hpp","fair_mutex.hpp","fair_shared_mutex.hpp","alternate_mutex.hpp","alternate_shared_mutex.hpp","posix_native_mutex.hpp")],
 [("wait_until loop, predicate re-checked after timeout","do_try_lockwait / impl_try_lockwait / do_try_lock_sharedwait"),("deadline computed once on steady_clock","try_lock_for")])
prop("C06","Fair mutexes grant in request order (FIFO)",
 "The fair mutexes (plain, recursive, timed, recursive timed) grant exclusive ownership to blocked requests strictly in the order in which the requests were made, for lock and timed requests alike. No later lock, try_lock or timed request overtakes an earlier request that is still waiting; requests that gave up do not count.",
 ["schedules","programs","histories"],"all arrival orders of any number of requests, including nested re-acquisition, try attempts and expiring timed requests in the queue",
 "The existing tests queue at most a few plain lock requests; overtaking by try_lock in the hand-off window or reordering after a timeout in the middle of the queue is not exercised.",
 [I+"fair_mutex.hpp"],[("ticket counters next_/curr_","fair::mutex, fair::recursive_mutex"),("intrusive wait queue","fair::detail::timed_mutex_impl")],
 [("next_, curr_","tickets","fair::mutex"),("queue_","FIFO of waiting requests","timed_mutex_impl")])
prop("C07","Readers share, writers exclude",
 "On every shared mutex type any number of threads may own it in shared mode together, but never while another thread owns it exclusively. A shared request is granted without waiting for other readers whenever no thread owns the mutex exclusively and no exclusive request is outstanding, and the mutex becomes available to a writer exactly when the last reader has released.",
 ["schedules","programs","configurations"],"all interleavings of shared and exclusive acquisition, release and timed attempts, every shared mutex type and policy",
 "Tests use fixed reader/writer scripts with sleeps; they check neither arbitrary reader counts nor the windows around hand-off between readers and writers.",
 [I+f for f in ("checked_shared_mutex.hpp","fair_shared_mutex.hpp","alternate_shared_mutex.hpp","yamc_rwlock_sched.hpp","posix_native_mutex.hpp")],
 [("reader count and writer bit","include/yamc_rwlock_sched.hpp"),("locked_ node status","include/fair_shared_mutex.hpp:wq_push_locknode")])
prop("C08","ReaderPrefer and WriterPrefer scheduling policies",
 "With ReaderPrefer a waiting writer never delays a reader: shared requests are granted whenever no thread owns the mutex exclusively. With WriterPrefer no shared request is granted while an exclusive request is waiting, waiting writers are served before waiting readers, and as soon as no writer owns or waits (it got and released the mutex, timed out or failed) the waiting readers are all granted. The default of the alternate and checked shared mutexes is ReaderPrefer.",
 ["schedules","programs","configurations"],"all orders of reader and writer arrival, release and expiry for both policies, alternate and checked families, timed and untimed",
 "Tests run one script per policy; combinations with several waiting writers, expiring writers or failing requests are not covered.",
 [I+f for f in ("yamc_rwlock_sched.hpp","alternate_shared_mutex.hpp","checked_shared_mutex.hpp")],
 [("before/after_wait_wlock counting of waiting writers","include/yamc_rwlock_sched.hpp:WriterPrefer"),("wait_rlock predicate","include/yamc_rwlock_sched.hpp")],
 [("nwriter, nreader, rwcount","owners and waiting writers","include/yamc_rwlock_sched.hpp")])
prop("C09","TaskFairness: readers and writers served first-come first-served",
 "The fair shared mutexes with TaskFairness serve requests in arrival order: a request is granted only when no earlier conflicting request is still waiting, and consecutive readers at the head of the line are granted together as soon as no thread owns the mutex exclusively. Neither readers nor writers, nor try operations, overtake an earlier waiting conflicting request.",
 ["schedules","programs","histories"],"all arrival sequences of shared/exclusive, blocking/try/timed requests and all interleavings of releases and expiries",
 "One scripted test exists; the wait queue's hand-off, timeout and marking paths have many states it does not reach.",
 [I+"fair_shared_mutex.hpp"],[("wait queue with lockable marking of the leading reader group","impl_unlock (non-phased branch), impl_try_lockwait timeout path, wq_shared_lockable")],
 [("queue_, locked_","request line and current owners","fair::detail::shared_mutex_base")])
prop("C10","PhaseFairness: reader and writer phases alternate",
 "The fair shared mutexes with PhaseFairness (the default) keep writers in arrival order; when a writer releases and the oldest waiting request is a reader, all readers waiting at that moment are granted together ahead of every waiting writer, and readers arriving later wait behind the waiting writers. When the oldest waiting request is a writer it is granted next, and a request that gives up never blocks those behind it.",
 ["schedules","programs","histories"],"all arrival sequences of shared/exclusive, blocking/try/timed requests and all interleavings of releases and expiries",
 "One scripted test exists; reordering with several interleaved readers and writers, or with expiring writers between them, is not covered.",
 [I+"fair_shared_mutex.hpp"],[("move waiting readers to the front at writer release","impl_unlock (phased branch)"),("expired writer wakes readers behind it","impl_try_lockwait")],
 [("queue_, locked_","request line and current owners","fair::detail::shared_mutex_base")])
prop("C11","Checked mutexes report every misuse and change nothing",
 "On the checked mutexes, re-locking a non-recursive mutex already owned by the caller (in any mode, through any acquisition operation) reports resource_deadlock_would_occur, releasing a mutex the caller does not own in that mode reports operation_not_permitted, and destroying an owned mutex reports resource_deadlock_would_occur. A reported misuse leaves ownership, nesting and other threads' requests exactly as they were, correct use is never reported, and in abort mode the process aborts in exactly the same cases.",
 ["schedules","programs","histories","configurations"],"all operations in all ownership states by owner and non-owner threads, throwing and aborting configuration, with waiters present",
 "Tests trigger each misuse once in one state and do not check that nothing changed afterwards, nor misuse while others wait.",
 [I+"checked_mutex.hpp",I+"checked_shared_mutex.hpp"],[("owner checks before any state change","lock/try_lock/unlock/... and dtor_precondition")],
 [("owner_, e_owner_, s_owner_, ncount_","recorded ownership","checked classes")])
prop("C12","Deadlock detection is exact",
 "With deadlock detection enabled, a blocking acquisition on the checked mutexes reports a deadlock if and only if waiting would close a cycle of threads each waiting (without deadline) for a mutex owned by the next; a report leaves no trace of the request, so the remaining threads proceed once the reporting thread releases what it owns, and later acquisitions are judged on the actual waits only. Waiting that closes no cycle, including timed waiting, is never reported.",
 ["schedules","programs","histories"],"all programs of threads acquiring several checked mutexes of mixed kinds in any order, including histories after an earlier report",
 "Tests build one two-thread and one three-thread cycle; longer histories, mixed shared/exclusive cycles, reports followed by further use and racing wake-ups are not sampled.",
 [I+"yamc_lock_validator.hpp",I+"checked_mutex.hpp",I+"checked_shared_mutex.hpp"],[("global table of owners and waiters, cycle search","validator::deadlock::enqueue/find_closepath"),("enqueue/dequeue around waits","lock, lock_shared")],
 [("mutexmap","owners and waiters per mutex","validator::deadlock")])
prop("C13","Semaphores never lose or invent permits",
 "For the generic and POSIX counting semaphores the number of successful acquisitions never exceeds the initial value plus the permits released so far; release(n) adds exactly n; an acquire blocks only while no permit is available and every available permit is handed to a blocked acquirer; try_acquire never blocks and fails only if no permit was available at some instant of the call.",
 ["schedules","programs","inputs"],"all interleavings of acquire, try_acquire, timed acquire and release(n), n >= 0, any initial value up to the maximum",
 "Tests use one or two threads with sleeps; releasing several permits to several sleepers, or release racing with expiry, is not explored.",
 [I+"yamc_semaphore.hpp",I+"posix_semaphore.hpp"],[("counter under the internal mutex, notify on release","counting_semaphore::release/acquire"),("sem_post/sem_wait","include/posix_semaphore.hpp")],
 [("counter_","available permits","counting_semaphore")])
prop("C14","Timed and interrupted semaphore acquisition is truthful",
 "try_acquire_for and try_acquire_until take a permit iff they return true, return false only after the deadline passed on the given clock and only if no permit was available then, and do not outlast the deadline; a past deadline behaves like try_acquire. A deadline on the wall clock is judged by that clock, however it is adjusted meanwhile. Interruption of the waiting thread by a signal never surfaces as an error and never loses or duplicates a permit.",
 ["schedules","inputs","fault_sequences"],"all deadlines (including before the epoch), clocks, races between expiry and release, and interruptions of the native wait at any point",
 "Tests never interrupt a wait with a signal, never pass odd deadlines and hit expiry only without concurrent release.",
 [I+"yamc_semaphore.hpp",I+"posix_semaphore.hpp"],[("wait_until loop with re-check","counting_semaphore::do_try_acquirewait"),("deadline conversion and sem_timedwait result handling","include/posix_semaphore.hpp")])
prop("C15","Latch releases waiters exactly when the count reaches zero",
 "No wait or arrive_and_wait on a latch returns, and no try_wait reports true, before the expected number of arrivals (counted by count_down(n) and arrive_and_wait(n)) has happened; once it has, every current and future waiter returns and try_wait reports true. A latch created with zero is open from the start and count_down never blocks.",
 ["schedules","programs","inputs"],"all interleavings of any number of counting and waiting threads, all update values including zero",
 "Tests run one fixed number of threads through once.",
 [I+"yamc_latch.hpp"],[("counter under the internal mutex, notify at zero","latch::count_down, wait, arrive_and_wait")],[("counter_","remaining arrivals","latch")])
prop("C16","Barrier phases complete once, in order, for everybody",
 "A barrier phase completes exactly when the expected number of arrivals (arrive(n) or arrive_and_wait) has been made; the completion function runs exactly once per phase, after the last arrival and before any waiter of that phase is released. A wait with a token returns iff the token's phase has completed, however many phases have passed since, and every waiter of a completed phase is released even if later phases are already under way.",
 ["schedules","programs","histories"],"all interleavings of arrive(n), wait(token), arrive_and_wait over any number of consecutive phases, including fast threads lapping slow waiters",
 "Tests run a few phases in lock step; lapping waiters, stale tokens, multi-arrivals and very long histories are not sampled.",
 [I+"yamc_barrier.hpp"],[("phase counter compared with the token's phase","barrier::wait, arrive_and_wait"),("completion step under the internal mutex","phase_completion_step")],
 [("counter_, phase_, init_count_","pending arrivals, current phase, expected count","barrier")])
prop("C17","Barrier: dropping out lowers the expected count",
 "arrive_and_drop counts as one arrival of the current phase and reduces by exactly one the number of arrivals expected in every later phase, whichever position in the arrival order it has and however many participants drop in the same phase. The remaining participants can complete all later phases.",
 ["schedules","programs","histories"],"all orders of drops and arrivals in a phase, any number of drops, followed by any number of later phases",
 "The only test drops with every participant in a fixed way and does not vary the arrival position of the dropping thread.",
 [I+"yamc_barrier.hpp"],[("expected count lowered by the drop","arrive_and_drop / phase_completion_step")],[("init_count_","expected arrivals per phase","barrier")])
prop("C18","shared_lock tracks shared ownership exactly",
 "A shared_lock owns its mutex in shared mode iff owns_lock() says so; construction, lock, try and timed operations, unlock, release, swap, move and destruction call the mutex's corresponding shared operation exactly once when and only when the ownership state requires it, so ownership is never leaked, duplicated or released twice. Operations without mutex or unlock without ownership report operation_not_permitted, locking while owning reports resource_deadlock_would_occur, and errors (also those thrown by the mutex) leave the lock's state unchanged.",
 ["programs","histories","fault_sequences"],"all sequences of operations on several shared_lock objects and mutexes, with every try result and with the mutex throwing at any call",
 "Tests check each operation once from one state; sequences across moved-from, released, swapped and failed states are unsampled.",
 [I+"yamc_shared_lock.hpp"],[("pm_/owns_ transitions","shared_lock members")],[("pm_, owns_","associated mutex, ownership flag","shared_lock")])
prop("C19","scoped_lock acquires all or nothing, without deadlock",
 "A constructed scoped_lock owns every one of its mutexes and its destruction releases each exactly once; if acquiring one of them fails with an exception, none stays locked. Threads that lock the same mutexes with scoped_lock in any different orders never deadlock with each other, and the adopting form releases but never acquires.",
 ["schedules","programs","fault_sequences"],"any number (0..n) and order of mutexes, all interleavings of several threads, exceptions from any mutex at any point",
 "Tests lock uncontended mutexes from one thread.",
 [I+"yamc_scoped_lock.hpp"],[("std::lock in the constructor, per-element unlock in the destructor","scoped_lock")])
prop("C20","Lock hand-over publishes memory; internals are race-free",
 "Everything a thread did before releasing a mutex (or releasing a semaphore permit, counting down a latch, arriving at a barrier) happens-before, in the sense of the C++ memory model, what another thread does after the acquisition (or wait) it enabled, on every primitive of the library. The primitives' own non-atomic state is never accessed by two threads without such ordering.",
 ["schedules","programs","configurations"],"all executions under the C++ memory model of the primitives, including relaxed, acquire and release atomics and every spinlock variant",
 "The tests run on x86, where missing acquire/release ordering on an atomic has no visible effect.",
 [I+f for f in ("naive_spin_mutex.hpp","ttas_spin_mutex.hpp","alternate_mutex.hpp","fair_mutex.hpp","fair_shared_mutex.hpp","yamc_semaphore.hpp","yamc_latch.hpp","yamc_barrier.hpp")],
 [("acquire on successful compare-exchange, release on unlock store","spin_weak, spin_ttas basic_mutex"),("internal std::mutex","all other classes")])
prop("C21","Spin backoff policies yield as documented",
 "A thread spinning on a spinlock keeps retrying until it gets the lock; with the yield policy it yields the processor after every failed attempt, with the busy policy never, and with the exponential policy first after its initial count of failed attempts and then at intervals that halve down to one attempt, so that it never spins unboundedly without yielding.",
 ["inputs","histories","configurations"],"any number of consecutive failed attempts and any initial count (including 0 and 1)",
 "Tests only check that locking works; the sequence of yields is not observed.",
 [I+"yamc_backoff_spin.hpp",I+"naive_spin_mutex.hpp",I+"ttas_spin_mutex.hpp"],[("counter/initcount update","backoff::exponential::wait")],[("initcount, counter","current interval and attempts left","backoff::exponential::state")])
prop("C22","A released primitive may be destroyed at once",
 "Once a thread knows that no other thread will start using a primitive again (it acquired the mutex after the other's release, returned from the latch or barrier wait, or consumed the last permit), it may release and destroy it immediately: an unlock, count_down, arrival or release still returning in another thread never touches the destroyed object.",
 ["schedules","programs"],"all interleavings of the final release in one thread with acquisition, release and destruction in another, for every mutex, latch, barrier and the generic semaphore",
 "Needs destruction between two particular steps of another thread's call; tests join all threads before destroying.",
 ALLMTX+[I+"yamc_latch.hpp",I+"yamc_barrier.hpp",I+"yamc_semaphore.hpp"],[("notification before leaving the internal critical section","unlock/count_down/arrive/release of each class")])
prop("C23","Windows and Apple wrappers keep the same contracts",
 "The Windows and Apple wrappers (native mutex, critical section, slim rwlock, unfair lock, Win32 and GCD semaphores) provide over conforming native primitives the same guarantees as their portable counterparts: exclusion and sharing, exact nesting, truthful non-blocking try, permit counting with release(n), and timed operations that never fail early and never outlast the deadline (past deadlines behave like try). Native failures surface as the documented system_error and never as success; native_handle() designates the wrapped native object.",
 ["inputs","programs","fault_sequences","configurations"],"all operation sequences, deadlines in past and future, and failure codes of the native calls",
 "These headers are not compiled by the tests on this platform at all.",
 [I+f for f in ("win_native_mutex.hpp","win_semaphore.hpp","gcd_semaphore.hpp","apple_native_mutex.hpp")],
 [("timeout conversion and result mapping","do_try_lockwait, do_try_acquirewait, from_unix_epoch")])
prop("C24","A request that gives up leaves no trace",
 "A timed request (exclusive, shared or semaphore) that expires, at whatever place in the line and whatever moment, leaves the mutex as if it had never been made: the order of the remaining requests is kept, every request that is eligible without it is granted without waiting for anything else, and later operations behave normally.",
 ["schedules","programs","histories"],"all positions of one or several expiring requests among other requests, all interleavings of expiry with releases, grants and other expiries",
 "Tests expire a request only when nobody else waits.",
 [I+f for f in ("fair_mutex.hpp","fair_shared_mutex.hpp","alternate_mutex.hpp","alternate_shared_mutex.hpp","checked_mutex.hpp","checked_shared_mutex.hpp","yamc_semaphore.hpp")],
 [("queue removal and re-marking on timeout","impl_try_lockwait"),("waiting-writer count lowered on timeout","do_try_lockwait / after_wait_wlock")])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))
