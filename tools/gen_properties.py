#!/usr/bin/env python3
# Source of properties.jsonl (kept as a script so long texts stay readable).
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
        "mechanism": [{"name": n, "where": w} for n, w in mech],
        "observe_at": list(observe), "hook_needed": hook}})

B = "src/mg/box/"; S = "src/mg/sch/"; N = "src/mg/net/"; A = "src/mg/aio/"; I = "src/mg/sio/"

p("P01", "Multi-producer queue loses, duplicates and reorders nothing",
  "Every element pushed by any number of concurrent producers into the multi-producer single-consumer queue is returned by the consumer exactly once, elements of one producer come out in the order they were pushed, and data written before the push is visible to the consumer. A push reports that the queue was empty exactly when it really was empty at the moment of the push, so a consumer which sleeps after seeing an empty queue is always told about the next element.",
  ["schedules", "histories"],
  "all interleavings of 1..4 producers (single, batch and list pushes) with one consumer popping everything, in direct and reversed order",
  "The tests run free threads on one machine and see a tiny set of interleavings; a lost element or a wrong 'was empty' answer needs a preemption between two specific atomic operations.",
  [B+"MultiProducerQueueIntrusive.h"],
  [("lock-free push loop / pop-all exchange", B+"MultiProducerQueueIntrusive.h")],
  [("head", "newest pushed element", B+"MultiProducerQueueIntrusive.h")], ["Push*/PopAll* return values"])

p("P02", "Multi-consumer queue delivers every element exactly once, in order",
  "Each element pushed into the multi-consumer queue is popped by exactly one of the attached consumers, a single consumer never observes two elements in an order opposite to how they were pushed, and an element pushed as pending stays invisible until a flush, a plain push, or the filling up of its internal block, and is visible after a flush. This holds for any sub-queue size, any number of consumers attaching and detaching at any moment, reserved memory or not, and a pop returns nothing only when no flushed element was left unclaimed.",
  ["schedules", "histories", "configurations"],
  "all interleavings of one producer with 1..4 consumers; sub-queue sizes 1..5; push, push-pending, flush, reserve, attach and detach histories",
  "Sub-queues are recycled and freed by reference counts while consumers still hold them; only particular preemptions during a sub-queue switch expose an error, and tests use large sub-queues and free-running threads.",
  [B+"MultiConsumerQueueBase.h", B+"MultiConsumerQueueBase.cpp", B+"MultiConsumerQueue.h"],
  [("read/write index publication, sub-queue recycling by consumer references", B+"MultiConsumerQueueBase.cpp")],
  [("sub-queue list", "chain of fixed-size arrays, one being written", B+"MultiConsumerQueueBase.h")], ["Pop, Count, Push/Flush results, memory allocated"])

p("P03", "A sent signal is received exactly once and is never lost",
  "A signal sent at any moment makes the object signalled: a current or future blocking receive returns, a timed receive returns success, and the signal is consumed by exactly one receive, several sends before a receive collapsing into one. A timed receive never reports success without a signal and, unless it was woken up or another receiver is involved, does not give up before its time limit, which can be huge or infinite, and everything written before a send is visible after the receive which consumed it; the object can be destroyed right after the receive.",
  ["schedules", "histories"],
  "all interleavings of several senders and receivers with blocking, timed (zero, finite, huge, infinite) and non-blocking receives, followed by destruction",
  "Missed wakeups and use-after-destruction need a preemption between the state change and the notification; tests cannot place it and cannot wait for huge time limits.",
  [B+"Signal.h", B+"Signal.cpp", B+"ConditionVariable.cpp"],
  [("state machine + mutex/condvar slow path", B+"Signal.cpp")],
  [("state", "empty / waiting / signalled", B+"Signal.h")], ["Send, Receive, ReceiveTimed, ReceiveBlocking"])

p("P04", "Mutex, condition variable and threads keep their contracts",
  "The mutex gives mutual exclusion with nested locking by its owner, releases only on the outermost unlock, answers correctly who owns it, and a try-lock never blocks and succeeds exactly when the mutex is free or already owned by the caller. Waiting on the condition variable atomically releases and re-acquires the mutex, no notification after that is lost, and a timed wait reports a timeout only if its time limit really passed. A thread runs its body exactly once after start, sees a stop request, and stop/join/delete return only after the body finished.",
  ["schedules", "histories"],
  "all interleavings of 2..4 threads doing lock/try-lock/nested lock/wait/notify histories and of start/stop/block-until-stop histories of threads",
  "Mutual exclusion, lost notifications and the start/stop races are schedule properties; the tests sample a handful of free-running schedules.",
  [B+"Mutex.h", B+"Mutex.cpp", B+"ConditionVariable.h", B+"ConditionVariable.cpp", B+"Thread.h", B+"Thread.cpp", B+"Thread_Unix.cpp", B+"ThreadFunc.h"],
  [("owner tracking and nesting counter", B+"Mutex.h"), ("stop flag, start/stop under mutex", B+"Thread.cpp")],
  [("owner/count", "current owner and depth", B+"Mutex.h")], ["Lock/TryLock/Unlock/IsOwnedByThisThread, Wait/TimedWait, Thread Start/Stop/StopAndDelete/BlockingStop"])

p("P05", "Interruptible mutex: exclusion, waker delivery, no lost waiter",
  "At most one thread at a time is inside the interruptible mutex, a thread waiting for it always eventually enters after the owner leaves, and when threads start to wait for a taken mutex the wake-up callback of the first of them is always executed while the mutex is still owned, so that an owner sleeping inside on an external event gets interrupted. Several waiters are all served and try-lock fails only when the mutex is taken or has waiters.",
  ["schedules", "histories"],
  "all interleavings of 2..4 threads using blocking lock with a waking callback, try-lock and unlock, with owners which sleep inside until woken",
  "The failure is a hang of a waiter after a specific preemption between state change and waiting; free running tests practically never hit it.",
  [B+"InterruptibleMutex.h", B+"InterruptibleMutex.cpp"],
  [("taken/waiting state bits, waiter list", B+"InterruptibleMutex.cpp")],
  [("state", "owned and has-waiters flags", B+"InterruptibleMutex.h")], ["Lock/TryLock/Unlock"])

p("P06", "Thread-local pools never hand out one object twice",
  "Objects allocated from the thread-local pool are distinct from every other live object regardless of which threads allocate and free them, objects are constructed and destructed exactly once per allocation, and memory freed in one thread becomes reusable by others without corruption or loss. Termination of threads never invalidates live objects allocated by them.",
  ["schedules", "histories"],
  "all interleavings of 1..4 threads creating, passing to each other and deleting pooled objects, threads ending and starting in between",
  "Aliasing between two live objects appears only after particular cross-thread free patterns around the batch boundary of the pools and a particular preemption in the shared pool.",
  [B+"ThreadLocalPool.h"],
  [("per-thread batch of free blocks + global batch exchange", B+"ThreadLocalPool.h")],
  [("local and global free lists", "unused blocks", B+"ThreadLocalPool.h")], ["addresses and contents of live objects, constructor/destructor counts"])

p("P07", "Shared pointers and reference counters destroy exactly once, at zero",
  "For every history of constructing, copying, moving, assigning (also to itself and between equal objects), swapping, resetting and unwrapping reference-counted pointers, the pointee is alive while at least one reference exists and is destroyed exactly once when the last one goes. The same holds when references are copied and dropped concurrently, and all accesses made through other references happen before the destruction.",
  ["histories", "schedules"],
  "arbitrary operation sequences over sets of pointers/objects incl. base-derived conversions; all interleavings of 2..4 threads copying and dropping references",
  "Leaks and early frees hide in rare pairs of operations (move-assign of equal objects, self-assign) and in specific interleavings of the final releases.",
  [B+"SharedPtr.h", B+"RefCount.h"],
  [("intrusive counter, inc/dec with acquire-release", B+"RefCount.h"), ("copy/move assignment", B+"SharedPtr.h")],
  [("counter", "number of references", B+"RefCount.h")], ["destructor runs, get(), operator bool"])

p("P08", "Every posted task runs exactly once per post, never in parallel",
  "A task posted to the scheduler, from any thread including the workers and the task itself, is executed exactly once per post, never concurrently with itself, with everything written before the post visible to it, and the scheduler never touches the task after its callback began (so it can delete itself, or be re-posted to the same or to another scheduler). This holds for every number of workers and every internal queue size, including the minimal ones.",
  ["schedules", "histories", "configurations"],
  "all interleavings of external posters with 1..4 workers, sub-queue sizes 1..4+, task programs that re-post, delete, spawn and move between schedulers, one-shot callbacks",
  "Tests use big queues, a few thread counts and free-running schedules; lost or doubly executed tasks depend on the sched-role handover and on queue-size boundaries.",
  [S+"TaskScheduler.h", S+"TaskScheduler.cpp", S+"Task.h", S+"Task.cpp"],
  [("front -> pending/waiting -> ready queue pipeline under the sched role", S+"TaskScheduler.cpp")],
  [("task status, task scheduler pointer", "where the task is", S+"Task.h")], ["task callbacks"])

p("P09", "Tasks with deadlines run on time, never early, and report expiry right",
  "A task posted with a delay or a deadline and neither woken nor signalled is executed not before its deadline and is executed once the time comes without any further event, in order of processing that never skips a due task; a task posted without one is executed immediately and a task waiting forever is executed only after a wakeup or a signal. The task reports expiration exactly if its deadline was reached, adjusted deadlines keep the minimum, and a deadline is forgotten after the execution it was set for.",
  ["histories", "schedules", "inputs"],
  "sets of tasks with arbitrary deadlines (past, equal, near, huge, infinite) posted at arbitrary moments under virtual time, with wakeups racing with expirations",
  "Tests use a couple of real-time delays with tolerances; orders of many deadlines, equal deadlines, huge values and races of expiration with wakeups are not reachable with a real clock.",
  [S+"TaskScheduler.cpp", S+"Task.cpp", S+"Task.h", B+"BinaryHeap.h"],
  [("waiting heap by deadline, timed sleep of the sched thread", S+"TaskScheduler.cpp")],
  [("deadline, expired flag", "when the task must run, why it runs", S+"Task.h")], ["execution time of callbacks, IsExpired, GetDeadline"])

p("P10", "Task wakeups and signals are never lost",
  "A wakeup posted to a task at any moment makes it execute at least once after that without waiting for its deadline; a signal makes it execute and is received by it exactly once, cannot be overridden by wakeups or deadlines, and everything written before sending is visible after receiving. After the signal is received the sender no longer touches the task, so it can be destroyed at once.",
  ["schedules", "histories"],
  "all interleavings of several wakers and signal senders with a task that is being posted, is waiting, expiring, ready, executing, re-posting itself, or deleting itself upon the signal",
  "The races between the status changes by the wakers and by the scheduler are only a few instructions wide.",
  [S+"Task.cpp", S+"Task.h", S+"TaskScheduler.cpp"],
  [("status transitions pending/waiting/ready/signaled, re-push to the front queue", S+"Task.cpp")],
  [("task status", "pending/waiting/ready/signaled", S+"Task.h")], ["executions, ReceiveSignal results"])

p("P11", "Scheduler stop, emptiness, restart and destruction are safe",
  "Waiting for the scheduler to become empty returns success only when no task is queued, waiting for a deadline, or executing (tasks parked until an explicit wakeup are not counted), and does return once they all are finished; stop returns only after the workers ended and keeps not yet executed tasks, which are executed after the next start. Destruction happens only after all such tasks were executed.",
  ["schedules", "histories"],
  "all interleavings of posting tasks (which may spawn others) with emptiness waits, stops, starts with different worker counts and destruction",
  "A wrong 'empty' answer or a stop that hangs or drops tasks needs a preemption inside the emptiness check or during the handover of the sched role.",
  [S+"TaskScheduler.cpp", S+"TaskScheduler.h"],
  [("IsEmpty/WaitEmpty/Stop/Start", S+"TaskScheduler.cpp")],
  [("worker states, four queues", "what still has to run", S+"TaskScheduler.h")], ["WaitEmpty, IsEmpty, Stop, Start, destructor"])

p("P12", "Coroutine tasks resume properly, nest, and are destroyed exactly once",
  "A coroutine body of a task runs its steps in order, each await of a yield or a signal suspends it and resumes it exactly once after the task is woken, nested coroutines run to the end before their awaiter continues, and everything after an exit operation is never executed. On completion, on any exit operation from any nesting depth, and on dropping an unfinished coroutine every frame and its locals are destroyed exactly once, and the stack use does not grow with the number of sequential awaits.",
  ["programs", "schedules", "histories"],
  "generated coroutine trees (sequence, nested calls, yields, deadlines, signals, exit-delete/exec/signal at any depth) run by 1..3 workers under all interleavings, and without a scheduler",
  "Tests run a few hand written coroutines; the lifetime of frames depends on where in the tree the exit happens, and on races with the resumption on another worker.",
  [B+"Coro.h", B+"Coro.cpp", S+"Task.h", S+"Task.cpp"],
  [("chain of coroutine promises, final suspend transfer", B+"Coro.cpp"), ("await operations of tasks", S+"Task.cpp")],
  [("first/top promise links", "the stack of nested coroutines", B+"Coro.h")], ["order of effects, constructor/destructor counts of locals"])

p("P13", "Tasks are dispatched fairly: no task starves, older go first",
  "With one worker, tasks posted without deadlines by one thread are executed in the posting order, and a task that constantly re-posts itself never prevents other posted, woken or due tasks from being executed. Tasks whose deadlines came are executed in the deadline order, and the bound on how many other executions precede a ready task is finite and does not grow with time.",
  ["histories", "schedules", "configurations"],
  "sets of self re-posting tasks, ordinary, delayed and woken tasks, queue sizes 1..16, 1..3 workers",
  "Starvation appears only with particular combinations of queue size, number of busy tasks and time; tests never measure how long a task was overtaken.",
  [S+"TaskScheduler.cpp"],
  [("limited batches of scheduling and execution", S+"TaskScheduler.cpp")],
  [("pending and waiting queues", "tasks not yet dispatched", S+"TaskScheduler.h")], ["order of executions"])

p("P14", "Binary heaps always give the extreme element and keep all elements",
  "After any sequence of pushes, removals of the top, removals and key changes of arbitrary elements, the heap of every kind (min/max, of values including owning ones, of pointers and intrusive) holds exactly the elements pushed and not removed, its top is an extreme one, and successive removals of the top produce a sorted sequence. Elements of an intrusive heap always know their own position while inside and know they are outside after removal.",
  ["histories", "inputs"],
  "arbitrary operation sequences with duplicated keys over all heap variants, with any capacity reservations",
  "Heap order violations after an arbitrary-position removal or key change depend on the exact shape and the keys; tests cover few shapes.",
  [B+"BinaryHeap.h"],
  [("sift up/down, update, remove", B+"BinaryHeap.h")],
  [("array and stored indices", "heap layout", B+"BinaryHeap.h")], ["GetTop, Pop, Remove, Update, Count, index"])

p("P15", "Intrusive lists behave exactly as sequences",
  "After any sequence of appends, prepends, insertions, removals, pops, list splices, reversals, clears, moves and move assignments the doubly and forward linked lists hold exactly the same elements in the same order as an ordinary sequence would, forward and backward iteration agree, and size-independent queries (first, last, emptiness) match. A list that was moved from is an empty usable list.",
  ["histories"],
  "arbitrary operation sequences over several lists including moves from and to empty lists",
  "Errors hide in rare combinations such as an operation on a list constructed by move from an empty list; tests check single operations on fresh lists.",
  [B+"DoublyList.h", B+"ForwardList.h"],
  [("link updates", B+"DoublyList.h"), ("tail link pointer maintenance", B+"ForwardList.h")],
  [("head/tail links", "list structure", B+"ForwardList.h")], ["iteration, First/Last/IsEmpty, Pop results"])

p("P16", "Buffer streams are exact byte queues",
  "Bytes written to a buffer stream by copying, by referencing external memory, by attaching buffers or by filling the writable space directly are read, peeked, skipped and viewed out of it in the same order and exactly once, with the reported read and write sizes always equal to the real ones. Reserving the write space never changes the content and gives at least the asked space, and a read-only view of the stream consumes bytes of the stream itself.",
  ["histories", "inputs"],
  "arbitrary sequences of write/reserve/propagate/skip/read/peek operations with sizes around the buffer block boundaries and empty buffers",
  "The read and write positions cross buffer boundaries in many combinations; tests cover selected boundaries one at a time.",
  [N+"Buffer.h", N+"Buffer.cpp"],
  [("read/write positions over a chain of buffers", N+"Buffer.cpp")],
  [("head/write/tail buffers, positions, sizes", "where the data starts and ends", N+"Buffer.h")], ["content read, GetReadSize, GetWriteSize"])

p("P17", "Buffer chains and I/O vectors keep content; shared buffers stay intact",
  "Splitting, appending, skipping and converting chains of buffers and lists of such chains to I/O vectors preserve exactly the remaining bytes in order, with vectors never empty and never longer than the given limit. Operations on one list never change the bytes, sizes or the links seen by other owners of the same shared buffers, and copies of buffers own their data.",
  ["histories", "inputs"],
  "arbitrary chains (empty buffers, shared between several lists, referenced and copied memory), arbitrary skip sizes and vector limits",
  "Sharing one chain between several lists with partial consumption and empty prefixes is not tested.",
  [N+"Buffer.h", N+"Buffer.cpp", B+"IOVec.h", B+"IOVec.cpp"],
  [("buffer link list consumption", N+"Buffer.cpp"), ("I/O vector propagation", B+"IOVec.cpp")],
  [("skip offset of the first link", "how much of the head is consumed", N+"Buffer.h")], ["bytes, I/O vectors"])

p("P18", "String functions and number parsing are exact for every input",
  "Number parsing accepts exactly the decimal strings of numbers which fit the type and yields their value, rejecting empty, malformed, overflowing and trailing-garbage input; formatting gives the same text as the C library for every length and never overruns the given buffer. Case-insensitive comparisons, searches and trimming agree with their definitions for every ASCII text, and formatted output always is null-terminated when there is room.",
  ["inputs"],
  "all strings over digits, signs, spaces, letters and arbitrary bytes, all integer widths with values around the limits, all buffer sizes",
  "Inputs are unbounded; tests check selected strings only.",
  [B+"StringFunctions.h", B+"StringFunctions.cpp"],
  [("number parsing", B+"StringFunctions.cpp"), ("formatting", B+"StringFunctions.cpp")],
  [], ["return values and buffers"])

p("P19", "Network addresses and URLs are parsed exactly and round-trip",
  "Parsing a host text succeeds exactly for valid IPv4 and IPv6 addresses with an optional port and yields the same address and port as the system parser, printing an address and parsing it back gives an equal one, and equality compares precisely the family, the address and the port. Splitting an URL into protocol, host, port and target loses and invents nothing, keeps bracketed IPv6 hosts whole and picks the default or unset port when none is given.",
  ["inputs"],
  "all address texts (compressed, bracketed, mixed, invalid), all ports incl. limits, all URLs from a grammar plus mutations",
  "The grammar is unbounded; tests have a table of examples without IPv6 URLs.",
  [N+"Host.h", N+"Host.cpp", N+"URL.h", N+"URL.cpp"],
  [("host parsing and printing", N+"Host.cpp"), ("URL splitting", N+"URL.cpp")],
  [], ["parsed fields and printed texts"])

p("P20", "Errors keep their code, message and tag through every operation",
  "An error object made from a system error number, a resolver or TLS failure or from an explicit code reports exactly the corresponding code, platform value, message and tag, and copies, moves, raising over each other, clearing and formatting preserve them. Every system error number maps to a stable known code and equal inputs give equal errors.",
  ["inputs", "histories"],
  "all system error numbers, all codes and tags, arbitrary messages of any length, arbitrary histories of copying, moving, clearing and raising",
  "Tests check a few codes; long messages and histories of assignments are not covered.",
  [B+"Error.h", B+"Error.cpp"],
  [("error mapping and storage", B+"Error.cpp")],
  [], ["error fields and text"])

p("P21", "Time values convert without overflow and keep their meaning",
  "Conversions between durations, points and limits saturate at infinity and at zero instead of wrapping, an infinite limit never becomes finite, comparisons are consistent with the values, and a limit converted to a point is never earlier than now plus the duration. The clock never goes backwards and units agree with each other. Sleeping takes at least the requested time, not longer by itself, whatever the length.",
  ["inputs"],
  "all 64 bit values of durations and points, in all limit kinds, with arbitrary current time",
  "Only boundary values such as near-infinite durations show overflow; tests use a few.",
  [B+"Time.h", B+"Time.cpp", B+"Time_Unix.cpp"],
  [("saturating conversion", B+"Time.cpp"), ("sleep", B+"Thread_Unix.cpp")],
  [], ["conversion results, clock readings"])

p("P22", "TLS streams carry exactly the application bytes, or fail",
  "Between two connected TLS streams with compatible settings application bytes arrive exactly as sent in order, however the encrypted data is cut into pieces and delivered and however writes and the handshake are interleaved, and with incompatible or untrusted settings the handshake fails on both. If any encrypted byte is altered the receiver never yields data that was not sent and reports an error, and a clean closing is seen by the peer only after all the data.",
  ["inputs", "histories", "configurations", "fault_sequences"],
  "all chunkings of both directions, message sizes across record boundaries, ciphers and trust settings, single corruptions and early closings",
  "Tests use fixed chunk sizes; the memory-based transport glue has its own buffers and boundaries that are crossed in only a few ways.",
  [N+"SSLStream.h", N+"SSLStreamOpenSSL.cpp", N+"SSLStreamOpenSSL.h", N+"SSLBioMem.cpp", N+"SSLContextOpenSSL.cpp"],
  [("stream state machine over memory transports", N+"SSLStreamOpenSSL.cpp"), ("memory transport", N+"SSLBioMem.cpp")],
  [("stream state, app and net buffers", "handshake progress and unsent data", N+"SSLStreamOpenSSL.h")], ["decrypted bytes, errors, close state"])

p("P23", "IO core executes tasks on wakeups, deadlines, events and closing",
  "A task attached to the IO core is executed by one worker at a time, for every wakeup at least once after it, not before its deadline otherwise and not later than needed once the deadline came, and for every readiness or completion event of its socket without losing any. A closed task gets the closing notification exactly once, after that the core never touches it unless it is attached again, and the core reports emptiness and stops only when all attached tasks are gone or kept.",
  ["schedules", "histories", "fault_sequences"],
  "all interleavings of wakeups, closings and deadlines from several threads with 1..3 workers over a simulated kernel",
  "The races between event arrival, wakeups, closings and re-posting are a few instructions wide and depend on the order of kernel events.",
  [A+"IOCore.h", A+"IOCore.cpp", A+"IOCore_epoll.cpp", A+"IOTask.h", A+"IOTask.cpp", A+"IOTask_epoll.cpp"],
  [("status machine of IO tasks", A+"IOTask.cpp"), ("event polling and dispatch", A+"IOCore_epoll.cpp")],
  [("task status, pending events, close guard", "what the core owes the task", A+"IOTask.h")], ["subscription callbacks"])

p("P24", "Asynchronous TCP sockets deliver the exact byte stream",
  "Bytes sent through an asynchronous TCP socket in any form (copied, referenced, whole buffers, from any thread, before or after connecting) reach the peer exactly once and in order, and everything the peer sent is given to the receiver exactly once and in order, in any combination of receive sizes, partial kernel reads and writes and delayed readiness. All data received before the peer's orderly end of stream is delivered before the end is reported.",
  ["schedules", "histories", "fault_sequences"],
  "all patterns of partial transfers, would-block results and event timing of a simulated kernel; all interleavings of senders with 1..3 workers",
  "Partial writes, rare would-blocks and event coalescing practically do not occur on a loopback in tests.",
  [A+"TCPSocketIFace.cpp", A+"TCPSocketIFace.h", A+"TCPSocket.cpp", A+"IOTask_epoll.cpp", A+"IOTask.cpp", N+"Buffer.cpp"],
  [("send queue and partial send accounting", A+"TCPSocketIFace.cpp"), ("readable/writable memory", A+"IOTask.cpp")],
  [("front and internal send queues, receive stream", "bytes in flight inside the socket", A+"TCPSocketIFace.h")], ["bytes at both ends"])

p("P25", "TCP socket lifecycle callbacks come in order, exactly once, no leaks",
  "For every connect attempt exactly one of connected or connect failed is reported (none if the owner closed it before), not earlier than the requested delay; a failure is reported with the real error, once, followed by the closing. Closing is reported exactly once, is the last callback, and comes after any order of close, shutdown, errors, timeouts and wakeups from any threads, after which the socket can be reused or deleted right in that callback. Every system socket given to or opened by the library is closed exactly once, and a shutdown posted at any moment after the connecting is requested, also before the connection is established or the socket is attached, ends the connection: the peer gets the end of the stream.",
  ["schedules", "histories", "fault_sequences"],
  "all interleavings of post-operations with connection events and injected system failures; reconnects; connect delays; host names resolved and failed",
  "Combinations of close, shutdown and failure at each stage are too many for tests; a leaked descriptor is not looked for at all.",
  [A+"TCPSocketIFace.cpp", A+"TCPSocket.cpp", A+"TCPSocketCtl.cpp", A+"TCPSocketCtl.h", A+"IOTask.cpp"],
  [("control message queue: connect/attach/shutdown", A+"TCPSocketCtl.cpp"), ("close guard", A+"IOTask.cpp")],
  [("socket state, pending control", "lifecycle stage", A+"TCPSocketIFace.h")], ["callbacks, system calls"])

p("P26", "TCP servers hand over every accepted client exactly once",
  "Every client connection accepted by the system on a listening server is handed to the owner exactly once with the right peer address, in spite of transient accept failures and bursts of connections, or is closed if the server is being closed. Closing a server in any state reports its end exactly once as the last notification, releases the listening socket and leaks no descriptor.",
  ["schedules", "histories", "fault_sequences"],
  "all timings of connection bursts, transient and fatal accept failures and closings, with 1..3 workers over a simulated kernel",
  "Accept failures cannot be provoked in tests, and edge-triggered event loss needs a special timing.",
  [A+"TCPServer.cpp", A+"TCPServer.h", A+"IOTask_epoll.cpp", A+"IOCore_epoll.cpp"],
  [("accept loop until would-block, re-arming", A+"TCPServer.cpp")],
  [("accept event", "readiness of the listening socket", A+"TCPServer.h")], ["accept/close callbacks, descriptors"])

p("P27", "Asynchronous TLS sockets deliver exact data with the TCP lifecycle",
  "An asynchronous TLS socket delivers the exact application byte stream both ways for any timing and partial transfers, including data sent before the handshake ends or before encryption is turned on in the middle of a plain connection, and reports connection only when it is usable. Closing, shutdown and failures follow the same exactly-once lifecycle as for plain sockets, and altered encrypted data ends in an error and never in wrong data.",
  ["schedules", "histories", "fault_sequences", "configurations"],
  "all chunkings, would-blocks and event timing of a simulated kernel; encryption from the start or enabled later; corruption and disconnects",
  "The TLS socket couples two state machines; tests only run it over loopback with full transfers.",
  [A+"SSLSocket.h", A+"SSLSocket.cpp", N+"SSLStreamOpenSSL.cpp", A+"TCPSocketIFace.cpp"],
  [("encrypt/decrypt between socket and stream", A+"SSLSocket.cpp")],
  [("pending encrypted output and decrypted input", "bytes between the layers", A+"SSLSocket.h")], ["bytes and callbacks at both ends"])

p("P28", "Name resolution calls back exactly once, also on cancel and timeout",
  "Every resolution request gets its callback exactly once: with the resolved addresses of its domain, or with the resolver's error, or with a timeout error but not before its time limit has passed, or with a cancellation error but only if it was cancelled. A cancellation done before the completion makes the callback come with the cancellation error unless the result is ready. Requests do not affect one another, and any order of requests, cancellations and releases of the request handles from any threads is allowed.",
  ["schedules", "histories", "fault_sequences"],
  "all interleavings of requests with arbitrary time limits, cancellations from several threads, slow and failing resolutions under virtual time",
  "The resolver is slow and uncontrollable in tests, so races of cancel, timeout and completion are not reached.",
  [N+"DomainToIP.h", N+"DomainToIP.cpp"],
  [("request state machine in the worker thread", N+"DomainToIP.cpp")],
  [("request state, worker queues", "who completes the request", N+"DomainToIP.cpp")], ["callbacks and their errors"])

p("P29", "Simple non-blocking sockets carry exact data and report real outcomes",
  "A simple client socket and server exchange exactly the bytes sent in order under any partial transfers, report the connection as established only when it is and fail with the real system error otherwise, never staying forever in progress after the system finished the attempt. Closing is idempotent and releases descriptors, and the end of stream is reported only after all the data.",
  ["histories", "inputs", "fault_sequences"],
  "arbitrary sequences of connect/update/send/receive/close over a simulated kernel with delayed, failing and partial results",
  "Tests run over loopback where connecting succeeds at once and transfers are never partial.",
  [I+"TCPSocket.h", I+"TCPSocket.cpp", I+"TCPServer.h", I+"TCPServer.cpp", I+"Socket.cpp", I+"Socket_Unix.cpp"],
  [("connect progress polling", I+"Socket_Unix.cpp"), ("update loop with buffered output", I+"TCPSocket.cpp")],
  [("connection state, output list", "what is not sent yet", I+"TCPSocket.h")], ["IsConnected/IsConnecting, bytes, errors"])

p("P30", "Framed messages, arguments and metrics give back exactly what was put in",
  "Messages written into a byte stream are read back with the same field values in the same order, however the stream is cut into pieces and buffers: a message is reported complete exactly when all its bytes have arrived, and reading one leaves the next ones intact. Command-line arguments are found by their exact names with the given values, the first one winning, and absent arguments change nothing. Metrics count every addition from any thread exactly once, and cover exactly the configured number of last periods.",
  ["inputs", "histories", "schedules"],
  "all field values and sizes, all cuts of the stream, argument lists, and interleavings of metric updates and rotations",
  "The tools are used by examples and benchmarks only, with small messages which come at once.",
  ["src/mg/test/Message.h", "src/mg/test/Message.cpp", "src/mg/test/CommandLine.cpp", "src/mg/test/MetricMovingAverage.cpp", "src/mg/test/MetricSpeed.cpp", "src/mg/test/MetricSpeed.h", "src/mg/test/Random.cpp"],
  [("write across buffers, header filled later", "src/mg/test/Message.cpp")],
  [("current sums and buckets", "what is counted", "src/mg/test/MetricMovingAverage.h")], ["values read back"])

p("P31", "Socket option helpers really set the requested state",
  "After configuring a socket its options as reported by the system equal the requested ones (address reuse, dual stack, keep-alive with its timing, no-delay, non-blocking), for IPv4 and IPv6 and for both values of every switch. Binding reports the really bound address and port, and binding to a taken address fails with the corresponding error without leaking. When the system refuses an option, this is reported with the system's error, and never when it does not.",
  ["configurations", "inputs"],
  "all combinations of families, option values and time-outs, against the real loopback kernel",
  "Tests never read the options back, so an inverted or skipped option passes.",
  [N+"Socket.h", N+"Socket_Unix.cpp", I+"Socket_Unix.cpp"],
  [("option setters", N+"Socket_Unix.cpp")],
  [], ["getsockopt, getsockname, fcntl"])

p("P32", "Atomic values are indivisible, exact for their type and publish data",
  "Every operation of the atomic types acts as one indivisible step on a value of exactly the named type: concurrent loads, stores, exchanges, conditional exchanges and arithmetic give results which some sequential order of the operations explains, with the wrap-around and sign of that type, and with the returned values the operation promises (old or new). A conditional exchange succeeds only when the value equals the expected one, and otherwise reports the current value. A store or modification with release semantics makes everything done before it visible to the thread which observes it with acquire semantics, also through chains of threads.",
  ["schedules", "histories", "inputs"],
  "all interleavings of operations of several threads on all named types with boundary values, and all chains of release and acquire operations",
  "Wrong memory orders and wrong widths give right results on a strongly ordered machine with small values.",
  [B+"Atomic.h"],
  [("operation wrappers and their memory orders", B+"Atomic.h")],
  [("the atomic value", "shared value", B+"Atomic.h")], ["returned values", "data published by the value"])

p("P33", "TLS contexts accept exactly valid settings and compare by them",
  "A TLS context takes every valid trust, protocol version, cipher and certificate (in memory or in a file, PEM or DER, with the private key encrypted by a password or not) and refuses with an error, without crashing and without becoming another configuration, certificates and keys which are broken, empty, missing, do not match each other or are forbidden by the trust level. Two contexts are equal if and only if they have the same role, trust, version range, ciphers in their order, own certificate and the same set of trusted certificates, no matter how and in which order these were set.",
  ["inputs", "histories", "configurations"],
  "all sequences of settings with valid and invalid values in all their forms, and all pairs of contexts",
  "Tests compare a handful of fixed configurations, and every one of them was made in one way only.",
  [N+"SSLContext.h", N+"SSLContextOpenSSL.h", N+"SSLContextOpenSSL.cpp"],
  [("setters and comparison", N+"SSLContextOpenSSL.cpp")],
  [("the context", "configuration", N+"SSLContextOpenSSL.h")], ["results of the setters", "comparison results"])

p("P34", "Scheduler statistics and worker states tell the truth",
  "The statistics of a scheduler lose nothing and count nothing twice: all the parts taken from the workers, no matter from which threads and when, in total equal the number of executions which really happened, and work is never done without a scheduling being counted. A worker executing a task is never reported as idle, and when there is nothing to do no worker is reported as running; the statistics and the states can be asked from any thread at any time without disturbing the work.",
  ["schedules", "histories"],
  "all interleavings of tasks being executed with statistics and states being read from several threads",
  "Tests print the statistics and never compare them with what was done.",
  [S+"TaskScheduler.h", S+"TaskScheduler.cpp"],
  [("counters popped by exchange", S+"TaskScheduler.h")],
  [("execution counters, worker states", "what workers did and do", S+"TaskScheduler.h")], ["StatPopExecuteCount, StatPopScheduleCount, GetState"])

p("P35", "Nothing is leaked",
  "Whatever happens to sockets, servers, TLS contexts and streams, resolution requests, IO and scheduler tasks, coroutines, buffers, queues and errors - normal work, failures, cancellation, closing or deletion at any stage and from any thread - after they end and are deleted by their user all the memory and descriptors they took are released: no block becomes unreachable without being freed, and repeating the same usage does not grow the memory or the number of descriptors.",
  ["schedules", "histories", "fault_sequences"],
  "all histories of usage, including failures at every step, and all interleavings of closing and deletion with the work in progress",
  "Unit tests do not look for leaks, and a lost object on a rare path of a failure or of a race is invisible in its result.",
  [A+"TCPSocketIFace.cpp", A+"TCPSocketCtl.cpp", A+"SSLSocket.cpp", A+"TCPServer.cpp", A+"IOTask.cpp", N+"DomainToIP.cpp", N+"Buffer.cpp", N+"SSLContextOpenSSL.cpp", N+"SSLStreamOpenSSL.cpp", S+"TaskScheduler.cpp", S+"Task.cpp", B+"Coro.h"],
  [("deletion of controls and queues on close", A+"TCPSocketIFace.cpp"), ("end of a resolution request", N+"DomainToIP.cpp")],
  [("ownership of requests and controls", "who deletes", A+"TCPSocketCtl.h")], ["memory, descriptors"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=True) + "\n")
print(len(P))
