"""What decides each property: harness binaries and their tests."""

import os

URING_DEFS = "-DMG_IOCORE_USE_IOURING=1 -I" + os.path.dirname(os.path.abspath(__file__)) + "/fakeuring"
NET = {"libs": ["simnet.cpp"], "ldflags": "-lssl -lcrypto"}


def _net(file, modules=()):
    """A harness of the network core: the same for both polling engines."""
    mods = ["box", "stub", "sch", "net"] + list(modules)
    HARNESSES[file] = ("sim", mods + ["aio_epoll"], dict(NET))
    HARNESSES[file + "_uring"] = ("sim", mods + ["aio_uring"],
                                  dict(NET, file=file, tag="_uring", defs=URING_DEFS))


# name: (file, kind, modules, extra)
HARNESSES = {
    "h_queue": ("sim", ["box", "stub"], {}),
    "h_sync": ("sim", ["box", "stub"], {}),
    "h_atomic": ("sim", ["box", "stub"], {}),
    "h_sch": ("sim", ["box", "stub", "sch"], {}),
    "h_sch2": ("sim", ["box", "stub", "sch"], {}),
    "h_coro2": ("sim", ["box", "stub", "sch"], {}),
    "h_coro": ("asan", ["box", "stub"], {}),
    "h_struct": ("asan", ["box", "stub"], {}),
    "h_buf": ("asan", ["box", "stub", "net"], {"ldflags": "-lssl -lcrypto"}),
    "h_tls": ("asan", ["box", "stub", "net"], {"ldflags": "-lssl -lcrypto"}),
    "h_text": ("asan", ["box", "stub", "net"], {"ldflags": "-lssl -lcrypto"}),
}

_net("h_iotask")
_net("h_tcp")
_net("h_server")
_net("h_ssl")
_net("h_domain")
_net("h_sio", ["sio"])

HARNESSES["h_opts"] = ("asan", ["box", "stub", "sch", "net", "sio", "aio_epoll"], {"ldflags": "-lssl -lcrypto"})

HARNESSES["h_tst"] = ("asan", ["box", "stub", "net", "test"], {"ldflags": "-lssl -lcrypto"})
HARNESSES["h_metric"] = ("sim", ["box", "stub", "net", "test"], {"ldflags": "-lssl -lcrypto"})

# property: list of (harness, [tests], share of the time).
CHECKS = {
    "P01": [("h_queue", ["mpsc"], 1)],
    "P02": [("h_queue", ["mcsp"], 3), ("h_struct", ["mcsp_seq"], 1)],
    "P03": [("h_sync", ["signal_ack", "signal_delete", "signal_collapse", "signal_work",
                        "signal_timed"], 1)],
    "P04": [("h_sync", ["mutex", "condvar", "thread", "thread_func"], 1)],
    "P05": [("h_sync", ["imutex"], 1)],
    "P06": [("h_sync", ["pool"], 1)],
    "P07": [("h_sync", ["shared_ptr_mt"], 2), ("h_struct", ["shared_ptr"], 1)],
    "P08": [("h_sch", ["sch_chaos"], 1)],
    "P09": [("h_sch2", ["sch_deadline", "sch_order"], 1)],
    "P10": [("h_sch2", ["sch_wakeup", "sch_signal"], 1)],
    "P11": [("h_sch2", ["sch_empty", "sch_empty_few"], 2), ("h_sch", ["sch_chaos"], 1)],
    "P12": [("h_coro2", ["sch_coro"], 2), ("h_coro", ["coro_box"], 1)],
    "P13": [("h_sch2", ["sch_fifo", "sch_starve", "sch_order"], 1)],
    "P14": [("h_struct", ["heap"], 1)],
    "P15": [("h_struct", ["list"], 1)],
    "P16": [("h_buf", ["buf_stream"], 1)],
    "P17": [("h_buf", ["buf_links", "buf_chain"], 1)],
    "P18": [("h_text", ["number", "text"], 1)],
    "P19": [("h_text", ["host_parse", "host_value", "url"], 1)],
    "P20": [("h_text", ["error"], 1)],
    "P21": [("h_text", ["time_value"], 2), ("h_sync", ["sleep"], 1)],
}

QUICK_S = 28
THOROUGH_S = 420
# Properties which need a different time.
QUICK_OVERRIDE = {}

RULES = {
    "P01": "Generated programs of 1..4 producers and a consumer with a generated schedule; non-trivial: several "
           "producers and at least one preemption.",
    "P02": "Generated producer and consumer programs with a generated schedule; non-trivial: several consumers, "
           "several sub-queues and at least one preemption.",
    "P03": "Generated senders and receivers with a generated schedule; non-trivial: at least one preemption (or, "
           "for time limits, any case).",
    "P04": "Generated lock/wait/thread programs with a generated schedule; non-trivial: several threads and at "
           "least one preemption.",
    "P05": "Generated owners and waiters with a generated schedule; non-trivial: an owner was interrupted by a "
           "waiter and there was a preemption.",
    "P06": "Generated allocation/free/hand-over programs in generations of threads with a generated schedule; "
           "non-trivial: several threads and more objects than one batch.",
    "P07": "Generated pointer operations (sequential against a model, and concurrent with a generated schedule); "
           "non-trivial: at least one preemption, or several aliases for the sequential ones.",
}
RULES.update({
    "P08": "Generated task graphs (posts from everywhere, delays, deadlines, waiting, one-shot tasks, self-deletion, "
           "two schedulers, restarts) with a generated schedule; non-trivial: at least 3 executions and a preemption.",
    "P09": "Generated deadline operations, posts and wakeups in virtual time; non-trivial: at least 2 executions by "
           "a deadline (or 3 in the order of deadlines).",
    "P10": "Generated wakers and signal senders with a generated schedule; non-trivial: at least one preemption.",
    "P11": "Generated task chains with concurrent emptiness checks, stops, restarts and destruction; non-trivial: at "
           "least one preemption.",
    "P12": "Generated programs of nested coroutines; non-trivial: nested calls and more resumptions than tasks (or, "
           "without the scheduler, more than 4 live locals).",
    "P13": "Generated posters, self-reposting tasks and probes; non-trivial: more tasks than one batch, or more "
           "executions than 2 per task, or at least 3 ordered deadlines.",
})
RULES.update({
    "P14": "Generated sequences of heap operations of every heap kind against a multiset model; non-trivial: at "
           "least 4 elements at once and a removal.",
    "P15": "Generated sequences of list operations against a vector model; non-trivial: at least 3 elements and a "
           "structural operation besides pushes.",
    "P16": "Generated sequences of stream operations against a byte queue model; non-trivial: several buffers and "
           "both writes and reads.",
    "P17": "Generated sequences of chain and list operations against byte models with shared owners; non-trivial: "
           "several links or a shared buffer.",
})
RULES.update({
    "P18": "Generated number texts (around every type border, with prefixes, suffixes and junk), ASCII texts and "
           "formats; non-trivial: a text longer than 1 character.",
    "P19": "Generated and mutated address texts, addresses and URLs; non-trivial: an address text longer than 6 "
           "characters, pairs of hosts, or an URL with a host and another part.",
    "P20": "Generated sequences of raising, wrapping, copying, moving and clearing errors; non-trivial: at least two "
           "kinds of operations.",
    "P21": "Generated values of the clock (a stand-in for the system call) and of durations, points and limits around "
           "all the borders, sleeps of generated lengths in several threads with a virtual clock; non-trivial: the value is "
           "above 1, or any sleeps.",
})
CHECKS["P22"] = [("h_tls", ["tls"], 1)]
RULES["P22"] = ("Generated pairs of TLS streams (several at once in a thread) with generated settings, chunkings, "
                "writes, shutdowns and alterations of the wire; non-trivial: at least 3 deliveries and a write.")
CHECKS["P33"] = [("h_tls", ["tls_ctx"], 1)]
RULES["P33"] = ("Generated sets of TLS contexts which differ by nothing, by the way or the order of setting the same or "
                "by a setting or two (trust, versions, ciphers, certificates in memory and in files in both formats, "
                "with and without a password, wrong ones); non-trivial: at least one setting in the common part.")
CHECKS["P23"] = [("h_iotask", ["io_task"], 1), ("h_iotask_uring", ["io_task"], 1)]
RULES["P23"] = ("Generated IO tasks (posts, wakeups, deadlines, closing, reuse, socket events and operations) with a "
                "generated schedule and a simulated kernel, on both engines; non-trivial: there are tasks "
                "and at least one preemption.")
CHECKS["P24"] = [("h_tcp", ["tcp_stream"], 1), ("h_tcp_uring", ["tcp_stream"], 1)]
RULES["P24"] = ("Generated connections, messages of several senders in all the forms, receive sizes and pauses with a "
                "generated schedule and a simulated kernel, on both engines; non-trivial: some data is received "
                "and there was a preemption.")
CHECKS["P25"] = [("h_tcp", ["tcp_life"], 1), ("h_tcp_uring", ["tcp_life"], 1)]
RULES["P25"] = ("Generated lives of sockets (connects to good and bad targets, wraps, tasks, delays, names) with any calls "
                "from threads and callbacks, failures of peers, a generated schedule and a simulated kernel, on both "
                "engines; non-trivial: a life is over and there was a preemption.")
CHECKS["P26"] = [("h_server", ["tcp_server"], 1), ("h_server_uring", ["tcp_server"], 1)]
RULES["P26"] = ("Generated servers with bursts of clients, transient accept failures, peers which leave before being "
                "accepted, closings from any thread and state, a generated schedule and a simulated kernel, on both "
                "engines; non-trivial: a server has been listening, clients were connected and there was a preemption.")
ASSUMPTIONS = {}

KIND_TECHNIQUE = {
    "sim": "property-based testing with generated programs and generated thread schedules (controlled "
           "scheduler, virtual time), model oracle, race and memory checks, shrinking",
    "asan": "stateful property-based testing against reference models under ASan/UBSan, shrinking",
    "real": "property-based testing on the real kernel against reference models",
}
KIND_NOTE = {
    "sim": "Random and PCT-like exploration of schedules at every atomic operation and system call of the "
           "real code with generated programs; sequentially consistent memory plus happens-before race "
           "detection; trusts the scheduler runtime and the oracle models in /verif.",
    "asan": "Random generation of operation sequences and inputs with boundary bias, compared with "
            "reference models; sanitizers catch memory errors; trusts the models in /verif.",
    "real": "Random scenarios with real threads and the real kernel, so schedules are not controlled.",
}
TECHNIQUE = {}
LEVEL_NOTE = {}
NOT_APPLICABLE = {}
NOTES = "Run ./check.py <property> [quick|thorough]; ./check.py --replay FILE re-runs a saved failure."

CHECKS["P27"] = [("h_ssl", ["ssl_stream", "ssl_attack", "ssl_life"], 1),
                 ("h_ssl_uring", ["ssl_stream", "ssl_attack", "ssl_life"], 1)]
RULES["P27"] = ("Generated TLS socket connections (messages of several senders, pauses, encryption turned on later, a "
                "man in the middle altering the records, lives with any calls from any threads) with a generated "
                "schedule and faults over a simulated kernel, on both engines; non-trivial: some data is received and there "
                "was a preemption (or, with the attacks, the sockets were closed by them; or, in the lives, a life is "
                "over and there was a preemption).")

CHECKS["P28"] = [("h_domain", ["domain"], 1)]
RULES["P28"] = ("Generated resolution requests with results, failures, hangs, limits, cancellations and releases from "
                "several threads with a generated schedule; non-trivial: at least 2 requests are completed and "
                "there was a preemption.")

CHECKS["P29"] = [("h_sio", ["sio", "sio_raw"], 1)]
RULES["P29"] = ("Generated non-blocking clients, servers and raw peers with connects of every outcome, partial transfers, "
                "failures, ends of stream and reuse over a simulated kernel, against byte queue models; the same for the "
                "bare functions of sockets with every form of buffers, offsets and sizes; non-trivial: some "
                "data is transferred or a failure is reported.")
CHECKS["P32"] = [("h_atomic", ["atomic_linear", "atomic_publish"], 1)]
RULES["P32"] = ("Generated histories of operations on every named atomic type by several threads (boundary values of the "
                "type, interleaved by the simulated scheduler) must have a sequential explanation; generated chains of "
                "release and acquire operations publish plain data, watched by the happens-before race detector. "
                "Non-trivial: operations of two threads overlapped, or data passed through a chain was read.")
CHECKS["P30"] = [("h_tst", ["tst_message", "tst_args", "tst_random"], 2), ("h_metric", ["tst_metric"], 1)]
RULES["P30"] = ("Generated messages of all field types with sizes around buffer borders, delivered in arbitrary "
                "pieces; generated argument lists; metrics updated by several threads under a generated schedule. "
                "Non-trivial: several messages with an incomplete moment, several arguments found, a range of more "
                "than one value, or a preemption between threads.")
CHECKS["P31"] = [("h_opts", ["sock_opts", "sock_bind", "sock_aio"], 4), ("h_sio", ["opt_fail"], 1)]
RULES["P31"] = ("Generated sequences of option settings on sockets of both families and of generated binds, compared "
                "with what the real kernel reports; generated failures of each call under a simulated kernel; non-trivial: at least 2 "
                "settings, or a bind or a connect is done, or a failure has happened.")
LEVEL_NOTE["P31"] = ("The options are read back from the real kernel (loopback only, ports chosen by the kernel); "
                     "trusts getsockopt, getsockname, fcntl and the models in /verif.")

CHECKS["P34"] = [("h_sch2", ["sch_stat"], 1)]
RULES["P34"] = ("Generated tasks (posts from threads and tasks, deadlines, wakeups, waits) with statistics popped and states "
                "of the workers asked from several threads at any moments; non-trivial: at least 3 executions and a preemption.")
# Only the losses are looked for, so only the failures about them count here.
CHECKS["P35"] = [("h_tcp", ["tcp_life", "tcp_stream"], 2), ("h_tcp_uring", ["tcp_life"], 1), ("h_ssl", ["ssl_life", "ssl_attack"], 2),
                 ("h_server", ["tcp_server"], 1), ("h_sio", ["sio", "sio_raw"], 1), ("h_domain", ["domain"], 1),
                 ("h_iotask", ["io_task"], 1), ("h_sch2", ["sch_wakeup", "sch_empty", "sch_order"], 1), ("h_coro2", ["sch_coro"], 1),
                 ("h_buf", ["buf_stream", "buf_links", "buf_chain"], 1), ("h_tls", ["tls", "tls_ctx", "tls_leak"], 3),
                 ("h_text", ["error", "url"], 1), ("h_struct", ["shared_ptr", "mcsp_seq"], 1), ("h_queue", ["mpsc", "mcsp"], 1)]
LEAKS = {"P35": ["leak", "sock_leak_fd", "server_leak_fd", "sio_leak_fd", "sio_raw_leak", "tls_leak", "tls_leak_fd",
                 "dns_leak"]}
QUICK_OVERRIDE["P35"] = 75
RULES["P35"] = ("The generated histories of the other checks (sockets, servers, TLS, resolver, scheduler, coroutines, buffers, "
                "errors, queues) which end at any stage and in any way. After each case under the simulated scheduler every block "
                "allocated by it must be freed or still reachable from live data; a sequential case which leaves more memory is "
                "repeated, and must not leave more each time. All the descriptors must be closed. Non-trivial: as in the check "
                "each test is taken from.")
