"""What each property's check builds and runs.  plan: (shards, cases per shard)."""


ENV_ASAN = ("detect_leaks=0:exitcode=97:abort_on_error=0:detect_stack_use_after_return=1:strict_string_checks=1:check_initialization_order=1:"
            "allocator_may_return_null=1:handle_abort=0:malloc_context_size=6:quarantine_size_mb=32")


def job(name, src, variant, quick, thorough, **kw):
    d = {"name": name, "src": src, "variant": variant, "quick": quick, "thorough": thorough}
    d.update(kw)
    return d


HEAP_RULE = ("generated histories of allocate / callocate / allocator requests / releases / resets / callback changes on two "
             "static heaps of 6 size pairs; a case counts as non-trivial when it released everything and took the whole heap "
             "back in one request, distinct by its operation sequence; every distinct free-region shape seen at a statistics "
             "query is counted too")
HEAP_JOBS = [
    job("heap-asan", "heap.cpp", "asan", (8, 2800), (8, 25000)),
    job("heap-plain", "heap.cpp", "cplain", (4, 10000), (8, 60000)),
    job("heap-fuzz", "heap.cpp", "fuzz", None, (8, 60000)),
]

PROPS = {}
for p in ("C01", "C02", "C03", "C05"):
    PROPS[p] = {"rule": HEAP_RULE, "jobs": HEAP_JOBS,
                "require": ["heap.served", "heap.refused", "heap.released", "heap.took_all", "heap.stats"],
                "assumptions": ["a block's header lies directly before it and has the size observed on a fresh heap",
                                "heaps of at least 64 bytes; callers release only live blocks, once"]}

PROPS["C04"] = {
    "rule": "generated operation sequences on vector, deque, list, map, unordered_map and string, each on a static heap of varying "
            "room and fragmentation beside its twin on the default allocator; distinct by operation sequence",
    "jobs": [job("cont-asan", "heap_containers.cpp", "asan", (8, 1600), (8, 25000)),
             job("cont-overaligned", "heap_containers.cpp", "asan", (8, 450), (8, 8000), defs=["VAL_ALIGN=alignas(32)"]),
             job("cont-plain", "heap_containers.cpp", "cplain", None, (8, 60000)),
             job("cont-fuzz", "heap_containers.cpp", "fuzz", None, (8, 40000))],
    "require": ["containers.ops", "containers.out_of_heap", "containers.strong_checked", "containers.equality"],
}

for p, rule, req in (
        ("C06", "generated put/get sequences on caches of capacity 1 to 17 (int, string and colliding keys, with and without "
                "exceptions) against an LRU model; non-trivial: a get missed because the key had been evicted",
         ["lru.puts", "lru.hits", "lru.evicted_misses"]),
        ("C07", "generated put/get sequences on a virtual clock moved to just before, at and after expiry moments; non-trivial: "
                "a get of an expired key happened", ["lru.puts", "lru.expired", "lru.fresh"])):
    PROPS[p] = {"rule": rule, "require": req,
                "jobs": [job("lru-asan", "lru.cpp", "asan", (8, 6000), (8, 60000)),
                         job("lru-plain", "lru.cpp", "cplain", (4, 32000), (8, 200000)),
                         job("lru-fuzz", "lru.cpp", "fuzz", None, (8, 60000))]}
PROPS["C08"] = {
    "rule": "short histories of 2-4 threads (call/return ticks, unique values) searched for a sequential explanation, plus long "
            "runs checked per key, all under ThreadSanitizer and AddressSanitizer; non-trivial: calls overlapped; distinct by the "
            "interleaving of calls, returns and results",
    "jobs": [job("lin-tsan", "lru_mt.cpp", "tsan", (4, 1400), (8, 15000)),
             job("lin-asan", "lru_mt.cpp", "asan", (4, 2000), (8, 20000)),
             job("lin-plain", "lru_mt.cpp", "plain", (4, 5000), (8, 60000)),
             job("long-tsan", "lru_mt.cpp", "tsan", (4, 12), (8, 300), defs=["VF_LONG"])],
    "require": ["lru_mt.overlapping", "lru_mt.long_hits"],
    "parallel": 4,
}

META = {"default": ("runtime monitoring: generated workloads under sanitizers, judged by a reference-model oracle",
                    "Held on every execution explored; says nothing about paths or interleavings not driven. Trusts the "
                    "compilers, sanitizer runtimes and the harness's reference model.")}

OBS = [job("obs-asan", "observers.cpp", "asan", (8, 6000), (8, 80000)),
       job("obs-plain", "observers.cpp", "cplain", (4, 24000), (8, 200000)),
       job("obs-fuzz", "observers.cpp", "fuzz", None, (8, 60000))]
OBS_RULE = ("generated histories of add / remove / clear / destroy / notify on up to 3 observables (capacity 1, 2, 5, 8 and "
            "growing) sharing up to 12 observers, with nested notifications; non-trivial: a notification reached several observers")
PROPS["C09"] = {"rule": OBS_RULE, "jobs": list(OBS), "require": ["obs.deliveries", "obs.removed"]}
PROPS["C10"] = {"rule": OBS_RULE, "jobs": list(OBS),
                "require": ["obs.add_refused_contains", "obs.add_refused_full", "obs.remove_refused", "obs.added", "obs.removed"]}
PROPS["C11"] = {"rule": OBS_RULE, "jobs": list(OBS), "require": ["obs.disconnects", "obs.cleared", "obs.destroyed"]}
PROPS["C12"] = {"rule": OBS_RULE, "jobs": list(OBS), "require": ["obs.nested_notifications", "obs.recursion_refused"]}
PROPS["C13"] = {
    "rule": "threads notifying, adding/removing their own observers and clearing one growing observable; the recorded calls, returns "
            "and deliveries are checked offline; non-trivial: registrations overlapped notifications; distinct by delivery history",
    "jobs": [job("obsmt-tsan", "observers_mt.cpp", "tsan", (4, 500), (8, 8000)),
             job("obsmt-asan", "observers_mt.cpp", "asan", (4, 600), (8, 10000)),
             job("obsmt-plain", "observers_mt.cpp", "plain", (4, 2000), (8, 30000))],
    "require": ["obs_mt.required_deliveries", "obs_mt.overlapping_registrations", "obs_mt.clears"], "parallel": 4}
PROPS["C14"] = {
    "rule": "chains of 1 to 7 positions over random observers of three types; non-trivial: a chain of several was notified",
    "jobs": [job("chain-asan", "observers_static.cpp", "asan", (8, 8000), (8, 100000)),
             job("chain-plain", "observers_static.cpp", "cplain", (4, 16000), (8, 200000))],
    "require": ["chain.deliveries", "chain.nested", "chain.long"]}

VAL = [job("val-asan", "values.cpp", "asan", (8, 6000), (8, 60000)),
       job("val-plain", "values.cpp", "cplain", (4, 24000), (8, 200000)),
       job("val-fuzz", "values.cpp", "fuzz", None, (8, 60000))]
VAL_RULE = ("generated histories of operators, registrations and clears on observable values of nine types (capacities 1, 3 and "
            "growing), against plain variables; non-trivial: an update reached several observers")
for p in ("C09", "C10", "C11"):
    PROPS[p]["jobs"] += VAL
    PROPS[p]["rule"] += "; and " + VAL_RULE
PROPS["C15"] = {"rule": VAL_RULE, "jobs": list(VAL), "require": ["val.updates", "obs.removed", "val.chains"]}
PROPS["C16"] = {"rule": VAL_RULE, "jobs": list(VAL), "require": ["val.operations", "val.volatile"]}
PROPS["C17"] = {
    "rule": "threads apply ++ -- += -= and, in half of the cases, assignments to one value (int, byte, long, double, pointer); the reported "
            "old/new pairs must form one chain (one that the assignments may break off and take up elsewhere); non-trivial: threads interleaved; distinct by the pairs",
    "jobs": [job("valmt-tsan", "values_mt.cpp", "tsan", (4, 500), (8, 8000)),
             job("valmt-asan", "values_mt.cpp", "asan", (4, 600), (8, 8000)),
             job("valmt-plain", "values_mt.cpp", "plain", (4, 2000), (8, 30000))],
    "require": ["valmt.updates", "valmt.interleaved", "valmt.notifications", "valmt.assignments"], "parallel": 4}

MED = [job("med-asan", "mediator.cpp", "asan", (8, 1500), (8, 400000)),
       job("med-plain", "mediator.cpp", "cplain", (4, 8000), (8, 800000)),
       job("med-fuzz", "mediator.cpp", "fuzz", None, (8, 200000))]
MED_RULE = ("generated histories of attaching, destroying, detaching modules of 20 kinds over 13 message types (many of equal size) on "
            "managers of capacity 1 to 20, with messages sent by modules, managers and from inside deliveries; non-trivial: a message "
            "reached several modules")
PROPS["C18"] = {"rule": MED_RULE, "jobs": list(MED),
                "require": ["med.deliveries", "med.nested_sends", "med.shown", "med.wrong_size_conversions"]}
PROPS["C19"] = {"rule": MED_RULE, "jobs": list(MED), "require": ["med.overflows", "med.destroyed_while_full", "med.attached", "med.deliveries"]}

PROPS["C20"] = {
    "rule": "1-6 producers push numbered, checksummed items with slow copies through a stage of buffer 1 to 1024 (also stage chains and "
            "handlers pushing into their own stage), destroyed at once or when drained; non-trivial: producers interleaved; distinct by "
            "the order of handling",
    "jobs": [job("stage-tsan", "pipelines.cpp", "tsan", (4, 150), (8, 20000)),
             job("stage-asan", "pipelines.cpp", "asan", (4, 150), (8, 20000)),
             job("stage-plain", "pipelines.cpp", "cplain", (4, 250), (8, 40000)),
             job("stage-debug", "pipelines.cpp", "plain", (2, 60), (4, 10000), defs=["DEBUG"])],
    "require": ["pipe.stage_items", "pipe.producers_interleaved", "pipe.destroyed_with_backlog", "pipe.chains", "pipe.long_runs"], "parallel": 3}
PROPS["C21"] = {
    "rule": "1-6 producers push numbered, checksummed items with slow copies through a pool of 1 to 12 workers with buffers of 1 to 1024, "
            "destroyed at once or when drained; non-trivial: producers interleaved; distinct by the order of handling per worker",
    "jobs": [job("pool-tsan", "pipelines.cpp", "tsan", (4, 70), (8, 20000), defs=["POOL"]),
             job("pool-asan", "pipelines.cpp", "asan", (4, 70), (8, 20000), defs=["POOL"]),
             job("pool-plain", "pipelines.cpp", "cplain", (4, 90), (8, 40000), defs=["POOL"]),
             job("pool-debug", "pipelines.cpp", "plain", (2, 30), (4, 10000), defs=["POOL", "DEBUG"])],
    "require": ["pipe.pool_items", "pipe.producers_interleaved", "pipe.destroyed_with_backlog", "pipe.pool_several_workers", "pipe.chains", "pipe.long_runs"],
    "parallel": 3}
PROPS["C22"] = {
    "rule": "a stage's or pool's handlers are held at a gate while items are pushed and a virtual clock moves, so that each handling's "
            "time and backlog are known; every figure given to a handler or reported by the stage is compared with the last ten; "
            "non-trivial: more than ten were handled; distinct figures are counted too",
    "jobs": [job("stats-plain", "pipe_stats.cpp", "plain", (6, 500), (8, 20000)),
             job("stats-tsan", "pipe_stats.cpp", "tsan", (4, 400), (8, 5000)),
             job("stats-asan", "pipe_stats.cpp", "asan", (4, 400), (8, 5000))],
    "require": ["stats.exact", "stats.queries", "stats.windows_slid", "stats.polls", "stats.deep", "stats.handler_queries"]}

INT_RULE = ("interval events on a virtual clock (interposed clock and sleeps) with random periods, check intervals, late wake-ups, slow "
            "callbacks and period changes; every call's time is judged; non-trivial: more than three calls; distinct by call times")
PROPS["C23"] = {"rule": INT_RULE,
                "jobs": [job("sched-plain", "interval.cpp", "cplain", (8, 4500), (8, 200000), defs=["MODE=1"]),
                         job("sched-asan", "interval.cpp", "asan", (8, 1500), (8, 80000), defs=["MODE=1"])],
                "require": ["interval.calls", "interval.made_up"]}
PROPS["C25"] = {"rule": INT_RULE + "; and threads and callbacks setting and reading the periods under ThreadSanitizer",
                "jobs": [job("sched-plain", "interval.cpp", "cplain", (8, 4500), (8, 200000), defs=["MODE=1"]),
                         job("threads-tsan", "interval.cpp", "tsan", (4, 800), (8, 20000), defs=["MODE=3"]),
                         job("threads-plain", "interval.cpp", "plain", (4, 1600), (8, 40000), defs=["MODE=3"])],
                "require": ["interval.calls", "interval.changes", "interval.concurrent_sets", "interval.concurrent_calls"]}
PROPS["C24"] = {"rule": "interval events stopped or destroyed while sleeping, in a callback or at a random moment, by several threads, with the "
                        "callback's state freed at once; non-trivial: calls had been made or the stop was held at a chosen point",
                "jobs": [job("stop-tsan", "interval.cpp", "tsan", (4, 1600), (8, 8000), defs=["MODE=2"]),
                         job("stop-asan", "interval.cpp", "asan", (4, 1600), (8, 8000), defs=["MODE=2"]),
                         job("stop-plain", "interval.cpp", "plain", (4, 1600), (8, 16000), defs=["MODE=2"])],
                "require": ["interval.stopped_in_call", "interval.stopped_in_sleep", "interval.free_calls", "interval.free_stops"],
                "parallel": 6}

PROPS["C26"] = {"rule": "random option registrations (names that resemble one another) and command lines against a model; non-trivial: a value was "
                        "given; distinct by the arguments",
                "jobs": [job("argv-asan", "argv.cpp", "asan", (8, 16000), (8, 400000)),
                         job("argv-plain", "argv.cpp", "cplain", (4, 16000), (8, 1000000)),
                         job("argv-fuzz", "argv.cpp", "fuzz", None, (8, 300000))],
                "require": ["argv.values", "argv.flags", "argv.option_at_end", "argv.parses", "argv.odd_locale"]}
PROPS["C27"] = {"rule": "every 16-bit value, and structured and random 16/32/64-bit values, stored at any address, compared in neighbouring, "
                        "byte-swapped and random pairs; distinct by value",
                "jobs": [job("endian-asan", "data.cpp", "asan", (8, 3000), (8, 200000), defs=["ENDIAN"]),
                         job("endian-plain", "data.cpp", "cplain", (4, 15000), (8, 1000000), defs=["ENDIAN"]),
                         job("endian-gcc", "data.cpp", "plain", (4, 15000), (8, 1000000), defs=["ENDIAN"])],
                "require": ["endian.values", "endian.all_16_bit_values"]}
PROPS["C28"] = {"rule": "values of 14 types through arrays, exactly sized buffers, vectors, deques, reverse and recording iterators; distinct "
                        "by object bytes",
                "jobs": [job("data-asan", "data.cpp", "asan", (8, 7500), (8, 300000)),
                         job("data-plain", "data.cpp", "cplain", (4, 18000), (8, 1000000)),
                         job("data-gcc", "data.cpp", "plain", (4, 18000), (8, 1000000))],
                "require": ["data.values"]}

PKT_RULE = ("packets of several header, fields (packed, padded, empty) and checksum types (xor, sum, CRC-8/16/32, position-dependent), built, "
            "copied, written to and read from arrays and iterators, in place, and with random corruption")
PROPS["C29"] = {"rule": PKT_RULE + "; distinct by bytes", "jobs": [job("packet-asan", "packet.cpp", "asan", (8, 20000), (8, 600000)),
                                           job("packet-plain", "packet.cpp", "cplain", (4, 40000), (8, 1500000)),
                                           job("packet-fuzz", "packet.cpp", "fuzz", None, (8, 300000))],
                "require": ["packet.valid_read", "packet.invalid_read", "packet.built", "packet.in_place"]}
PROPS["C30"] = {"rule": "accessors of several capacities, headers, fields, element and checksum types, serialised with fitting and too many elements "
                        "(to the largest representable), and deserialised from random content and sizes; distinct by operations",
                "jobs": [job("accessor-asan", "packet.cpp", "asan", (8, 20000), (8, 600000), defs=["ACCESSOR"]),
                         job("accessor-plain", "packet.cpp", "cplain", (4, 40000), (8, 1500000), defs=["ACCESSOR"]),
                         job("accessor-fuzz", "packet.cpp", "fuzz", None, (8, 300000), defs=["ACCESSOR"])],
                "require": ["accessor.serialised", "accessor.refused", "accessor.valid_read", "accessor.invalid_crc", "accessor.bad_size"]}
PROPS["C31"] = {"rule": "generated histories of construction, copy, move, assignment, swap and destruction of holders beside plain objects of the same "
                        "type (throwing, move-only, over-aligned, standard), with throws injected; distinct by operations",
                "jobs": [job("pimpl-asan", "pimpl.cpp", "asan", (8, 12000), (8, 400000)),
                         job("pimpl-casan", "pimpl.cpp", "casan", (4, 12000), (8, 400000)),
                         job("pimpl-plain", "pimpl.cpp", "cplain", (4, 32000), (8, 1000000)),
                         job("fits-asan", "pimpl_reject.cpp", "asan", (1, 1), (1, 1), defs=["REJ_FITS"])]
                        + [job("refuse-%d" % k, "pimpl_reject.cpp", "asan", (1, 1), (1, 1), defs=["REJ_KIND=%d" % k], refused=True)
                           for k in (1, 2, 3, 4, 5)],
                "require": ["pimpl.thrown", "pimpl.assigned", "pimpl.self_assigned", "pimpl.copied", "pimpl.moved", "pimpl.move_assigned",
                            "pimpl.argument_lists", "pimpl.standard_types", "pimpl.fitting_declarations",
                            "refused_by_the_compiler"]}

NO_ORDER = {"TSAN_OPTIONS": "halt_on_error=1:exitcode=66:history_size=4:detect_deadlocks=0"}  # actors nest in one another's callbacks
PROPS["C32"] = {
    "rule": "2 to 6 instances drawn from every component (half the cases: mostly of one kind), each driven by a seeded script: alone, then "
            "interleaved step by step (partly from inside one another's callbacks), on several threads at once, and handed from thread to "
            "thread; what each observed must be what it observed alone; distinct by the kinds and what was observed alone",
    "jobs": [job("inst-tsan", "instances.cpp", "tsan", (8, 600), (8, 12000), env=NO_ORDER),
             job("inst-asan", "instances.cpp", "asan", (8, 600), (8, 12000)),
             job("inst-plain", "instances.cpp", "plain", (4, 1500), (8, 40000))],
    "require": ["inst.interleaved", "inst.nested_steps", "inst.parallel", "inst.handed_over", "inst.events"]}


def vg(name, n, deep, **kw):
    return job(name + "-memcheck", kw.pop("src", name + ".cpp"), "vg", n and (kw.get("shards", 2), n), (8, deep), directed=False, **kw)


PROPS["C33"] = {
    "rule": "the workloads of all other properties' harnesses under valgrind's memcheck (every byte tracked as written or not, every block as "
            "returned or not), plus a count of the blocks requested and returned by each instance of every component; distinct as in the harness",
    "jobs": [vg("heap", 250, 4000), vg("heap_containers", 200, 3000), vg("lru", 300, 4000), vg("observers", 300, 5000),
             vg("observers_static", 200, 2000), vg("values", 250, 4000), vg("mediator", 100, 2000), vg("argv", 300, 5000),
             vg("data", 200, 3000), vg("packet", 300, 4000), vg("accessor", 300, 4000, src="packet.cpp", defs=["ACCESSOR"]),
             vg("pimpl", 300, 4000), vg("pipelines", 15, 150), vg("pipe_stats", 20, 200), vg("interval", 30, 300),
             vg("lru_mt", 100, 1000), vg("observers_mt", 80, 1000), vg("values_mt", 80, 1000), vg("instances", 60, 800), vg("faults", 150, 3000), vg("readers", 60, 1000), vg("nodyn", 300, 5000), vg("faultsmt", 25, 400, src="faults.cpp", defs=["FAULTS_THREADS"]),
             job("inst-balance", "instances.cpp", "asan", (4, 800), (8, 12000))],
    "require": ["inst.memory_balanced", "heap.served", "containers.ops", "lru.hits", "obs.deliveries", "data.values", "pimpl.copied"]}

PROPS["C34"] = {
    "rule": "histories of calls during which the k-th copy, memory request or thread start fails, or a receiver, hook or callback throws, on "
            "caches, growing observables, values' update functions, mediators, stages, pools, parsers and heaps; a sweep over k for every "
            "constructor that starts threads; non-trivial: a call failed; distinct by what was done and observed",
    "jobs": [job("faults-asan", "faults.cpp", "asan", (8, 3000), (8, 60000)),
             job("faults-plain", "faults.cpp", "cplain", (4, 12000), (8, 200000)),
             job("faultsmt-asan", "faults.cpp", "asan", (4, 600), (8, 12000), defs=["FAULTS_THREADS"]),
             job("faultsmt-tsan", "faults.cpp", "tsan", (4, 400), (8, 8000), defs=["FAULTS_THREADS"]),
             job("faultsmt-plain", "faults.cpp", "plain", (4, 1000), (8, 20000), defs=["FAULTS_THREADS"])],
    "require": ["fault.cache_put_failed", "fault.cache_get_failed", "fault.add_failed", "fault.clear_failed", "fault.on_update_failed",
                "fault.receiver_threw", "fault.send_failed", "fault.attach_failed", "fault.push_failed", "fault.thread_not_started",
                "fault.constructor_failed", "fault.heap_refused", "fault.parse_failed"],
    "parallel": 6}


UNITS = ["unit_1.cpp", "unit_2.cpp", "unit_3.cpp", "unit_4.cpp"]
HEADERS = ["allocators/static_heap", "allocators/static_heap_allocator", "cache/exceptions", "cache/lru", "comm/mediator", "comm/observer",
           "comm/observer_errors", "comm/observer_static", "comm/pipeline_stage", "comm/pipeline_stage_pool", "comm/values/observable",
           "comm/values/observed", "comm/values/pre_def", "func/argv_parser", "func/data", "func/fast_pimpl", "func/interval_event",
           "func/log_adapter", "func/packet"]
ODR = {"ASAN_OPTIONS": ENV_ASAN + ":detect_odr_violation=2"}
PROPS["C35"] = {
    "rule": "scripts of 20 to 170 calls on one instance of every component, run within one translation unit and again with every call made by "
            "one of three units chosen at random (other orders of inclusion in each), compared call by call; the same before main and after it; "
            "every header alone in two units; distinct by the calls and units",
    "jobs": [job("units-asan", "units.cpp", "asan", (8, 700), (8, 20000), more=UNITS, env=ODR),
             job("units-tsan", "units.cpp", "tsan", (4, 300), (8, 8000), more=UNITS),
             job("units-clang", "units.cpp", "cplain", (4, 1500), (8, 40000), more=UNITS)]
            + [job("alone-" + h.replace("/", "-"), "alone.cpp", "plain", (1, 1), (1, 1), more=["alone_2.cpp"], defs=["HDR=<xitren/%s.hpp>" % h])
               for h in HEADERS],
    "require": ["units.crossings", "units.thrown_across", "units.before_main", "units.local_types", "units.headers_alone"]}
PROPS["C18"]["jobs"].append(job("units-asan", "units.cpp", "asan", (1, 20), (1, 200), more=UNITS, env=ODR))
PROPS["C18"]["require"].append("units.twin_types")
PROPS["C36"] = {
    "rule": "constant packets, accessors, endian integers, holders, heap figures and exceptions in pages of memory made read-only (and caches, stages "
            "and events outside): every call the interface allows on them, by one thread and then by 2 to 4 threads at once; distinct by the results",
    "jobs": [job("readers-tsan", "readers.cpp", "tsan", (6, 2500), (8, 60000)),
             job("readers-asan", "readers.cpp", "asan", (4, 3000), (8, 60000)),
             job("readers-plain", "readers.cpp", "cplain", (4, 6000), (8, 200000))],
    "require": ["readers.calls", "readers.concurrent_calls"]}
PROPS["C37"] = {
    "rule": "random calls on static heaps, containers on them, fixed-capacity observables and values, compile-time chains, packets, accessors and holders, "
            "every request for dynamic memory within a call being observed; distinct by the results",
    "jobs": [job("nodyn-asan", "nodyn.cpp", "asan", (8, 25000), (8, 800000)),
             job("nodyn-plain", "nodyn.cpp", "cplain", (4, 120000), (8, 3000000)),
             job("nodyn-gcc", "nodyn.cpp", "plain", (4, 120000), (8, 3000000))],
    "require": ["nodyn.calls", "nodyn.heap", "nodyn.heap_refused", "nodyn.container_calls", "nodyn.observers", "nodyn.values", "nodyn.chains",
                "nodyn.packets", "nodyn.pimpls", "nodyn.counting"]}
PROPS["C38"] = {
    "rule": "elements, items and callbacks counted by identity after every call on caches, pipelines, values, heaps and events; and rounds of the "
            "same calls on one long-lived instance of each component, the memory held in late rounds compared with early ones; distinct by "
            "the calls",
    "jobs": [job("kept-asan", "retained.cpp", "asan", (8, 400), (8, 12000)),
             job("kept-plain", "retained.cpp", "cplain", (6, 800), (8, 30000))],
    "require": ["kept.cache_puts", "kept.drained", "kept.gone_before_next", "kept.replaced", "kept.rounds"], "parallel": 6}
PROPS["C39"] = {
    "rule": "handlers of a stage or pool are held inside, one by one or all, while a thread pushes up to and beyond the room there is, and are let "
            "go singly, one worker for good, or all; several producers with handlers that take their time; and handlers that push into their own and another stage or pool; non-trivial: all workers were "
            "full; distinct by which worker handled which item",
    "jobs": [job("room-plain", "room.cpp", "plain", (4, 600), (8, 20000)),
             job("room-clang", "room.cpp", "cplain", (2, 600), (8, 20000)),
             job("room-tsan", "room.cpp", "tsan", (4, 250), (8, 8000))],
    "require": ["room.pushes_with_handlers_held", "room.filled", "room.waited", "room.handled_beside_busy", "room.decisive_choices", "room.items", "room.pushes_by_handlers"],
    "parallel": 3}

PROPS["C40"] = {
    "rule": "stages and pools whose log adapter and handlers keep a record per thread, built with and without DEBUG, with several producers and "
            "perturbed schedules, destroyed with work left or none; non-trivial: a worker handled something; distinct by how many items each worker handled",
    "jobs": [job("log-debug", "logs.cpp", "plain", (6, 600), (8, 20000), defs=["DEBUG"]),
             job("log-debug-tsan", "logs.cpp", "tsan", (4, 300), (8, 8000), defs=["DEBUG"]),
             job("log-debug-asan", "logs.cpp", "casan", (4, 400), (8, 8000), defs=["DEBUG"]),
             job("log-silent", "logs.cpp", "cplain", (2, 600), (8, 10000)),
             job("log-silent-tsan", "logs.cpp", "tsan", None, (8, 4000))],
    "require": ["log.items", "log.workers", "log.pushes", "log.worker_lines", "log.silent"],
    "parallel": 4}
SET = ["VF_CLOCK_SET", 'VF_AS="C06C07C22C23C24C25"']
PROPS["C41"] = {
    "rule": "the cases of C07, C22, C23, C24 and C25 while the wall clock, but not the time that passes, is set back and forth, by milliseconds to "
            "years, when time passes and when the clock is read; distinct as there",
    "jobs": [job("set-lru", "lru.cpp", "cplain", (4, 20000), (8, 200000), defs=SET),
             job("set-sched", "interval.cpp", "cplain", (6, 2500), (8, 100000), defs=SET + ["MODE=1"]),
             job("set-stop", "interval.cpp", "plain", (2, 1000), (8, 16000), defs=SET + ["MODE=2"]),
             job("set-threads", "interval.cpp", "plain", (2, 1000), (8, 16000), defs=SET + ["MODE=3"]),
             job("set-stats", "pipe_stats.cpp", "plain", (4, 400), (8, 10000), defs=SET),
             job("set-stats-asan", "pipe_stats.cpp", "asan", (2, 200), (8, 5000), defs=SET)],
    "require": ["clock.sets", "lru.expired", "lru.fresh", "interval.calls", "interval.made_up", "stats.exact"],
    "parallel": 6}

PROPS["C42"] = {
    "rule": "every component is given objects, functions, byte ranges and argument vectors that live in memory of their own; they are compared, "
            "overwritten and destroyed once the call has returned, the component is used on and compared with a model, and what it returned is compared again "
            "after further calls and its end; distinct by what was lent",
    "jobs": [job("lent-asan", "lent.cpp", "asan", (4, 6000), (8, 100000)),
             job("lent-casan", "lent.cpp", "casan", (4, 6000), (8, 100000)),
             job("lent-tsan", "lent.cpp", "tsan", (2, 2000), (8, 20000)),
             job("lent-plain", "lent.cpp", "cplain", (4, 10000), (8, 200000))],
    "require": ["lent.objects", "lent.results", "lent.pushes", "lent.functions", "lent.events", "lent.notifications", "lent.values", "lent.messages", "lent.arguments",
                "lent.bytes", "lent.pimpls", "lent.containers"],
    "parallel": 4}

# gcc's ThreadSanitizer misses copies that the compiler expands in place: clang's sees them
for p, d in PROPS.items():
    for j in [j for j in d["jobs"] if j["variant"] == "tsan" and j["src"] != "faults.cpp"]:  # (which replaces operator new)
        cut = lambda plan: plan and (max(2, plan[0] // 2), max(1, plan[1] * 2 // 3))
        d["jobs"].append(dict(j, name=j["name"].replace("-tsan", "-ctsan"), variant="ctsan", quick=cut(j["quick"]), thorough=cut(j["thorough"])))
