"""Table of the checks: which harnesses decide which property, in which build flavour, with which budgets."""
WRAPS = {
    "sync": ["sem_wait", "sem_trywait", "sem_timedwait", "sem_clockwait", "sem_post"],
    "mutex": ["pthread_mutex_lock", "pthread_mutex_unlock"],
    "res": ["sem_open", "sem_close", "sem_unlink", "shm_open", "shm_unlink", "ftruncate", "ftruncate64", "mmap", "mmap64", "munmap",
            "fstat", "fstat64"],
}
ALLW = ["sync", "mutex", "res"]


def P(name, src, flavor="plain", quick_s=20, thorough_s=300, **kw):
    d = dict(name=name, src=src if isinstance(src, list) else [src], flavor=flavor, quick_s=quick_s, thorough_s=thorough_s)
    d.update(kw)
    return d


CHECKS = {
    "C01": dict(parts=[P("calls", "c01_calls.cpp", "plain", quick_s=25, wrap=ALLW)],
                technique="property-based concurrent call programs with unique tokens, execution/completion counters and schedule perturbation",
                note="Schedules are sampled (random pauses at synchronisation points), not enumerated."),
    "C02": dict(parts=[P("values", ["c02_values.cpp", "c02_types.cpp", "c02_t1.cpp", "c02_t3.cpp", "c02_t4.cpp", "c02_t5.cpp", "c02_t6.cpp"], "asan", quick_s=22),
                       P("cxx11", "c02_cxx11.cpp", "asan", quick_s=10, std="c++11", group=1)],
                technique="property-based typed round trips and a conversion matrix (ASan/UBSan)",
                note="Values and sizes are sampled with boundary bias."),
    "C04": dict(parts=[P("queue", "c04_queue.cpp", "asan", quick_s=25)],
                technique="model-based stateful property testing (list model, ASan, guard bytes)",
                note="Explores random operation histories over several handles; no exhaustiveness."),
    "C06": dict(parts=[P("sem", "c06_sem.cpp", "plain", quick_s=25, workers=24)],
                technique="model-based stateful property testing with timed oracles and signal injection",
                note=""),
    "C12": dict(parts=[P("codec", ["c12_codec.cpp", "c12_api.cpp", "c12_conv.cpp", "c02_types.cpp", "c02_t1.cpp", "c02_t3.cpp", "c02_t4.cpp", "c02_t5.cpp", "c02_t6.cpp"], "asan", quick_s=20, defs=["-DC12_CODEC"]),
                       P("fuzz", "c12_fuzz.cpp", "fuzz", quick_s=20, kind="fuzz", engine=False, lib=False, group=1, max_len=600,
                         rule="libFuzzer inputs: a mode byte, a chunk size and bytes that the codec and the reference decode, at once and as a stream, with and without tight limits. Non-trivial: the bytes are a valid array or map with elements.")],
                technique="differential property testing against an independent reference codec, plus coverage-guided fuzzing (libFuzzer, ASan/UBSan)",
                note="Trusts the reference implementation of the format in harness/common/msgref.h."),
    "C17": dict(parts=[P("shm", "c17_shm.cpp", "plain", quick_s=15)],
                technique="model-based stateful property testing (model of named regions)",
                note=""),
    "C11": dict(parts=[P("hostile", "c11_hostile.cpp", "asan", quick_s=22, workers=6), P("hostile_plain", "c11_hostile.cpp", "plain", quick_s=22, workers=2)],
                technique="generated hostile and well-formed messages against an independent decoder of the protocol (ASan/UBSan, memory watch)",
                note="Byte strings are sampled by structured generation and mutation."),
    "C03": dict(parts=[P("failures", "c03_failures.cpp", "asan", quick_s=25, wrap=ALLW)],
                technique="property-based failing and correct calls with an exact expectation per call (ASan/UBSan)",
                note=""),
    "C05": dict(parts=[P("multi", "c05_multi.cpp", "plain", quick_s=18, wrap=ALLW),
                       P("instances", "c05_inst.cpp", "plain", quick_s=14, wrap=ALLW, group=1, workers=12)],
                technique="property-based multi-process histories with in-lock numbering and schedule perturbation",
                note="Schedules are sampled (random pauses at synchronisation points), not enumerated."),
    "C07": dict(parts=[P("timeout", "c07_timeout.cpp", "plain", quick_s=25, wrap=ALLW, workers=16)],
                technique="property-based timed calls against generated obstructions, with measured durations",
                note="Durations are checked with a tolerance of 300 ms, confirmed on a quiet machine."),
    "C08": dict(parts=[P("overload", "c08_overload.cpp", "plain", quick_s=25, wrap=ALLW)],
                technique="property-based overload histories with execution and completion counters and schedule perturbation",
                note="Schedules are sampled, not enumerated."),
    "C09": dict(parts=[P("state", "c09_state.cpp", "asan", quick_s=20)],
                technique="model-based stateful property testing (ASan/UBSan)",
                note=""),
    "C10": dict(parts=[P("restart", "c10_restart.cpp", "plain", quick_s=35, workers=16, wrap=ALLW)],
                technique="property-based restart histories with kill points at wrapped system-call steps",
                note="Kill points are the library's synchronisation and resource steps and random moments."),
    "C19": dict(parts=[P("wire", "c19_wire.cpp", "asan", quick_s=25, defs=["-DVEIGAR_CXX_STANDARD=17"])],
                technique="differential property testing against an independent implementation of the wire format (ASan/UBSan)",
                note="Trusts the reference implementation of the format in harness/common/msgref.h."),
    "C22": dict(parts=[P("ids", "c22_ids.cpp", "plain", quick_s=20)],
                technique="property-based histories of processes, instances and lives with a global comparison of the ids",
                note="Collisions of random parts are only seen when their space is small."),
    "C20": dict(parts=[P("rebind", "c20_rebind.cpp", "asan", quick_s=25, wrap=ALLW)],
                technique="property-based concurrent rebind/call histories checked with possible/definite binding intervals (ASan/UBSan)",
                note="Schedules are sampled (random pauses at synchronisation points), not enumerated."),
    "C16": dict(parts=[P("threads", "c16_threads.cpp", "tsan", quick_s=35, wrap=ALLW)],
                technique="property-based concurrent interface programs under ThreadSanitizer with schedule perturbation and a watchdog",
                note="ThreadSanitizer sees races in the schedules that occur; schedules are sampled."),
    "C13": dict(parts=[P("crash", "c13_crash.cpp", "plain", quick_s=35, workers=16, wrap=ALLW)],
                technique="property-based multi-process histories with kill points at wrapped system-call steps and a lock witness",
                note="Kill points are the library's synchronisation and resource steps and random moments. A process killed while it holds the queue lock of a survivor is a known finding."),
    "C14": dict(parts=[P("leaks", "c14_leaks.cpp", "asan", quick_s=28, workers=14)],
                technique="property-based operation histories run over several lives with a census of threads, descriptors, mappings, heap blocks and names",
                note="Slow leaks that need more repetitions than a case makes are not seen."),
    "C15": dict(parts=[P("configs", "c15_configs.cpp", "asan", quick_s=25)],
                technique="property-based calls between differently configured instances with exact expectations from a reference codec (ASan/UBSan)",
                note=""),
    "C18": dict(parts=[P("faults", "c18_faults.cpp", "plain", quick_s=25, wrap=ALLW)],
                technique="property-based fault injection into the resource-acquiring system calls, with a census of what is left behind",
                note="Refusals of memory by operator new are not injected (only by the limit of the address space)."),
    "C21": dict(parts=[P("shutdown", "c21_shutdown.cpp", "asan", quick_s=28, wrap=ALLW, workers=12)],
                technique="property-based shutdown histories with completion counters and schedule perturbation (ASan/UBSan)",
                note="Schedules are sampled (random pauses at synchronisation points), not enumerated."),
}
