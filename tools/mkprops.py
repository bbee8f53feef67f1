#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

p("C01", "Every call gets its own answer, exactly once",
  "Whatever calls are in flight at the same time, each accepted call runs its function at most once and is completed exactly once, with the answer computed for that very call: never another call's answer, never two completions and, while both sides keep running, never none. This holds for synchronous, promise and callback calls alike, between any channels including a call to the caller's own channel or one made from inside a remote function or a completion callback, and for every choice of function names. A call reported as successful ran its function exactly once.",
  ["schedules", "inputs", "histories"],
  "all interleavings of any number of concurrent calls of the three kinds from one or several instances, all function names and arguments",
  "The tests call a handful of fixed function names from one or a few threads with identical small payloads, mostly checking only that some answer came; a mix-up that needs particular names, a particular number of earlier calls or a particular interleaving is not reached.",
  ["src/veigar.cpp", "src/resp_dispatcher.cpp", "src/sender.cpp", "src/call_dispatcher.cpp", "include/veigar/veigar.inl"],
  [("call id generation", "src/veigar.cpp getNextCallId"), ("ongoing-call table", "src/resp_dispatcher.cpp dispatchRespThreadProc/addOngoingCall/releaseCall")],
  [("ongoing calls", "calls waiting for an answer, by id", "src/resp_dispatcher.h")],
  ["CallResult of syncCall/asyncCall", "completion callback invocations", "side effects of bound functions"])

p("C02", "Arguments and results arrive with the values that were sent",
  "A value passed as an argument reaches the remote function unchanged, and the value the function returns reaches the caller unchanged, for every supported type (integers of every width, booleans, floating point, strings with any bytes, binary data, nested containers, tuples, user-defined structures) and for sizes up to what the queue can hold. An integer that the receiving integer type cannot represent, or a value of a kind the receiving type does not accept, is reported as an error instead of being silently altered, and converting a result to a type it does not fit fails without throwing.",
  ["inputs"],
  "all values of all supported types, including boundary integers, empty and large strings and containers, strings with embedded zero bytes, deeply nested containers",
  "The tests send one or two sample values per type; conversions are exact or wrong depending on the value (width boundaries, sign, length-prefix boundaries), which samples do not cover.",
  ["include/veigar/call_dispatcher.inl", "include/veigar/call_result.h", "include/veigar/veigar.inl", "src/response.cpp", "include/veigar/msgpack/adaptor", "src/message_queue.cpp"],
  [("argument packing", "include/veigar/veigar.inl doAsyncCall"), ("argument conversion", "include/veigar/call_dispatcher.inl bind"), ("result conversion", "include/veigar/call_result.h convertObject")],
  (), ["arguments seen by a bound function", "CallResult::convertObject"])

p("C03", "Every failure is reported in the call's result, and only there",
  "A call that cannot be carried out (unknown function, wrong number of arguments, arguments of the wrong type, a remote function that throws anything, a channel nobody serves, a call or an answer too large for the queue, an instance that is not initialised) completes with an unsuccessful result carrying a non-empty explanation (for a function that threw a standard exception, with the text of that exception); it never throws into the caller, never pretends success, and never runs a function with arguments the caller did not supply. The failure affects that call only: calls made before, during and afterwards on the same channels behave as if it had not happened.",
  ["inputs", "histories"],
  "all sequences of calls mixing every kind of failure with good calls, all argument lists, all function and channel names, all thrown objects, in all three call styles",
  "The tests cover one unknown function and one throwing function on a fresh instance; the arity and type checks are assertions that are compiled out of the tested build, and what a failure does to later calls is never looked at.",
  ["src/call_dispatcher.cpp", "src/sender.cpp", "include/veigar/call_dispatcher.inl", "include/veigar/veigar.inl", "src/resp_dispatcher.cpp"],
  [("error responses", "src/call_dispatcher.cpp dispatchCall"), ("send failures", "src/sender.cpp sendCallThreadProc"), ("argument check", "include/veigar/call_dispatcher.inl bind")],
  (), ["CallResult::isSuccess, errCode, errorMessage"])

p("C04", "A message queue is a bounded FIFO of byte strings",
  "Under its lock, a message queue behaves as a first-in-first-out list of byte strings seen identically through every handle on it: what is popped is exactly what was pushed, byte for byte and in order. A push is accepted exactly when the number of stored messages is below the capacity and the stored bytes plus the new message fit in capacity times expected size, and a rejected or impossible operation (full, oversized, empty queue, buffer too small) changes nothing and is reported, including the size a too-small buffer would need. No operation ever reads or writes outside the shared region or the caller's buffer, and the advance space query agrees with what a push would do.",
  ["inputs", "histories"],
  "all sequences of push, pop, space query and reopen over any number of handles, all capacities and sizes, all message lengths",
  "The tests push and pop short fixed sequences on one or two configurations; wrap-around, compaction of the data area, exact-fit and variable-size histories form an unbounded set.",
  ["src/message_queue.cpp", "src/message_queue.h"],
  [("layout and compaction", "src/message_queue.cpp pushBack/popFront"), ("space check", "src/message_queue.cpp checkSpaceSufficient")],
  [("queue header", "message count, front offset, size list, data area", "src/message_queue.cpp")],
  ["MessageQueue::pushBack/popFront/msgNumber/checkSpaceSufficient"])

p("C05", "Processes sharing a queue never lose, duplicate or mix messages",
  "When any number of processes and threads push to and pop from the same queue following the lock protocol, every accepted message is popped exactly once, with its bytes intact, and the messages of one producer come out in the order it pushed them. At most one participant is inside the lock at a time, and a waiting reader is woken for every message that was announced.",
  ["schedules", "histories"],
  "all interleavings of producers and consumers in several processes and threads, all message sizes and queue configurations",
  "The tests run one schedule of threads inside one process; interleavings between processes and their pauses between lock, push, notify and unlock are chosen by the kernel and are not enumerated by tests.",
  ["src/message_queue.cpp", "src/semaphore.cpp", "src/shared_memory.cpp"],
  [("inter-process lock", "src/message_queue.cpp processRWLock/processRWUnlock"), ("read notification", "src/message_queue.cpp waitForRead/notifyRead")],
  (), ["messages popped by the consumers"])

p("C06", "Timed semaphore waits honour their timeout and never lose a unit",
  "A timed wait on an empty semaphore reports failure only after its timeout has elapsed (whatever the moment it starts, and even if signals interrupt it) and soon after that; when a unit is or becomes available within the timeout it succeeds. Units are conserved: successful waits never exceed the initial value plus the releases, and none is lost. Asking whether a named semaphore exists answers truthfully and has no side effect, and opening an existing one never changes its value.",
  ["inputs", "schedules", "histories"],
  "all timeouts, all sub-second start instants, all patterns of signals, all histories of open, close, release, wait and existence queries over several handles",
  "The test runner starts every case just after a full second because a wait that starts late in the second misbehaves; the tests use a few timeouts and no signals.",
  ["src/semaphore.cpp", "src/semaphore.h"],
  [("deadline computation", "src/semaphore.cpp wait(ms)"), ("existence query", "src/semaphore.cpp IsExist")],
  (), ["Semaphore::wait result and duration", "the semaphore's value"])

p("C07", "A synchronous call returns when its timeout has passed",
  "A synchronous call always returns no later than its timeout plus a small bounded overhead, whatever the target does: a function that is slow or never returns, a target that is stopped, frozen or killed before, during or after receiving the call, a full queue, a queue lock held by somebody else, an answer that never comes or comes late. If no answer arrived in time the result is unsuccessful, and an answer arriving later is discarded without disturbing later calls; an answer that arrives in time is returned.",
  ["schedules", "fault_sequences", "inputs"],
  "all timeouts and all behaviours of the target, including freezing or dying at any moment of the call",
  "No test makes a synchronous call whose answer does not come; the timeout only bounds the enqueueing step in what the tests exercise.",
  ["include/veigar/veigar.inl", "src/sender.cpp", "src/resp_dispatcher.cpp"],
  [("waiting for the answer", "include/veigar/veigar.inl syncCall"), ("enqueue timeout", "src/sender.cpp checkSpaceAndWait")],
  (), ["duration and CallResult of syncCall"])

p("C08", "Overload delays calls but never wedges a channel",
  "However many calls are issued and however small the queues are, a full queue only delays senders: as long as the target keeps executing functions, calls that have time to wait (and whose sender can have the queue's lock within the configured lock timeout) are executed and answered, and a call whose time ran out is reported as failed. Lock contention or a slow reader never leaves a delivered message unprocessed, and once the load stops the channel is fully usable again, for calls from everybody.",
  ["schedules", "histories", "configurations"],
  "all loads (callers, call counts, sizes, function durations), all queue capacities down to one message, all interleavings of senders and readers including lock-acquisition timeouts",
  "The tests use the large default queue and never fill it while readers are active; the wedge needs a full queue or a lock timeout at a particular moment.",
  ["src/sender.cpp", "src/call_dispatcher.cpp", "src/resp_dispatcher.cpp", "src/message_queue.cpp"],
  [("back-pressure", "src/sender.cpp checkSpaceAndWait"), ("reader loop", "src/call_dispatcher.cpp dispatchThreadProc, src/resp_dispatcher.cpp dispatchRespThreadProc")],
  (), ["completion of the calls", "calls after the load"])

p("C09", "Instance lifecycle and bindings follow a simple state machine",
  "Any sequence of initialise, uninitialise, bind, unbind and call on any number of instances behaves as its documented state machine: a failed operation changes nothing, initialising with an empty name fails, initialising again succeeds only for the same channel name, an uninitialised instance can be initialised again (with any name and size) and then works, and uninitialising is idempotent. The configuration getters report what was last set, a name can be bound once until it is unbound, the list of bound names is exact, and a call reaches the function bound at that moment or is reported as unknown. Moving an instance transfers its bindings, its settings and, if it is initialised, its channel, which keeps being served meanwhile, to the new one.",
  ["histories", "configurations"],
  "all sequences of public operations on several instances, all channel names, capacities, sizes and function names",
  "The tests run a few fixed init/uninit/bind sequences; combinations such as failed initialisation followed by a retry, rebinding, re-initialisation under another name or a move are not exercised.",
  ["src/veigar.cpp", "src/call_dispatcher.cpp", "src/resp_dispatcher.cpp", "src/sender.cpp", "include/veigar/call_dispatcher.inl"],
  [("init/uninit", "src/veigar.cpp Impl::init/uninit"), ("bindings", "include/veigar/call_dispatcher.inl, src/call_dispatcher.cpp")],
  [("initialised flag", "whether the instance is running", "src/veigar.cpp")],
  ["return values of the public API", "calls through the bindings"])

p("C10", "A channel that restarts is reachable again by everyone",
  "After the process or instance serving a channel goes away (orderly or killed at any point, even while holding its own queue locks or with messages queued) and a new one takes over the channel name, the new one starts successfully, calls from new and from already running callers reach it, and its own calls work. Nothing of the former life leaks into the new one: no queued call of the dead instance is executed by the new one, no old answer completes a new call, and no lock or notification state is inherited.",
  ["crash_points", "histories"],
  "all points at which the serving process can be killed, all histories of restarts and callers with or without an earlier connection",
  "The repository's kill-and-restart tests do not pass reliably here and cover a single kill moment; orderly restarts under already connected callers are not tested.",
  ["src/message_queue.cpp", "src/sender.cpp", "src/shared_memory.cpp", "src/semaphore.cpp"],
  [("queue creation", "src/message_queue.cpp create"), ("cached target queues", "src/sender.cpp getTargetCallMessageQueue/getTargetRespMessageQueue")],
  [("named kernel objects", "shared memory and semaphores outliving a crash", "/dev/shm")],
  ["calls to the restarted channel"])

p("C11", "Malformed or hostile messages are contained",
  "Any byte string placed in a channel's call or response queue (truncated, random, wrongly typed, absurd length fields, very deep nesting, unknown or repeated call ids, wrong message kind, several objects in one message, wrong or empty return channel) is consumed without crashing, hanging or exhausting the memory of the process that reads it. It runs no function and completes no call unless it is a well-formed call or the well-formed answer to a call that is still waiting, and it does not affect other messages: well-formed calls and answers before and after it are handled normally.",
  ["inputs", "histories"],
  "all byte strings and all sequences of good and bad messages in both queues",
  "No test places anything but well-formed messages in a queue.",
  ["src/call_dispatcher.cpp", "src/resp_dispatcher.cpp", "include/veigar/msgpack"],
  [("call parsing", "src/call_dispatcher.cpp dispatchThreadProc/dispatch"), ("response parsing", "src/resp_dispatcher.cpp dispatchRespThreadProc")],
  (), ["liveness and later calls of the reading process"])

p("C12", "The bundled codec implements MessagePack faithfully",
  "Packing any supported value yields bytes that decode to the same value under the MessagePack specification, using the smallest integer and length encodings, and unpacking any valid MessagePack byte string yields exactly the values the specification assigns to it, whatever (also non-minimal) encoding widths are used and however the bytes are split into chunks. Unpacking arbitrary bytes either yields those values or reports an error, never reading or writing out of bounds, crashing or looping; declared limits are enforced; a value is converted to a C++ type exactly when it fits, into an empty or an already filled variable, and otherwise refused with an error without reading or writing outside either; cloning an object preserves its value and makes it independent of the original buffer. The buffers, zones, handles and streaming unpackers it works with keep their content and run their clean-up exactly once when they are moved, swapped, cleared, migrated or released.",
  ["inputs"],
  "all values, all byte strings, all ways of splitting a stream into chunks, all limits, all target types, all sequences of operations on buffers, zones and unpackers",
  "The repository does not test its bundled codec on its own at all; it is exercised only by a few sample values through calls.",
  ["include/veigar/msgpack/v1/pack.hpp", "include/veigar/msgpack/v2/parse.hpp", "include/veigar/msgpack/v2/create_object_visitor.hpp", "include/veigar/msgpack/v1/object.hpp", "include/veigar/msgpack/adaptor", "include/veigar/msgpack/v1/cpp_config.hpp"],
  [("packer", "include/veigar/msgpack/v1/pack.hpp"), ("parser", "include/veigar/msgpack/v2/parse.hpp"), ("clone and convert", "include/veigar/msgpack/v1/object.hpp and adaptor/")],
  (), ["packed bytes", "unpacked objects", "exceptions"])

p("C13", "A crashing peer does not take the others down",
  "When a process is killed at any point of calling, answering or shutting down, every other process keeps running: it neither crashes nor hangs, calls between the survivors keep succeeding, its synchronous calls to the dead channel return within their timeout and succeed only if they were answered, and it can still shut down cleanly.",
  ["crash_points", "schedules"],
  "all points of the protocol at which the peer can die, all roles of the peer (caller, target, both), all numbers of peers",
  "The existing kill tests kill at one arbitrary moment and are not among the reliable ones.",
  ["src/sender.cpp", "src/call_dispatcher.cpp", "src/resp_dispatcher.cpp", "src/message_queue.cpp"],
  [("lock timeouts", "src/message_queue.cpp processRWLock"), ("send failure handling", "src/sender.cpp")],
  (), ["survivors' calls and shutdown"])

p("C14", "Nothing leaks: resources return to their starting level",
  "After an instance has been uninitialised, however it was used (successful, failing, timed-out and abandoned calls, failed or repeated initialisation, contacts with many peers, peers that restarted), the process has no more threads, file descriptors, memory mappings or live heap blocks than before, and no shared-memory or semaphore object of its channel remains in the system. While an instance runs, memory and descriptors do not grow with the number of calls already completed and released.",
  ["histories"],
  "all histories of use of one or several instances in a process",
  "The tests never look at resources; a leak per call or per restart becomes visible only over long histories.",
  ["src/sender.cpp", "src/resp_dispatcher.cpp", "src/call_dispatcher.cpp", "src/message_queue.cpp", "src/shared_memory.cpp", "src/semaphore.cpp"],
  [("release of queued messages", "src/sender.cpp uninit"), ("queue close", "src/message_queue.cpp close"), ("ongoing-call table", "src/resp_dispatcher.cpp")],
  (), ["/proc/self/{task,fd,maps}", "live heap blocks", "/dev/shm"])

p("C15", "Peers with different queue settings interoperate",
  "Every instance may choose its own queue capacity and message size: instances with different settings call each other with the same results as instances with equal settings. A message is accepted exactly when it fits the queue of the receiver, and never corrupts memory, messages or the answer to another call.",
  ["configurations", "inputs"],
  "all pairs of queue configurations and all message sizes, in both directions",
  "All tests use the same settings in every instance.",
  ["src/message_queue.cpp", "src/sender.cpp"],
  [("opening a peer's queue", "src/message_queue.cpp open, src/sender.cpp getTargetCallMessageQueue")],
  (), ["results of calls between the instances"])

p("C16", "The public interface can be used from many threads at once",
  "Concurrent use of one instance from any number of threads (calls of every style, bind, unbind, listing names, reading and setting the lock timeout, releasing calls, uninitialising) together with its own background threads contains no data race and no deadlock.",
  ["schedules", "histories"],
  "all interleavings of all public operations except construction, destruction, move and initialisation",
  "A data race does not make a test fail on the schedules it happens to see; the tests run without race detection and call from a few threads only.",
  ["src/veigar.cpp", "src/call_dispatcher.cpp", "src/resp_dispatcher.cpp", "src/sender.cpp", "src/event.cpp"],
  [("locks", "src/sender.h, src/resp_dispatcher.h, include/veigar/call_dispatcher.h")],
  (), ["ThreadSanitizer reports", "completion of all operations"])

p("C17", "A shared-memory object is one region with a clear owner",
  "All handles on one name see the same bytes; a handle created or opened successfully gives access to the full size asked for, and creating or opening fails cleanly (leaving the handle invalid and reusable) when the name is empty or does not exist or the size is impossible. The object exists from a successful creation until its creator closes it: closing an opener changes nothing for the others, already open handles stay usable after the creator closed, and closing twice or closing an invalid handle is harmless.",
  ["histories", "inputs"],
  "all sequences of create, open, write, read, validity query and close over several handles and names, all sizes",
  "The tests run five fixed sequences on one size.",
  ["src/shared_memory.cpp", "src/shared_memory.h"],
  [("create/open/close", "src/shared_memory.cpp")],
  (), ["SharedMemory API", "/dev/shm"])

p("C18", "Initialisation under resource failures fails cleanly and can be retried",
  "If the operating system refuses any resource at any step of initialisation, initialise returns false without crashing, hanging or leaving threads, descriptors or named objects behind; the instance is then exactly as before (bindings included) and initialises normally once the resource is available. If the refusal happens while contacting a peer during operation, the affected calls are reported as failed and later calls succeed.",
  ["fault_sequences"],
  "every resource-acquiring system call of initialisation and of contacting a peer, failing at every position, singly or repeatedly, with any error",
  "No test injects a failure.",
  ["src/veigar.cpp", "src/message_queue.cpp", "src/shared_memory.cpp", "src/semaphore.cpp", "src/sender.cpp"],
  [("failure cleanup", "src/veigar.cpp Impl::init, src/message_queue.cpp create/open")],
  (), ["return value of init", "resources of the process", "a retry"])

p("C19", "What is exchanged follows the documented wire format",
  "Every call an instance sends is the MessagePack array [0, call id, caller channel, function name, [arguments]] and every answer is [1, same call id, error or nil, result], delivered to the caller's response channel, one answer per call. Conversely an instance serves any peer that speaks this format in any valid encoding: a raw call is executed once and answered once on the named channel, and a raw answer completes the waiting call it names.",
  ["inputs", "histories"],
  "all functions, arguments, ids and channel names, all valid encodings of the messages, all orders in which answers are returned",
  "The tests only connect the library to itself, so a change made consistently on both sides, or one that breaks other implementations or other versions, goes unnoticed.",
  ["include/veigar/veigar.inl", "src/response.cpp", "src/call_dispatcher.cpp", "src/resp_dispatcher.cpp"],
  [("call message", "include/veigar/veigar.inl doAsyncCall"), ("answer message", "src/response.cpp getData")],
  (), ["raw bytes in the queues"])

p("C20", "Rebinding takes effect atomically while calls arrive",
  "Binding and unbinding functions while calls are arriving is atomic: each call either runs exactly one function that was bound to its name at some moment between its start and its completion, or is reported as unknown if the name was unbound at some such moment. A call started after unbind has returned never runs the removed function, a call started after bind has returned always runs the new one, and functions and captured state stay alive for as long as a call is executing them.",
  ["schedules", "histories"],
  "all interleavings of binds, unbinds and calls over any number of names and threads",
  "The tests bind everything before the first call.",
  ["src/call_dispatcher.cpp", "include/veigar/call_dispatcher.inl", "include/veigar/call_dispatcher.h"],
  [("function table", "include/veigar/call_dispatcher.h funcs_")],
  [("function table", "name to function", "include/veigar/call_dispatcher.h")],
  ["which function version answered each call"])

p("C21", "Uninitialising with work in flight is safe and resolves every call",
  "Uninitialising an instance at any moment, with calls of any style queued, being sent, waiting for an answer or being answered, returns in bounded time (once functions already running have finished), and every outstanding call of that instance is completed exactly once, with its answer or as failed; nothing is left waiting for ever and no completion or function runs after uninitialise has returned. The instance can be initialised again and works, and peers that were talking to it only see failed calls.",
  ["schedules", "histories"],
  "all interleavings of uninitialise with outgoing and incoming calls at every stage, all queue fill levels",
  "The tests uninitialise only when everything is idle, or ignore what happens to outstanding calls.",
  ["src/veigar.cpp", "src/sender.cpp", "src/resp_dispatcher.cpp", "src/call_dispatcher.cpp"],
  [("shutdown order", "src/veigar.cpp Impl::uninit"), ("discarding pending work", "src/sender.cpp uninit, src/resp_dispatcher.cpp uninit")],
  (), ["completion of all calls", "uninit duration", "calls after re-init"])

p("C22", "Call ids are never reused",
  "Two calls issued by initialised instances never carry the same call id: not within an instance for any combination of function names and call counts, not between instances of one process, not between processes, not between successive lives of a channel or of an instance. So an answer can never be attributed to another call.",
  ["histories", "inputs"],
  "all numbers of calls, all function names (including ones that end in digits), all numbers of instances, processes and restarts",
  "The tests never compare ids; collisions depend on names and counts that tests do not use, and across processes on how ids are seeded.",
  ["src/veigar.cpp", "src/uuid.cpp"],
  [("instance id", "src/uuid.cpp Create"), ("call id", "src/veigar.cpp getNextCallId")],
  (), ["call ids returned by asyncCall and seen in the queues"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
