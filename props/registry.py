"""The claimed properties: statement, anchors, deciding analysis. gen.py derives properties.jsonl and MANIFEST.json."""

CHECKS = {}
PROPS = {}
NOT_APPLICABLE = {}

COMMON_ASSUMPTIONS = [
    "clang 18's AST and CFG represent the program gcc compiles (same sources, same defines, C++17)",
    "loops are followed to a fixpoint over the abstract state; correlated conditions are tracked only where they compare "
    "paths, constants and argument-free const queries",
]


def prop(id, title, statement, over, text, why, files, mech, module, func, technique, rules, explanation, note, assumptions=()):
    assert len(title) <= 80, (id, len(title))
    PROPS[id] = {
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]},
    }
    CHECKS[id] = (module, func, {
        "level": "other", "technique": technique, "level_note": note, "rules": rules, "explanation": explanation,
        "assumptions": COMMON_ASSUMPTIONS + list(assumptions),
    })


def na(id, title, statement, over, text, why, files, mech, reason):
    assert len(title) <= 80, (id, len(title))
    PROPS[id] = {
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]},
    }
    NOT_APPLICABLE[id] = reason


prop("C01", "Every queued message is consumed exactly once and in the same period",
     "A processing component that receives messages through a message-queue input looks at the queue in every period, never reads "
     "from an empty queue, removes exactly the messages it has read, and goes on until the queue is empty or a limit that the user configured is reached. "
     "No message is thrown away unread, and none is handled a second time or blocks the later ones, whatever its content: a message "
     "that is rejected with an error is removed as well.",
     ["histories", "inputs"],
     "all sequences of messages (number per period, order, content) arriving at any message-queue input of any atomic component",
     "The tests drive components with at most one message per period and a well-formed payload; the early-continue, malformed-payload and "
     "multi-message paths are never run.",
     ["src/libpml/message_queue_protocol.hpp", "src/librcl", "src/libpanningdsp", "src/libreverbobject"],
     [("queue access through the input port (empty/front/pop/clear)", "src/libpml/message_queue_protocol.hpp"),
      ("draining loops in the process() functions", "src/librcl/scene_decoder.cpp, position_decoder.cpp, udp_sender.cpp, delay_matrix.cpp, ...")],
     "mqueue", "check",
     "path-sensitive interprocedural typestate analysis (custom libTooling extractor, AST+CFG) of message-queue inputs",
     ["front/pop only when the queue is known to be non-empty", "pop only after the message was read", "a read message is removed on every "
      "path leaving process()", "the queue is re-examined after each pop before process() returns (drained), except for a limit taken from a configured attribute",
      "an error raised because of a message leaves the queue without that message", "every declared message input is examined on every path"],
     "For every process() of every atomic component, all paths (helpers inlined, loops to fixpoint, exceptions included) are walked with the "
     "typestate {unknown, empty, non-empty, read, popped} per message-queue input.",
     "All paths of all process() implementations in the component libraries; the payload's effect on the component's own state is not judged.")

prop("C02", "A change signalled on a parameter input is applied and acknowledged exactly once",
     "When a component processes a parameter input that signals changes, a signalled change leads to the new value being read in that same "
     "period, and the signal is then reset so that the same change is not applied again. A change signal is never reset without the new value "
     "having been read, and is never consulted after it has been reset; every such input is consulted.",
     ["histories", "inputs"],
     "all interleavings of parameter changes on the inputs of a component (none, one, several inputs changing in the same period)",
     "Tests change at most one input and look at one period; a lost or endlessly repeated update shows only for particular combinations over time.",
     ["src/libpml/double_buffering_protocol.hpp", "src/librcl", "src/libpanningdsp", "src/libreverbobject"],
     [("changed()/resetChanged()/data() of double-buffered inputs", "src/libpml/double_buffering_protocol.hpp"),
      ("process() functions", "src/librcl/*.cpp, src/libreverbobject/*.cpp")],
     "dbuf", "check_flags",
     "path-sensitive interprocedural typestate analysis of the change flag of double-buffered inputs",
     ["flag seen set => value read and flag reset before process() returns", "flag reset => value read on the same path",
      "flag not tested again after being reset", "every declared input is read"],
     "For every process(), all paths are walked with the typestate {untouched, seen set, read, reset, seen clear} per double-buffered input.",
     "All paths of all process() implementations; that the computation on the value is right is not judged.")

prop("C03", "Parameter data a component produces is published in the same period",
     "Whatever a component writes to a double-buffered parameter output during a period is published to the receivers before that period's "
     "processing ends, and nothing is published that was not written. Data is never written to a buffer that has already been handed to the "
     "receivers.",
     ["histories", "inputs"],
     "all paths through the processing of any component with double-buffered outputs, for any number of updates per period",
     "A receiver that stays one update behind or misses one only shows when several updates arrive in one period, which no test does.",
     ["src/libpml/double_buffering_protocol.hpp", "src/librcl", "src/libreverbobject"],
     [("data()/swapBuffers() of double-buffered outputs", "src/libpml/double_buffering_protocol.hpp"),
      ("process() functions", "src/librcl/scene_decoder.cpp, listener_compensation.cpp, object_gain_eq_calculator.cpp, ...")],
     "dbuf", "check_publish",
     "path-sensitive interprocedural typestate analysis of double-buffered outputs with alias tracking of buffer references",
     ["data written => swapped before process() returns", "no access through a reference obtained before the swap",
      "swap only after a write", "every declared output is published by process()"],
     "For every process(), all paths are walked with the typestate {untouched, written, published, written through a stale reference}.",
     "All paths of all process() implementations; completeness of the written value is not judged.")

prop("C04", "Audio outputs are completely written in every processing period",
     "In every period each audio processing component writes all samples of all channels of each of its audio outputs, whatever parameters or "
     "messages it has received. Signals are never accumulated onto the previous content of an output buffer.",
     ["inputs", "histories"],
     "all states a component can be in at the start of a period (before any routing was received, zero channels, after an update, ...)",
     "Output buffers are zero-initialised, so stale or skipped channels go unnoticed in the short runs of the tests; the "
     "not-yet-configured paths are not exercised.",
     ["src/librcl", "src/libpanningdsp", "src/libsignalflows"],
     [("writes through the audio output ports", "src/librcl/{add,delay_vector,fir_filter_matrix,gain_matrix,gain_vector,null_source,"
       "signal_routing,sparse_gain_matrix,biquad_iir_filter,...}.cpp")],
     "outputs", "check",
     "path-sensitive interprocedural dataflow analysis of writes to audio output buffers (definite assignment, loop coverage)",
     ["each audio output is written on every path through process()", "no accumulating kernel on a not yet written output",
      "loops over output channels start at 0 and run to the output's width (not the input's, a minimum or an earlier end)",
      "kernel length arguments are the period length", "the block processors given the output (matrix convolvers, gain matrix, gain fader, "
      "delay lines) are followed into librbbl by the same rules"],
     "For every process() with audio outputs, all paths are walked with {unwritten, written} per output; the loop bounds and kernel lengths of "
     "the writes are resolved symbolically.",
     "All paths of all process() implementations; the sample values are not judged.",
     ["libefl kernels and the FFT wrappers write the number of elements they are told to "])

prop("C05", "A failure reported by a signal-processing kernel is never swallowed",
     "When a low-level vector or matrix operation reports an error (bad alignment, null pointer, failed allocation or other), the calling code "
     "never completes as if it had succeeded: it reports the error to its own caller, raises an exception, or ends the program.",
     ["fault_sequences", "inputs"],
     "every call of an error-reporting kernel in every library, for every error it can report",
     "Kernels do not fail in the tests; each ignored result is a path that was never run.",
     ["src/libefl", "src/librbbl", "src/libpml", "src/librcl", "src/libreverbobject"],
     [("error code results of the vector functions", "src/libefl/vector_functions.hpp"), ("call sites", "src/librbbl, src/librcl, src/libpml, ...")],
     "errcode", "check",
     "path-sensitive error propagation analysis of all calls returning the kernel error code",
     ["on the failing branch of each call the enclosing function throws, returns a non-success code, or terminates",
      "an exception raised because of an error code is not swallowed by an enclosing handler, in this function or in its callers",
      "helpers that judge an error code (returning a verdict, throwing, mapping it by a switch) act on every failing value"],
     "Each call of a function returning the kernel error code is followed on its failing outcome to every exit of the enclosing function "
     "(helpers that take or return the code are inlined).",
     "All call sites in 11 libraries; destructors and callbacks included.")

prop("C06", "An inconsistent signal flow is rejected before it can be executed",
     "A signal flow is rejected with an error, and never executed, if at any level of its hierarchy connected audio ports have different sample "
     "types, connected parameter ports differ in protocol, parameter type or configuration, a connection refers to channels beyond the width of "
     "a port or pairs different numbers of channels, or an audio channel or parameter port is left unconnected. A problem "
     "that was found is never outweighed by checks that succeed before or after it.",
     ["inputs"],
     "all signal flows a user can construct: any nesting, any number of connections, any combination of port attributes",
     "The tests try a few flat flows with one fault each; combinations of faults, nested faults and boundary channel indices are not covered.",
     ["src/librrl/integrity_checking.cpp", "src/librrl/port_utilities.cpp", "src/librrl/audio_connection_map.cpp",
      "src/librrl/parameter_connection_map.cpp", "src/librrl/audio_signal_flow.cpp", "src/librrl/scheduling_graph.cpp"],
     [("hierarchical connection check", "src/librrl/integrity_checking.cpp"), ("channel index check", "src/librrl/audio_connection_map.cpp"),
      ("parameter port compatibility", "src/librrl/port_utilities.cpp"), ("construction of the runtime signal flow", "src/librrl/audio_signal_flow.cpp")],
     "flowcheck", "check",
     "path-sensitive interprocedural verdict analysis: each detected inconsistency is followed to the exit of the flow's constructor",
     ["a found mismatch (attribute, index, lookup, connection count, reported message, caught exception) makes every enclosing check return a negative "
      "result or throw", "the constructor throws on every negative result", "each kind of inconsistency is compared for, with the right "
      "boundary and the right pair of ports", "the checks descend into composite components", "each check is made in every iteration of "
      "its loop and before every positive result, and loops are left early only after a problem was found", "no exception object is created without being thrown"],
     "All paths of the construction of a signal flow are walked; comparisons of port attributes, indices and connection counts are evaluated on "
     "symbolic operands, and the bad outcome is tracked to all exits of all enclosing functions.",
     "All paths from the flow's constructor through 15 functions; the bookkeeping inside the standard containers is trusted.",
     ["standard containers and boost graph algorithms behave as documented"])

prop("C07", "Parameter connections deliver values complete, in order and to every receiver",
     "Messages sent over a queue connection are delivered in the order they were sent, none is lost, duplicated or delivered to the wrong end, "
     "and taking a message from an empty queue is an error. A published double-buffered value becomes visible to all connected receivers, each of "
     "which is told about the change, while the sender continues on a separate buffer that starts from the published value if requested. A "
     "connection has one sender, a failed connect or disconnect changes nothing, and only ports that are connected can be disconnected.",
     ["histories", "inputs"],
     "all sequences of send, receive, publish, connect and disconnect operations on a parameter connection, with any number of pending messages and receivers",
     "Tests send a handful of messages to one receiver; long queues, several receivers in different states and failing (dis)connections are not exercised.",
     ["src/libpml/message_queue_protocol.cpp", "src/libpml/message_queue_protocol.hpp", "src/libpml/double_buffering_protocol.cpp",
      "src/libpml/double_buffering_protocol.hpp", "src/libpml/shared_data_protocol.cpp"],
     [("message queue", "src/libpml/message_queue_protocol.cpp"), ("buffer exchange", "src/libpml/double_buffering_protocol.cpp"),
      ("connection management", "connectInput/connectOutput/disconnectInput/disconnectOutput of the protocol classes")],
     "protocol", "check",
     "abstract interpretation of the protocol operations: queue event traces, an abstract heap of buffer owners, typestate of connection slots",
     ["enqueue adds exactly one message on every completing path, pop removes exactly one, nothing else modifies the queue",
      "messages are added at one end and read and removed at the other", "front/pop only on a non-empty queue", "emptiness/size queries agree with the queue",
      "after publishing the receivers' buffer holds the written value and every receiver is marked on every path",
      "connect/disconnect: exclusivity, type check, symmetric link update, no effect on failure",
      "when a flow is set up each sender and receiver of a parameter connection is linked to an instance of its protocol that is kept"],
     "Every operation of the protocol classes is interpreted over all paths; the resulting event trace, heap or connection state is compared with "
     "the specification of the operation.",
     "All paths of all operations of the three connection-oriented protocols.",
     ["std::deque, std::unique_ptr and the standard algorithms behave as documented"])

prop("C08", "Each period runs every component once, in order, between complete transfers",
     "In each processing period every component of the signal flow is executed exactly once, after all components whose audio or parameter data it "
     "receives, with parameter exchange from other threads locked out; the time then advances by exactly one block. All input channels are taken over "
     "before and all output channels delivered after the components run, at the positions the caller's channel and sample strides determine. An error "
     "in a component reaches the caller.",
     ["inputs", "histories", "fault_sequences"],
     "all signal flows (any graph of audio and parameter connections, any nesting), any channel counts and strides, failing components",
     "Tests run small flows whose creation order is already a valid schedule, with contiguous buffers and components that never fail.",
     ["src/librrl/audio_signal_flow.cpp", "src/librrl/scheduling_graph.cpp", "src/librrl/flexible_buffer_wrapper.cpp", "src/libvisr/impl/time_implementation.cpp"],
     [("execution of the schedule", "src/librrl/audio_signal_flow.cpp"), ("dependency graph and sorting", "src/librrl/scheduling_graph.cpp"),
      ("chunked transfers", "src/librrl/flexible_buffer_wrapper.cpp")],
     "period", "check",
     "path-sensitive typestate analysis of the processing functions with symbolic buffer addresses; per-iteration typestate of the loops building the "
     "dependency graph and the schedule",
     ["schedule iterated completely once, each element processed exactly once per iteration, lock held, exceptions leave the function",
      "time advanced exactly once after the schedule and its values computed in the width of their type", "each channel of each direction copied with matching index, stride and length, before/after execution",
      "for each audio and parameter connection into a component its sender becomes a predecessor; edges run sender->receiver; order is a reversed "
      "reverse-topological sort", "all atomic components are collected"],
     "All paths through the processing functions (helpers inlined) and the graph construction; addresses, strides and lengths compared as symbolic terms.",
     "All paths of two processing functions, the block size adapter, dependency graph construction and sorting; buffer sharing between ports is not judged.",
     ["boost::topological_sort yields a reverse topological order"])

prop("C09", "Copies, assignments, clones and comparisons cover every attribute",
     "Copying, assigning, swapping or cloning a parameter, parameter configuration, audio object, object vector, matrix, vector or loudspeaker "
     "array transfers every attribute of the source, whatever the target held before, and a clone has the same type as the original. "
     "Two parameter configurations compare equal exactly if all their attributes are equal. "
     "Setting an attribute makes the corresponding getter return the value that was set.",
     ["inputs"],
     "all values of the source and the target, all type instantiations",
     "Tests copy a few default-like values and look at a few attributes; a lost attribute or sliced type only shows for particular contents.",
     ["src/libefl/basic_matrix.hpp", "src/libefl/basic_vector.hpp", "src/libefl/aligned_array.hpp", "src/libpml", "src/libobjectmodel",
      "src/libpanning/LoudspeakerArray.cpp", "src/libpanningdsp/panning_matrix_parameter.cpp", "src/libvisr/typed_parameter_base.hpp"],
     [("generic parameter assignment", "src/libvisr/typed_parameter_base.hpp"), ("object container", "src/libobjectmodel/object_vector.cpp"),
      ("loudspeaker arrays", "src/libpanning/LoudspeakerArray.cpp")],
     "values", "check",
     "path-sensitive field coverage analysis of all user-provided copy, assignment, swap and comparison functions; type analysis of clone functions",
     ["on every normally returning path that is not a self assignment every field (bases included) receives the same field of the source",
      "a comparison returns true only after all fields compared equal and false only after a field compared different",
      "clone() constructs its own class from the object; every concrete cloneable class has its own clone()",
      "a setter stores its argument unaltered in the field that the getter of the same name returns on every path",
      "every argument of a set function reaches an attribute (as value or index) on every path, no element of a container keeps its old value, "
      "and an insertion replaces what had the same key",
      "an assignment that empties an attribute first has excluded self assignment; a swap hands the attributes over in both directions; "
      "a copied block of memory has the length of what it holds"],
     "Field lists come from the type-checked class definitions, so a field added later is an obligation at once. Transfers are recognised as assignments, "
     "initialisers, element-wise loops over the full range and copy/swap/assign calls with symbolic source and target; compiler-generated functions are "
     "complete by definition.",
     "All user-provided copy operations in the parameter, object, matrix, filter and panning libraries; row pitch and alignment are not part of the value.",
     ["the copy kernels copy the number of elements given", "standard containers copy faithfully"])

prop("C10", "Objects and buffers are completely initialised before they are used",
     "After an object has been constructed (and, for processing components, set up), none of its attributes depends on what the memory "
     "happened to contain before, and no attribute is read during construction before it has been given a value. Signal buffers, vectors "
     "and matrices created or resized without explicit content start with defined values over their whole length, alignment padding included.",
     ["inputs", "histories"],
     "all constructors of the toolkit's classes, all paths through them (delegation and helper functions included), whatever the memory held before",
     "Fresh memory is mostly zero in a test process, so a missing initialisation passes every test and shows as a random value in a long-running "
     "renderer that reuses memory.",
     ["src/libobjectmodel", "src/libefl", "src/libpml", "src/librcl", "src/librrl", "src/libreverbobject", "src/libaudiointerfaces", "src/libpanning"],
     [("constructors and setup functions", "all libraries"), ("AlignedArray allocates without initialisation", "src/libefl/aligned_array.hpp"),
      ("signal pool", "src/librrl/communication_area.cpp")],
     "init", "check",
     "path-sensitive interprocedural definite-assignment analysis (custom libTooling extractor, AST+CFG)",
     ["every scalar or pointer attribute without default initialiser that is read anywhere is assigned on every path to the end of "
      "construction, or of the component's setup function", "no attribute is read before it is assigned during construction (declaration order "
      "of the attributes respected)", "every uninitialised array attribute is filled on every path", "a newly allocated array that is "
      "returned or swapped into an object has been filled, over its full allocated length where a vector primitive does it"],
     "Every constructor of every class with scalar attributes or aligned arrays is walked over all paths in initialisation order, with helper "
     "functions and delegated constructors inlined; where construction leaves an attribute open for a component, each setup overload must close it.",
     "All constructors in the analysed libraries; loops filling an array are accepted where their trip domain is complete or unknown.",
     ["working tables named in the module's exemption list are filled before use by the functions given there"])

prop("C11", "No exception escapes where nothing can handle it",
     "An exception never leaves a destructor, a function that is declared not to throw, a callback that an audio driver library calls, or a "
     "handler that runs in a background network thread. Whatever goes wrong there is handled or reported on the spot, so that a failure never "
     "terminates the application.",
     ["inputs", "schedules", "fault_sequences"],
     "all destructors, noexcept functions, C library callbacks, thread functions and asynchronous completion handlers; all exceptions raised by "
     "toolkit code (directly, through virtual calls or callbacks) and by the documented throwing library functions",
     "The failing branches need a driver, network or allocation failure at the right moment; none of them is reached in the tests, and audio "
     "drivers are not available to them.",
     ["src/libaudiointerfaces", "src/librcl/udp_sender.cpp", "src/librcl/udp_receiver.cpp", "src/libvisr", "src/libpml"],
     [("audio callbacks", "src/libaudiointerfaces/jack_interface.cpp, portaudio_interface.cpp"),
      ("service thread handlers", "src/librcl/udp_sender.cpp, udp_receiver.cpp"),
      ("unregistering in destructors", "src/libvisr/impl"), ("noexcept disconnect functions", "src/libpml/*_protocol.cpp")],
     "contain", "check",
     "interprocedural exception-effect analysis over the class hierarchy call graph, refined by path-sensitive simulation (custom libTooling extractor)",
     ["the set of exception types that can leave each function is computed to a fixpoint (throw expressions, virtual calls, function pointers, "
      "throwing library calls; handlers subtract the types they catch)", "the set is empty for destructors, noexcept functions, callbacks handed "
      "to C libraries, thread functions and completion handlers", "a throw counts only if a path on which its guarding conditions are "
      "consistent reaches it"],
     "Every function of the libraries takes part in the fixpoint; each root with a non-empty set is examined path by path.",
     "Memory exhaustion (bad_alloc) and library functions outside the list of throwing functions are not considered.",
     ["std::bad_alloc is not considered", "functions called through function pointers raise only exceptions derived from std::exception"])

prop("C12", "Malformed network messages never interrupt audio processing",
     "Whatever text a scene, position or control message contains, decoding it always ends and never makes the processing function of the receiving "
     "component fail: any error the decoding detects is handled inside the component and processing carries on with the next message.",
     ["inputs", "histories"],
     "all components that receive text messages, all message contents",
     "The tests send well-formed messages; the space of malformed messages is unbounded, and each decoder raises different errors for different defects.",
     ["src/librcl/scene_decoder.cpp", "src/librcl/position_decoder.cpp", "src/librcl/scalar_osc_decoder.cpp", "src/libobjectmodel", "src/libpml/listener_position.cpp"],
     [("decoding loops", "src/librcl/scene_decoder.cpp, position_decoder.cpp, scalar_osc_decoder.cpp"),
      ("parsers", "src/libobjectmodel/object_vector_parser.cpp, src/libpml/listener_position.cpp")],
     "contain", "check_messages",
     "taint analysis from text message inputs combined with interprocedural exception-effect analysis (custom libTooling extractor)",
     ["every operation on data derived from a received message whose callees can raise an exception lies inside handlers that catch all types it "
      "can raise, in the function or in its callers up to the processing function", "handling code raises no exception of its own that is not "
      "caught before the processing function is left", "every path through a loop that message content runs through changes what its condition depends on", "after a message, accepted or not, the following ones are handled in the same period", "no loop that message content runs through counts in a type in which the count can get stuck or wrap around"],
     "From each text message input the data flow through locals, attributes and helper functions is followed; every operation on such data is "
     "checked against the exception types its callees can raise.",
     "Crashes inside third-party parsers (property tree, oscpkt) are outside; so is the effect a rejected message may have had on the scene.")

prop("C13", "State shared between threads is only touched under its lock",
     "Data that both the audio processing and other threads use is accessed only while the lock that protects it is held, and every lock "
     "that is taken is released again on every path, never taken twice by the same thread, and not held while waiting for other threads. "
     "Components are executed and their parameters exchanged only under the parameter exchange lock.",
     ["schedules"],
     "all classes that own a lock; all their entry points run concurrently (public functions, worker threads, I/O handlers), also with run-time "
     "profiling compiled in",
     "Data races need two threads at the same place at the same time; the tests are single threaded, and profiling is not compiled in.",
     ["src/librcl/udp_receiver.cpp", "src/librcl/udp_sender.cpp", "src/librrl/audio_signal_flow.cpp", "src/librrl/runtime_profiler.cpp"],
     [("message buffers of the network components", "src/librcl/udp_receiver.cpp, udp_sender.cpp"),
      ("parameter exchange lock", "src/librrl/audio_signal_flow.cpp, parallel_runtime components"),
      ("statistics of the profiler", "src/librrl/runtime_profiler.cpp")],
     "threads", "check",
     "lockset analysis over all concurrent entry points, path-sensitive with guards as abstract state (custom libTooling extractor)",
     ["all accesses to an attribute that two entry points share and one of them modifies hold a common lock", "a lock taken is released on every "
      "path, and not requested while it is held", "no waiting for threads or blocking network calls under the lock", "each site that executes "
      "components is reached under the parameter exchange lock", "a lock held shared protects reading only; a lock that was tried counts only where it was "
      "obtained", "destructors that end a thread hold no lock that it needs, and touch shared data only after it ended"],
     "Every public function, thread function and handler of each class with a lock is walked path by path with the set of locks held; accesses "
     "to each attribute are intersected.",
     "Attributes are the unit: two elements of one container are not told apart. Reads of attributes written only before threads start are exempt.",
     ["attributes written only in constructors before a thread is started need no lock", "the components of the toolkit start no further threads"])

prop("C14", "Network messages pass the service thread complete, in order and without loss",
     "The network components have at most one operation outstanding per socket and, whatever the outcome of one, the next is started as long as "
     "there is work; every datagram that was received becomes one message with exactly its bytes, in order of arrival, and every message handed "
     "over for sending is sent once, completely and in order. A failed operation never produces a message.",
     ["histories", "schedules", "fault_sequences"],
     "all interleavings of processing calls and completion handlers, all outcomes of the network operations, all message contents",
     "Unit tests do not use the network; errors and simultaneous sends cannot be provoked with the sockets of one host.",
     ["src/librcl/udp_receiver.cpp", "src/librcl/udp_sender.cpp"],
     [("completion handlers", "src/librcl/udp_receiver.cpp, udp_sender.cpp"), ("message buffers", "src/librcl/udp_receiver.cpp, udp_sender.cpp")],
     "threads", "check_async",
     "path-sensitive typestate analysis of asynchronous operations and of the message containers (custom libTooling extractor)",
     ["a handler starts the next operation on every path unless nothing is left to do, and no operation is started while one is outstanding, in "
      "every state that activations of the component can reach", "the buffer of an operation is an attribute and is not changed or moved while the "
      "operation is outstanding", "the outcome is examined; a datagram received without error is stored exactly once, a failure stores nothing",
      "a stored message starts at the first byte received and has exactly the number of bytes received; a message is sent with its full length",
      "a message leaves a container only after it has been handed on, exactly once, and is not used after its removal", "containers are emptied "
      "before a function that hands on messages returns; elements are appended at one end and taken from the other", "if the lock is released "
      "between looking at the state of the operation and adding a message, the state is looked at again"],
     "An abstract machine over (operations outstanding, containers empty/non-empty, front element handed on, error code, flags of the class): all "
     "public functions and completion handlers are run from every state reachable from construction, until no new state appears.",
     "Delivery by the network itself is outside; the synchronous variants share the rules on message content only.",
     ["operations are identified by the socket attribute"])

prop("C15", "Worker threads and driver callbacks end before what they use is destroyed",
     "A component that runs a background thread or registers a callback with an audio driver stops and joins it before any data it uses are "
     "destroyed, on every way of destruction; nothing can fail after the thread has been started during construction, and everything the thread "
     "uses is set up before.",
     ["schedules", "fault_sequences"],
     "all classes owning threads or driver registrations; all construction and destruction paths including failures",
     "A thread that outlives its data shows only in the rare schedule where it runs between destruction and exit; drivers are not available to the tests.",
     ["src/librcl/udp_receiver.cpp", "src/librcl/udp_sender.cpp", "src/libaudiointerfaces"],
     [("service threads", "src/librcl/udp_receiver.cpp, udp_sender.cpp"), ("driver callbacks", "src/libaudiointerfaces/portaudio_interface.cpp, jack_interface.cpp")],
     "threads", "check_life",
     "typestate analysis of thread and resource life times over constructors and destructors (custom libTooling extractor)",
     ["on every path the destructor stops the service, then joins the thread, before attributes used by the thread are destroyed", "after the "
      "thread is started no construction path throws and no attribute it uses is set", "attributes are destroyed after those that depend on them",
      "what is opened with the audio library is closed in the destructor", "nothing the thread uses is taken away before it was joined, and no thread is detached"],
     "All constructors and destructors of the classes owning threads or audio library resources, over all paths including exceptions.",
     "Whether the audio library honours its own contract is outside.",
     ["stopping the I/O service makes its thread return"])

prop("C16", "Python calls and the audio thread cannot block each other",
     "A call from Python that may wait for the audio thread or for the parameter exchange lock gives up the interpreter lock while it waits, and "
     "Python objects are created, used and destroyed only while the interpreter lock is held, also if something fails. So applications "
     "that combine Python components, Python control code and a running audio interface neither deadlock nor crash.",
     ["schedules", "fault_sequences"],
     "all functions offered to Python; all C++ components that hold Python objects; all construction and destruction paths",
     "The deadlock needs a Python component in a running audio interface and a control call at the wrong moment; no test has an audio device.",
     ["src/python", "src/libpythoncomponents/wrapper.cpp"],
     [("blocking calls", "src/python/rrl, src/python/audiointerfaces"), ("Python objects held by C++", "src/libpythoncomponents/wrapper.cpp")],
     "bindings", "check_gil",
     "lock-order analysis between interpreter lock and parameter/audio locks over the binding definitions and their call graph (custom libTooling extractor)",
     ["each bound function from which an acquisition of the parameter lock or a wait for the audio thread is reachable releases the interpreter lock "
      "(call guard or local object) at that point", "no Python object is used while the interpreter lock is released", "constructors, destructors "
      "and uses of Python objects in C++ components happen with the lock held, including the release of members after a failed construction", "constructors offered to Python obey the same rules; a release that is conditional covers only the paths that "
      "execute it", "functions called with the lock released by a call guard use no Python object", "the guard class acquires and gives back the lock exactly once"],
     "All bound functions are resolved to their targets (overriders included); the blocking ones are walked path by path with the state of the interpreter lock.",
     "Python components executing in the audio thread take the interpreter lock through pybind11's override machinery, which is trusted.",
     ["pybind11's function dispatcher holds the interpreter lock on entry of a bound function"])

prop("C17", "Python functions and properties reach the C++ function they are named after",
     "A name that a class offers to Python reaches the C++ function of that name: reading a property returns what assigning it has set, "
     "keyword arguments reach the parameter they are named after, results are handed back, and functions overridden in Python are called under "
     "their own name with the same arguments. Arrays and sequences are exchanged completely, each element in its place. An object that refers to "
     "another one passed to it keeps that one alive.",
     ["inputs", "histories"],
     "all functions, constructors and properties offered to Python, all arguments",
     "There are about 1800 definitions; the tests use a small part, mostly with positional arguments and objects that stay alive anyway.",
     ["src/python"],
     [("binding definitions", "src/python/*/*.cpp"), ("override trampolines", "src/python/visr/*.cpp, src/python/audiointerfaces/audio_interface.cpp")],
     "bindings", "check_bindings",
     "semantic lints over resolved binding definitions with interprocedural attribute read/write and reference-escape analysis (custom libTooling extractor)",
     ["a name the class has as a function is bound to that function", "value-flow analysis of setter and getter: on every path that returns, what the "
      "getter returns is the value assigned, element by element", "every argument of a function written for Python has an effect, and none works on a copy of "
      "its object", "elements of a sequence are passed on in order; loops over elements cover them all; numpy arrays are walked over with their strides; "
      "the layout told to numpy uses the stride of the object", "an index of a numpy array runs over the dimension it is an index of, and pointers into it are "
       "passed on with its strides", "values named like one parameter are not given to another one", "a module function calls the C++ function of its name; a data "
       "member is offered under its own name", "an enumerator name denotes the enumerator of that name", "getter and setter of a property access a common attribute", "keyword names are "
      "not permuted against the parameter names of the target", "override calls use the name and all arguments of the function", "a reference or pointer "
      "argument kept by the object (attribute or callback user pointer) has a keep-alive declaration", "a result filled into a local variable is used"],
     "All definitions are resolved to their C++ targets (methods, lambdas, functions, constructors) and compared with name, parameters and accessed attributes.",
     "Names that differ from the C++ name by design are judged only through properties and keyword names. Plain references returned to Python are not judged.")

prop("C18", "Scene and filter data written as text is read back into the same attributes",
     "What is written to a JSON or XML text for an audio object, filter, equaliser or position is found by the corresponding reader under the same "
     "key and stored in the attribute it was taken from, with the inverse unit conversion. Values that a writer leaves out are those the reader assumes "
     "if they are missing, everything a reader requires is written, and writing never ends without output. Lists are written and read completely "
      "and in order, and a reader sets the same attributes whatever was stored before.",
     ["inputs"],
     "all reader/writer pairs of the text formats, all keys, all values",
     "The round trip must hold for every attribute and every value; the tests encode a few objects and mostly only check that decoding does not throw.",
     ["src/libobjectmodel", "src/librbbl/biquad_coefficient.cpp", "src/librbbl/parametric_iir_coefficient.cpp", "src/libpml/listener_position.cpp"],
     [("object parsers", "src/libobjectmodel/*_parser.cpp"), ("filter coefficients", "src/librbbl/biquad_coefficient.cpp, parametric_iir_coefficient.cpp"),
      ("positions", "src/libpml/listener_position.cpp")],
     "serial", "check",
     "backward slicing between property-tree keys and attributes, compared between reader and writer (custom libTooling extractor)",
     ["loops over elements cover them all, in order, each at its own place, with separators the reader understands", "a value is left out only if it is the "
      "reader's default (conditions evaluated between their breakpoints)", "a reader sets the same attributes on every path that returns (path-sensitive effect "
      "analysis)", "tables of names are complete and invertible", "parts are read when the keys read there are present; optional values are used whenever present",
      "every written key is read, and every required key is written unconditionally", "the attribute a key is written from is the one its value is stored in",
      "unit conversions of reader and writer are inverse", "a value omitted by the writer equals the reader's default", "nested elements are written and read in "
      "the same format, under a valid key", "every writer produces output"],
     "All functions reading or writing property trees are paired per class and format; keys (nested paths included), slices to attributes, defaults, conditions and "
     "conversions are compared. Text and stream variants are checked to pass the tree on.",
     "Numeric precision of the textual representation is not judged. Keys computed at run time are ignored on both sides.")

prop("C19", "Every detected error is reported to the caller",
     "An operation that detects invalid arguments, inconsistent data or a failure of a library it uses never completes as if it had succeeded: it ends with "
     "an exception derived from the standard exception class, or with a negative result where it returns one. An error description that is prepared is "
     "also raised, and an exception that is caught is passed on or reported, not dropped.",
     ["inputs", "fault_sequences"],
     "all functions of the libraries, all ways in which they detect an error",
     "Error branches need broken files, exhausted resources or failing drivers to be executed; a forgotten 'throw' compiles and goes unnoticed otherwise.",
     ["src/libpml", "src/librbbl", "src/librrl", "src/libaudiointerfaces", "src/libvisr"],
     [("library status codes", "src/libaudiointerfaces, src/libpml/*_parameter.cpp, src/librbbl/*fft*_wrapper*.cpp"), ("exception objects and handlers", "src")],
     "reported", "check",
     "AST lints over exception objects, thrown types and handlers, and path-sensitive status-code analysis of library calls (custom libTooling extractor)",
     ["every exception object that is created is thrown or used", "every thrown type derives from std::exception, and a caught exception is not copied to a base type",
      "a handler rethrows, returns or records a failure, or reports it where nobody can be told (destructors, processing functions, callbacks)",
      "after a failed library call no path returns as if successful", "a problem is not only printed where the caller can be told"],
     "All functions: every exception object, throw expression and handler; all paths from each call of audio driver, file and FFT library functions that can fail.",
     "Whether a function detects all errors it should is judged by other properties; here only that a detected one is reported.",
     ["library functions report failures through their return value as documented"])

prop("C20", "Every receive channel reads the buffer of the send channel connected to it",
     "For every signal flow that is accepted, with any routing of channels, nesting of composite components and mix of sample types, each channel of an audio input "
     "port accesses the memory into which the output channel connected to it writes, and channels that are not connected to each other never share memory; "
     "every channel of every declared connection is established between exactly the two channels named, and where the connected output channels are not adjacent "
     "in memory the inserted routing copies each of them to the place where the input port expects it. Parameter ports are likewise grouped and attached exactly as "
     "declared, through any nesting of composite components.",
     ["inputs"],
     "all signal flows: connections, channel index lists, port widths, nestings and sample types",
     "Tests run a few flows with simple routings; a channel that is misplaced only for interleaved, repeated or partially used send channels plays the wrong "
     "signal without any error.",
     ["src/librrl/audio_signal_flow.cpp", "src/librrl/audio_connection_map.cpp", "src/librrl/signal_routing_internal.cpp", "src/libvisr/impl"],
     [("offset tables and buffer assignment", "src/librrl/audio_signal_flow.cpp AudioSignalFlow::initialiseAudioConnections"),
      ("send channels of a port, contiguity", "src/librrl/audio_signal_flow.cpp sendChannels, contiguousRange"),
      ("flat connections, placeholder resolution", "src/librrl/audio_connection_map.cpp AudioConnectionMap"),
      ("inserted routing", "src/librrl/signal_routing_internal.cpp SignalRoutingInternal::process"),
      ("declared connections", "src/libvisr/impl/audio_connection_descriptor.cpp, composite_component_implementation.cpp")],
     "wiring", "check",
     "symbolic linear forms over the syntax tree: places of connected channels are equal as expressions (value-numbered terms with versions of running counters), "
     "dominance of the counter's advance, role lints of sender and receiver (custom libTooling extractor)",
     ["the place of a channel is the offset of its own port plus its own index", "sender and receiver of every inserted connection have equal places",
      "the counter of occupied channels is advanced unconditionally by the width of the port placed at its value, and no two ports of a table share a value",
      "a receive port lies over send channels only after these were found contiguous, at the place of the first",
      "the index list of an inserted routing is relative to the place of its input port, and entry k determines output channel k",
      "buffer addresses of send and receive ports are computed by the same arithmetic, with stride equal to the distance of the channels",
      "neighbouring channels are contiguous exactly if offset plus index differ by one",
      "the list of send channels is indexed by the receive channels of the connections that end at the port",
      "every position of the index lists of a declared connection is entered, sender with send index, receiver with receive index",
      "a resolved placeholder connection keeps its receiver",
      "parameter connections are entered as receiver and sender, grouped by direction and nesting (all four cases), and every port of a group is attached",
      "element k of a channel range is start + k * step, and all of them are taken over into lists", "sender and receiver are never exchanged between arguments, parameters and members",
      "tables of connections keep several connections per channel and per pair of ports", "channel k of a port starts k strides after its memory",
      "the size of a channel is rounded up to the alignment, the pool has the size that was added up, and its allocation leaves room for the alignment",
      "connections are selected for a port or a sample type by equality only; the owner of a channel number is the port whose half-open range contains it"],
     "All functions of rrl and visr that enter connections, place ports in the signal pool, assign buffers, or take arguments for both ends of a connection.",
     "Expressions whose parts the rules do not understand are not judged; that a port found at run time is in a table is left to the existing checks that throw.",
     ["the declared connections are those the user asked for", "standard containers and algorithms behave as specified"])

prop("C21", "Vector functions process exactly the elements they are asked for",
     "Every vector function of the library, in each of its implementations, reads and writes exactly the elements it was asked to process, for every number of elements, "
     "stride and alignment promised by the caller: no element is left out, overwritten or processed twice, nothing outside is touched, and instructions that require an "
     "alignment are used only where it is guaranteed. Optimised implementations compute for each element the same expression as the reference implementation. Each "
     "function uses its own implementations, optimised ones only on processors that have their instructions, and uninitialising the library restores the reference ones.",
     ["inputs"],
     "all numbers of elements, alignments and strides; all processor types the library is built for",
     "Tests run on one processor with a few lengths and mostly aligned data; a wrong remainder loop or an aligned instruction shows only for particular lengths "
     "and addresses.",
     ["src/libefl/reference", "src/libefl/intel_x86_64", "src/libefl/vector_functions.cpp"],
     [("reference implementations", "src/libefl/reference/vector_functions_impl.hpp, vector_conversions_impl.hpp, filter_functions_impl.hpp"),
      ("optimised implementations", "src/libefl/intel_x86_64/vector_multiply.cpp, vector_multiply_add.cpp, vector_ramp_scaling.cpp"),
      ("selection of implementations", "src/libefl/intel_x86_64/initialise_library.cpp, src/libefl/vector_functions.cpp")],
     "kernels", "check",
     "abstract interpretation of the vector functions over linear forms in the number of elements, the elements processed and the strides; comparison of per-element "
     "polynomials with the reference implementation (custom libTooling extractor)",
     ["pointers and counters of a loop advance in step, every element is written, and a successful return is reached only when no element is left",
      "no access lies before the element being processed or beyond those known to be left; ranges given to algorithms and other vector functions are the range asked for",
      "an instruction that requires an alignment is only executed where the alignment promised by the caller is known to suffice",
      "the pointer of each vector advances by its own stride, and every stride is used",
      "the expression stored by an optimised implementation equals that of the reference implementation",
      "a function table entry holds an implementation of that function, for the processor type tested, and is taken back by uninitialise"],
     "All functions of libefl/reference and libefl/intel_x86_64 (all instruction set builds): loops, algorithm calls, element accesses, successful returns.",
     "Functions with loops of a form the interpreter does not follow are counted, not judged; rounding differences between implementations are not considered.",
     ["callers keep the alignment they promise", "vectors of a call do not overlap unless they are identical"])

# --- properties this family cannot decide here ------------------------------------------------------------------------

na("N01", "Fast convolution yields the same signal as direct convolution",
   "The partitioned frequency-domain convolvers produce, up to rounding, the direct convolution of each input with its filter, for every "
   "filter length, block size and number of routings, from the first sample on.",
   ["inputs", "histories"], "all input signals, filters, block lengths and routings", "Tests compare a few signals with a reference.",
   ["src/librbbl/core_convolver_uniform.cpp", "src/librbbl/multichannel_convolver_uniform.cpp"],
   [("partitioned convolution", "src/librbbl/core_convolver_uniform.cpp")],
   "The statement is an equation between sample values computed by an FFT library; no sound dataflow argument in reach relates the partitioned "
   "frequency-domain products to the time-domain sum.")
na("N02", "Panning gains reproduce the source direction with constant power",
   "For every source direction the amplitude panner yields finite, non-negative gains of unit power on the loudspeakers around the source, and "
   "the gains change continuously with the direction.",
   ["inputs"], "all directions, all loudspeaker layouts", "Tests evaluate a few directions of two layouts.",
   ["src/libpanning/VBAP.cpp", "src/libpanning/CAP.cpp", "src/libpanning/AllRAD.cpp"], [("gain computation", "src/libpanning/VBAP.cpp")],
   "Real-valued geometry (matrix inverses of the loudspeaker triplets, normalisation): needs numerical or algebraic reasoning over run-time "
   "layouts, which no static analysis of the source bounds.")
na("N03", "Delays and gain transitions have the exact requested value and shape",
   "A delay line delays by exactly the requested, possibly fractional, number of samples, and gain, delay and filter transitions run "
   "monotonically from the old to the new value within the configured time.",
   ["inputs", "histories"], "all delay and gain values and sequences of changes", "Tests compare single transitions.",
   ["src/librbbl/multichannel_delay_line.cpp", "src/librbbl/gain_fader.cpp", "src/librbbl/crossfading_convolver_uniform.cpp"],
   [("interpolation filters and ramps", "src/librbbl/multichannel_delay_line.cpp, gain_fader.cpp")],
   "Quantifies over sample values and interpolation accuracy, i.e. run-time real numbers.")
na("N04", "Every period is processed within its real-time deadline",
   "With any scene the renderer can be configured for, processing one block takes less time than the block lasts.",
   ["schedules", "inputs"], "all scenes, block sizes, machines", "Tests do not measure time.",
   ["src/librrl/audio_signal_flow.cpp"], [("processing of one period", "src/librrl/audio_signal_flow.cpp")],
   "Worst-case execution time depends on hardware, libraries and run-time sizes; the toolkit also allocates memory in processing functions by "
   "design, so not even an allocation-freedom argument applies.")
