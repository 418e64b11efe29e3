import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=()):
    P.append({"id":id,"title":title,"statement":statement,
     "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,
     "anchors":{"files":files,"state":[{"name":n,"meaning":m,"where":w} for n,m,w in state],
       "mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}})
W="mplang/backends/simp_worker/"
p("C01","Messages are delivered exactly once to the receive that names them",
 "A message sent to a party is handed, unchanged, to exactly one receive on that party, namely one that asks for that sender and that message key, and never to any other receive. A second message with the same sender and key that arrives while the first is still undelivered is refused with an error and leaves the first one intact. No message that was accepted is ever lost, duplicated or reordered onto another key, whatever the interleaving of senders, receivers and timeouts.",
 ["schedules","histories","inputs"],"every interleaving of concurrent sends, receives and shutdown on one party's mailbox, for both the in-process and the HTTP communicator",
 "tests issue a handful of sends before or shortly after the receives on a quiet mailbox; no test explores interleavings of several receivers and senders on the same mailbox, or a timeout racing with an arrival",
 [W+"mem.py",W+"http.py",W+"base.py"],[("mailbox guarded by a condition variable","ThreadCommunicator.recv/_on_receive, HttpCommunicator.recv/on_receive")],["send/recv return values and exceptions"],
 [("mailbox","undelivered messages by (sender, key)",W+"mem.py, "+W+"http.py")])
p("C02","Blocked communication always ends, with data, a timeout or an error",
 "On the HTTP transport, a receive that has a time limit returns the message if it arrives in time and otherwise raises a receive-timeout error once the limit has passed (never before it, and never long after it); a message that arrives after the timeout can still be received by a later receive. Shutting an in-process communicator down releases every blocked receiver with an error. A synchronous send reports every failure and timeout to its caller, waiting for outstanding sends leaves none in flight, and the communication statistics count each successful send, failed send, receive and receive timeout exactly once.",
 ["schedules","fault_sequences","histories"],"every schedule of arrivals versus deadlines and shutdown, and every sequence of peer responses (accept, refuse, error status, stall, drop)",
 "tests check one timeout on an idle mailbox and one failing endpoint; they do not race arrivals with deadlines, stall or drop connections, or account statistics over mixed histories",
 [W+"http.py",W+"mem.py"],[("deadline loop around the condition wait","HttpCommunicator.recv"),("per-request HTTP timeout and error translation","HttpCommunicator._do_send/send_sync"),("shutdown flag","ThreadCommunicator.shutdown"),("locked counters","CommStats")],["exceptions, virtual clock at return, CommStats.snapshot()"])
p("C03","Request handles complete once and report the right outcome",
 "A non-blocking request moves once from pending to exactly one of completed, failed or cancelled and then never changes; waiting and testing return its result or raise its own error, and only report a timeout while it really is still pending. Waiting for all or testing all requests gives the results in request order and only when every one has finished; waiting for any or testing any gives an index together with that request's own outcome, and only of a finished request.",
 ["histories","schedules"],"every history of completions, failures, cancellations, waits and tests over a set of requests",
 "tests exercise single calls on already finished or never finished futures; they do not interleave completions with batch operations or check stability of the state afterwards",
 [W+"base.py"],[("request state machine over a future","Request.status/_finalize/wait/test/cancel"),("batch operations","wait_all, wait_any, testall, testany")],["return values, exceptions, status"])
p("C04","Message keys never collide and always pair up between parties",
 "Over one job's communication context and everything spawned from it, no two different messages from one party to another ever carry the same key, so neither nested operations nor concurrently running operations can receive each other's messages. Two parties that perform the same sequence of spawns and pairwise exchanges on matching contexts compute the same keys, so the n-th exchange of one always meets the n-th exchange of the other; this holds in whichever order concurrently scheduled operations happen to start or finish on each party.",
 ["schedules","histories","programs"],"every tree of spawned contexts, every pairwise exchange pattern, and every order in which parallel operations are scheduled on each party",
 "tests compare a few literal key strings produced by one sequential call order; collisions need particular combinations of depth, suffix and order, and pairing needs different completion orders at different parties",
 [W+"comm_context.py","mplang/runtime/interpreter.py",W+"state.py"],[("per-peer sequence numbers and spawn counters","CommContext"),("per-operation context derived from the graph position","Interpreter async scheduler")],["wire keys of real sends and receives"])
p("C05","Collectives agree and are correct at every participant",
 "Broadcast, all-gather, and all-reduce (and, or, xor) terminate at every participant under every schedule and give each of them the same, correct result over exactly the participants' contributions (gathered in ascending rank order). A barrier lets nobody leave before everyone has entered. Parties that are not participants send and receive nothing, and back-to-back collectives over any, possibly different, participant sets do not disturb one another.",
 ["schedules","inputs","programs","configurations"],"every participant subset in every given order, every input vector, every sequence of collectives and every interleaving of the parties",
 "tests run a few fixed participant sets with thread timing left to chance; wrong pairing, early barrier exit or subset errors show up only for some sets, sequences and interleavings",
 [W+"collective_algorithms.py",W+"collectives.py","mplang/libs/collective.py"],[("root-based reduce and broadcast over a communication context","collective_algorithms"),("participant resolution","collectives")],["results per party, entry/exit order, wire messages"])
p("C06","Parties that disagree on a uniform branch all stop before branching",
 "When a program declares that a branch condition is the same at all participating parties, then if it is, all of them run the same branch, and if it is not, every one of them reports a disagreement error and none of them executes any operation of either branch. The check concerns only the participating parties and leaves no undelivered messages behind.",
 ["inputs","schedules","configurations"],"every assignment of condition values, participant subset (explicit or inferred) and schedule",
 "tests cover one all-equal and one mismatch case on two parties; the guarantee is about every assignment, subset and order of arrival",
 [W+"collective_algorithms.py",W+"collectives.py",W+"ops.py"],[("agreement check before branching","verify_uniform_predicate"),("conditional handler","uniform_cond worker implementation")],["error per party, branch side effects, residual mailbox"])
p("C07","Multi-party programs mean the same under every schedule",
 "Executing a traced multi-party program (local computation on party subsets, static data routing including exchanges and rotations, convergence, uniform conditionals, loops, arbitrarily nested) terminates at every party and yields at each party exactly the value that the program's sequential reading assigns to it, and no value at parties that do not hold the result. The outcome does not depend on how the parties are scheduled, on the order of independent operations, or on earlier executions on the same workers.",
 ["programs","schedules","inputs"],"every well-typed program up to the generator's bounds, every world size in bounds and every interleaving of workers",
 "the simulator tests are a few fixed programs under one lucky schedule; deadlocks, mismatched pairs and misplaced values need particular routings and interleavings",
 [W+"ops.py",W+"state.py",W+"comm_context.py","mplang/runtime/interpreter.py","mplang/dialects/simp.py"],[("SPMD handlers for each operation","WORKER_HANDLERS in ops.py")],["per-party results, wire messages, termination"])
p("C08","A party's data leaves it only along routes the program spells out",
 "During execution, a party transmits a value only where the program routes that value to another party, plus the truth values of declared-uniform branch conditions among the branch's participants; local computation, convergence and loops transmit nothing. The driver receives only opaque references to results, and obtains a value only for an object that the program explicitly fetches. A party that holds no value for an operation never executes that operation's body on behalf of others.",
 ["programs","inputs","configurations"],"every well-typed program, party set and input; every message on the wire is accounted for",
 "tests check final results only; a change that additionally ships data to the wrong or an extra party leaves results intact",
 [W+"ops.py","mplang/backends/simp_driver/ops.py","mplang/backends/simp_driver/mem.py","mplang/backends/simp_driver/http.py","mplang/libs/device/api.py"],[("region only evaluated where rank is in parties","pcall_static worker implementation"),("send only from routing source to target","shuffle_static worker implementation"),("results stored at the worker, reference returned","driver dispatch")],["every wire message, driver-side values"])
p("C09","Programs that misplace data are rejected; accepted ones hold data where typed",
 "Building a program succeeds if and only if every operation's parties hold its inputs, every routing source holds the routed value, converged values live on disjoint parties and have one common type, both branches have the same result types, and a loop body preserves the types of its state; otherwise it is rejected with an error before anything runs. For every accepted program, the set of parties in a result's type is exactly the set of parties that hold a value at run time.",
 ["programs","inputs"],"every program over the party-typed operations up to the generator's bounds, both well- and ill-placed",
 "tests list individual good and bad calls; the rule must hold for every combination of party sets and nesting, including captured variables",
 ["mplang/dialects/simp.py","mplang/edsl/tracer.py","mplang/edsl/typing.py"],[("trace-time checks of party masks and signatures","simp.py def_trace functions")],["exceptions while tracing, types of traced values versus per-party run-time values"])
p("C10","A failure on any party reaches the caller and hangs nobody",
 "If any party fails while executing a request, the caller of that request gets an error rather than a partial result, and with the in-process cluster every other party that was waiting for the failed one is released. Requests to which no failure happened return, for each party that holds a result, a reference to it and nothing for the other parties, and fetching returns exactly the value that party holds.",
 ["fault_sequences","schedules","programs"],"every choice of failing parties and failure points in a multi-party program, and every order in which parties finish",
 "tests inject one failure at one party; the order in which failing and blocked parties finish decides whether the error is seen",
 ["mplang/backends/simp_driver/mem.py","mplang/backends/simp_driver/ops.py","mplang/backends/simp_driver/http.py","mplang/backends/simp_driver/state.py"],[("first exception cancels and shuts the mesh down","SimpMemDriver.collect"),("per-party references","driver dispatch")],["driver exceptions, termination, fetched values"])
p("C11","Requests running on the same workers do not interfere",
 "Two requests with different identifiers that run at the same time, or one after another, on the same workers behave exactly as if each ran alone: neither receives the other's messages, sees its current party set or intermediate state, waits for it, or shares its secure-computation sessions, and leftovers of a failed request never reach a later one (a failure ends the in-process cluster as a whole, but not HTTP workers). Whatever identifiers the callers choose, and for the ones the driver chooses, messages are routed to the request they belong to.",
 ["schedules","histories","fault_sequences"],"every interleaving of the parties of concurrent requests and every history of earlier, possibly failed, requests",
 "tests check that two interpreters are different objects and run one request at a time; cross-talk needs overlapping requests and particular message orders",
 [W+"request.py",W+"infra.py",W+"state.py",W+"comm_context.py","mplang/backends/spu_state.py","mplang/backends/simp_driver/ops.py"],[("per-request interpreter, worker state and communication root","create_request_interpreter"),("shared link cache","WorkerInfra")],["results and wire keys of overlapping requests"])
p("C12","Asynchronous jobs only move forward, one at a time, and publish what they claim",
 "A submitted job's visible status only moves from pending to running to exactly one of success or failed, and never leaves that; whenever success is visible the job's complete result is visible too, and whenever failure is visible so is its error. While a job is pending or running another submission is refused without affecting it, a submission without an identifier or with an undecodable program is refused without creating a job, and an unknown identifier is reported as not found.",
 ["schedules","histories"],"every interleaving of submissions, executions and status polls",
 "tests poll a finished job at leisure; the windows between status and result publication, and between concurrent submissions, are only hit by particular interleavings",
 [W+"http.py"],[("job table with status, result and error","register_routes, _do_execute_async")],["HTTP responses of the job endpoints"])
p("C13","HTTP messages arrive faithfully; malformed ones are rejected cleanly",
 "Whatever value, raw bytes, key, sender and supported encoding is used, a message sent over HTTP arrives at the addressed party as an equal value under the same sender and key. A malformed delivery (missing or invalid sender, undecodable body, unsupported encoding, bad envelope) is answered with an error and puts nothing in the mailbox, so that a correct delivery of that message still succeeds.",
 ["inputs","fault_sequences"],"every value in the value grammar, every key over printable characters, both transports, and every kind of malformed request",
 "tests send a few values with simple keys; characters with a meaning in URLs, nested values and malformed deliveries followed by good ones are not sampled",
 [W+"http.py","mplang/edsl/serde.py"],[("encoding of key, sender and payload into an HTTP request","HttpCommunicator._do_send"),("decoding and validation","receive_comm route")],["received values, HTTP status codes"])
p("C14","Evaluating a program graph in parallel equals evaluating it in order",
 "For every program graph and every completion order of its operations, the parallel evaluator runs each operation exactly once, only after all of its inputs are available, and returns the same outputs as evaluating the operations in order. If an operation fails, evaluation ends with that error instead of hanging or returning a result, and evaluation always terminates, including for graphs nested in operations and for empty or input-only graphs.",
 ["schedules","programs","fault_sequences"],"every graph up to the generator's bounds, every subset of asynchronous operations, every completion order and every failing operation",
 "tests run a couple of diamond-shaped graphs with sleeps; missing wake-ups, double execution or early release of a value depend on completion order and graph shape",
 ["mplang/runtime/interpreter.py"],[("dependency counting scheduler","Interpreter._evaluate_graph_async"),("sequential evaluator with reference counting","Interpreter._evaluate_graph_sync")],["operation start/finish events, outputs, exceptions"])
p("C15","Deferred operations run once, and calling a program does not change its result",
 "Applying operations to values eagerly, one after another, gives the same results as tracing the whole computation and evaluating it once, however the results are combined, reused, returned several times or nested in structures. Each operation instance is executed at most once per evaluation, no value is discarded while it is still needed, and inputs are never modified.",
 ["programs","histories"],"every expression program up to the generator's bounds, with arbitrary sharing, reuse and output structure",
 "tests evaluate small fixed expressions; sharing, repeated outputs, inputs returned as outputs and unused results interact with value release and caching only in particular shapes",
 ["mplang/runtime/interpreter.py","mplang/edsl/primitive.py","mplang/edsl/context.py"],[("reference-counted value environment","Interpreter evaluation"),("binding in the ambient context","Primitive.bind")],["results and per-operation execution counts"])
p("C16","Tracing captures exactly what the function computes",
 "Tracing a function over any nested structure of arguments (traced values, constants, repeated values) with any captured outer values yields a program whose evaluation on the arguments equals calling the function directly, with results in the same structure. Arguments stay in positional order, each distinct captured value is passed once, constants are embedded, and re-packing the results restores the original structure.",
 ["programs","inputs"],"every argument structure, capture pattern and nesting depth of regions in the generator's bounds",
 "tests trace a few signatures; argument/capture alignment errors need repeated arguments, captures in nested regions and mixed constants",
 ["mplang/edsl/tracer.py","mplang/utils/func_utils.py","mplang/dialects/func.py","mplang/dialects/simp.py"],[("parameter and capture bookkeeping","Tracer"),("structure flattening","func_utils, var_morph/var_demorph")],["evaluation results of traced programs"])
p("C17","Serialised values, types and programs read back equal; damage is detected",
 "Writing any supported value, type or program graph in any of the supported encodings and reading it back gives an equal object (same structure, types, attributes, shapes, contents, and for programs the same evaluation). Without compression (whose header holds a time stamp) the same object always encodes to the same text. Data cut short at any point is rejected with an error and never decoded to a different value; metadata that is not valid, references to binary segments that are not there, and unknown or missing type tags are refused.",
 ["inputs","programs","fault_sequences"],"every value of the value grammar (nested containers, scalars, bytes, arrays, tables, types, graphs) and every truncation point",
 "tests round-trip one example per type; nesting, key types, empty containers, special floats, big integers, name collisions and truncation at every byte are not sampled",
 ["mplang/edsl/serde.py","mplang/edsl/graph.py","mplang/edsl/typing.py","mplang/runtime/value.py","mplang/backends/tensor_impl.py","mplang/backends/table_impl.py"],[("tagged JSON encoding","serde.to_json/from_json"),("binary container with segments","serde.dumps_binary/loads_binary")],["decoded objects and exceptions"])
p("C18","A program artifact runs only if intact and compatible",
 "A packed program unpacks to a program with the same graph, signature and metadata and with the same results when executed. Any change to the packed program's graph, signature or metadata that its checks cover, and running it with a wrong number of arguments, with keyword arguments or on a cluster with fewer parties than it needs, is rejected with an error before anything is executed. However the packed bytes are damaged, either an error is reported or the program is the original one in everything but descriptive metadata (name, time, version, the statement of the parties needed and the presence of a digest). Programs that capture outside values or cannot be stored faithfully are refused when compiled.",
 ["programs","inputs","fault_sequences"],"every compiled program in the generator's bounds and every single-field alteration of its artifact",
 "tests alter one or two fields; every field and every mismatch must be detected",
 ["mplang/edsl/program.py","mplang/tool/program.py"],[("digest and signature validation","CompiledProgram, tool.program")],["exceptions, execution results"])
p("C19","The object store behaves as a map, also across restarts",
 "Reading a reference returns the value most recently stored under it, until it is deleted, after which it is reported missing; references given out for new objects are never already in use; existence checks and listings agree with reads. Objects stored persistently are still there, with equal values, after the store is opened again, and deleted ones are not; in-memory ones do not leak into persistent storage; operations on one reference never affect another, whatever characters the keys contain, and an operation that fails or whose process dies leaves the old or the new value, never a part. (Spellings that name the same file are one reference; a key and a key beneath it cannot both be stored, the second is refused.)",
 ["histories","inputs","crash_points"],"every history of put, get, delete, exists, list and reopen over several references",
 "tests do single put/get/delete calls; aliasing between keys, stale values after delete and reopen need longer histories",
 ["mplang/runtime/object_store.py","mplang/backends/store_impl.py"],[("scheme dispatch to memory and persistent backends","ObjectStore"),("one file per key","FileSystemBackend")],["return values, listings"])
p("C20","Stored files stay inside the store and are never silently replaced",
 "No key or reference, however written (relative components, absolute-looking paths, sibling directories with a common prefix, links inside the store), makes the store read, create, change or remove a file outside its root directory, except for explicitly absolute transfer paths and downloads of files that are not in the store from the working directory; what is uploaded is stored as complete content, never as a link or a part. Uploading a file to a path that already holds different content fails and changes neither; uploading identical content succeeds; a failed transfer keeps the source file; a download gives the current content of the named object.",
 ["inputs","histories","fault_sequences"],"every path over a grammar of components (., .., empty, separators, prefix siblings, links) and every history of uploads and downloads",
 "tests try '../' once; prefix siblings, links and mixed histories are not covered",
 ["mplang/runtime/object_store.py"],[("path resolution with containment check","FileSystemBackend._resolve_key"),("content comparison before upload","upload")],["file system state before/after, exceptions"])
p("C21","Moving data between devices preserves values and confidentiality",
 "A value put on a device and moved along any chain of devices (plain, secure multi-party, trusted) and then fetched equals the original. On the way to and from a trusted device it travels only encrypted under a key derived for that pair of devices after the trusted device's key has been attested, and on the way to a secure multi-party device only as shares, each sent to its own party; a session established between two devices is reused only for that pair (in both directions) and within the same program.",
 ["programs","configurations","histories"],"every cluster layout and every chain of moves in bounds; every wire message is examined",
 "tests move one value over one hop and compare the result; a move that sends plaintext, sends shares to the wrong party or confuses sessions gives the same result",
 ["mplang/libs/device/api.py","mplang/libs/device/cluster.py","mplang/backends/tee_impl.py","mplang/backends/crypto_impl.py"],[("pairwise transfer rules","device api d2d"),("attested key exchange and session cache","TEE session setup")],["fetched values and all wire messages"])
p("C22","The device for a computation is chosen unambiguously or refused",
 "When no device is named, a computation over inputs from several devices runs on the one secure device among the devices of those inputs, and is refused if there is none or more than one or if moving inputs is switched off; inputs on exactly one device run there; a named device is always respected. Cluster descriptions are accepted only if devices, members and ranks are consistent, an accepted description survives conversion to a dictionary and back, and each device's members map to the ranks of its nodes (the positions in the list of nodes; the parties of a secure device take part in ascending order of rank). Nothing is promised for kinds of devices nobody knows.",
 ["configurations","inputs"],"every cluster layout and combination of argument devices in bounds, and every single inconsistency of a description",
 "tests list individual layouts; priority and ambiguity rules concern all combinations",
 ["mplang/libs/device/api.py","mplang/libs/device/cluster.py"],[("device inference","_infer_device"),("description validation","ClusterSpec.from_dict")],["chosen device, exceptions"])
p("C23","Secure multi-party kernels connect exactly the parties of their region",
 "A secure kernel executed by a set of parties exchanges messages with exactly those parties, each in its position in the party list, and computes on exactly the shares those parties hold, whichever other secure devices with other parties, sizes or settings have been used before or are used at the same time on the same workers. Messages of the secure engine never mix with other messages between the same parties.",
 ["histories","configurations","schedules"],"every sequence of kernels over devices with different, overlapping party sets and settings, within one job and across jobs",
 "tests use one secure device per process; connections cached for one party set being used for another need two overlapping devices on one worker",
 ["mplang/backends/spu_state.py","mplang/backends/spu_impl.py","mplang/backends/channel.py",W+"infra.py"],[("connection cache key","SPUState.get_or_create"),("channel adapter with tag prefix","BaseChannel")],["peers and tags of engine messages, kernel results (with a stand-in engine)"])
p("C24","Tables are read and written completely, once and in order",
 "Reading a table in batches of any size from any source, however it is divided internally, yields every row exactly once, in order, in batches of exactly the requested size except the last. Writing one table, or several side by side, stores exactly their rows; tables whose row counts differ are refused; a failed write leaves no partial file; and reading the file back gives the declared columns and types, in the declared order, with equal contents (as far as the format can express them: CSV knows no missing texts, JSON only numbers, texts and truth values).",
 ["inputs","fault_sequences"],"every division into chunks, batch size, number of tables and format in bounds, and failures at every batch",
 "tests use tables of one chunk smaller than the batch size; rows are lost or duplicated only for particular chunkings",
 ["mplang/backends/table_impl.py","mplang/dialects/table.py"],[("batch accumulation and splitting","TableReader"),("side-by-side reader","MultiTableReader"),("write with clean-up","table write implementation")],["batches, files written"])
p("C25","Nested execution contexts restore the ambient context",
 "The ambient context seen by an operation is the innermost one entered and not yet left, else the process-wide default; leaving a context, normally or by an exception, restores exactly the one that was current before. Searches for a context with a given state find the innermost one that has it. Operations are always executed or recorded by the context that was current when they were applied.",
 ["histories","fault_sequences"],"every nesting history of entering, leaving, failing, re-entering and searching contexts",
 "tests enter one or two contexts on one thread; restoration after errors, re-entry of the same context and searches past unrelated contexts need longer histories",
 ["mplang/edsl/context.py","mplang/edsl/primitive.py"],[("context stack with default fallback","context.py")],["current context after each step"])
p("C26","Oblivious transfer and VOLE give each side exactly its share",
 "In every oblivious transfer the receiver obtains, position by position, exactly the message selected by its choice bit, for any messages, choices and roles, and what the sender receives on the wire does not include the choice bits nor what the receiver gets the unselected messages in clear. Every vector-oblivious-linear-evaluation result satisfies w = v + u * delta position by position, for any length and roles (the Silver protocol, documented as a demonstration, at every position but the few its sparse noise touches). Sums and products in GF(2^128), on which they rest, are the field's on both kernel implementations.",
 ["inputs","configurations"],"every choice vector and message vector in bounds, lengths around block boundaries, both role assignments and world sizes",
 "tests run one fixed vector in one role assignment (and need a library that is not available here, so they do not run at all)",
 ["mplang/libs/mpc/ot/base.py","mplang/libs/mpc/ot/extension.py","mplang/libs/mpc/ot/silent.py","mplang/libs/mpc/vole/gilboa.py","mplang/libs/mpc/vole/silver.py"],[("Naor-Pinkas transfer","ot.base"),("IKNP extension","ot.extension"),("Gilboa and expanded VOLE","vole, ot.silent")],["outputs per party, wire messages"])
p("C27","Private set intersection reports exactly membership",
 "For every pair of sets, the receiving party of a private set intersection learns, for each of its own items in order, a one if and only if the item is in the other party's set, whatever the sizes, overlap, order, position of the roles and item values. Key-value encodings used for it return the encoded value for every encoded key, and a set that cannot be encoded (a key with two values) is refused rather than encoded wrongly. The oblivious pseudo-random function gives both sides equal outputs exactly where their inputs are equal, and no item of a party travels in clear.",
 ["inputs","configurations"],"every overlap pattern of small sets, sizes around block boundaries, extreme item values, both role assignments",
 "tests check one or two overlaps; wrong indices, order or boundary handling show up for particular overlaps and sizes",
 ["mplang/libs/mpc/psi/rr22.py","mplang/libs/mpc/psi/unbalanced.py","mplang/libs/mpc/psi/oprf.py","mplang/libs/mpc/psi/okvs_gct.py","mplang/libs/mpc/psi/cuckoo.py","mplang/backends/field_impl.py"],[("oblivious key-value store encode/decode","okvs_gct, field_impl"),("tag comparison","rr22")],["membership vectors"])
p("C28","Oblivious permutation and group-by compute the plain answer",
 "Obliviously permuting data held by one party with a permutation held by another gives the receiver exactly the data in the order the permutation prescribes, for every length and every permutation. Oblivious group-by sums equal the plain sums for every assignment of rows to groups, including empty groups, and sums inside ciphertexts (rotations, strides, masks) equal the plain ones. Neither the data nor the groups travel in clear.",
 ["inputs","configurations"],"every permutation of small sizes (power of two or not), every group assignment in bounds, all role assignments",
 "tests check one permutation of length four or so; a sorting network that fails for one permutation is only found by all of them",
 ["mplang/libs/mpc/analytics/permutation.py","mplang/libs/mpc/analytics/groupby.py","mplang/libs/mpc/analytics/aggregation.py"],[("bitonic switching network with oblivious switches","apply_permutation"),("shared-sum aggregation","groupby")],["receiver's output"])
p("C29","Encrypted computation matches computation in the clear",
 "Any sequence of supported operations on encrypted values (homomorphic addition, subtraction, multiplication, scaling, rotation; symmetric encryption; elliptic-curve addition, subtraction and multiplication, including the identity) decrypts or compares to the result of the same sequence on plain values. Decryption with another key or of an altered ciphertext never yields a wrong plaintext silently where the scheme authenticates, and two parties' key agreement yields the same key if and only if they use matching key pairs and context.",
 ["programs","inputs"],"every operation sequence in bounds over small plain values including zero, negative values and identities",
 "tests apply each operation once to ordinary values; identities, cancellations, negative numbers and chains are not sampled",
 ["mplang/backends/crypto_impl.py","mplang/backends/phe_impl.py","mplang/backends/bfv_impl.py","mplang/dialects/crypto.py","mplang/dialects/phe.py","mplang/dialects/bfv.py"],[("per-scheme operation implementations","crypto_impl, phe_impl, bfv_impl")],["decrypted results versus plain results"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
import sys
for x in P: assert len(x["title"])<=80,(x["id"],len(x["title"]))
print(len(P))
