NA = {}
NOTES["C01"] = (TV, "Comm.tla is model-checked exhaustively for 2-3 threads; several hundred executions of the real communicators under a controlled scheduler with scripted network faults are validated event by event; schedules and scripts are sampled, the HTTP wire is stubbed below httpx")
NOTES["C02"] = (TV, "as C01 with virtual time: deadlines, late arrivals, send faults, shutdown; bounded liveness is checked on the model, ends of calls on the recorded executions")
NOTES["C03"] = (TV, "Requests.tla exhaustively for 2 threads and 2 requests; real Request/SendRequest histories with 1-3 clients under the controlled scheduler are validated")
NOTES["C04"] = (TV, "CommKeys.tla exhaustively for small context trees; wire keys recorded from real contexts and from the real async scheduler under random schedules on several parties are validated for uniqueness and pairing")
NOTES["C14"] = (TV, "the scheduling algorithm is model-checked for all graphs of 2-3 operations; thousands of evaluations of random graphs (nested, failing, async) by the real evaluator under a controlled scheduler are validated event by event; schedules are sampled")
NOTES["C15"] = (TV, "results and execution counts of random programs applied eagerly, lazily and traced are validated against the meaning TLC computes; tensor operations have their own meaning in TensorOps.tla; programs are sampled")
NOTES["C16"] = (TV, "tracing is model-checked as a translation for all small programs with a nested function; thousands of random real programs (structures, repeated arguments, captures, nested func) are traced, re-evaluated and compared to the meaning TLC computes")
NOTES["C05"] = (TV, "the gather/release algorithms over shared per-peer counters are model-checked for all pairs (thorough: triples) of collectives over any participant sets of 3 parties; hundreds of random sequences run on the real wrappers over both communicators under a controlled scheduler and are validated event by event including every wire message")
NOTES["C06"] = (TV, "as C05 for declared-uniform predicates; real traced uniform_cond programs (top level and inside pcall) with recorded branch operations; schedules and plans are sampled")
NOTES["C07"] = (TV, "Simp.tla gives the sequential meaning of party-typed programs and is model-checked against a message-passing execution on small programs; thousands of random programs (nested control flow, dynamic placement, captures, parallel evaluation) are run on the real in-process cluster and simulator and every party's result is validated against the meaning TLC computes; programs and schedules are sampled")
NOTES["C08"] = (TV, "as C07; which party executed which operation, everything that crossed a party boundary (wires and what the driver sees) is recorded and must be explained by the program's own routing")
NOTES["C09"] = (TV, "the typing rules are part of Simp.tla and TLC proves on small programs that well-typed programs never get stuck; random well- and ill-placed programs are built with the real library and acceptance, result types and run-time holders are compared with the rules")
NOTES["C10"] = (TV, "Failure.tla (caller, parties, shutdown) is model-checked with liveness for both kinds of cluster; random programs with injected failures (operations, sends, receives, store accesses, slow parties) run on the real in-process cluster and on real HTTP workers over loopback; recorded events and outcomes are validated against Failure.tla and against the meaning of the program")
NOTES["C11"] = (TV, "Isolation.tla proves key separation for all short identifiers over the characters the derivation uses and absence of cross-talk for two requests one of which may stop anywhere; overlapping and successive requests with related, odd and learned identifiers run on real workers under a controlled scheduler and on real in-process and HTTP clusters, and each must be what the meaning of its own program says")
NOTES["C12"] = (TV, "Jobs.tla (submission, executor, publication, polling) is model-checked including liveness and the order of publication; real worker servers run hundreds of histories of concurrent submitters and pollers with random delays inside the worker's code, and every response is validated; interleavings are sampled")
NOTES["C13"] = (TV, "Transport.tla proves that every key over the special characters survives escaping, path normalisation and routing, and that malformed deliveries leave no trace; correct (library and hand-written) and malformed deliveries over odd keys and random values go to real HTTP workers and every answer and reception is validated")
NOTES["C17"] = (TV, "Serde.tla (writing with segments, reading, every cut) is model-checked for all terms to depth 2; every such term (thorough; quick: 2400 of 5737) and random values, types, settings and graphs are written with the real code in six forms, read back, cut at every byte (long ones: at hundreds), altered, and the histories validated; programs read back are also evaluated, and homomorphic contexts used")
NOTES["C25"] = (TV, "ContextStack.tla (blocks left normally or by exceptions, state searches) is model-checked for all nestings to depth 4; thousands of random nestings of real contexts (with-blocks, tracing hooks, traces, evaluations, pcalls, functions run by interpreters, exceptions at any point, state searches and root changes) are recorded and validated; the context of every applied operation is where it was really recorded or executed")
NOTES["C18"] = (TV, "Artifact.tla (compile, pack, alterations, unpack, run) is model-checked for all small graphs and pairs of alterations; hundreds of random multi-party programs are compiled with the real tool, altered in the fields and in arbitrary bytes, read back and run on real in-process clusters of every size; programs and damages are sampled")
NOTES["C24"] = (TV, "Tables.tla (accumulating reader, side-by-side readers, writer) is model-checked for every division into chunks in bounds; thousands of random reads and writes of real in-memory tables, streams, query results and Parquet/CSV/JSON files, with injected failures, are validated row by row; chunkings and contents are sampled")
NOTES["C19"] = (TV, "Store.tla (concurrent callers, processes that die in the middle of writing, reopening) is model-checked in bounds; thousands of histories of real stores in unprivileged processes (awkward and alike keys, threads, killed writers, full disks, unpicklable values, reopening, changed working directories, whole clusters restarted) are linearised by TLC; histories are sampled")
NOTES["C20"] = (TV, "StorePaths.tla (trees with links, resolution of keys, what each operation may change) is model-checked for all keys of up to three components over small trees; thousands of random histories run on real trees in unprivileged processes, with link chains, siblings, other filesystems and injected failures, and the complete tree before and after every operation is validated; table transfers of parties that share a working directory are validated against Store.tla")
NOTES["C21"] = (TV, "Devices.tla (values, moves, attested sessions, what each move sends) is model-checked step by step for two clusters with a curious network that may replace keys; hundreds of random clusters and programs (operation by operation and traced, evaluated repeatedly) run on real in-process clusters and every message, cryptographic step, execution and result is validated; a functional stand-in replaces libspu; programs are sampled")
NOTES["C22"] = (TV, "Cluster.tla is checked for all small descriptions and every one of them is replayed into the code (27,000, listed and built from objects); random larger descriptions and random programs without named devices (nested and keyword arguments, automatic moves on and off) are validated against Cluster.tla and Devices.tla")
NOTES["C23"] = (TV, "SpuLinks.tla (links kept by workers, their tags, kernels of several requests at once) is model-checked for overlapping parties; hundreds of random clusters with 1-5 secure devices run one to three requests, in turn or at once, on real worker interpreters over real in-memory and HTTP communicators under a controlled scheduler, and every engine message, link position, setting and result is validated; a functional stand-in replaces libspu; with engine endpoints (brpc) requests at once are a known finding")
NOTES["C29"] = (TV, "Encrypted.tla (plain meaning of every operation; terms for keys) is checked against an abstract ciphertext machine for all short operation sequences over small rings; 900 (thorough 12,000) random sequences per run, traced and eager, of BFV slots, Paillier sums, curve points, key agreement/derivation/authenticated encryption run on the real backends with results decrypted after every operation and validated by TLC; noise exhaustion and values beyond the plaintext modulus are outside; sequences are sampled")
NOTES["C26"] = (TV, "Mpc.tla gives each protocol's relation between the parties' inputs and outputs; MC_MpcOt runs transfer, extension, correlated products and expansion step by step over small groups and fields for all inputs (eight planted protocol faults are refuted); hundreds of random executions (kinds, lengths around block boundaries, roles, worlds of 2-4 parties, message types) run on the real in-process parties, half on the Python and half on the native kernels compiled from the working tree, and outputs and wire messages are validated; inputs are sampled; secrecy is judged as absence of clear values, not cryptographically")
NOTES["C27"] = (TV, "Mpc.tla states membership, pseudo-random function and key-value encodings; MC_MpcPsi runs the protocols symbolically for all small sets; hundreds of random executions of the three intersection protocols, encodings (to thousands of keys, repeated and contradictory keys, both kernel implementations), cuckoo tables and pseudo-random functions are validated; inputs are sampled")
NOTES["C28"] = (TV, "MC_MpcPerm proves the switching network for all permutations of up to 8 items and the sums for all groupings in bounds (five planted faults are refuted); random permutations and groupings (every small one, non powers of two, empty groups, all roles) run on the real parties and outputs and wire messages are validated")
