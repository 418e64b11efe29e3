SPECS = [
 ("Comm", "mailboxes, sends, receives with deadlines, shutdown; a timeout and an arrival may race"),
 ("Requests", "request handles: test/wait/wait_any/wait_all by several clients"),
 ("CommKeys", "message keys of logical exchanges: same at both ends, different for different exchanges"),
 ("Collectives", "gather/release collectives over any participant sets, shared per-peer counters, uniform predicates"),
 ("DagEval", "parallel evaluation of an operation graph: ready set, completion in any order, failure"),
 ("Tracing, TensorOps", "meaning of expression programs, traced programs and tensor operations"),
 ("Simp", "meaning of party-typed programs, typing rules, message-passing execution"),
 ("Failure", "caller, parties and shutdown with failing and waiting parties, for both kinds of cluster"),
 ("Isolation", "several requests on the same workers; derivation of message keys from identifiers"),
 ("Jobs", "asynchronous jobs: submission, execution, publication of the outcome, polling"),
 ("Transport", "messages over HTTP: escaping, normalisation and routing of keys, malformed deliveries"),
 ("Serde", "values as terms, written as tagged text or as a container with segments, read whole, cut or with foreign tags"),
 ("ContextStack", "nested contexts: entering, leaving normally or by exceptions, searching, root context"),
 ("Artifact", "compiled programs as artifacts: compile, pack, alter, unpack, run"),
 ("Devices", "devices over workers, the device of an operation, moves between plain, secure and trusted devices, sessions with attested keys, the network as adversary"),
 ("Cluster", "cluster descriptions: consistency, ranks, conversion to dictionaries"),
 ("SpuLinks", "secure kernels: links kept by workers, tags, kernels of several requests at the same time"),
 ("Encrypted", "plain meaning of homomorphic, curve, key and cipher operations; abstract ciphertext machine"),
 ("Mpc", "oblivious transfer, its extension, VOLE, pseudo-random functions, private set intersection, key-value encodings, oblivious permutation and grouped sums as relations between the parties' inputs and outputs; the protocols step by step over small domains"),
 ("Store", "object stores as maps with overlapping callers, dying writers, reopening"),
 ("StorePaths", "file trees with links: where a key leads, what an operation may change"),
 ("Tables", "reading tables in batches over any division into chunks; side-by-side writing with failures"),
]
PROPS = {
"C01": "Comm.tla: state = mailbox per party, outstanding receives, clock, closed flag. Checked: each message is received at most once, by a receive naming it; a second message under an undelivered key is an error. Bound to ThreadCommunicator and HttpCommunicator under the controlled scheduler (several senders and receivers on the same mailbox). Tests only use quiet mailboxes.",
"C02": "Comm.tla with deadlines: a receive returns the message or times out at (not before) its limit; shutdown releases waiters; send outcomes map peer responses. Histories of the real communicators with virtual time, shutdown at any point and a fake peer that accepts, refuses, stalls or drops.",
"C03": "Requests.tla: every handle completes once; wait/test/wait_any/wait_all answers must be linearisable against it. Real handles, 1-3 clients, any completion order.",
"C04": "CommKeys.tla: the logical place of an exchange (context path, pair, position) determines its key and two places never share one. Keys recorded on the wire from real contexts and the async scheduler are checked for pairing and uniqueness.",
"C05": "Collectives.tla: algorithms of the library over per-peer counters, checked for pairs/triples of collectives over all participant sets of 3 parties; random sequences on the real wrappers over both communicators.",
"C06": "Collectives.tla, predicate agreement: a disagreement is an error at every participant before any branch operation; agreement gives the common branch. Real uniform_cond programs, with recorded branch operations.",
"C07": "Simp.tla: `Meaning` of a party-typed program (pcall static/dynamic, shuffle, converge, uniform_cond, while_loop, collectives), model-checked against a message-passing execution. Random programs are built with the public API, run on the simulator and worker interpreters under the scheduler; TLC computes what every party must hold.",
"C08": "As C07 with the recorded wire and driver traffic and executed operations: everything that crosses a boundary must be explained by a route of the program.",
"C09": "Simp.tla's typing rules decide acceptance (iff) and holder sets; random well- and ill-placed programs.",
"C10": "Failure.tla with liveness; fault plans over operations, sends, receives, store accesses and slow parties on the real in-process cluster and real HTTP workers.",
"C11": "Isolation.tla (identifier escaping, two requests one of which may stop anywhere) and Simp.tla per request (each must be what its own program means). Related, odd and learned identifiers; overlapping and successive requests.",
"C12": "Jobs.tla. The executor stores outcome and status separately, so the order matters; TLC refutes the wrong order. Real servers with concurrent submitters and pollers; each response carries which submission's outcome it shows, so mixing up outcomes is seen too.",
"C13": "Transport.tla. Keys over the special characters of URLs, correct deliveries by library and by hand-written clients of the documented protocol, 22 kinds of malformed deliveries, unsendable values, background sends.",
"C14": "DagEval.tla for all graphs of 2-3 operations; real evaluator under the scheduler with random graphs, async subsets, failures, nesting.",
"C15": "Tracing.tla/TensorOps.tla meaning; the same program applied eagerly, lazily and traced, execution counts recorded.",
"C16": "Tracing.tla: tracing as a translation, checked for all small programs with a nested function; random structures, captures, repeats.",
"C17": "Serde.tla: a codec as a map from texts to values; terms enumerated by TLC and random real values are written, read, cut short and altered.",
"C18": "Artifact.tla: compile/pack/alter (up to two fields; thorough three)/unpack/run as a machine; random programs are compiled with the real tool, their artifacts altered field by field (with and without a fitting digest), damaged byte by byte, and run with right and wrong arguments and on clusters of every smaller size.",
"C19": "Store.tla: a map of references with overlapping callers, writers that die, listings made meanwhile and reopening. Real histories (keys that are alike or awkward, spellings, threads, killed writers, full disk, unpicklable values, changed working directory, whole clusters that restart) run in forked unprivileged processes and TLC searches a linearisation.",
"C20": "StorePaths.tla: trees of directories, files and links, where a key leads and what an operation may change. Real trees (links, chains, loops, siblings with a common prefix, another filesystem) and random operations with injected failures; the whole tree before and after each operation is validated (unprivileged forked processes, scratch directories only). Table reads and writes of parties sharing a working directory are linearised against Store.tla.",
"C21": "Devices.tla: which moves an operation needs and what they send; MC_Devices executes them step by step with a network that sees ciphertexts and may replace keys (six planted protocol faults are refuted). Random clusters (1-7 devices over 2-5 workers, several devices per worker, odd names) and programs run for real; every message is classified (clear with its value, share with its index, ciphertext, quote, key, engine), every key operation recorded, and TLC decides whether they are explained by the program: provenance of each session key within its program, nonces never repeated, each share to its own party, values and places of results. Values of all types and shapes travel through plain and trusted devices.",
"C22": "Cluster.tla: consistent descriptions and the ranks they give; every small description (three nodes, duplicate, unknown and missing members, wrong counts, wrong keys and ranks) is enumerated by TLC and replayed, larger ones are random, with conversion to a dictionary and JSON and back. The rule for the device that is inferred (Devices.tla) is checked for all sets of inputs and decides random programs without named devices.",
"C23": "SpuLinks.tla: sessions per device, which parties are linked in which order.",
"C23": "SpuLinks.tla: workers keep links under a key, kernels send to all others and then receive; messages reach only the parties and the kernel they are of, nothing waits for ever (three planted faults are refuted). Programs on clusters with overlapping secure devices (also the same parties in another order or with other settings) run as one to three requests with related names on real workers; TLC checks the parties, position, size and settings of every link, that each kernel exchanges messages with exactly the other parties and receives what that kernel sent there, that no other message has the same key, and all results. With brpc the children of a template link are numbered by the order in which requests arrive at each worker: shown deterministically and recorded as a known finding (libspu's own API decides how a child can be named, and it is not installed here).",
"C24": "Tables.tla: the accumulating reader over every division of up to 6 (thorough 8) rows into chunks, two side by side with failures at any batch; random real tables, streams, queries and files of three formats are read in batches, written side by side (also across the real batch size of a million rows, and with failures of sources, writers and closing) and read back through the library and by another reader.",
"C25": "ContextStack.tla: open blocks of the program text against the stack the library keeps; random nestings of real contexts (with, hooks, traces, evaluations, pcalls, exceptions) tell the current context, where operations went and what searches find.",
"C26": "Mpc.tla: outputs as relations of inputs (chosen message per position; w = v + u*delta in the field). MC_MpcOt runs base transfer, extension, Gilboa products and the expansion step by step over small groups and fields, for all inputs; eight planted faults (plain choices, one key for both messages, no mask, wrong correction, ...) are refuted. Real executions over random worlds, roles, lengths, values; half on kernels compiled from the working tree's C++ sources, half on the Python kernels; everything on the wire is searched for inputs in clear.",
"C27": "Mpc.tla: membership vectors, encodings, pseudo-random functions. MC_MpcPsi runs the intersection symbolically for all small sets (missing mask and missing hash refuted). Real executions of the three protocols, of key-value encodings (0 to thousands of keys, repeated, contradictory and extreme keys) on both kernel implementations, of cuckoo tables and the oblivious PRF with inputs that differ in few bits. Found three defects (repaired).",
"C28": "Mpc.tla: the switching network (MC_MpcPerm checks it for all permutations; missing inverse, missing switch, wrong direction refuted), grouped sums for all groupings. Every small permutation and random larger ones, all groupings of few rows and random ones, aggregation inside ciphertexts; outputs and wire messages of the real parties.",
"C29": "Encrypted.tla: the plain meaning of every operation (vectors of slots modulo t with centred residues, rotations and row swaps; integer vectors; multiples of the generator; symbolic keys). MC_Encrypted runs an abstract ciphertext machine (ciphertexts with randomness, cancellation, transparent results, residues) beside it for all short sequences over small rings; five planted faults are refuted. Random sequences of 6-20 operations per scheme, traced and eager, run on the real BFV, Paillier, secp256k1, X25519/HKDF/AES-GCM/SHA-256 backends: every intermediate result is decrypted (or compared with points computed apart from the library) and TLC follows the sequence. Included: zeros, cancellations (x - x, P - P, P + (-P)), identities, negative scalars, long rotations, values at the ends of the plaintext range, both slot rows, values sent through serialisation, altered and cut ciphertexts, other keys, alike infos. Keys, hashes and ciphertexts are compared by class: equal if and only if the terms are.",
}
ALARMS = """
- C26/C28: the search for inputs in clear on the wire at first reported values that occur by chance (a delta of few bits, a sum equal to an input, short values). Only inputs with enough entropy, and messages of their size, are now compared.
- C26: the Silver protocol is documented as a demonstration that is wrong at its noise positions. The statement of C26 says so.
- C27: the optimised "mega-binning" encoding (`field.solve_okvs_opt`) is not used by any protocol and fails for some large sets; it is outside the statement (see limits).
- C15: eager application of an operation without results does not execute it at all (`Interpreter.bind_primitive`). The property promises "at most once"; the specification was weakened from "once" to that.
- C10/C11: the in-process cluster ends with its first failed request (documented fail-fast behaviour). The statement of C11 was corrected to say so.
- C11: requests without an identifier share the context "anonymous"; the property speaks of different identifiers only.
- C13: keys with line breaks are not delivered by the route pattern. The property covers printable keys; the generator was restricted to them.
- C19/C20: early versions of the traces specification did not know that a key beneath another one is refused, that a directory of tables reads as a table, that links which dangle or loop on the way make an operation fail, that a failed removal of the source leaves a complete upload behind, and that relative links change their target when a directory is moved. The specification was corrected each time.
- C17: a flipped bit inside a data segment of the binary container cannot be noticed (there is no checksum). The statement was corrected to truncation, length and structure damage and unknown tags.
"""
CAUGHT = {}
LIMITS = """
- C26-C28: parties with native and parties with Python kernels do not interoperate (documented approximation), so all parties of a run use the same kernels. `field.solve_okvs_opt`/`decode_okvs_opt` are not used by the protocols and are not claimed: some of their bins fail to peel near 200,000 keys.
- Schedules, programs and inputs of the conformance part are sampled; the models are exhaustive only within their constants.
- The asynchronous executor passed to workers is assumed to be large enough for the operations that block at once (the library documents no bound).
- Confidentiality is checked as "what is transmitted is explained by the program / is not the plaintext", not cryptographically.
- The stand-in for libspu does not validate SPU's own protocols.
- The context stack of the library is global to the process; programs are traced by one thread at a time.
"""
