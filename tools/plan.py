"""Which parts make up the check of each property, with their budgets in seconds."""


def both(quick, thorough, **kw):
    return [dict(build="checked", quick=quick, thorough=thorough, **kw), dict(build="release", quick=quick, thorough=thorough, **kw)]


M = "runtime monitoring: "
PLAN = {
    "C01": dict(level="exploration", parts=both(12, 280), technique=M + "online reference-model monitor over random histories (checked + release build)"),
    "C02": dict(level="exploration", parts=both(14, 280), technique=M + "online reference-model monitor over random histories with reopen/sync/option changes"),
    "C03": dict(level="exploration", parts=both(14, 280), technique=M + "online reference-model monitor of index queries against full scans, on both stores"),
    "C04": dict(level="exploration", parts=both(12, 280), technique=M + "structural audit and re-creation probes after every deletion in random histories, on both stores"),
    "C05": dict(level="exploration", parts=both(12, 280), technique=M + "comparison of query results with an independent evaluator, on both stores"),
    "C06": dict(level="exploration", parts=both(10, 280), technique=M + "comparison of pages of range scans with a sorted model, on both stores"),
    "C07": dict(level="exploration", parts=both(10, 280), technique=M + "algebraic-law assertions on pairs and triples of values against an independent comparison"),
    "C08": dict(level="exploration", parts=both(16, 280), technique=M + "round-trip monitor of values through every store, image, reopening and gRPC lane"),
    "C09": dict(level="exploration", parts=both(10, 280), technique=M + "round-trip, order and collision monitors on encoded keys, cross-talk monitor on RocksDB"),
    "C10": dict(level="exploration", parts=[dict(build="checked", quick=14, thorough=300), dict(build="release", name="net", arg="net", quick=8, thorough=200)], technique=M + "accept/reject monitor against an independent predicate over all scalar values, at every entry point"),
    "C11": dict(level="exploration", parts=both(10, 250), technique=M + "uniqueness monitor over ids of concurrent generators; successor compared with big-integer arithmetic"),
    "C12": dict(level="exploration", parts=both(14, 280), technique=M + "recorded call/return histories checked for linearizability against the model"),
    "C13": dict(level="exploration", parts=both(16, 280), technique=M + "contended-writer runs judged by per-thread results, in-flight snapshots and a consistency audit at quiescence"),
    "C14": dict(level="exploration", parts=both(12, 280), technique=M + "image round trips through fresh processes compared with the model; synced state vs live state"),
    "C15": dict(level="fault_enumeration", parts=[dict(build="checked", quick=22, thorough=300), dict(build="release", quick=0, thorough=280)], technique=M + "syscall-level crash and fault injection (seccomp notification) at every file operation of a sync, recovered state checked"),
    "C16": dict(level="fault_enumeration", parts=[dict(build="checked", quick=22, thorough=300), dict(build="release", quick=0, thorough=280)], technique=M + "processes killed at chosen file operations and instants; recovered state must be a prefix state including all acknowledged writes"),
    "C17": dict(level="fault_enumeration", parts=[dict(build="checked", quick=22, thorough=300), dict(build="release", quick=0, thorough=280)], technique=M + "reopening monitor over killed creations, option changes, double opens and repairs"),
    "C19": dict(level="exploration", parts=both(14, 280), technique=M + "twin-database comparison of client and direct calls over a loopback server"),
    "C20": dict(level="exploration", parts=[dict(build="checked", quick=25, thorough=300), dict(build="release", quick=0, thorough=250)], technique=M + "mutated and truncated requests with status, no-change and liveness monitors"),
    "C21": dict(level="exploration", parts=both(14, 280), technique=M + "recorded histories of concurrent gRPC clients (with cancellations) checked for linearizability"),
    "C18": dict(level="exploration", parts=both(14, 280), technique=M + "twin-database comparison of bulk inserts with one-by-one creation, over all stores and the stream"),
    "C22": dict(level="exploration", builds=["plug", "server"], parts=[dict(build="checked", quick=18, thorough=280), dict(build="checked", name="server", arg="server", quick=8, thorough=120), dict(build="release", quick=0, thorough=200)], technique=M + "instrumented plugins and mappers observed in-process, through gRPC and through the real server binary"),
    "C23": dict(level="exploration", builds=["server"], parts=[dict(build="checked", quick=22, thorough=300)], technique=M + "command-line sessions against the real server binary compared with the reference graph, restarts and signals included"),
    "C24": dict(level="exploration", parts=both(14, 280), technique=M + "hostile calls and injected storage errors with before/after dumps, sentinel data and panic monitor"),
    "C26": dict(level="exploration", parts=both(8, 250), technique=M + "recorded databases of the released version opened and carried on under the reference-model monitor"),
    "C27": dict(level="exploration", parts=both(9, 250), technique=M + "independent hand-written implementation of the published protocol against the real server and the real client, judged by the reference model"),
    "C28": dict(level="fault_enumeration", parts=both(8, 250), technique=M + "instrumented reference datastore under the library: contract monitor over trait calls, model-checked answers, an error injected at every event in turn"),
    "C29": dict(level="exploration", parts=both(7, 200), technique=M + "queries built in random styles compared with an independent description and evaluator; law monitors on model types"),
    "C30": dict(level="fault_enumeration", parts=both(12, 270), technique=M + "stored files damaged in random places; answers judged by the reference model, contents audited after the damage is undone"),
    "C31": dict(level="exploration", parts=both(8, 220), technique=M + "transactions of many calls with interleaved and abandoned readers, judged call by call by the reference model; isolation monitor under threads"),
    "C32": dict(level="fault_enumeration", parts=[dict(build="checked", quick=22, thorough=300), dict(build="release", quick=0, thorough=280)], technique=M + "fsync-aware power-failure simulation at file operations of watched processes; recovered state must include all that was synced"),
    "C25": dict(level="exploration", parts=[
        dict(build="asan", name="lsan", arg="lsan", quick=12, thorough=150),
        dict(build="asan", name="net", arg="asan", quick=12, thorough=150),
        dict(build="tsan", name="threads", arg="tsan", quick=12, thorough=150),
        dict(build="miri", quick=20, thorough=300),
        dict(build="memcheck", quick=18, thorough=200),
        dict(build="checked", name="heap", arg="heap", quick=18, thorough=120),
    ], technique="AddressSanitizer, LeakSanitizer, ThreadSanitizer, Valgrind Memcheck and Miri over the workloads; live-heap growth monitor"),
}
RULES = {
    "C01": "Random operation histories on an in-memory database, compared step by step with an independent reference graph (return values, every few steps full dumps through queries and the transaction trait). A case is a completed operation; it is distinct by (operation and query shape, size class of the graph, number of indexed properties) or by final graph; queries on an empty graph are not counted as non-trivial.",
    "C02": "As C01 on RocksDB, with closing/reopening under changing options and syncs at random points, part of the time in several processes that take turns. A case is a completed operation; distinct by (operation and query shape, graph size class, index count) or final graph.",
    "C03": "Index-heavy histories on both stores with presence, value and piped filter queries compared with a scan of the model's properties, part of the time in several processes that take turns. A case is a completed operation; distinct as in C01.",
    "C04": "Delete-heavy histories over dense multigraphs; after deletions the whole database is dumped in both directions and deleted vertices and edges are re-created to see that nothing comes back. A case is a completed operation or probe; distinct as in C01.",
    "C05": "Random query trees on random graphs, compared with an independent evaluator (outputs, their number and order where specified). A case is an evaluated query; distinct by query shape and size class of the graph.",
    "C06": "Range queries and pagination over id populations around byte boundaries with all page sizes. A case is one range query or page; distinct by (population shape, limit, start position, type filter).",
    "C07": "Equality, ordering and hashing laws on all pairs and sampled triples of a pool of related values, and sampled random values. A case is one law on one pair or triple; distinct by the operands.",
    "C09": "Encodings of random and extreme key components: round trip, order, prefix-freeness, and neighbours stored side by side in RocksDB. A case is one encoding or one stored neighbour; distinct by components.",
    "C10": "Every Unicode scalar value in several positions, all lengths around the limits and random strings, at every entry point that takes an identifier. A case is one offered string; distinct by (entry point, string class).",
    "C11": "Ids generated by several threads at once are all different; successors equal big-integer increments. A case is one id or one successor; distinct by batch and by carry length.",
    "C12": "Short histories of 2-4 threads on one in-memory database, recorded with call/return stamps and checked with a linearizability search, plus longer runs with group-atomicity monitors. A case is one recorded operation; distinct by the order of calls and returns and their results.",
    "C13": "Short contended runs of writers and readers on one RocksDB database, judged by results, snapshots and audits, and duels of three writers whose outcome must be explained by an interleaving. A case is one recorded operation; distinct by overlapping kinds and results.",
    "C08": "Values of every shape (numbers at type boundaries, strings of all kinds, nesting, names that clash with encodings) written in every way and read back in every way on each lane. A case is one value read back; distinct by lane and value.",
    "C14": "Random databases synced and read back by a fresh process or a second handle, under random edits around the sync. A case is one image read back; distinct by its contents' size class and hash.",
    "C15": "Every file operation of a sync is made to fail, to be cut short or to be the last thing the process does, in turn; afterwards the image must be the old or the new state. A case is one such sync; distinct by (operation, fault, position).",
    "C16": "Children that write to RocksDB and report each acknowledged operation are killed at chosen file operations or instants; a fresh process compares what is stored with all admissible states. A case is one killed run; distinct by (kind of kill, position, last operation).",
    "C17": "Creations and reopenings killed at each file operation, option changes, double opens from the same and another process, repair of closed and damaged databases. A case is one reopening; distinct by (kind, position, outcome).",
    "C19": "The same random history applied through the gRPC client and directly to a twin database of both kinds; converters exercised on their own. A case is one call; distinct by operation shape and result class.",
    "C20": "Requests with every field of every method spoiled in turn, unevaluable queries, garbled messages, abandoned and cut streams. A case is one such request; distinct by (method, field, defect) or stream shape.",
    "C21": "Histories of concurrent clients recorded and checked as in C12, with abandoned calls and dropped connections. A case is one recorded call; distinct as in C12.",
    "C18": "The same items inserted in bulk (directly, by transaction, through the gRPC stream with its buffering, through reopened and indexed databases) and one by one into a twin; both dumped and compared. A case is one inserted item list; distinct by (lane, shape of the list, number of items).",
    "C22": "Vertex mappers with delays, errors and panics at chosen vertices on both stores; plugin calls with arguments of all kinds through gRPC; plugin writes compared with the reference graph; plugin reads racing writers; loading of good, mismatched and broken libraries in-process and by the server binary. A case is one call, mapped run or load; distinct by (lane, kind, outcome).",
    "C23": "Sessions of CLI commands (every subcommand, valid and invalid arguments) against the server binary with each datastore, with syncs, kills and restarts; outputs, exit codes and stored state compared with the reference graph. A case is one command; distinct by (command, outcome class, store).",
    "C24": "Random calls with every argument the types admit (orphans, extremes, repeated and conflicting items, deep values and queries) on six lanes; each call's outcome compared with dumps before and after and with untouched sentinel data; RocksDB writes failed by injected errno. A case is one such call; distinct by (lane, call kind, accepted, changed something).",
    "C25": "Workloads under AddressSanitizer+LeakSanitizer (both stores, gRPC), ThreadSanitizer (in-memory store, plugin mapper, identifiers, gRPC; instrumented std), Valgrind Memcheck (RocksDB and in-memory store, for uninitialised memory where Miri cannot run) and Miri (in-memory store, tree borrows, seven schedules), judged by their reports and by every returned identifier being valid UTF-8; and a counting allocator, file, thread and row counts over thousands of rounds that end with an empty graph. A case is one operation under instrumentation; distinct by operation kind, outcome, final graph or round.",
    "C26": "Recorded databases (RocksDB directories closed or abandoned, images; written by the released version and by the version as first repaired) opened, compared with the graph recorded with them, searched by every index, and carried on with random histories, re-creations and reopenings. A case is one element, index value or operation; distinct by (database, operation and query shape, size class) or final graph.",
    "C27": "Histories driven over hand-written messages in five writing styles against the real server on both stores, and by the real client against a hand-written server that answers from the reference graph. A case is one call; distinct by (role, store, method, style, shape of the operation, result class).",
    "C28": "Operations of every kind over a third-party datastore, directly and behind the gRPC server, clean and with each trait call or iterator element of the operation failed in turn. A case is one operation run; distinct by (lane, operation shape, event that failed, outcome).",
    "C29": "Query trees built in random styles with options repeated and reordered, and values of the model types with all their conversions. A case is one query or value; distinct by shape and style.",
    "C30": "Populated RocksDB directories with one or two damaged table files, or a damaged log, under queries, writes and range scans. A case is one operation on a damaged database or one opening of a damaged log; distinct by (operation, outcome, kind of refusal) or recovered prefix.",
    "C31": "Transactions of one to forty calls of the trait on both datastores (several open side by side on RocksDB), with several readers stepped alternately or dropped, a full dump after each group and reopenings between; threads contending for in-memory transactions. A case is one call; distinct by (kind of call, graph).",
    "C32": "Children that write and sync under observation of their file operations; at chosen operations copies are made that hold of every file only what was flushed to disk (and, at random, parts of what was not), opened by a fresh process and compared with the admissible states. A case is one such copy; distinct by (store, kind of operation, position, what was lost, outcome).",
}
ASSUME = {
    "*": ["held on the executions counted here, not on all executions", "librocksdb, tonic, tokio, serde and the Rust standard library are exercised as they are, not monitored themselves"],
}
NOTES = {
    "*": "Held on the executions counted in the evidence file; trusts the harness's reference model and the generators' reach.",
}
NA = {}
