import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
L="lib/src/"
p("C01","In-memory database behaves as a property graph",
"Every operation on an in-memory database returns what a plain mathematical property graph (a map of typed vertices, a set of typed directed edges between existing vertices, a map of named JSON properties per vertex and edge, a set of indexed names) would return after the same history of successful operations. Creating a vertex whose id exists reports false and changes nothing, creating an edge with a missing endpoint reports false and changes nothing, re-creating an existing edge keeps its properties, and setting a property replaces exactly that property of exactly the selected owners. This holds with debug assertions on and off.",
["histories","inputs","configurations"],"all finite histories of create/bulk-insert (items referring to existing owners)/set/delete/index/get calls over all ids, types, names and JSON values; debug and release builds",
"Each unit test runs one short hand-written history on fresh random ids, in a debug build only; interactions of steps (re-create after delete, overwrite, self loops, shared prefixes, extreme ids) are never combined.",
[L+"memory/datastore.rs",L+"database.rs"],[("BTreeMap/BTreeSet state behind one mutex",L+"memory/datastore.rs InternalMemory"),("shared query engine",L+"database.rs query()")],
["return value of every Database method","full dump (all vertices, edges, both edge directions, all properties, counts) after each step"],
[("vertices/edges/properties","the graph",L+"memory/datastore.rs"),("reversed_edges","mirror used for inbound traversal",L+"memory/datastore.rs")])
p("C02","RocksDB database behaves as the same property graph, across reopening",
"Every operation on a RocksDB-backed database returns what the same mathematical property graph would return after the same history, so it is interchangeable with the in-memory database. Closing and reopening it, syncing it, or opening it with different tuning options at any point of the history changes no later answer, including which properties are indexed.",
["histories","inputs","configurations"],"all histories as for the in-memory store, interleaved with close/reopen/sync at any point and any valid open options; debug and release builds",
"The shared test-suite runs short histories on a fresh directory, and only one test reopens a database (two vertices, one edge).",
[L+"rdb/datastore.rs",L+"rdb/managers.rs",L+"util.rs",L+"database.rs"],[("column families with composed byte keys",L+"rdb/managers.rs"),("write batches",L+"rdb/datastore.rs"),("indexed-property set persisted in metadata CF",L+"rdb/managers.rs MetadataManager")],
["return value of every Database method","full dump before and after reopen"])
p("C03","Property indexes tell the truth",
"For an indexed property, the presence and value queries (and the presence/value filters over a piped selection, including their negations) return exactly the existing vertices or edges that currently carry the property, respectively carry it with exactly that JSON value, each once. The answer does not depend on whether the property was indexed before or after the data was written, how often values were overwritten, deleted or bulk-inserted, or how vertices, edges and their properties were removed. A query on a property that was never indexed fails instead of returning a wrong answer.",
["histories","inputs","configurations"],"all histories that mix index creation with set, overwrite, bulk insert, property delete, edge delete, vertex delete and re-creation, on both stores, in debug and release builds, across reopen and image reload; all JSON values (also nested and near-identical ones)",
"Tests index one property, set one or two values and look once; they run in debug builds, where index maintenance hidden in a debug assertion still happens.",
[L+"memory/datastore.rs",L+"rdb/managers.rs",L+"rdb/datastore.rs",L+"models/json.rs",L+"database.rs"],[("value index maps",L+"memory/datastore.rs property_values"),("*_property_values column families keyed by a 64-bit hash of the value",L+"rdb/managers.rs *PropertyValueManager"),("deletion of the old index entry before a set",L+"rdb/managers.rs set()")],
["VertexWithPropertyPresence/Value, EdgeWithPropertyPresence/Value, PipeWithPropertyPresence/Value results vs. a scan of actual properties"])
p("C04","Deletion cascades completely and removes nothing else",
"Deleting a vertex removes it, every edge that starts or ends at it (self-loops included), and every property and index entry of those edges and of the vertex; deleting an edge removes it from both traversal directions together with its properties; deleting a property removes only that property. Everything else is untouched: at all times every edge has both endpoints, the outbound and inbound views contain the same edges, and re-creating a deleted vertex or edge starts it without properties.",
["histories","inputs"],"all graphs (multi-edges of different type, both orientations, self loops, adjacent/extreme ids, prefix-related type names) and all delete queries, on both stores, after any history",
"Tests delete a single vertex or edge of a tiny graph and check counts from one direction; leftovers only visible from the other direction, through an index or after re-creation are not looked for.",
[L+"memory/datastore.rs",L+"rdb/managers.rs",L+"rdb/datastore.rs",L+"database.rs"],[("delete_vertices / delete_edges cascades",L+"memory/datastore.rs"),("VertexManager::delete, EdgeManager::delete",L+"rdb/managers.rs")],
["all_edges, edge_count, range_edges, range_reversed_edges, pipes from every vertex in both directions, property reads and index queries after each delete"])
p("C05","Queries compose: pipes, filters, limits, counts and includes",
"The answer of any composed query is the composition of the answers of its parts: a pipe yields the edges of (or vertices at the chosen end of) each piped element in order, a type filter keeps exactly the elements of that type, a limit keeps exactly the first that many elements after filtering (zero keeps none), and a property pipe yields the stored properties of each element that has any. A count equals the number of elements the inner query returns, each included inner query adds exactly its own output before the final one, and a composition that makes no sense is rejected with an error rather than answered.",
["inputs","programs"],"all query trees of any depth over all graphs, with all limits (0..u32::MAX), directions, type filters, include/count placements, on both stores",
"Tests cover a handful of fixed one- or two-step queries on one small graph with mostly default limits.",
[L+"database.rs",L+"models/queries.rs"],[("recursive query evaluation",L+"database.rs query()"),("builder-time output-type checks",L+"models/queries.rs QueryExt/CountQueryExt"),("output_len accounting",L+"models/queries.rs Query::output_len")],
["Vec<QueryOutputValue> of Database::get","errors of the builders and of get/delete/set_properties"])
p("C06","Range scans enumerate every vertex once, in order",
"Scanning vertices with a start id and a limit returns, in ascending id order, exactly the first that many existing vertices (of the requested type, if any) whose id is at or above the start id. Paging through the whole id space by restarting just after the last id seen therefore visits every vertex exactly once, for any page size and also at the smallest and largest ids; the trait-level vertex and edge range scans likewise return exactly the elements at or above their offset.",
["inputs","histories"],"all vertex/edge populations (dense, sparse, byte-boundary and extreme ids), all offsets, limits and types, both stores",
"One test pages once over five random vertices.",
[L+"database.rs",L+"memory/datastore.rs",L+"rdb/managers.rs",L+"util.rs"],[("BTreeMap::range / RocksDB iterator from key","range_vertices, range_edges, range_reversed_edges"),("next_uuid",L+"util.rs")],
["RangeVertexQuery results page by page","Transaction::range_vertices/range_edges/range_reversed_edges"])
p("C07","JSON values compare and hash coherently",
"Equality, ordering and hashing of property values are coherent: equality is reflexive, symmetric and transitive, comparison is antisymmetric and transitive and agrees with equality, equal values always hash alike, and values of different JSON types are never equal. Structurally different strings, arrays and objects are never equal.",
["inputs"],"all pairs and triples of JSON values, including integers at 64-bit limits, integral and fractional floats, nested and empty containers",
"The two unit tests check about thirty literal pairs.",
[L+"models/json.rs"],[("custom partial_cmp and hash",L+"models/json.rs")],["Json == / partial_cmp / Hash"])
p("C08","Property values are stored and returned unchanged",
"A JSON value that was accepted as a property value is returned unchanged (same structure, types, strings, numbers and key/value pairs) by every later read, whichever way it was written and read: direct set or bulk insert, named or all-property read, through the in-memory store, its persisted image, RocksDB before and after reopening, or gRPC. It stays so until that property is overwritten or its owner deleted.",
["inputs","configurations","histories"],"all JSON values (all nesting shapes, escapes and Unicode, 64-bit integer limits, finite floats, large values) on all storage and transport paths",
"Tests store booleans, small integers and one short string.",
[L+"models/json.rs",L+"rdb/managers.rs",L+"memory/datastore.rs","proto/src/converters.rs"],[("serde_json text in RocksDB",L+"rdb/managers.rs"),("msgpack image",L+"memory/datastore.rs"),("JSON text field in gRPC","proto/src/converters.rs")],
["value read back, compared structurally and by serialised bytes"])
p("C09","Storage key encoding is faithful",
"Composing ids, identifiers, strings and JSON values into a storage key and reading the components back returns the same components. Distinct sequences of ids and identifiers of the same shape have distinct encodings, no encoding of an owner is a proper prefix of a different owner's, and byte order of encoded ids equals id order; equal JSON values always encode alike.",
["inputs"],"all ids, all identifiers of length 0..=255 bytes (also multi-byte characters), all component sequences used as keys",
"No test reads back an encoded key; only fixed ids and short ASCII names are ever used.",
[L+"util.rs",L+"rdb/managers.rs"],[("length-prefixed identifiers, big-endian ids",L+"util.rs Component"),("read_uuid/read_identifier/read_fixed_length_string/read_u64",L+"util.rs")],
["util::build and util::read_* outputs","cross-talk between owners with adversarially related keys in a RocksDB database"])
p("C10","Only valid identifiers enter the system",
"A string is accepted as a vertex type, edge type or property name if and only if it is at most 255 bytes long and consists only of Unicode letters, digits, dashes and underscores; otherwise a validation error is returned. This holds at every checked entry point (constructor, string conversions, gRPC requests, command line), and an accepted identifier always reads back as exactly the given string, equal only to identifiers with the same string and ordered like it.",
["inputs"],"all strings (empty, boundary lengths in bytes and characters, all Unicode classes, control and separator characters) at each entry point",
"Tests try three strings at the constructor.",
[L+"models/identifiers.rs","proto/src/converters.rs","client/src/main.rs"],[("Identifier::new validation",L+"models/identifiers.rs"),("interning",L+"models/identifiers.rs"),("TryFrom conversions","proto/src/converters.rs")],
["Identifier::new / from_str / try_from results","gRPC status for each request carrying the string"])
p("C11","Generated vertex ids are unique and the id successor is exact",
"Ids generated for new vertices never repeat within a process, for any number of threads generating them concurrently, so creating a vertex by type never fails for lack of a fresh id and never overwrites a vertex. The successor of an id is the numerically next one, and asking for the successor of the largest id is an error.",
["schedules","inputs"],"all interleavings of any number of generating threads within the generator's tick rate; all ids for the successor",
"The test generates two ids on one thread and increments one id.",
[L+"util.rs",L+"models/vertices.rs",L+"database.rs"],[("shared UUIDv1 context with atomic counter",L+"util.rs generate_uuid_v1"),("next_uuid carry loop",L+"util.rs")],
["ids returned by concurrent create_vertex_from_type / Vertex::new / generate_uuid_v1"])
p("C12","In-memory database is linearizable",
"Operations issued concurrently by any number of threads on one in-memory database appear to take effect one at a time, each at some instant between its call and its return, with exactly the sequential results. In particular a query, a multi-element delete or set, and a bulk insert each see and leave one consistent state, never part of another operation.",
["schedules","histories"],"all interleavings of concurrent create/get/set/delete/bulk-insert/index/sync calls from several threads",
"All tests are single-threaded.",
[L+"memory/datastore.rs",L+"database.rs"],[("one mutex held for the life of a transaction",L+"memory/datastore.rs MemoryDatastore::transaction"),("query and its write done in the same transaction",L+"database.rs delete/set_properties")],
["timestamped call/return history checked against the sequential graph model"])
p("C13","Concurrent writers leave a RocksDB database consistent",
"Under any interleaving of concurrent writers on one RocksDB database no operation fails or panics, every acknowledged write whose owner was not touched by another writer is present, exactly one of several concurrent creations of the same vertex id reports success, and each bulk insert or multi-element write becomes visible as a whole; the final state and results are those of some order of the individual selections and writes. Once the writers are done the database is consistent: every edge has both endpoints, both edge directions agree, no property belongs to a missing owner, and every index query agrees with the stored properties.",
["schedules","histories"],"all interleavings of concurrent create/set/delete/bulk-insert/index/get/sync calls from several threads sharing few keys",
"All tests are single-threaded.",
[L+"rdb/datastore.rs",L+"rdb/managers.rs"],[("write batches",L+"rdb/datastore.rs"),("RwLock over the indexed-property set",L+"rdb/datastore.rs"),("writer serialisation",L+"rdb/datastore.rs RocksdbTransaction")],
["per-thread results and a full consistency audit at quiescence; snapshots read during the run"])
p("C14","A persisted image restores the database exactly",
"Reading the image written by a sync gives a database that answers every query exactly as the synced one did and behaves the same under every further operation (including index maintenance), however many sync/read/modify cycles are chained. Changes after the last sync are not in the image, and reading or syncing never alters the in-memory state.",
["histories","inputs"],"all database contents (all id, identifier and JSON shapes, indexes, empty and large databases) and all chains of sync, reload and further operations",
"One test persists one vertex with one boolean property.",
[L+"memory/datastore.rs",L+"models/json.rs",L+"models/identifiers.rs"],[("rmp-serde image of the whole state",L+"memory/datastore.rs sync/read_msgpack_db")],
["full dump and index queries before sync and after read_msgpack_db, and after identical follow-up operations"])
p("C15","Sync replaces the image atomically or reports failure",
"A sync either leaves a complete image of the current state at the configured path and reports success, or reports an error and leaves the previous image intact; a process that dies at any moment during a sync leaves the previous or the new image complete. A sync reported successful is always readable, wherever the configured path is, and an unwritable or full target is reported as an error, not as success.",
["crash_points","fault_sequences","configurations"],"every system call of a sync as crash point; write, create and rename failures (no space, size limit, missing directory) at each point; image paths on any filesystem, relative or absolute",
"One test syncs once with no fault.",
[L+"memory/datastore.rs"],[("temporary file + rename",L+"memory/datastore.rs sync"),("buffered writer",L+"memory/datastore.rs sync")],
["exit status/result of sync and the image read back after each injected fault or kill"])
p("C16","RocksDB writes survive process death, each all or nothing",
"After the process is killed at any instant, reopening a RocksDB database yields the state after some prefix of the operations issued in order by a single writer, containing at least every operation that was acknowledged before the kill. A bulk insert, cascading delete, multi-owner set or index creation is in that state completely or not at all, and the reopened database is internally consistent.",
["crash_points","histories"],"kills at every write-related system call and at arbitrary times, during all operation histories including sync/compaction; several crash/reopen rounds",
"No test kills a process or reopens after an unclean shutdown.",
[L+"rdb/datastore.rs",L+"rdb/managers.rs"],[("one write batch per operation through the WAL",L+"rdb/datastore.rs"),("recovery on open",L+"rdb/datastore.rs new_db")],
["state dump after reopen compared with the model's prefix states; acknowledgement log written by the dying process to a pipe"])
p("C17","A RocksDB directory can always be opened again",
"Creating a RocksDB database can be interrupted at any moment and opening the same directory again then succeeds with a usable, empty or complete database. Opening an existing directory never discards data or indexed properties, a second concurrent opening of a live database is refused without harming it, and repair of a closed database keeps all its contents.",
["crash_points","fault_sequences","configurations"],"every system call during the first creation and during reopening as crash point; open, reopen, repair, double-open in any order, with any valid options",
"Tests open fresh directories, reopen one, and repair an empty one.",
[L+"rdb/datastore.rs"],[("open_cf with fallback to creation of the column families",L+"rdb/datastore.rs new_db/new_db_with_options"),("repair",L+"rdb/datastore.rs repair")],
["result of reopening after each crash point and a full dump afterwards"])
p("C18","Bulk insert equals inserting one by one, as a unit",
"Bulk-inserting a list of items leaves the database exactly as if the items had been applied one at a time in the given order (later values for the same property win, indexes included), for lists of any length and mixture, locally or streamed over gRPC. If the call reports an error because an item is invalid, none of the items is applied.",
["inputs","histories"],"all lists of vertices, edges, vertex properties and edge properties whose referenced owners exist or appear earlier in the list (in memory also edges whose ends are missing at that point, which are passed over; RocksDB is documented not to look), of any length, on any prior state with any indexes, on both stores and over gRPC",
"Tests bulk-insert two vertices and a few properties once.",
[L+"database.rs",L+"rdb/datastore.rs","proto/src/client.rs","proto/src/server.rs"],[("default bulk_insert loop",L+"database.rs"),("single write batch",L+"rdb/datastore.rs bulk_insert"),("bounded channel streaming","proto/src/client.rs bulk_insert")],
["dump after bulk insert vs. dump of a twin database given the same items one by one"])
p("C19","The gRPC client is transparent",
"Every call made through the gRPC client gives the result the same call would give directly on the served database: the same booleans, vertices, edges, properties, counts and included outputs in the same order, and an error exactly when the direct call errs. No item is lost, duplicated or reordered, for results and bulk inserts of any number of items, and every vertex, edge, query, value and bulk item keeps its meaning through conversion.",
["inputs","histories","programs"],"all operations and query trees on all database contents, both stores behind the server",
"The client tests re-run the shared short unit tests through a server.",
["proto/src/client.rs","proto/src/server.rs","proto/src/converters.rs"],[("From/TryFrom conversions","proto/src/converters.rs"),("bounded channels and streaming responses","proto/src/server.rs, proto/src/client.rs")],
["client results vs. results of the same call on a twin local database; message round trip through the converters"])
p("C20","Malformed gRPC requests are rejected harmlessly",
"A request that does not describe a valid operation (missing parts, ids that are not 16 bytes, invalid identifiers, unparsable JSON, unknown enum values, queries that cannot be evaluated, unknown plugins) is answered with an error status, changes nothing, and leaves the server serving everybody else. A stream that breaks or carries an invalid item inserts nothing.",
["inputs","fault_sequences"],"all structurally mutated protobuf requests to every method, truncated/aborted streams, raw garbage bytes on the connection",
"No test sends a malformed request.",
["proto/src/converters.rs","proto/src/server.rs"],[("TryFrom conversions returning ConversionError","proto/src/converters.rs"),("invalid_argument mapping","proto/src/server.rs map_conversion_result")],
["status code of each malformed call; database dump before and after; liveness of a second client"])
p("C21","Concurrent gRPC clients are served linearizably",
"Calls made concurrently by any number of gRPC clients on a server over an in-memory database appear to take effect one at a time between call and return with exactly the sequential results. A client that disconnects, stalls or cancels mid-call never blocks, corrupts or partially affects the others; its call takes effect completely or not at all.",
["schedules","fault_sequences","histories"],"all interleavings of several clients' calls, with cancelled calls and dropped connections at any point",
"The client tests use one connection and one outstanding call.",
["proto/src/server.rs","proto/src/client.rs"],[("spawn_blocking per request on a shared database","proto/src/server.rs"),("bulk items collected before insertion","proto/src/server.rs bulk_insert")],
["timestamped client-side history checked against the sequential graph model"])
p("C22","Plugins run exactly as registered, atomically and completely",
"A plugin library is loaded only if it was built for exactly this version; then each registered plugin is callable by its name with the given argument, its result or error is returned to the caller unchanged, and unknown names are reported as not found. A plugin's reads and writes have the same effect as the same ordinary operations. A plugin call on the in-memory database is atomic with respect to other operations, and however many plugin calls run or wait, the server goes on answering what needs none of the data they have to themselves, and the vertex mapping helper applies the callback exactly once to each selected vertex and reports an error if any callback failed.",
["inputs","configurations","schedules"],"all vertex populations, type filters, arguments and error positions; all version fields; concurrent calls",
"Two integration tests call two bundled plugins once each.",
["plugins/host/src/util.rs","plugins/host/src/decl.rs","plugins/host/src/errors.rs","plugins/naive_vertex_count/src/lib.rs","plugins/hello_world/src/lib.rs","proto/src/server.rs"],[("register/VersionInfo comparison","proto/src/server.rs new_with_plugins"),("thread-pool map with error slot","plugins/host/src/util.rs map")],
["plugin results over gRPC; callback counts recorded by an instrumented mapper"])
p("C23","Server and command-line client do what they say",
"Each command of the command-line client performs exactly the named operation with the given ids, types, direction, limit, name and JSON value on the server and prints the server's answer; invalid arguments are rejected with a non-zero exit and no effect. The server, started on any of its datastores, serves the data found at its configured path, and data that was synced (in-memory) or acknowledged (RocksDB) is served again after the server is killed and restarted on the same path.",
["inputs","histories","configurations"],"all commands and argument combinations; sequences of commands with server kills and restarts, for each datastore",
"No test runs the command-line client; one integration test starts the server for plugins.",
["client/src/main.rs","server/src/main.rs","server/src/cli.rs"],[("clap parsing to client calls","client/src/main.rs"),("datastore selection and load-or-create","server/src/main.rs")],
["process exit status, stdout and a database dump over gRPC after each command"])
p("C24","Rejected or failing operations leave the database intact and usable",
"An operation that returns an error changes nothing, and no call with arguments the types admit (any id including the smallest and largest, any identifier, value, limit, query tree, repeated or conflicting items, items whose owners do not exist) panics, blocks or makes later operations fail. After any such call all other data is still readable and writable as before.",
["inputs","histories","fault_sequences"],"all argument values and histories, including orphan bulk items, extreme ids and unsupported or un-indexed queries, on both stores, debug and release builds",
"Tests cover a few expected errors on otherwise empty databases and never use extreme ids or orphans.",
[L+"memory/datastore.rs",L+"rdb/datastore.rs",L+"rdb/managers.rs",L+"database.rs",L+"errors.rs"],[("mutex around the state (poisoned by a panic)",L+"memory/datastore.rs"),("errors returned before the first write",L+"database.rs")],
["panics caught at the API boundary; dump before/after each failing call; sentinel data re-read and re-written afterwards"])
p("C25","No undefined behaviour, memory error or data race",
"Whatever valid sequence of calls a program makes, on one or many threads, the library's own code performs no out-of-bounds or dangling access, reads no uninitialised memory, never yields a string that is not valid UTF-8, leaks no unbounded memory across operations (apart from interned identifiers, which are kept for the life of the process by design) and has no data race. This includes the raw-pointer query evaluation, lifetime-extended iterators, interned identifiers and decoding of stored keys.",
["inputs","schedules","programs"],"all API call sequences and interleavings that reach the library's unsafe code",
"Tests run uninstrumented; an invalid access that happens to read the right bytes passes.",
[L+"database.rs",L+"models/identifiers.rs",L+"util.rs",L+"rdb/managers.rs"],[("raw transaction pointer in query()",L+"database.rs"),("from_utf8_unchecked / new_unchecked",L+"util.rs, "+L+"rdb/managers.rs")],
["reports of Miri, AddressSanitizer/LeakSanitizer and ThreadSanitizer on instrumented workloads"])
p("C26","Data stored by the released version keeps its meaning",
"A RocksDB directory or an in-memory image written by the released version (the original commit) is opened by the current code as exactly the graph that was stored in it: every vertex, edge in both directions, property and value, and every indexed property finds every element by presence and by value. Work goes on from there as from any other database: overwriting and deleting what the released version stored leaves nothing of it behind, in the data or in the indexes, also after reopening. So the key encodings, value hashes, column families, metadata and the image layout may not change without the old data being understood.",
["inputs","histories","configurations"],"all graphs stored by the released version, closed cleanly or not, on both stores, and all histories that go on from there",
"Every test starts from an empty database and reads back what the same build wrote, so any consistent change of a stored format passes.",
[L+"util.rs",L+"rdb/managers.rs",L+"rdb/datastore.rs",L+"memory/datastore.rs",L+"models/json.rs"],[("key components and their order",L+"util.rs, "+L+"rdb/managers.rs"),("hash of a JSON value in index keys",L+"models/json.rs, "+L+"rdb/managers.rs"),("serialized InternalMemory",L+"memory/datastore.rs")],
["dump and index lookups of a database that an earlier build wrote, compared with the graph recorded along with it"])
p("C27","The published gRPC interface means the same to every peer",
"The interface is the published one: messages, field numbers, enum values, method paths and error statuses as in the released proto file. A peer that follows it with any correct protobuf writing of a message (fields in any order, unknown fields, explicitly written default values) and its own transport gets from the server exactly the effects and answers of the operation asked for, in messages that say them in published fields only; and the client sends to such a server exactly what it was asked for and understands its answers, its errors and the end of its streams.",
["inputs","histories"],"all requests and answers of every method, in all equivalent writings, in both roles and on both stores",
"Tests use the client and the server of the same build with messages generated from the same file, so a change to both sides at once goes unnoticed.",
["proto/indradb.proto","proto/src/converters.rs","proto/src/client.rs","server/src/server.rs"],[("message layouts and service methods","proto/indradb.proto"),("conversions to and from messages","proto/src/converters.rs"),("streams of answers and of bulk items","server/src/server.rs, proto/src/client.rs")],
["bytes of requests and answers read and written by an implementation that shares no code with the repository, compared with the reference graph"])
p("C28","The library is correct over any datastore that keeps the documented contract",
"The library's operations (creations, queries of every shape, deletions, property changes, bulk inserts, counting, plugins' and the gRPC server's use of them) have their documented meaning over any implementation of the `Datastore` and `Transaction` traits, not just over the two supplied: an operation uses at most one transaction, asks it only what the traits offer, keeps no iterator across a write to, or beyond the end of, its transaction, and relies on no side effect the traits do not promise. An error the datastore reports at whatever point (starting the transaction, a call, any element of any iterator, including the default trait methods) is reported to the caller as that error: it is never swallowed, taken for 'no' or 'not there', or replaced, and nothing more is written after a read failed. A datastore that panics ends the operation with a failure (over gRPC with an error status), never with an answer. Counts come through exactly, however large. What a datastore does not support (sync) is refused as unsupported.",
["inputs","fault_sequences","histories"],"all operations, over all conforming datastores, with an error injected at every transaction call and iterator element",
"Tests run over the supplied datastores, whose reads never fail there.",
[L+"database.rs",L+"errors.rs",L+"models/bulk_insert.rs","server/src/server.rs"],[("query evaluation over Transaction",L+"database.rs"),("default trait methods (sync, vertex_count, bulk insert)",L+"database.rs"),("per-element error handling in filters and deletions",L+"database.rs")],
["answers and final contents over an independent reference datastore, and the trace of trait calls it sees, with each event failed in turn"])
p("C29","Query builders and value types say what was asked",
"However a query is put together (from any starting query, with `include`, `outbound`, `inbound`, pipes, property filters, `count`, with their options given in any order, repeatedly, or as struct fields; through concrete builder types or through the traits that erase them), the query that results asks exactly for that: a later option replaces an earlier one of the same kind and nothing else, and the query is refused by a builder if and only if it is not meaningful there. The helpers that pick one kind of output from query results return exactly what they are named for; and vertices, edges, identifiers, directions, JSON values and macros keep through construction, reversal, text form, cloning and serialization what they were made of.",
["inputs"],"all compositions of the public constructors and builder methods, and all values of the public model types",
"Tests build a fixed set of query shapes, mostly with one option at a time.",
[L+"models/queries.rs",L+"models/edges.rs",L+"models/vertices.rs",L+"models/properties.rs",L+"models/json.rs",L+"util.rs"],[("QueryExt and the builder methods",L+"models/queries.rs"),("extract_* helpers",L+"util.rs")],
["queries built in a random style compared, in structure and in what they select, with an independent description and evaluator"])
p("C30","Damaged RocksDB files are never passed off as data",
"When bytes of a RocksDB table file that is not open are changed, cleared, copied over or cut off, then opening the database or each operation that needs the damaged part fails with an error; every operation that does not fail gives exactly the answer that the undamaged graph gives; an operation that was refused has changed nothing and one that was accepted is there, both also once the damage is undone. Damage to what was last logged makes the opening fail, or costs a number of last operations, each of them as a whole. Neither ends in a panic.",
["inputs","fault_sequences"],"all stored graphs, all single and double damages of table files and of the last log, and all operations and queries that follow",
"No test damages a stored file.",
[L+"rdb/managers.rs",L+"rdb/datastore.rs",L+"database.rs"],[("iterators over column families and their errors",L+"rdb/managers.rs"),("transactions as one write batch",L+"rdb/datastore.rs")],
["answers of damaged databases compared with the reference graph; contents compared after the damage is undone"])
p("C31","Datastore transactions keep their documented contract, call by call",
"Used directly, as plugins use them, the transactions of both datastores do what the `Transaction` trait says, however many calls one transaction makes and however long it stays open: every read (counts, properties, ranges from any offset, specific elements, property and value indexes) yields exactly what the calls made so far, in this and in earlier transactions, leave true, in the documented order, each element once; readers can be advanced alternately, or dropped unfinished, without affecting each other or what follows; creating calls return whether they created; writes over lists, with repeated or absent members, apply to each member; and what a dropped transaction did is what the database, every later transaction, every clone of the handle and the reopened store show. An in-memory transaction has the data to itself while it is open; RocksDB transactions open side by side see each other's finished calls.",
["inputs","histories","schedules"],"all sequences of transactions and trait calls, all interleavings of readers, and all contending threads",
"Tests make mostly one call per transaction and read every iterator to its end.",
[L+"memory/datastore.rs",L+"rdb/datastore.rs",L+"rdb/managers.rs",L+"database.rs"],[("MemoryTransaction",L+"memory/datastore.rs"),("RocksdbTransaction",L+"rdb/datastore.rs"),("the Transaction trait's documentation",L+"database.rs")],
["result of every trait call and every element yielded, compared with the reference graph; what threads see of each other's open transactions"])
p("C32","What was synced survives a power failure",
"When `sync` on a database has returned success, the power may fail: everything acknowledged before that sync was called is there after the next start, whatever of the later file contents had not reached the disk. The RocksDB directory still opens and shows the state after some prefix of the operations issued (each operation whole, indexes agreeing), no shorter than what was synced last; with several writers, of each writer's operations a prefix, no shorter than what that writer had finished when the last successful sync began. A sync during which the disk refuses what it needs reports that instead of success. The in-memory image is, whenever the power fails and whatever is lost, the complete image of the last or of the running sync.",
["crash_points","histories","schedules"],"all operation histories with syncs by one or several threads on both stores, power failures at every file operation; file names are kept as a journaling file system keeps them, file contents are kept up to the last fsync of the file and in any part beyond it",
"No test loses file contents that were written but not flushed to disk.",
[L+"rdb/datastore.rs",L+"rdb/managers.rs",L+"memory/datastore.rs"],[("sync: flush and compaction of every column family",L+"rdb/datastore.rs, "+L+"rdb/managers.rs compact"),("writing the image to a temporary file, flushing it and renaming it",L+"memory/datastore.rs sync")],
["copies of the database directory or image as a power failure at a watched file operation would leave it, opened by a fresh process and compared with the states the history allows"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,s)
print(len(P))
