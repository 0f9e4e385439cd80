import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)

p("C01","Access policy: who may read and who may write",
 "For every combination of configured read and write access (any, off, or a password hash) and every presented bearer token, an HTTP caller is allowed to read only if reading is open to anyone or the token's SHA-256 hash equals the configured read or write hash, and allowed to write only if writing is open to anyone or the token's hash equals the configured write hash. A write-password holder may also read, 'off' never lets anybody in except that a write-password holder may read, and a wrong token, a token where none is used, and a missing token where every operation that is not off needs one are rejected outright.",
 ["inputs","configurations"],"every pair of access settings (3 x 3 kinds with arbitrary, possibly equal hashes), every token string or none",
 "The unit tests sample a handful of fixed policies and three tokens and do not run here at all; the guarantee quantifies over every policy and every token, including equal read/write hashes.",
 ["src/auth.rs","src/config/schema.rs"],[("token_to_principal","src/auth.rs"),("can_perform_action","src/auth.rs"),("str_to_hex_hash","src/config/schema.rs")],
 ["token_to_principal result","UserContext::can_perform_action"])
p("C02","No HTTP query runs without the permission it needs",
 "A POSTed batch of SQL statements has an effect only if the caller holds the permission each statement needs: every statement that can change data or the catalog (SELECT INTO and EXPLAIN ANALYZE of such a statement included) needs write permission, every query, other EXPLAIN and SHOW TABLES needs read permission, and permission is decided for the whole batch before anything in it runs. At most one statement of the batch may be a read-only query, and it must be the last; otherwise the batch is rejected with nothing executed. A permitted batch runs each of its statements once, in order, in the database the URL names, up to the first failure, and the response carries the last statement's rows. The Authorization header carries a token only in the exact form 'Bearer <token>'.",
 ["inputs","histories"],"every batch of up to the bound's statements of each statement kind, in any order, and every principal/policy; every Authorization header value",
 "Integration tests cover a few fixed batches; the rule has to hold for every ordering and kind of statement (including EXPLAIN ANALYZE of a write) and every principal.",
 ["src/frontend/http.rs","src/context/logical.rs","src/auth.rs"],[("uncached_read_write_query","src/frontend/http.rs"),("with_auth / header_to_user_context","src/frontend/http.rs"),("is_read_only / is_statement_read_only","src/context/logical.rs")],
 ["statements executed by the context","HTTP error returned"])
p("C03","Cached GET endpoint: read-only, hash-checked, sound ETags",
 "The cached GET endpoint executes a query only if the caller may read, the SHA-256 of the query text equals the hash in the URL, and the plan is read-only. It answers 304 Not Modified only when the caller's If-None-Match equals the current ETag, and two plans that scan a different table location or a different table version never share an ETag (up to hash collisions).",
 ["inputs","histories"],"every hash/query/header combination; every pair of plans with up to the bound's scanned tables, arbitrary table locations and versions",
 "Tests compare a few literal ETags on one table; soundness is about any two table sets, locations and versions, and about every order of conditions.",
 ["src/frontend/http.rs","src/context/logical.rs"],[("cached_read_query","src/frontend/http.rs"),("plan_to_etag / ETagBuilderVisitor","src/frontend/http.rs")],
 ["HTTP status, ETag header, whether a plan is executed"])
p("C04","The byte cache is transparent",
 "For every object content, every requested byte range inside it, every minimum-fetch size and every state the cache can be in (chunks missing, held in memory, held on disk, disk copy unreadable, disk write failed, evicted in between), a ranged read through the caching store returns exactly the bytes the underlying store holds for that range. Reads that fail or extend past the end give what the underlying store gives, never different bytes and never a crash, and head results are likewise passed through or served unchanged. The file of an entry that leaves the cache is removed, so that the disk holds no more than the cache accounts for.",
 ["inputs","histories","fault_sequences","schedules"],"object sizes, ranges, chunk sizes up to the bound with symbolic contents, arbitrary cache state per chunk, failure of any disk read/write",
 "Tests use a 'mock server' with a few fixed ranges and one eviction; off-by-one chunk arithmetic and partially cached ranges appear only for rare (offset, size, chunk) triples and cache states.",
 ["src/object_store/cache.rs"],[("get_range chunk coalescing","src/object_store/cache.rs"),("on-disk entry read/write and eviction","src/object_store/cache.rs")],
 ["bytes returned by get_range / get_ranges","requests issued to the inner store"],
 [("cache entry","chunk held in memory or on disk, keyed by path and chunk range","src/object_store/cache.rs")])
p("C05","HTTP-hosted files: exact ranges, sizes and locations",
 "Reading a byte range of a file hosted over HTTP asks the server for exactly the half-open range requested and returns exactly what it sends; the reported object size equals what the server states, whether in Content-Length or in a Content-Range reply, and a malformed or absent reply is an error rather than a crash or a guess. A ranged reply is only taken when it is the range that was asked for. Converting a user's http(s) location into an internal object path and back gives the same URL.",
 ["inputs"],"every range with bounds up to 2^64-1, every Content-Range/Content-Length reply, every http/https location",
 "Tests run a mock server with a few ranges; the header grammar and arithmetic have edge cases (zero length, missing total, maximum offsets) that fixed cases do not reach.",
 ["src/object_store/http.rs"],[("range header construction and Content-Range parsing","src/object_store/http.rs"),("try_prepare_http_url / get_uri","src/object_store/http.rs")],
 ["request headers","ObjectMeta.size, bytes","URL requested"])
p("C06","Reported durable sequence numbers are really durable",
 "Whenever the server reports a durable sequence number for an origin, every change of that origin up to and including that number has been committed to every table it touches; the durable number never exceeds the last sequence accepted in memory and never goes backwards. Changes of an origin that are still in memory, or whose flush failed, keep the durable number below them. The sequence recorded with a table's commit is that of the last finished transaction whose changes it contains.",
 ["histories","fault_sequences"],"every interleaving, up to the bound, of sync messages (any origin, table, sequenced or continuation, empty or not) and flushes in any order, with any flush failing",
 "Unit tests play a few scripted histories; durability has to hold over all histories of messages over several tables and origins and every flush order.",
 ["src/sync/writer.rs","src/sync/utils.rs","src/frontend/flight/handler.rs"],[("enqueue_sync / remove_tx_locations / advance_durable","src/sync/writer.rs")],
 ["stored_sequences","commits to the tables"],
 [("txs","in-memory transactions with the table locations still pending","src/sync/writer.rs"),("origin_memory / origin_durable","per-origin memory/durable sequence","src/sync/writer.rs")])
p("C07","Accepted changes are kept, in order, until applied exactly once",
 "Every row of every accepted sync message stays queued for its table, in arrival order, until a flush applies the queue's content to that table; a flush commits the queued changes exactly once and then removes them, and a failed flush leaves them queued and the bookkeeping unchanged. Queue size, row and age accounting always equals what is really queued, so the flush triggers (memory limit, replication lag, syncs per table) fire when their configured limit is exceeded and pick a table for which that holds.",
 ["histories","fault_sequences"],"every history up to the bound's number of messages/flushes, symbolic batch sizes and clock, any flush failing",
 "Scripted unit tests check two or three fixed histories and sizes; the accounting must hold after any history and for sizes around the limits.",
 ["src/sync/writer.rs","src/sync/mod.rs"],[("enqueue_sync, flush_ready, flush_syncs, remove_sync","src/sync/writer.rs")],
 ["queued data and metrics after each operation","commits to tables"],
 [("syncs","per-table queue with size, rows, insertion time","src/sync/writer.rs")])
p("C08","In-memory squashing does not change what a batch means",
 "Compacting a sequence of row changes (inserts, updates, deletes, primary-key changes, re-inserts) for one table into fewer rows gives a change set whose effect on any table is the same as applying the original changes one after another: the same final rows with the same values, each surviving row keyed to its oldest primary key and carrying its newest one, and a value column marked changed exactly when some squashed update changed it. It never crashes and never increases the number of rows.",
 ["inputs","histories"],"every valid sequence of up to the bound's row changes with symbolic keys and values, with 0-2 value columns and 0-2 changed columns",
 "The one unit test is a random walk over a fixed shape with at most one 'changed' column; chains that revisit a key or carry several flag columns are not reached.",
 ["src/sync/utils.rs","src/sync/writer.rs"],[("squash_batches","src/sync/utils.rs"),("compact_batches","src/sync/utils.rs")],
 ["output batch of the squash"])
p("C09","Merging syncs of different shapes equals applying them in turn",
 "When pending syncs of one table with different column sets or update kinds (full rows, partial columns, deletes, key changes) are merged into one change set before being applied, the result on any base table is the same as applying each sync in arrival order. A column absent from, or unchanged in, the later sync keeps the earlier sync's value, and a value that is present (including NULL) in the later sync wins.",
 ["inputs","histories"],"every pair/triple of syncs over the supported column roles with up to the bound's rows each, symbolic keys/values/flags",
 "Tests merge a few literal tables; the join/union branches, null-handling and flag columns interact in ways fixed tables do not cover.",
 ["src/sync/schema/join.rs","src/sync/schema/union.rs","src/sync/schema/merge.rs","src/sync/schema/mod.rs","src/sync/planner.rs"],[("merge_schemas / join / union column projection","src/sync/schema"),("merge_syncs","src/sync/planner.rs")],
 ["rows produced by the merged sync plan"])
p("C10","A flushed sync leaves the table as its changes say",
 "After a flush, the table holds exactly what the row changes say: inserted rows present, deleted rows absent, updated rows carrying the new value of every column that was sent and flagged changed and the old value of the others, rows whose key changed present once under the new key only, and every row not mentioned unchanged. Rows marked as both created and gone within the sync leave no trace.",
 ["inputs"],"every base table and sync with up to the bound's rows, symbolic keys, values, NULLs and change flags",
 "Integration tests (not runnable here) apply a few literal syncs; three-valued logic over flags and keys, and key-changing updates colliding with existing rows, need all combinations.",
 ["src/sync/planner.rs","src/sync/schema/mod.rs"],[("normalize_syncs","src/sync/planner.rs"),("apply_syncs","src/sync/planner.rs")],
 ["rows of the plan written to the table","Add/Remove actions committed"])
p("C11","File pruning never hides an affected row",
 "When a flush rewrites only some of a table's files, every existing row whose primary key is touched by the sync (old or new key) lives in a rewritten file, so no stale or duplicate version of it survives; files without usable statistics are always rewritten. The files removed from the table are exactly the files whose rows were read for the rewrite.",
 ["inputs"],"every set of files with symbolic min/max/null statistics (possibly missing) and every sync with up to the bound's rows and primary-key columns",
 "Tests prune a handful of literal partitions; the property is a containment over all key values, NULLs and missing statistics.",
 ["src/sync/planner.rs","src/sync/utils.rs"],[("construct_qualifier / get_prune_map","src/sync/utils.rs"),("prune_partitions","src/sync/planner.rs")],
 ["files kept in the scan and removed in the commit"])
p("C12","Malformed sync messages are refused before being queued",
 "A sync message is accepted only if its column descriptors match its data: same number of columns, every old primary-key column has a matching new one of the same name and type and at least one exists, flag columns are boolean and named after an existing value column. Two syncs are combined physically only if their column roles, names and types are identical in number and order; anything else is reported as an error and leaves the queue unchanged.",
 ["inputs"],"every list of up to the bound's descriptors (role and name symbolic) with symbolic data types",
 "Tests try one invalid case per rule; acceptance has to be right for every combination of roles, names and types.",
 ["src/sync/schema/mod.rs","src/sync/writer.rs","src/frontend/flight/sql.rs"],[("SyncSchema::try_new","src/sync/schema/mod.rs"),("is_compatible_with","src/sync/schema/mod.rs")],
 ["Ok/Err of schema construction","compatibility decision"])
p("C13","DELETE removes exactly the rows that match",
 "DELETE FROM t WHERE p removes every row for which p is true and keeps every row for which p is false or NULL, each exactly once with its values unchanged; DELETE without a predicate (and TRUNCATE) removes all rows. The commit removes only files that were rewritten or fully dropped and adds the files that hold their surviving rows.",
 ["inputs"],"every table with up to the bound's rows over several files, predicate truth value per row symbolic in {true,false,NULL}",
 "Integration tests delete with a few literal predicates and no NULLs; three-valued logic and the split between pruned and kept files need all combinations.",
 ["src/context/physical.rs"],[("DML Delete branch","src/context/physical.rs"),("Truncate branch","src/context/physical.rs")],
 ["rows written, Add/Remove actions committed"])
p("C14","UPDATE changes exactly the assigned columns of matching rows",
 "UPDATE t SET c = e WHERE p gives, for every row where p is true, the value of e evaluated on the old row (cast to the column's type), keeps every other column and every row for which p is false or NULL exactly as it was, and neither loses nor duplicates rows. The commit removes exactly the files it rewrote.",
 ["inputs"],"every table up to the bound's rows over several files, predicate truth value per row symbolic, assignments to any subset of columns",
 "Integration tests update a few literal tables; NULL predicates, swapped assignments and unaffected files need all combinations.",
 ["src/context/physical.rs","src/provider.rs"],[("DML Update branch","src/context/physical.rs"),("project_expressions","src/provider.rs")],
 ["rows written, Add/Remove actions committed"])
p("C15","Writing a result into a table stores every row exactly once",
 "Whatever way the rows of an INSERT, CREATE TABLE AS, UPDATE, DELETE, upload or sync arrive (any number of input partitions, any batch sizes, empty batches), the data files written for the commit contain every row exactly once in order, and no file holds more rows than the configured maximum partition size. Every written file is uploaded completely and in order, in parts no smaller than the store's minimum except the last, and is listed in the commit with its size and statistics; if any upload fails nothing is committed.",
 ["inputs","fault_sequences"],"every list of batches up to the bound with symbolic row counts and partition limit; symbolic read sizes and failures during upload",
 "Tests use one four-row result with partition size 2; the split arithmetic and the part buffer loop must hold for every batch/limit/read size.",
 ["src/context/delta.rs","src/object_store/utils.rs"],[("plan_to_delta_adds","src/context/delta.rs"),("fast_upload","src/object_store/utils.rs")],
 ["rows per written file","bytes uploaded","Add actions"])
p("C16","Garbage collection only deletes dropped tables",
 "Vacuuming a database physically deletes only objects under the storage prefix of tables recorded as dropped in that database, and forgets a dropped table only after all of its objects were deleted. If deletion fails the table stays recorded, marked for another attempt or, after a repeated failure, as failed; tables already marked failed are not touched. The periodic collection, when enabled, runs every configured number of hours.",
 ["inputs","fault_sequences","configurations"],"up to the bound's dropped tables with any status and identifiers, any listing/deletion failing, local/memory/cloud stores with any configured prefix",
 "The only test drops and vacuums one table successfully; the failure states and prefix scoping are never exercised.",
 ["src/utils.rs","src/object_store/wrapped.rs"],[("gc_databases","src/utils.rs"),("delete_in_prefix / table_prefix","src/object_store/wrapped.rs")],
 ["objects deleted","dropped-table records"])
p("C17","Time travel reads exactly the requested version of each table",
 "A query that names a table with a version timestamp reads that table as of that instant, in each place it is named, while unversioned references in the same query read the latest version; two references to the same table with different timestamps never see each other's data. A version string denotes the same instant in every accepted format, and any other string is an error.",
 ["inputs"],"every query with up to the bound's table references (qualified or not, versioned or not); every timestamp string",
 "Unit tests rewrite one fixed query; name mangling, qualification and case folding must not make two different (table, version) pairs collide.",
 ["src/version.rs","src/context/logical.rs"],[("TableVersionProcessor","src/version.rs"),("rewrite_time_travel_query","src/context/logical.rs")],
 ["rewritten table names","(table, version) pairs resolved"])
p("C18","Filters pushed to a remote database keep their meaning",
 "If a filter is accepted for push-down to a remote Postgres, MySQL or SQLite database, the SQL text sent denotes, under that database's operator precedence and quoting rules, the same predicate as the original expression for every row; anything that cannot be expressed faithfully is refused and evaluated locally. Identifiers and string literals are quoted so that no content can change the statement's structure.",
 ["inputs","programs"],"every filter expression tree up to the bound's depth over all supported node kinds and operators, every literal kind with symbolic contents, all three dialects",
 "About 60 tests compare fixed strings for shallow expressions; nested NOT/IS/IN, equal-precedence right operands and unusual literals are exactly what they do not contain.",
 ["datafusion_remote_tables/src/filter_pushdown.rs","datafusion_remote_tables/src/provider.rs"],[("FilterPushdownVisitor","datafusion_remote_tables/src/filter_pushdown.rs"),("FilterPushdownConverter per source","datafusion_remote_tables/src/filter_pushdown.rs"),("scan query construction","datafusion_remote_tables/src/provider.rs")],
 ["SQL text produced / refusal"])
p("C19","Object-store settings survive translation unchanged",
 "Turning a local, S3 or GCS store configuration into key-value options and back yields the same configuration for every setting both forms carry, explicit options always win over environment variables and defaults, and translation to file-IO properties keeps every option's value under its documented key. Unknown option keys are reported as errors rather than ignored where the store would not understand them.",
 ["inputs","configurations"],"every combination of present/absent settings with symbolic string values; every option map up to the bound's size and every environment",
 "Tests set all or a few fields to fixed values; a swapped or dropped key shows only for particular combinations.",
 ["object_store_factory/src/aws.rs","object_store_factory/src/google.rs","object_store_factory/src/local.rs","object_store_factory/src/lib.rs"],[("to_hashmap / from_hashmap / from_bucket_and_options","object_store_factory/src"),("map_options_* and add_*_environment_variables","object_store_factory/src"),("object_store_opts_to_file_io_props","object_store_factory/src/lib.rs")],
 ["resulting configuration / option map"])
p("C20","Each table's storage location is its own",
 "The storage location used for a table is the configured root joined with the configured prefix and the table's own identifier: two different tables never resolve to the same or nested locations, two requests that differ in store URL or options never share a connection, and the location reported equals the location written to. Copies and renames inside the wrapped store keep source and destination as given, and a conditional one never overwrites an existing object where the store can tell.",
 ["inputs","configurations"],"every store kind, bucket, prefix (with or without slashes) and table identifier, symbolic strings up to the bound",
 "Tests check a few literal URLs; collisions and slash handling depend on prefixes that tests do not use.",
 ["src/object_store/wrapped.rs","src/object_store/factory.rs"],[("InternalObjectStore root_uri/table_prefix/get_log_store","src/object_store/wrapped.rs"),("ObjectStoreFactory::get_log_store_for_table","src/object_store/factory.rs")],
 ["log store root URI and object path prefix"])
p("C21","WASM UDF values cross the boundary unchanged",
 "A value passed to a WASM user-defined function and a value returned by it keep their exact value and NULLness across the boundary for every supported SQL type, row by row; each SQL type maps to the one documented Arrow and WASM type, and a declared type or returned value that does not fit is an error, never a silently different value.",
 ["inputs"],"every supported declared type, columns of up to the bound's rows with symbolic values and NULLs, scalar or array arguments",
 "Tests call a few compiled WASM modules with fixed values; narrowing, sign and NULL handling per type need all values.",
 ["src/wasm_udf/wasm.rs","src/wasm_udf/data_types.rs"],[("messagepack_encode_input_value / messagepack_decode_results","src/wasm_udf/wasm.rs"),("sql_type_to_arrow_type / get_wasm_type","src/wasm_udf")],
 ["encoded message, decoded array"])
p("C22","Memory-limit accounting is unaffected by metrics",
 "Wrapping the query memory pool for metrics changes nothing a query can observe: every grow, shrink and try-grow has the same effect, success and error as on the wrapped pool, and the reserved total is the wrapped pool's. After every operation the exported gauge equals the pool's reserved bytes, and counters grow by exactly the requested amount with the outcome the pool reported.",
 ["histories","inputs"],"every sequence up to the bound's operations with symbolic sizes and an arbitrary inner pool",
 "One test plays a fixed sequence on a greedy pool.",
 ["src/memory_pool.rs"],[("MemoryPoolMetrics","src/memory_pool.rs")],["pool state, results, metrics"])
p("C23","System tables list exactly the catalog's records",
 "system.table_versions and system.dropped_tables show, for the current database only, exactly one row per recorded table version or dropped table, each column holding that record's own value (timestamps as the same instant).",
 ["inputs"],"every list of up to the bound's records with symbolic fields",
 "Tests look at one or two records; a swapped column or unit error shows only for distinguishing values.",
 ["src/system_tables.rs"],[("TableVersionsTable / DroppedTablesTable","src/system_tables.rs")],["record batch contents"])
p("C24","Sync acknowledgements and query tickets are honest",
 "A data-sync request is answered 'accepted' only after its rows were queued and due flushes were attempted, with the sequence numbers in force at that moment for its own origin; a probe (no rows, no sequence number) changes nothing, and a request that could not get the write lock in time is answered 'not accepted' and changes nothing. The first response after a restart, and only that, is marked as first; a query ticket returns its own query's stream once and is unknown afterwards.",
 ["inputs","histories","schedules"],"every sequence of up to the bound's requests with symbolic rows/sequence/origin and lock outcome; every ticket sequence",
 "End-to-end tests replay a few scripted requests with a fixed lock outcome.",
 ["src/frontend/flight/handler.rs"],[("process_sync_cmd","src/frontend/flight/handler.rs"),("query_to_stream / fetch_stream","src/frontend/flight/handler.rs")],
 ["DataSyncResponse","writer state","streams map"])
p("C25","DDL acts on the named object and nothing else",
 "DROP, RENAME, CREATE and VACUUM statements act on exactly the catalog, schema and table the statement names after default-name resolution; IF EXISTS / IF NOT EXISTS turns only the missing/existing case into a no-op, moving a table across databases is refused, and the staging schema cannot be created, written or dropped through ordinary DDL. A table is removed from the catalog only when named, and dropping a schema drops that schema's tables and no others; the stored data of a table is deleted only once the catalog no longer lists it. An uploaded file is appended to, or creates, exactly the schema and table named, and an external table is created only in the staging schema, under the name given.",
 ["inputs"],"every statement kind with symbolic (possibly equal) names, qualified or not, over catalogs with up to the bound's schemas/tables",
 "Integration tests use a few fixed names; name resolution and existence branches must be right for every combination.",
 ["src/context/physical.rs","src/context/mod.rs","src/catalog/repository.rs","src/context/logical.rs"],[("create_physical_plan DDL branches","src/context/physical.rs"),("resolve_table_ref / resolve_staging_ref","src/context/mod.rs"),("RepositoryStore","src/catalog/repository.rs")],
 ["metastore calls made, results"])
p("C26","Statement text is parsed into the statement it says",
 "Seafowl's SQL extensions (VACUUM TABLE/DATABASE, TRUNCATE TABLE, CONVERT ... TO DELTA, CREATE FUNCTION ... AS, CREATE EXTERNAL TABLE and COPY options) are parsed into the statement and target they name; anything else of that shape is a parse error, duplicate clauses are refused, and a script of statements separated by semicolons yields each of them in order.",
 ["inputs","programs"],"every token sequence up to the bound's length over the extension grammar's vocabulary with symbolic identifiers",
 "Parser tests cover selected strings; the grammar accepts arbitrary token sequences.",
 ["src/datafusion/parser.rs"],[("DFParser","src/datafusion/parser.rs")],["parsed statements / error"])
p("C27","Unsafe configurations are refused at start-up",
 "A configuration that pairs an in-memory catalog with persistent storage or the reverse, an S3 store with neither region nor endpoint, or a memory limit below the minimum is refused with an error, and every other configuration is accepted unchanged. Access settings read 'any' and 'off' as such and anything else as a password hash, and an omitted HTTP section never opens write access.",
 ["configurations"],"every combination of catalog kind, store kind, region/endpoint presence, cache settings and memory limit",
 "Tests load six literal files.",
 ["src/config/schema.rs"],[("validate_config","src/config/schema.rs"),("AccessSettings deserialisation and defaults","src/config/schema.rs")],["Ok/Err of validation, resulting settings"])
p("C28","Failures reach HTTP clients as the right kind of error",
 "Every failure of an HTTP request is reported with the status that says whose fault it is: missing or useless credentials, wrong credentials, forbidden reads and writes, hash mismatches, unparsable statements and unsupported uploads are client errors with their documented status and message, and only internal failures are 5xx. An error of the query engine is a 400 that carries its message, an I/O failure of the server a 500. No failed request is answered with a success status; a result that breaks off after its first rows were sent ends with the error's message.",
 ["inputs"],"every error kind the handlers can raise",
 "Tests trigger a few errors end to end.",
 ["src/frontend/http_utils.rs"],[("ApiError::status_code_body / handle_rejection","src/frontend/http_utils.rs")],["HTTP status and body"])
p("C29","The catalog database keeps its records consistent",
 "Under any sequence of catalog operations names stay unique within their parent, and each operation changes exactly the records it names: deleting a table, schema or database removes what belongs to it and nothing else, a new table or version is recorded with all of its columns, deleting old versions keeps exactly the newest, DROP FUNCTION removes every function named. Lookups and listings return exactly the records there are, and a function reads back as it was created. An operation that is refused or fails at any step changes nothing, and is reported as the kind of error it is (already exists, does not exist, staging schema).",
 ["histories","crash_points"],"every sequence of repository operations and a crash between any two statements",
 "The repository tests play a fixed script on SQLite.",
 ["src/repository/default.rs","src/repository/sqlite.rs","src/repository/postgres.rs","migrations"],[("implement_repository! SQL","src/repository/default.rs")],["rows of the catalog tables"])
p("C30","INSERT into an Iceberg table appends exactly its rows",
 "An INSERT into an Iceberg table adds exactly the rows of its query, once each, as one new snapshot of the table's current schema with the next sequence number and version, keeps every earlier row and snapshot readable, and overwrites no file but the version hint. Rows whose columns do not fit the table are refused. An INSERT that fails at any step, or loses to another writer of the same version, is reported as failed and shows none of its rows; no writer's committed rows are ever lost.",
 ["histories","crash_points","schedules"],"every table history, a failure at any access to the store, another writer running or crashing between any two of them",
 "The only Iceberg write test needs a running MinIO server and inserts once into one table.",
 ["src/context/iceberg.rs"],[("record_batches_to_iceberg","src/context/iceberg.rs"),("plan_to_iceberg_table","src/context/iceberg.rs")],["metadata, manifest and data files written"])
p("C31","A table in a remote database reads as that table",
 "A scan of a table in a remote database returns the rows of that table, each declared column under its own name holding that column's value in its declared type, whatever the order of the columns declared or asked for and however many there are (none included); a limit never loses rows the query needs. A table without declared columns has the remote table's columns. A failed remote query is an error, never an empty or partial result, and a remote table needs a name and a valid address.",
 ["inputs","fault_sequences"],"every projection, limit and declared schema over any remote table within the bounds, for every kind of remote database",
 "The remote-table tests need a running Postgres and read one table with its columns in order.",
 ["datafusion_remote_tables/src/provider.rs","datafusion_remote_tables/src/factory.rs"],[("RemoteTable::scan","datafusion_remote_tables/src/provider.rs"),("RemoteTable::new","datafusion_remote_tables/src/provider.rs"),("RemoteTableFactory::create","datafusion_remote_tables/src/factory.rs")],["SQL text sent, plan returned"])
p("C32","The Postgres wire protocol shows the statement's own rows",
 "A statement sent over the Postgres wire protocol is planned from exactly the text sent and executed once; preparing it only describes its columns and runs nothing. Every row of the result is sent, in order, and an error of planning, executing or encoding is reported as an error with its message, never as a complete result.",
 ["inputs","fault_sequences"],"every statement text and result within the bounds, a failure at any step",
 "No test talks to the Postgres frontend.",
 ["src/frontend/postgres.rs"],[("SeafowlPortal::fetch","src/frontend/postgres.rs"),("SeafowlConvergenceEngine::create_portal","src/frontend/postgres.rs"),("SeafowlConvergenceEngine::prepare","src/frontend/postgres.rs")],["rows and errors sent"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P), [x["id"] for x in P if len(x["title"])>80])
