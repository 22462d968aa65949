#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the long strings stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(qtext.split())), why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mechanism], observe_at=list(observe), hook_needed=hook)))

REPO = ["src/repository/default.rs", "src/repository/sqlite.rs", "src/repository/interface.rs"]
TXN = ("sqlx transaction around each mutation", "src/repository/default.rs")

p("C01", "Acknowledged catalog changes survive any crash",
  """Once a catalog change (creating, renaming, versioning or deleting a database, schema, table or function) has been
  reported as successful, it is still there after the server process is killed or the machine loses power at any later
  instant and is restarted. A change that was not acknowledged is, after the restart, either wholly there or wholly
  absent. The restarted catalog opens and serves requests without manual repair.""",
  ["crash_points", "histories", "configurations"],
  "every sequence of catalog operations, every instant of a kill or power failure between two storage operations, every outcome of un-synced writes (kept, lost, torn), every supported journal mode",
  "the repository tests run one fixed sequence on an in-memory database and never crash or reopen it",
  REPO, [TXN, ("SQLite journal / WAL with full synchronisation", "src/repository/sqlite.rs")],
  [("catalog database file", "databases, schemas, tables, versions, columns, functions", "migrations/sqlite")],
  ["list_collections / get_all_versions / get_all_functions_in_database after restart"])

p("C02", "Each catalog change is all-or-nothing for readers, errors and crashes",
  """A catalog change takes effect as a whole or not at all: no client, at any instant or after any error or crash, sees
  a table without its initial version or without the columns it was created with, a new table version without all
  columns of its predecessor, or a half-applied rename, replacement or deletion. When an operation reports an error, the
  catalog contents are either exactly as before the call or exactly as if it had succeeded.""",
  ["schedules", "crash_points", "fault_sequences", "inputs"],
  "every interleaving of the operation with other clients' reads and writes, every storage error or crash inside it, every schema it is called with",
  "tests look only at the state after a successful call; nobody reads between the statements of one operation and nothing fails inside one",
  REPO, [TXN], [("table / table_version / table_column rows", "must appear together", "migrations/sqlite")],
  ["list_collections", "get_all_versions", "raw rows of the database file"])

p("C03", "Concurrent catalog clients see one sequential history",
  """Catalog operations issued concurrently, by tasks of one server or by several servers sharing the database, behave as
  if executed one at a time in an order consistent with real time. In particular, of several clients creating the same
  name in the same parent exactly one succeeds and the others get a uniqueness error, no two live objects share an
  identifier, and a read returns the effects of every change completed before it started.""",
  ["schedules", "histories"],
  "every interleaving of up to a few clients at the granularity of single file-system calls of the embedded database",
  "the repository tests are strictly sequential with a single client",
  REPO, [TXN, ("UNIQUE constraints", "migrations/sqlite"), ("interpret_error", "src/repository/sqlite.rs")],
  observe=["results and errors of every Repository call, with invoke/return order"])

p("C04", "Catalog references stay intact and missing objects are reported",
  """After any history of catalog operations every schema belongs to an existing database, every table to an existing
  schema, every version to an existing table, every column to an existing version and every function to an existing
  database: deleting a parent removes exactly its descendants and nothing else. Creating an object in, or moving it to, a
  parent that does not exist is refused with a foreign-key error, and looking up, renaming, dropping or updating an
  object that does not exist reports a not-found error and changes nothing.""",
  ["histories", "schedules", "fault_sequences"],
  "every sequence of creates, renames, moves and deletes by one or several clients, with storage faults and restarts in between (identifiers of deleted rows may be reused)",
  "the tests delete one table, one schema and one database once each in a fixed order",
  REPO + ["migrations/sqlite"], [("FOREIGN KEY ... ON DELETE CASCADE", "migrations/sqlite"), ("RETURNING id + fetch_one", "src/repository/default.rs")],
  observe=["errors of each call", "raw rows and PRAGMA foreign_key_check"])

p("C05", "Table versions only grow and pruning keeps exactly the served one",
  """Recording a new table version yields an identifier larger than all earlier versions of that table, carries the given
  version number, and has exactly the columns of the version before it; readers are from then on served that version.
  Deleting old versions of a table removes every version except the one readers are served, reports how many it removed,
  and never touches another table. The version listing contains every retained version of the requested tables of that
  database, and no other.""",
  ["histories", "schedules", "fault_sequences"],
  "every interleaving of version creation, pruning, renaming and listing over several tables, databases and clients, and every behaviour of the wall clock (standing still, jumping forwards or backwards)",
  "one test creates two versions of one table with an ever-advancing real clock",
  REPO, [("create_new_version / delete_old_versions / latest_table_versions", "src/repository/default.rs")],
  [("table_version.creation_time, id", "which version is the latest", "migrations/sqlite")],
  ["list_collections", "get_all_versions", "delete_old_versions result"])

p("C06", "Functions are stored, replaced and dropped exactly as asked",
  """A function created in a database is returned with exactly the definition given (entry point, language, input and
  return types, code, volatility) until it is replaced or dropped. Creating an existing name without OR REPLACE is refused
  with a uniqueness error and changes nothing; with OR REPLACE it changes the whole definition and keeps the identity.
  Dropping a list of functions removes every existing function of that list in that database and no other, and reports
  not-found if none of them exists.""",
  ["histories", "schedules", "fault_sequences"],
  "every interleaving of create, replace, drop and list over several names, databases and clients, with storage faults and restarts in between",
  "tests create, replace and drop a single function; no test drops more than one name or races two clients",
  REPO + ["src/wasm_udf/data_types.rs"], [("INSERT ... ON CONFLICT DO UPDATE; DELETE ... RETURNING", "src/repository/default.rs")],
  observe=["get_all_functions_in_database"])

p("C07", "Catalog storage faults surface as errors, never as success or loss",
  """When the storage under the catalog fails (I/O error, full disk, failed sync, lock held too long), the affected call
  returns an error that is neither a uniqueness nor a foreign-key violation, and everything acknowledged earlier is
  intact. A call never reports success, nor an empty or partial result, because of such a fault. Once the fault has gone,
  the same server serves new requests correctly within a bounded number of retries.""",
  ["fault_sequences", "schedules", "histories"],
  "every placement of one or several storage errors in the file-system calls made under a history of catalog operations",
  "no test injects a storage error",
  REPO, [("interpret_error", "src/repository/sqlite.rs"), ("error propagation with ?", "src/repository/default.rs")],
  observe=["error class of each call", "state after the fault is lifted"])

p("C08", "Catalog start-up and upgrade are crash-safe and repeatable",
  """Opening a catalog, whether new or written by any earlier schema version, brings it to the current schema and keeps
  every database, schema, table, version, column and function it held. If the start-up is interrupted by a crash at any
  point, a later start-up completes it with the same result, and starting up any number of further times, also from
  several servers one after another, changes nothing.""",
  ["crash_points", "histories", "configurations"],
  "every prefix of the migration history as starting point, every crash point within the start-up, any number of restarts",
  "tests migrate an empty in-memory database once",
  REPO + ["migrations/sqlite"], [("setup: column re-encoding and migrator", "src/repository/default.rs")],
  observe=["catalog contents before and after"])

p("C09", "A read-only catalog never writes and sees only committed states",
  """A catalog opened in read-only mode never modifies the database: every mutating call returns an error, and no byte of
  the database content changes because of it. Its reads return states that a completed catalog change produced, never the
  inside of one, and eventually include every acknowledged change while a writer keeps working on the same file.""",
  ["schedules", "crash_points", "histories"],
  "every interleaving of a writer (including its crash and restart) with read-only clients issuing reads and attempted writes",
  "one test opens a read-only catalog once while no writer is active and performs one read",
  REPO, [("try_new_read_only", "src/repository/sqlite.rs")], observe=["errors of mutating calls", "reads", "file contents"])

p("C10", "Dropped-table records are tracked per table, filtered and removed exactly",
  """The list of tables awaiting physical deletion, unfiltered or filtered by database, contains exactly the recorded
  entries with their names, identity, status and drop time. Updating the status of, or removing, one entry affects exactly
  that entry, survives crashes once acknowledged, and reports not-found if there is no such entry.""",
  ["histories", "schedules", "crash_points", "fault_sequences"],
  "every interleaving of listing, status updates and removals by several clients, with storage faults and restarts",
  "no repository test covers these calls; they are only reached through end-to-end tests that are sequential",
  REPO, [("get_dropped_tables / update_dropped_table / delete_dropped_table", "src/repository/default.rs")],
  observe=["get_dropped_tables"])

p("F01", "Moving a file into the local store never loses or truncates it",
  """Uploading a finished local file into the local object store leaves, on success, the complete file at the target and
  the source gone. On failure it returns an error, and at every instant, also across a crash, at least one complete copy of
  the data exists at the source or the target. It works the same whether or not source and target are on one file
  system.""",
  ["fault_sequences", "crash_points", "inputs"],
  "every system call of the move failing or the process dying at it, same- and cross-device targets, full disks, existing targets, file sizes from empty to many copy chunks",
  "no test covers this function; its failure branches need a second file system or a full disk",
  ["src/object_store/utils.rs", "src/object_store/wrapped.rs"], [("rename, else copy + rename on EXDEV", "src/object_store/utils.rs")],
  observe=["source and target files after success, error and crash"])

p("M01", "Memory accounting matches what is actually reserved",
  """Whatever consumers grow, try to grow, shrink or release concurrently, and whichever requests the memory limit
  refuses, the exported memory metrics equal the memory reserved at every quiet moment: nothing is counted for a refused
  request and nothing stays counted once every reservation is released. The configured limit decides each request exactly
  as it would without the accounting, and its errors reach the caller.""",
  ["schedules", "fault_sequences", "histories"],
  "every interleaving of several consumers' calls at the granularity of single pool and metric operations, with allocation refusals at any of them",
  "the single test performs one fixed sequential sequence",
  ["src/memory_pool.rs"], [("MemoryPoolMetrics wraps the inner pool", "src/memory_pool.rs")],
  observe=["metrics recorder", "inner pool's reserved()"])

p("W01", "A WASM function returns the right value for every row, however it is run",
  """A user-defined WASM function applied to columns yields, for each row, the value the guest computes from that row's
  arguments alone, in row order, with the declared type; neither the batch size, the number of batches, concurrent
  evaluations of the same or other functions, nor earlier failed evaluations change it. An argument that is not of the
  declared type and count is rejected with an error.""",
  ["schedules", "inputs", "histories"],
  "every interleaving of evaluations of several functions by several queries, every batch split, values at the limits of each supported type",
  "tests evaluate one function at a time on small fixed inputs",
  ["src/wasm_udf/wasm.rs", "src/wasm_udf/data_types.rs"], [("fresh instance per evaluation, MessagePack transport", "src/wasm_udf/wasm.rs")],
  observe=["ColumnarValue returned by the UDF"])

p("W02", "A misbehaving WASM guest only fails its own query",
  """If the guest code of a user-defined function traps, fails to allocate, returns bad pointers, lengths, encodings or
  values of another type, or lacks the exports it must have, the evaluation ends with an error: the server does not panic,
  does not abort, does not allocate memory out of proportion to the guest's, and never returns wrong or foreign data.
  Evaluations running at the same time or later are unaffected.""",
  ["fault_sequences", "schedules", "inputs"],
  "every placement of a guest fault in the sequence of guest calls of an evaluation, combined with concurrent healthy evaluations",
  "tests cover a handful of error messages with well-behaved guests",
  ["src/wasm_udf/wasm.rs"], [("error mapping around wasmtime calls", "src/wasm_udf/wasm.rs")],
  observe=["Result of the UDF evaluation"])

p("K01", "The object cache is transparent",
  """Reading any byte range of an object through the cache returns exactly the bytes the underlying store holds for it,
  whatever mix of concurrent readers, evictions, expiries, cache sizes, chunk boundaries and storage faults occurs (objects
  being immutable, as table files are; a range reaching beyond the end of the object gives the bytes up to it, or an
  error). A read that cannot be served returns an error and never other, missing or additional bytes.""",
  ["schedules", "fault_sequences", "inputs", "configurations"],
  "every interleaving of readers of overlapping ranges with evictions and expiry, every failure, short write or crash of the cache disk and of the underlying store, ranges at and beyond chunk and object ends",
  "tests read a few ranges sequentially with a healthy disk",
  ["src/object_store/cache.rs"], [("chunked read-through cache", "src/object_store/cache.rs")],
  [("cache index and files", "which chunk is in memory or on disk", "src/object_store/cache.rs")], ["get_range / get_opts results"])

p("K02", "The object cache stays within its limit and leaves no files behind",
  """The bytes the cache keeps on disk stay within the configured capacity plus the entries still being written or
  evicted, entries expire after the configured time, and every file of an evicted or expired entry is removed. After a
  burst of concurrent reads, evictions and faults has settled, the files on disk are exactly those of the live entries.""",
  ["schedules", "fault_sequences", "histories", "configurations"],
  "every interleaving of inserts, evictions, re-downloads of an evicted chunk and expiries, with disk errors in between",
  "tests check single eviction and expiry steps one after the other",
  ["src/object_store/cache.rs"], [("weigher, eviction listener, time to live", "src/object_store/cache.rs")],
  observe=["cache directory listing", "cache entry count and weight"])

p("K03", "A cache failure is never sticky",
  """A failed download, a failed or short write, or a failed or missing cache file affects at most the reads in progress:
  it is not remembered, the next read of the same range goes to the underlying store again and succeeds once the fault is
  gone, and concurrent waiters of a failed download are answered, never left hanging.""",
  ["schedules", "fault_sequences"],
  "every placement of store and disk faults among concurrent readers of the same chunks; bounded progress once faults stop",
  "no test injects a fault under the cache",
  ["src/object_store/cache.rs"], [("fallback to the store when a cache file fails, invalidation after a failed write", "src/object_store/cache.rs")],
  observe=["reads after the fault"])

p("R01", "A sequence number reported durable is durable",
  """Whenever a replication source is told that its changes up to a sequence number are durable, all of those changes, and
  all changes of its earlier transactions, are committed to the target tables and survive any later crash.""",
  ["schedules", "crash_points", "fault_sequences", "histories"],
  "every interleaving of sync messages from several origins with flushes, every storage fault and every crash point",
  "tests drive the writer with fixed message lists and no faults or crashes",
  ["src/sync/writer.rs", "src/sync/planner.rs", "src/frontend/flight/handler.rs"],
  [("per-origin durable sequence derived from flushed transactions", "src/sync/writer.rs")],
  [("flushed sequence per origin and location", "what is durable", "src/sync/writer.rs")],
  ["DataSyncResponse", "table contents after restart"])

p("R02", "Replicated tables equal the applied change stream",
  """Once all received changes are flushed, each replicated table holds exactly the rows obtained by applying its inserts,
  updates, key changes and deletes in the order sent, however the changes were batched, squashed, interleaved with other
  origins and tables, or split across flushes; at every moment it holds, of each source, what some prefix of its changes leaves.""",
  ["inputs", "schedules", "histories"],
  "every change stream over a few keys and columns, every batching of it into messages and every placement of flushes",
  "tests cover individual merges of two batches and a few fixed streams",
  ["src/sync/writer.rs", "src/sync/planner.rs", "src/sync/utils.rs"], [("squash_batches, merge plan of the planner", "src/sync")],
  observe=["table contents"])

p("R03", "Replication resumes after a crash without loss or duplication",
  """After a crash at any point, a source that resends everything after the last sequence reported durable to it brings the
  replicated tables to the same contents as an uninterrupted run; changes that were already committed and are received
  again are not applied twice.""",
  ["crash_points", "histories", "schedules"],
  "every crash point in enqueueing and flushing, including between the commits of several tables, and every redelivery that starts at or before the durable point",
  "no test crashes or restarts the writer",
  ["src/sync/writer.rs", "src/sync/planner.rs"], [("commit info stored in the table log and read back at start", "src/sync/writer.rs")],
  observe=["table contents and reported sequences after redelivery"])

p("R04", "A failed flush loses nothing and is retried",
  """If flushing replicated changes fails, the changes stay queued, the reported durable sequence does not advance, and once
  the fault is gone a later flush commits them exactly once, in order. The memory and durable sequence numbers reported to
  a source never go backwards while the server runs.""",
  ["fault_sequences", "schedules", "histories"],
  "every storage fault inside a flush, concurrent messages arriving during it, several origins and tables",
  "no test makes a flush fail",
  ["src/sync/writer.rs", "src/frontend/flight/handler.rs"], [("flush under the write lock, dequeue after commit", "src/sync/writer.rs")],
  observe=["DataSyncResponse", "table contents"])

p("R05", "Queued replication data is flushed within the configured limits",
  """Replicated changes that stay queued longer than the configured lag, or that exceed the configured number of rows,
  batches or bytes, are flushed within a bounded time while the server is up, whatever the system clock does. The accounting of queued data
  equals the data actually queued and is zero when everything is flushed.""",
  ["schedules", "histories", "configurations", "fault_sequences"],
  "every arrival pattern, limit configuration, failing flush and wall-clock jump",
  "tests check single threshold crossings without any clock or fault",
  ["src/sync/writer.rs", "src/sync/mod.rs", "src/frontend/flight/handler.rs"], [("flush thresholds and the background flush loop", "src/sync")],
  observe=["durable sequence over simulated time", "metrics"])

p("R06", "The replication position stored with a table matches its contents",
  """Every commit of replicated changes to a table records, in the table's log, a source and the sequence number of one
  of its transactions such that the table holds all of that source's changes to it up to that transaction, and whether it
  may also hold changes of a transaction that is not complete. As long as no source sends changes again that were committed already, the recorded position never claims changes the
  table does not hold and never moves back; it is never dropped by a later flush, whichever flushes fail or are
  interrupted.""",
  ["schedules", "histories", "fault_sequences", "crash_points"],
  "every batching of transactions into flushes, failing flush and crash",
  "tests check the recorded position after a few fixed sequences of flushes without faults",
  ["src/sync/writer.rs", "src/sync/mod.rs"], [("commit_info and table_sequence", "src/sync/writer.rs")],
  observe=["commit info in the table's log", "table contents"])

p("D01", "A data change is atomic and durable",
  """An acknowledged INSERT, UPDATE, DELETE or TRUNCATE changes exactly the rows it names, is completely visible to every
  later query and survives any crash. An unacknowledged or failed one is, for all later queries, either completely there
  or completely absent: storage faults or a crash in the middle never leave part of its rows.""",
  ["crash_points", "fault_sequences", "histories"],
  "every storage or catalog fault and every crash point inside the statement, table contents spanning several files",
  "end-to-end tests never fail or interrupt a statement",
  ["src/context/delta.rs", "src/context/physical.rs", "src/repository/default.rs"], [("Delta log commit by put-if-absent, then catalog version", "src/context")],
  observe=["query results before and after restart"])

p("D02", "Concurrent data changes never lose or duplicate rows",
  """When several clients or servers change one table at the same time, each acknowledged statement takes effect exactly
  once, as if applied to one state of the table committed between its start and its acknowledgement, and no change
  committed in between to a row it changes is lost; a statement for which that is impossible fails with an error and has
  no effect. Every query sees one committed state of the table.""",
  ["schedules", "histories"],
  "every interleaving of inserts, updates, deletes and queries by a few clients at the granularity of object store and catalog operations",
  "end-to-end tests are sequential",
  ["src/context/delta.rs", "src/context/physical.rs"], [("optimistic Delta commits with conflict detection", "src/context/delta.rs")],
  observe=["query results, statement acknowledgements"])

p("D03", "The catalog and the stored tables never contradict each other",
  """After any history of CREATE, DROP and RENAME of tables and schemas, with failures and crashes in between, every
  table the catalog lists can be queried and holds exactly the rows put into it, every acknowledged creation is listed
  and every acknowledged drop is not, a statement that fails leaves nothing behind (a schema being dropped may have
  lost some of its tables), statements fail only for a reason, and a name that is free, by a drop, a rename or a failure,
  is usable at once with an empty history.""",
  ["crash_points", "fault_sequences", "histories"],
  "every fault or crash between the storage and catalog steps of CREATE, DROP, RENAME TABLE and SCHEMA",
  "tests never fail between the two",
  ["src/context/physical.rs", "src/context/delta.rs", "src/catalog/metastore.rs"], [("order of object store and catalog steps", "src/context/physical.rs")],
  observe=["SQL statements' results"])

p("D04", "Cleaning up dropped tables deletes them and only them",
  """Dropping a table, and the clean-up of tables recorded as dropped, remove only objects that belong to those tables,
  never an object of a live table or of another database. A drop without faults leaves no objects. An entry of the list
  of dropped tables leaves it only after its objects are gone; if deletion keeps failing the entry moves from pending to
  retry to failed and is never forgotten.""",
  ["fault_sequences", "schedules", "crash_points", "histories"],
  "every sequence of deletion faults over repeated clean-ups, crashes in between, tables with similar names and prefixes",
  "tests run one clean-up after one drop",
  ["src/utils.rs", "src/object_store/wrapped.rs", "src/context/delta.rs"], [("gc_databases", "src/utils.rs"), ("delete_in_prefix", "src/object_store/wrapped.rs")],
  observe=["object listing", "system.dropped_tables"])

p("D05", "Vacuuming a table never harms its current contents",
  """VACUUM TABLE leaves the current contents of the table, and of every other table, readable and unchanged, whatever runs
  concurrently and wherever it fails or crashes; unreferenced files are the only ones removed.""",
  ["schedules", "crash_points", "fault_sequences", "histories"],
  "every interleaving of a vacuum with inserts, updates and queries, every fault and crash point inside it",
  "tests vacuum an idle table",
  ["src/context/physical.rs", "src/repository/default.rs"], [("delta vacuum with retention, delete_old_versions", "src/context/physical.rs")],
  observe=["query results", "object listing"])

p("D06", "Time travel returns exactly the version asked for",
  """A query of a table as of a timestamp returns the contents committed by the last change at or before that time, for
  every timestamp and however many changes, renames, concurrent statements or servers there are; a time before the first
  version gives the first version.""",
  ["histories", "inputs", "schedules"],
  "every history of changes at arbitrary simulated times and every timestamp queried, including equal and boundary timestamps",
  "tests query three fixed versions a second apart",
  ["src/provider.rs", "src/datafusion/utils.rs", "src/version.rs", "src/context/logical.rs"], [("TableVersionProcessor", "src/version.rs")],
  observe=["query results"])

p("H01", "Cached HTTP responses are revalidated correctly",
  """A conditional GET of a query answered with "not modified" is only ever given when the full response would be identical
  to the one the client got with that tag: any committed change to the data or definition the query depends on in between
  produces a fresh response.""",
  ["histories", "schedules"],
  "every interleaving of cached reads with inserts, DDL, renames, drops and re-creations and function replacement",
  "tests revalidate once before and once after one insert",
  ["src/frontend/http.rs"], [("ETag from plan and table versions", "src/frontend/http.rs")], observe=["HTTP status, ETag and body"])

p("H02", "A query ticket delivers its result once and to completion",
  """A ticket issued for a query returns that query's complete result to the first client that redeems it, also when several
  queries are issued and redeemed concurrently; a redeemed or unknown ticket is refused with an error.""",
  ["schedules", "histories", "fault_sequences"],
  "every interleaving of issuing and redeeming tickets by several clients, including failing result streams",
  "tests issue and redeem one ticket at a time",
  ["src/frontend/flight/handler.rs", "src/frontend/flight/sql.rs"], [("results map keyed by ticket", "src/frontend/flight/handler.rs")],
  observe=["do_get results"])

p("H03", "An interrupted upload leaves no partial table",
  """A file upload over HTTP that is cut off, malformed or hits a storage fault at any point reports an error and adds no
  rows; one that is acknowledged has added every row of the file exactly once, and no temporary data stays behind.""",
  ["fault_sequences", "crash_points", "inputs"],
  "every cut of the request body, every storage fault and crash during the upload, concurrent uploads to one table",
  "tests upload complete well-formed files",
  ["src/frontend/http.rs", "src/context/physical.rs"], [("spooling to a temporary file before the commit", "src/frontend/http.rs")],
  observe=["HTTP status", "query results"])

p("P01", "Remote filter push-down never changes a query's result",
  """A filter shipped to a remote database selects exactly the rows the original filter selects; a filter that cannot be
  expressed faithfully is kept local.""",
  ["inputs"], "every filter expression and remote dialect", "tests translate a fixed list of expressions",
  ["datafusion_remote_tables/src/filter_pushdown.rs"], [("FilterPushdownConverter", "datafusion_remote_tables/src/filter_pushdown.rs")])
p("P02", "Access is granted exactly as the policy says",
  """A request is allowed to read or write if and only if the configured access policy grants that action to its
  credentials.""",
  ["inputs", "configurations"], "every policy, credential and action", "tests check a list of combinations",
  ["src/auth.rs", "src/config/schema.rs"], [("can_perform_action", "src/auth.rs")])
p("P03", "The Postgres catalog gives the same guarantees as the SQLite one",
  """Every catalog guarantee holds likewise when the catalog is stored in Postgres.""",
  ["schedules", "crash_points", "histories"], "as for the SQLite catalog", "needs a Postgres server",
  ["src/repository/postgres.rs"], [("implement_repository!", "src/repository/postgres.rs")])
p("P04", "SQL extensions are parsed into what the user wrote",
  """Every Seafowl SQL statement, and every version-qualified table name, is parsed into the statement it denotes or
  rejected.""",
  ["inputs"], "every statement text", "tests parse fixed statements",
  ["src/datafusion/parser.rs", "src/version.rs", "src/nodes.rs"], [("DFParser", "src/datafusion/parser.rs")])
p("P05", "Reading a table over plain HTTP returns the server's bytes",
  """Reading ranges of a remote file over HTTP returns exactly the bytes the server holds, for servers with and without range
  support, and a server error is reported.""",
  ["fault_sequences", "inputs"], "every server behaviour", "tests use a mock server with a few responses",
  ["src/object_store/http.rs"], [("HttpObjectStore", "src/object_store/http.rs")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
