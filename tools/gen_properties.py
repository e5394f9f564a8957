#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as code so the long texts stay readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": hook}})

p("F01", "IDs from one generator are unique and strictly increasing",
  "IDs returned by one flake generator are pairwise distinct, and an ID returned by a call that started after another call returned is strictly greater than that other ID. This holds for any number of concurrent callers and any clock behaviour: stalls, many calls in one millisecond, sequence exhaustion, backward and forward jumps.",
  ["schedules", "histories", "inputs"], "every schedule of concurrent callers, every history of clock readings (equal, later, earlier) and any number of IDs per millisecond",
  "Tests draw a few thousand IDs with a well-behaved clock and a handful of goroutines; clock regressions, exhaustion of the sequence in combination with jumps, and adversarial schedules are not reached.",
  ["pkg/flake/flake.go", "prov.go"],
  [("mutex-protected (elapsedTime, sequence) step", "pkg/flake/flake.go NextID"), ("wait on sequence exhaustion", "pkg/flake/flake.go NextID/sleepTime")],
  [("elapsedTime", "last millisecond an ID was issued for", "pkg/flake/flake.go"), ("sequence", "number within that millisecond", "pkg/flake/flake.go")],
  ["Flake.NextID return value", "LastID/FirstID"])

p("F02", "A flake ID carries its machine id, sequence and creation time",
  "Every ID fits in 63 bits and decomposes into the generator's machine id (by default the low 16 bits of an address of the host that is not a loopback address), a 6-bit sequence and the milliseconds since the generator's start time, so that the time read back from the ID is never earlier than the clock at the call and equals the clock's millisecond unless the clock went backwards; a call that uses up a millisecond waits for the next one. Generators with different machine ids never produce the same ID, and a generator whose 41-bit time is exhausted, whose start lies in the future, or whose machine id is rejected fails loudly instead of wrapping.",
  ["inputs", "configurations", "histories"], "every start time, machine id (all 16 bits), clock reading up to and over the time limit, and every history of calls",
  "Tests look at a single machine id and present-day clocks; the full machine-id range, the boundary of 41 bits and the read-back after exhaustion are not sampled.",
  ["pkg/flake/flake.go", "prov.go"],
  [("bit layout", "pkg/flake/flake.go toID/Decompose/IDTime"), ("over-limit panic", "pkg/flake/flake.go toID"), ("settings validation", "pkg/flake/flake.go NewIDGenerator"), ("default machine id", "pkg/flake/flake.go defaultMachineID")],
  [], ["NextID, Decompose, IDTime, FirstID, LastID", "SQLProvider.NextID/IDTime"])

p("B01", "Every placeholder is bound to the argument given with it",
  "For any sequence of statement-builder calls, the k-th unescaped placeholder of the rendered SQL is the one that was passed together with the k-th element of the argument list, and there are exactly as many arguments as placeholders. This includes clauses added out of SQL order, repeated LIMIT/OFFSET, IN lists, bulk rows, sub-queries, WITH and UNION, and the scan destinations keep the order in which they were bound.",
  ["programs", "inputs"], "every finite sequence of builder calls whose fragments carry as many placeholders as arguments",
  "The tests pin about forty fixed call sequences, nearly all in SQL order; argument insertion depends on the relative position of all clauses already present.",
  ["xsql/stmt.go", "xsql/util.go", "xsql/dialect.go"],
  [("insertAt with argTail", "xsql/stmt.go addChunk"), ("sub-query argument splice", "xsql/stmt.go SubQuery/Union/With"), ("bulk rows", "xsql/stmt.go NewRow/SetExpr")],
  [("chunks", "ordered clause fragments with argument counts", "xsql/stmt.go Stmt"), ("args", "flat argument list", "xsql/stmt.go Stmt")],
  ["Builder.String, Args, Dest", "the statement and arguments the executor receives"])

p("B02", "Every fragment is rendered once, in its clause, clauses in SQL order",
  "The SQL text rendered for any sequence of builder calls contains every fragment that was added exactly once, inside the clause it was added to, fragments of a clause in call order with that clause's separator, and clauses in SQL grammar order regardless of call order. Raw clauses appear after the last clause then present, and expression calls extend the clause most recently touched. Functions of the package build in the dialect set last as the default; a dialect's choice about new lines holds for every statement begun after it.",
  ["programs"], "every finite sequence of builder calls over all clause kinds, with and without newlines between clauses",
  "Tests compare a fixed set of statements; out-of-order construction, repeated clauses split by other clauses, and mixes of raw clauses and expressions are exponentially many.",
  ["xsql/stmt.go"],
  [("clause positions", "xsql/stmt.go chunkPos constants"), ("chunk insertion", "xsql/stmt.go addChunk"), ("rendering", "xsql/stmt.go String"), ("default dialect", "xsql/dialect.go SetDialect, UseNewLines")],
  [], ["Builder.String"])

p("B03", "Dialect rendering: Postgres numbering, everyone else verbatim",
  "In Postgres mode every unescaped placeholder becomes $1, $2, ... numbered consecutively over the whole statement including nested statements, escaped placeholders become a literal question mark, and all other text is unchanged. In the other dialects the text is passed through verbatim, and a statement embedded in another takes on the outer statement's dialect exactly once.",
  ["programs", "inputs"], "every builder call sequence, every dialect of outer and inner statements, and every fragment text including escapes and multi-byte characters",
  "Tests check numbering on a few flat statements; nesting, escapes next to placeholders, fragments without arguments and non-ASCII text are not covered.",
  ["xsql/dialect.go", "xsql/stmt.go"],
  [("placeholder rewriting", "xsql/dialect.go writePg"), ("dialect reset of nested statements", "xsql/stmt.go SubQuery/Union")],
  [], ["Builder.String"])

p("B04", "Pooled and cloned statements never share state",
  "A statement's text, arguments, destinations and name depend only on the calls made on it: not on statements built and closed earlier from the pool, not on statements used concurrently by other goroutines, and a clone and its original evolve independently after cloning. A clone continues exactly where the original stood.",
  ["histories", "schedules", "programs"], "every interleaving of build, clone, render, execute and close over any number of statements and goroutines",
  "Pool reuse is nondeterministic and tests use each statement once; stale state only shows for particular reuse histories.",
  ["xsql/pool.go", "xsql/stmt.go"],
  [("pool reset", "xsql/pool.go getStmt/reuseStmt"), ("deep copy", "xsql/stmt.go Clone")],
  [("stmtPool", "recycled statements and buffers", "xsql/pool.go")], ["Builder.String, Args, Dest, Name"])

p("B05", "The query cache is invisible",
  "Rendering an unnamed statement gives the same text as rendering it with an empty cache, whatever was rendered before, by whichever goroutine, in whichever dialect. A query cached under a name is the text first rendered under that name in that dialect, is built at most once when it is not used concurrently, and never leaks to another name or dialect.",
  ["histories", "schedules"], "every history of renderings, including statements that are modified and rendered again",
  "The cache is process-global and keyed by text; tests check that entries exist, not that every later statement is unaffected by them.",
  ["xsql/cache.go", "xsql/stmt.go"],
  [("cache lookup and store", "xsql/stmt.go String"), ("GetOrCreateQuery", "xsql/cache.go")],
  [("cache", "rendered text by key, per dialect", "xsql/dialect.go Dialect")], ["Builder.String", "GetCachedQuery/PutCachedQuery/GetOrCreateQuery"])

p("E01", "A query delivers every row once, in order, or an error",
  "A list query, paginated query, or builder query that reports success has delivered every row of the result exactly once, in order, each scanned into its own record; any failure to run the query, to fetch a row, to scan it or to finish the result is reported as an error and never as a shorter list. A single-row query reports 'no rows' exactly when the result is empty and otherwise delivers the first row.",
  ["fault_sequences", "inputs", "histories"], "every result size and every position and kind of failure (query, fetch, scan, close, cancellation)",
  "Tests use an in-memory database whose cursors do not fail part-way; the error paths after the first row are never executed.",
  ["query.go", "xsql/executor.go"],
  [("row loop", "query.go ExecuteListQuery"), ("row loop", "xsql/executor.go Query"), ("single row", "query.go QueryRow, xsql/executor.go QueryRow")],
  [], ["returned list/handler calls and error"])

p("E02", "No operation leaves a connection or cursor behind",
  "After any query, statement, schema-reading or migration operation of the library has returned, whether it succeeded or failed at any step, no result cursor it opened is still open and no pooled connection it took is still in use. Closing a statement returns its buffers exactly once and the statement remains executable any number of times before that.",
  ["fault_sequences", "histories"], "every operation and every point at which the database, the scan or the callback can fail",
  "Leaks are invisible to assertions on results; fault positions are not enumerated by any test.",
  ["query.go", "xsql/executor.go", "schema/provider.go", "migrate/migrate.go"],
  [("deferred close", "query.go ExecuteListQuery"), ("explicit close", "xsql/executor.go Query"), ("schema readers", "schema/provider.go")],
  [], ["sql.DB.Stats().InUse", "open cursors seen by the driver"])

p("Q01", "Walking pages by offset visits every row exactly once",
  "Starting at any offset and following the reported next offset while a next page is reported, a caller sees every remaining row of an unchanged ordered result exactly once, in order, and the walk terminates. A next page is reported exactly when the page came back full, the reported next offset is the current offset plus the rows returned (zero when there is no next page), and an unlimited query never reports a next page.",
  ["inputs", "histories"], "every table size, page size, starting offset and way of passing the limit and offset (parameters object, plain, 32-bit or named arguments)",
  "Tests check single pages with a page size above the row count; the boundary where the row count is a multiple of the page size and complete walks are not exercised.",
  ["query.go", "params.go"],
  [("page bookkeeping", "query.go ExecuteQueryWithPagination"), ("page arguments", "params.go SetPage/PageParam")],
  [], ["Result.SetResult arguments over a walk"])

p("Q02", "Walking pages by cursor visits every row exactly once",
  "Following cursors built from the last row of each page, for as long as a next page is reported, visits every row after the starting cursor exactly once, in order, and terminates. Encoding a cursor and decoding it gives back the same keys and values, including 64-bit integers, and text that is not a valid cursor is rejected with an error.",
  ["inputs", "histories"], "every table content, page size, starting cursor and cursor value",
  "Tests run one page and decode one small cursor; full walks and values above 2^53 are not covered.",
  ["query.go", "params.go"],
  [("cursor bookkeeping", "query.go ExecuteQueryWithCursor"), ("cursor codec", "query.go EncodeCursor/DecodeCursor"), ("cursor arguments", "params.go SetCursor")],
  [], ["SetResultWithCursor arguments over a walk", "DecodeCursor(EncodeCursor(x))"])

p("Q03", "Query parameters mean what was set last, regardless of history",
  "The name, arguments, page, cursor, flags, enums and null columns of a parameters object are a function of the settings made since creation or the last reset: asking for any of them earlier, or having used the object before a reset, changes nothing, and what was handed out earlier does not change later. Two parameter sets that differ in what shapes the SQL (query name, parameter positions, enum values, flags, null columns, cursor or offset paging) have different names, the arguments come in the order they were set with cursor, limit and offset last, and a setting after the page arguments is refused rather than misplaced.",
  ["histories", "inputs", "programs"], "every sequence of setter, getter and reset calls",
  "Tests call the setters once and read the name at the end; interleavings of reads, writes and resets are not explored.",
  ["params.go"],
  [("name hashing and caching", "params.go Name"), ("reset", "params.go Reset"), ("argument order guard", "params.go checkPage")],
  [("hash", "cached name", "params.go QueryParamsBuilder")], ["QueryParams getters"])

p("T01", "Provider transactions are atomic and confined",
  "Statements issued through a provider returned by BeginTx run on that transaction only, begun with the options asked for: they become visible to others all together when Commit succeeds and not at all after Rollback, Close, failure or cancellation. Beginning a transaction inside a transaction, and committing or rolling back without one, is refused with an error and changes nothing; finishing twice has no further effect, and the parent provider stays usable throughout.",
  ["histories", "schedules", "fault_sequences"], "every history of begin, execute, query, commit, rollback, close and cancel over several providers and transactions of one database, with failures at any step",
  "The stable tests never open a transaction through the provider: no test with a database behind a provider can run here.",
  ["prov.go"],
  [("transaction provider", "prov.go BeginTx"), ("commit and rollback", "prov.go Commit/Rollback"), ("rollback on close", "prov.go Close")],
  [("tx", "transaction of this provider, if any", "prov.go SQLProvider"), ("db", "target of queries", "prov.go SQLProvider")],
  ["effects on the database", "returned errors"])

p("T02", "Provider lifecycle: keep-alive while open, nothing after Close",
  "While a provider is open it pings its database every keep-alive period and survives ping failures; Close stops the pings, releases the connection pool and every background activity, reports a failure to close, and may be called again without effect. Closing a transaction's provider never closes the shared connection pool or stops the parent's keep-alive.",
  ["histories", "schedules", "fault_sequences"], "every interleaving of keep-alive ticks, ping failures, Close calls and transaction providers",
  "The keep-alive period is a minute, so no test waits for one, and a leaked goroutine or a ping after Close is invisible to assertions.",
  ["prov.go"],
  [("ticker goroutine", "prov.go keepAlive"), ("close", "prov.go Close")],
  [("ticker", "keep-alive timer", "prov.go SQLProvider"), ("conn", "connection pool, nil once closed", "prov.go SQLProvider")],
  ["pings seen by the driver", "goroutines", "sql.DB state"])

p("V01", "Stored values read back as they were, NULL as zero",
  "For every nullable value type (IDs, integers, floats, booleans, strings, UUIDs, times, string lists, metadata maps, ID arrays) storing a value and scanning what the database driver may return for it gives the same value: the zero value is stored as NULL, NULL reads as the zero value, and what was in the destination before the scan never shows in the result. A value that cannot be represented is rejected with an error and never silently replaced. An integer, boolean or time decodes from its JSON form to the same value and a float from a JSON number to that number, the texts for no value decode to zero, and for numbers and times a JSON number out of the type's range or a text that is none is rejected.",
  ["inputs", "histories"], "every value, every driver representation of it, and every previous content of the destination",
  "Tests scan into fresh variables; leftovers of an earlier row in a reused destination and driver representations other than the tested ones are not covered.",
  ["types.go", "id.go", "time.go"],
  [("Scan and Value methods", "types.go"), ("Scan and Value methods", "id.go"), ("Scan and Value methods", "time.go")],
  [], ["Scan/Value pairs on all value types"])

p("V02", "Values are independent: changing one never changes a copy",
  "Assigning, copying, storing in a list or returning an ID gives an independent value: no later Set, Reset, Scan or decoding on one of them changes another, and reading one from several goroutines is safe. Scanning or decoding into a list or map, adding or concatenating lists and merging a map never change another list or map, in particular not the operands, a list sharing their storage, or the map merged from.",
  ["histories", "schedules"], "every history of copying and mutating operations over any number of variables, and concurrent readers",
  "Tests hold one reference at a time; aliasing only shows when an earlier copy is inspected after a later mutation.",
  ["id.go", "types.go"],
  [("shared pointer in ID", "id.go idptr"), ("append to operand", "id.go IDArray.Add/Concat"), ("decode into existing map or slice", "types.go Metadata/KVSet/Strings Scan")],
  [("idptr", "heap cell behind an ID", "id.go")], ["value of every live copy after each operation"])

p("V03", "ID text and ID list operations agree with the number",
  "An ID's decimal text, JSON and YAML forms all denote its number: any form it produces parses back to the same ID, text that is not a positive 64-bit decimal number is rejected leaving the target unchanged, and zero is invalid everywhere. ID lists behave as duplicate-free ordered collections: adding, concatenating, membership, overlap, sorting and storing agree with set operations on the numbers, for every order and overlap of the operands.",
  ["inputs", "histories"], "every 64-bit value, every text, and every pair of lists",
  "Tests use a few IDs and lists; boundary values, leading zeros, and all size and overlap combinations of list operands are not covered.",
  ["id.go", "types.go"],
  [("parsing", "id.go Set/ParseID/UnmarshalJSON"), ("list operations", "id.go IDArray")],
  [], ["ID and IDArray methods"])

p("S01", "Schema listings return exactly the requested objects",
  "Listing tables, views or foreign keys returns every object matching the schema and table filters (case-insensitively, empty filter meaning all), no other object, each once, sorted by qualified name for tables and views; with dependencies, it returns exactly the matching tables plus everything reachable from them over foreign keys, for any foreign-key graph including cycles and self references. The result depends only on the catalog and the arguments, not on earlier calls on the same provider.",
  ["inputs", "histories"], "every catalog (tables, schemas, foreign-key graphs), every filter, and every history of calls on one provider",
  "The provider tests need a live database server and are skipped here; even there they list one fixed schema.",
  ["schema/provider.go"],
  [("filters", "schema/provider.go ListTables/ListViews/ListForeignKeys"), ("closure", "schema/provider.go discover/discoverTable"), ("caches", "schema/provider.go SQLServerProvider")],
  [("tables, columns, fkeys", "per-provider caches", "schema/provider.go")], ["returned Tables/ForeignKeys"])

p("S02", "A listed table describes the catalog faithfully",
  "Each listed table or view carries its columns in ordinal position with the catalog's name, type, nullability and length, its indexes with their columns in catalog order, each column linked to exactly the indexes that contain it, the primary-key column when the key has a single column, and, with dependencies, each referencing column linked to its foreign key. A table reached as a dependency is described just as if it had been listed directly, and names are passed to the database so that they cannot be mistaken for anything else.",
  ["inputs", "histories"], "every catalog: column orders, nullability spellings, composite and single keys, shared index columns, names with quotes",
  "The provider tests need a live server; the structures are otherwise only built by mocks.",
  ["schema/provider.go", "schema/postgres.go", "schema/sqlserver.go", "schema/schema.go"],
  [("column reader", "schema/provider.go readColumnsSchema"), ("index reader and links", "schema/provider.go ListTables/readIndexesSchema"), ("catalog queries", "schema/postgres.go, schema/sqlserver.go")],
  [], ["returned Table/Column/Index structures", "catalog queries and arguments"])

p("M01", "Migrations run in order, once, and failures surface",
  "A migration that reports success leaves the database at the requested version (the latest one when none is requested, the forced one applied first when given) having executed exactly the scripts between the old and the new version, each once, in order (descending with the down scripts when going back), recorded as clean. Any failing script, lock or bookkeeping statement, a missing directory and a database that is not supported or not reached are reported as an error, a script that failed stays recorded, and nothing after it is executed; having nothing to do is success and executes nothing.",
  ["histories", "fault_sequences", "configurations"], "every set of scripts, starting version (none, clean, dirty), target and forced version, and every failing statement with any error text",
  "The migration test needs a live Postgres and is not runnable here; failures with arbitrary error texts are never produced.",
  ["migrate/migrate.go", "db.go"],
  [("version selection and error classification", "migrate/migrate.go Migrate")],
  [], ["statements received by the driver", "returned error"])

p("N01", "Notifications reach exactly the callbacks of their topic, in order",
  "Every notification delivered by the database while a topic is listened to is passed exactly once, in delivery order and with its own payload, to the callback registered for that topic and to no other callback, however many topics share the listener and across reconnects. After the topic's context ends the database is told to stop and the callback is not invoked for later notifications, other topics are unaffected, and closing the listener ends all background activity.",
  ["schedules", "histories", "fault_sequences"], "every interleaving of listen, notify, cancel, reconnect and close over several topics and payloads",
  "There is no test of the notifier at all: it needs a live Postgres.",
  ["pkg/notifier/listener.go"],
  [("per-topic receive loop", "pkg/notifier/listener.go Listen"), ("payload decoding", "pkg/notifier/listener.go parsePayload")],
  [], ["callback invocations", "LISTEN/UNLISTEN seen by the server"])

p("G01", "Generated models read each column into its own field",
  "For every table or view given to the code generator, the generated model, table description and scan code agree: the n-th column named by the generated table description is scanned into the field generated for that column, dropped columns appear in none of them, names and keys match the schema, and selecting a table's columns (plain, aliased, or with some replaced by NULL) keeps that order and count; a field can hold every value of its column, and NULL when the column is nullable. Generating models and table descriptions into two packages, for any set of schemas whose tables and columns have distinct Go names, emits each selected table exactly once, in code that has the requested imports and compiles once its imports are tidied, and the same input always produces the same output, whatever was generated before.",
  ["inputs", "configurations", "histories"], "every set of schemas, tables, column sets and override definitions, generated in any sequence within one process",
  "Tests generate from three mocked tables in one schema and check that output exists and contains a few substrings.",
  ["internal/cli/schema/schema.go", "internal/cli/schema/template.go", "internal/cli/schema/types.go", "schema/schema.go"],
  [("generation loop", "internal/cli/schema/schema.go generate"), ("templates", "internal/cli/schema/template.go"), ("column lists", "schema/schema.go AllColumns/AliasedColumns")],
  [("override maps", "process-wide name and type overrides", "internal/cli/schema/types.go")], ["generated files", "TableInfo column expressions"])

p("V04", "Times keep their instant to the millisecond",
  "A time value denotes one instant to the millisecond, in UTC, whatever it was made from (a number of milliseconds, a time in any zone, a text in any of the accepted formats with any number of fraction digits, JSON, a database column, the sum with a duration, the clock) and gives back that instant through every form: its text, JSON, column value and number of milliseconds read back to the same value, finer fractions are cut towards the past, and dates and times without a zone are UTC wherever the process runs. The zero time, and only that, is empty text, NULL and a nil pointer, and texts that are no times are refused.",
  ["inputs", "histories"], "every instant of the years 1 to 9999, zone, accepted text form and number of fraction digits, and every sequence of conversions and sums",
  "Tests convert about ten instants of 2019, all in UTC and most in one text form; days around leap years, the epoch and zones, and texts whose length is that of another format are not sampled.",
  ["time.go", "types.go"],
  [("text formats chosen by length", "time.go parseTime"), ("truncation", "time.go UTC/Add/FromNow"), ("column and JSON forms", "time.go Scan/Value/MarshalJSON/UnmarshalJSON")],
  [], ["xdb.Time", "ParseTime, FromUnixMilli, UTC, Now, FromNow", "TimePtr, NullTime"])

p("P01", "Printed schemas list everything the filters select",
  "For every catalog, filter and output format, the columns, tables, views and foreign-keys commands print one document that has each table, view or key they list exactly once, in the order of the provider's lists (tables before views), with all its fields: the JSON and YAML documents can be read back to the objects listed, and the table format has one row for every column, index and key with the values of that one. Views and dependencies are included exactly when they are asked for (the tables command always includes dependencies), filters reach the provider as given, a command whose list fails returns that failure, and nothing printed depends on commands that ran before.",
  ["inputs", "configurations", "histories"], "every catalog of tables and views (any names, column sets, keys, indexes), every command, filter, flag and format, in any sequence, and a failure of any list",
  "Tests print one mocked table with one column per command; combinations of flags and formats, several tables and views, and names that a format has to quote are not printed.",
  ["internal/cli/schema/schema.go", "internal/cli/cli.go", "pkg/print/print.go", "pkg/print/schema.go"],
  [("commands", "internal/cli/schema/schema.go Print*Cmd.Run"), ("formats", "pkg/print/print.go Object/Print"), ("tables", "pkg/print/schema.go")],
  [], ["output of the commands", "print.Object", "errors of the commands"])

p("R01", "'Not found' is recognised through any wrapping, and nothing else is",
  "An error is classified as 'not found' exactly when the database's no-rows condition or a not-found error is somewhere in its chain, or its message has the text of the no-rows condition, however often and by whichever wrapping style it was wrapped, including through the library's own single-row queries. Two not-found errors are taken for the same exactly when table and ID agree; converting an error keeps the table and ID given and the original cause reachable, leaves every other error's identity intact, and maps success to success.",
  ["inputs", "histories"], "every finite composition of wrapping, joining and converting errors around every kind of root cause",
  "Tests check one or two wrap layers of two error kinds.",
  ["types.go", "query.go"],
  [("classification", "types.go IsNotFoundError/CheckNotFoundError"), ("error type", "types.go ErrorNotFound")],
  [], ["IsNotFoundError, CheckNotFoundError, errors.Is/As"])

p("C01", "The data source connects to the database that was asked for",
  "Opening or parsing a data source yields a connection string whose driver, host, user, password, parameters are those given and whose database is the separately requested one when there is one, for every supported driver, whether or not the source URL already names a database or carries other parameters. An unsupported driver or an unparsable or unreachable source is an error that leaves nothing open.",
  ["inputs", "configurations"], "every combination of driver, connection-string style, credentials with reserved characters, existing parameters and requested database",
  "Tests parse a few literal strings and never look at the composed string.",
  ["db.go"],
  [("composition", "db.go Open"), ("parsing", "db.go ParseConnectionString")],
  [], ["returned driver and connection string", "driver received by sql.Open"])

p("C02", "The program does what it was told, or fails and says so",
  "A run of xdbcli takes its source from the flag, else from the environment, and logs in to the database it was told and to no other, with the credentials of that source. It ends with exit code 0 exactly when everything asked for succeeded (known arguments, a usable source, the login, every query, every file written in full), and then the document printed or the files generated show exactly the objects selected in that database. Otherwise it ends with another code, says something on the error output and leaves the files there as they were (unless writing them is what failed), whatever runs there were before.",
  ["inputs", "configurations", "faults"], "every combination of command, arguments, environment, reachable databases and their contents, and a failure of any login, query or write",
  "Tests call the commands in process with a mocked provider, or run main against nothing.",
  ["cmd/xdbcli/main.go", "internal/cli/cli.go", "internal/cli/schema/schema.go", "db.go", "schema/provider.go"],
  [("program", "cmd/xdbcli/main.go realMain"), ("source", "internal/cli/cli.go AfterApply/DB/SchemaProvider"), ("files", "internal/cli/schema/schema.go generate")],
  [], ["exit code", "output", "files", "logins received by the servers"])

p("D01", "A table description gives statements about its table, whoever shares it",
  "A statement started from a table description (select, aliased select, insert, update, delete) is about the table the description names, with the alias given, and selects exactly the columns given, or those of the description as it is at the time of the call, in order, each with the prefix given and NULL in the place of exactly those said to be NULL; it goes on in the description's dialect as any other statement. Nothing done with a statement or a list of columns changes a description, what was passed in, or another statement. Descriptions can be used by any number of goroutines at a time.",
  ["inputs", "histories", "schedules"], "every description, every sequence of statements started from several descriptions, continued and closed, by any number of callers at a time",
  "Tests render each kind of statement once, from one description, in one goroutine.",
  ["schema/schema.go"],
  [("statements", "schema/schema.go TableInfo.Select/SelectAliased/From/InsertInto/Update/DeleteFrom"), ("columns", "schema/schema.go TableInfo.AllColumns/AliasedColumns")],
  [("descriptions", "package-level variables in generated code", "schema/schema.go TableInfo")], ["text and arguments of statements", "fields of the description"])

p("X01", "Merging models takes the source's set fields and keeps the rest",
  "Merging one model into another gives each field the source's value when the source has one and otherwise keeps the destination's, for the library's ID, time and nullable string types as for plain fields, at any nesting. The source is left unchanged, and later changes to a field of either model (assigning it, setting, resetting or scanning an ID, adding to a map) do not show in the other.",
  ["inputs", "histories"], "every combination of set and unset fields in both models and every history of merges",
  "One test merges a single pair of records.",
  ["merge.go", "id.go", "time.go", "types.go"],
  [("type transformers", "merge.go")],
  [], ["fields of both models after Merge"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for r in P:
        assert len(r["title"]) <= 80, r["id"]
        assert len([s for s in r["statement"].split(". ") if s]) <= 3, r["id"]
        f.write(json.dumps(r, ensure_ascii=False) + "\n")
print(len(P))
