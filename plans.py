"""One plan per property: which specification is checked, which behaviours are
replayed into the code, which recorded traces are validated."""

PLANS = {}


def plan(pid, level="model_checking", rule="", assumptions=(), technique="", note=""):
    def deco(f):
        PLANS[pid] = {"run": f, "level": level, "rule": rule, "assumptions": list(assumptions), "technique": technique, "note": note}
        return f
    return deco


# ------------------------------------------------------------------ flake
def flake_replay(c):
    beh = c.gen("Flake", "FlakeGen.cfg", num=c.q(700, 12000), depth=30)
    c.replay("TestFlake", beh, default_prop="F01" if c.pid == "F01" else "F02")
    beh = c.gen("Flake", "FlakeFar.cfg", num=c.q(10, 40), depth=12)
    c.replay("TestFlake", beh, default_prop="F01" if c.pid == "F01" else "F02")


def flake_trace(c):
    tr = c.path("flake.json")
    c.replay("TestFlakeTrace", env={"FLAKE_ROUNDS": c.q(40, 300), "FLAKE_CALLS": c.q(60, 120)}, trace=tr)
    c.validate("FlakeTrace", "FlakeTrace.cfg", tr, prop="F01")


@plan("F01", technique="TLA+ spec of the generator checked with TLC; TLC behaviours replayed under fake time; recorded concurrent histories validated by TLC",
      rule="behaviours are random walks of Flake.tla over clock jumps and bursts of calls (non-trivial: more than 64 calls); traces are recorded histories of 2-16 concurrent callers, half of them with a moving clock",
      assumptions=["the clock the generator reads is the exported NowFunc or time.Now", "histories are ordered by an atomic counter taken before and after each call"],
      note="Design checked exhaustively for 3 IDs per ms, 2 generators, clock window of 13 ms; code bound by replay with the real constants and by trace validation of real concurrent runs. Assumes TLC and the fake clock of testing/synctest.")
def f01(c):
    c.par(lambda: c.binary(), lambda: c.mc("Flake", "FlakeMC.cfg"), lambda: flake_replay(c))
    flake_trace(c)


@plan("F02", technique="TLA+ spec of the ID layout and pacing checked with TLC; TLC behaviours replayed under fake time; settings enumerated from the spec",
      rule="behaviours are random walks of Flake.tla (non-trivial: more than 64 calls), all settings combinations of FlakeSettings.tla, histories of a host's addresses and its generators (FlakeHost.tla)",
      assumptions=["the clock the generator reads is the exported NowFunc or time.Now"],
      note="Exact time, machine id, bit layout and waiting of every ID against the specification at three time origins including the 41-bit limit; all settings combinations; the default machine id on hosts with given addresses (in a network namespace; skipped, and counted, where there is none). Assumes TLC and the fake clock of testing/synctest.")
def f02(c):
    def settings():
        beh = c.gen("FlakeSettings", "FlakeSettings.cfg")
        c.replay("TestFlakeSettings", beh)
    def host():
        # where the harness can have a network of its own
        c.replay("TestFlakeHost", c.gen("FlakeHost", "FlakeHost.cfg"))
        c.replay("TestFlakeHost", c.gen("FlakeHost", "FlakeHostSim.cfg", num=c.q(200, 2000), depth=20))
    c.par(lambda: c.binary(), lambda: c.mc("Flake", "FlakeMCfwd.cfg"), lambda: flake_replay(c), settings, host)
    flake_trace(c)


# ---------------------------------------------------------------- builder
BUILDER = dict(
    assumptions=["fragments, arguments and destinations are tagged with the call that introduced them", "text that is not a placeholder, an escaped placeholder or a separator is passed through unread by the builder"],
    technique="TLA+ spec of the statement builder checked with TLC against a transcription of the chunk algorithm; TLC behaviours (exhaustive and simulated) replayed into xsql",
)


def builder_design(c):
    c.mc("BuilderImpl", "BuilderMC.cfg")
    c.mc("BuilderImpl", "BuilderMCemb.cfg")


def builder_run(c, cfg, num, prop, salt=0, test="TestBuilder", race=False, depth=100):
    beh = c.gen("Builder", cfg, num=num, depth=depth, salt=salt)
    c.replay(test, beh, env={"BUILDER_PROP": prop}, race=race, default_prop=prop)


def builder_sim(c, cfg, quick, thorough, prop, test="TestBuilder", race=False):
    """Simulation is split over several TLC runs with their own seeds."""
    k = c.q(2, 6)
    n = c.q(quick, thorough) // k
    c.par(*[lambda s=s: builder_run(c, cfg, n, prop, salt=s, test=test, race=race) for s in range(k)])


def builder_enum(c, prop):
    beh = c.gen("Builder", "BuilderEnum.cfg", workers=3)
    c.replay("TestBuilder", beh, env={"BUILDER_PROP": prop}, default_prop=prop)


@plan("B01", rule="programs: all call sequences of length 4 over 20 calls and 2 kinds of fragments, and random programs of 22 calls over 4 statements, 9 kinds of fragments, nesting and 3 dialects (non-trivial: more than 3 calls and looked at)",
      note="Exact arguments and destinations of every statement against the specification; the chunk/argument-offset algorithm is shown to refine it for all programs of 4 calls. Assumes TLC.", **BUILDER)
def b01(c):
    c.par(lambda: c.binary(), lambda: builder_design(c), lambda: builder_enum(c, "B01"), lambda: builder_sim(c, "BuilderGen.cfg", 1600, 40000, "B01"))


@plan("B02", rule="as B01",
      note="Exact text of every statement against the specification. Assumes TLC.", **BUILDER)
def b02(c):
    c.par(lambda: c.binary(), lambda: builder_design(c), lambda: builder_enum(c, "B02"), lambda: builder_sim(c, "BuilderGen.cfg", 1600, 40000, "B02"))


@plan("B03", rule="random programs of 20 calls over 5 statements in 3 dialects, with nesting, escapes, adjacent placeholders, non-ASCII text; every text of 6 letters over backslash, question mark, a digit and non-ASCII, alone and in two clauses or statements (non-trivial: more than 3 calls and looked at)",
      note="Exact text in all dialects, nesting across dialects. Assumes TLC.", **BUILDER)
def b03(c):
    c.par(lambda: c.binary(), lambda: builder_design(c), lambda: builder_enum(c, "B03"), lambda: builder_sim(c, "BuilderDial.cfg", 1600, 40000, "B03"),
          lambda: c.replay("TestText", c.gen("Text", c.q("TextEnum.cfg", "TextDeep.cfg"), workers=3), default_prop="B03"))


@plan("B04", rule="random programs of 26 calls over 4 statements with clones, closing and executing variants, run one after another on a shared pool and by 8 goroutines under the race detector; a mismatch counts when the statement comes out differently in a process of its own",
      note="Statements are compared with the specification after reuse, cloning and concurrent use; data races in the builder are violations. Assumes TLC and the race detector.", **BUILDER)
def b04(c):
    c.par(lambda: c.binary(), lambda: c.binary(True), lambda: builder_sim(c, "BuilderPool.cfg", 1600, 30000, "B04"),
          lambda: builder_run(c, "BuilderPool.cfg", c.q(250, 3000), "B04", salt=91, test="TestBuilderPar", race=True))


@plan("B05", rule="random programs of 26 calls over 3 statements with names, cached queries and invalidation in 3 dialects, and all programs of 4 calls over fragments with coinciding texts, on one shared cache; sequentially and by 8 goroutines under the race detector",
      note="The cache is a variable of the specification; every text, cache entry and build count is compared. Assumes TLC and the race detector.", **BUILDER)
def b05(c):
    c.par(lambda: c.binary(), lambda: c.binary(True), lambda: builder_sim(c, "BuilderCache.cfg", 1600, 30000, "B05"),
          lambda: c.replay("TestBuilder", c.gen("Builder", "BuilderKeys.cfg", workers=3), env={"BUILDER_PROP": "B05"}, default_prop="B05"),
          lambda: builder_run(c, "BuilderCache.cfg", c.q(250, 3000), "B05", salt=91, test="TestBuilderPar", race=True))


# ---------------------------------------------------------------- queries
def query_run(c, prop):
    c.replay("TestQuery", c.gen("Query", "QueryEnum.cfg"), default_prop=prop)
    c.replay("TestQuery", c.gen("Query", "QueryBig.cfg"), default_prop=prop)
    sim = c.gen("Query", "QueryGen.cfg", num=c.q(1500, 20000), depth=200)
    c.replay("TestQuery", sim, default_prop=prop)


@plan("E01", technique="TLA+ spec of query execution with faults checked with TLC; all scenarios and simulated sequences replayed over a scripted database/sql driver",
      rule="every query function x executor x result size 0..3 (and 500, 501, 1100) x fault (query, fetch, scan, end, close, columns, cancellation, panic) x position, and random sequences of 8 (non-trivial: with a fault)",
      assumptions=["database/sql reports what the driver reports", "the driver's Close error at the end of a result is hidden by database/sql"],
      note="All query functions on all executors against a scripted driver. Assumes TLC and database/sql.")
def e01(c):
    c.par(lambda: c.binary(), lambda: c.mc("Query", "QueryMC.cfg"), lambda: query_run(c, "E01"))


@plan("Q01", technique="TLA+ spec of page walks checked with TLC (every row once, termination); all walks replayed over a database that honours limit and offset",
      rule="all walks with totals 0..8, limits 0..9, starts 0..10, up to one failing page, all ways to pass the page, offsets near 2^32, and totals around multiples of the default page size (non-trivial: more than one page)",
      assumptions=["the database honours LIMIT and OFFSET on an unchanged ordered result"],
      note="Exact rows, next-page flag and next offset of every page. Assumes TLC and database/sql.")
def q01(c):
    c.par(lambda: c.binary(), lambda: c.mc("Paging", "PagingMC.cfg"),
          lambda: c.replay("TestPaging", c.gen("Paging", "PagingOff.cfg"), default_prop="Q01"),
          lambda: c.replay("TestPaging", c.gen("Paging", "PagingBig.cfg"), default_prop="Q01"))


@plan("Q02", technique="TLA+ spec of cursor walks and of the cursor text form checked with TLC; all walks and texts replayed into the code",
      rule="all walks with totals 0..8, limits 1..9, starts 0..8, 6 kinds of keys (64-bit neighbours, text, composite, lists), up to one failing page; all cursor maps of up to 2 entries over 17 values at 3 places, and 8 kinds of damaged texts (non-trivial: more than one page, or undamaged)",
      assumptions=["the database returns the rows after the cursor in order"],
      note="Exact rows of every page, cursors round-trip through text between pages. Assumes TLC and database/sql.")
def q02(c):
    c.par(lambda: c.binary(), lambda: c.mc("Paging", "PagingMC.cfg"),
          lambda: c.replay("TestPaging", c.gen("Paging", "PagingCur.cfg"), default_prop="Q02"),
          lambda: c.replay("TestPaging", c.gen("Paging", "PagingBig.cfg"), default_prop="Q02"),
          lambda: c.replay("TestCursorCodec", c.gen("Cursor", "Cursor.cfg"), default_prop="Q02"),
          lambda: c.replay("TestCursorCodec", c.gen("Cursor", "Cursor2.cfg"), default_prop="Q02"))


@plan("Q03", technique="TLA+ spec of a parameters object with its memoised name checked with TLC; all call sequences of length 3 and simulated ones replayed; names compared over all of them",
      rule="all sequences of 3 calls out of 30 and random sequences of 14 calls over 11 positions, 9 enum positions, 9 flag lists, 8 null column lists, 5 limits and offsets (non-trivial: more than 2 calls)",
      assumptions=["the 64-bit hash of the null columns does not collide", "cursors are not nil", "the first page by offset may share its name with an unpaged set"],
      note="Every getter after every prefix, names compared with the shape over all behaviours. Known finding: concatenated null columns. Assumes TLC.")
def q03(c):
    c.par(lambda: c.binary(), lambda: c.mc("Params", "ParamsMC.cfg"))
    beh = c.gen("Params", "ParamsEnum.cfg", workers=4)
    with open(beh, "a") as f:
        for l in open(c.gen("Params", "ParamsGen.cfg", num=c.q(8000, 120000), depth=100)):
            f.write(l)
    c.replay("TestParams", beh, default_prop="Q03")


# ----------------------------------------------------------- transactions
def tx_run(c, prop):
    c.replay("TestTx", c.gen("Tx", c.q("TxEnum.cfg", "TxEnum5.cfg")), default_prop=prop)
    c.replay("TestTx", c.gen("Tx", "TxGen.cfg", num=c.q(6000, 60000), depth=100), default_prop=prop)


@plan("T01", technique="TLA+ spec of transaction providers checked with TLC (atomicity, confinement); all short and simulated histories replayed over a database with per-connection transactions",
      rule="all histories of 4 operations (5 in the thorough tier) of one parent and up to 2 transactions, random histories of 18 operations over 2 parents and up to 5 transactions with failing statements, begins, commits and rollbacks, ended and cancelled contexts, 4 kinds of options, 3 ways to write and 5 to read (non-trivial: a transaction begins)",
      assumptions=["database/sql runs the statements of a Tx on its connection"],
      note="Results, visible writes, begun and open transactions after every operation. Assumes TLC and database/sql.")
def t01(c):
    c.par(lambda: c.binary(), lambda: c.mc("Tx", "TxMC.cfg"), lambda: tx_run(c, "T01"))


@plan("T02", technique="TLA+ spec of the keep-alive design (all interleavings, liveness) and of the provider's life checked with TLC; all short and simulated histories replayed under fake time",
      rule="all histories of 5 operations and random ones of 16 over clock steps around the period, pings that succeed, fail, hang or cannot connect, up to 3 transactions, Close at any moment including that of a tick, failing and repeated (non-trivial: closed within the history)",
      assumptions=["testing/synctest runs the clock", "the keep-alive period is 60 s"],
      note="Pings counted after every operation; goroutines and connections after Close. Assumes TLC and testing/synctest.")
def t02(c):
    c.par(lambda: c.binary(), lambda: c.mc("KeepAlive", "KeepAlive.cfg"), lambda: c.replay("TestLifecycle", c.gen("Lifecycle", "LifecycleEnum.cfg"), default_prop="T02"),
          lambda: c.replay("TestLifecycle", c.gen("Lifecycle", "LifecycleGen.cfg", num=c.q(5000, 60000), depth=100), default_prop="T02"))


# ----------------------------------------------------------------- schema
def catalog_run(c, prop):
    c.par(lambda: c.replay("TestCatalog", c.gen("Catalog", "CatalogEnum.cfg", workers=3), default_prop=prop),
          *[lambda s=s: c.replay("TestCatalog", c.gen("Catalog", "CatalogGen.cfg", num=c.q(400, 4000), depth=60, salt=s), default_prop=prop) for s in range(c.q(2, 4))])


SCHEMA = dict(
    assumptions=["SQLite evaluates the catalog queries over emulated system catalogs as the server would; STRING_AGG and the N'' literals of SQL Server are rewritten first"],
    technique="TLA+ spec of the catalog and its listings checked with TLC (closure closed and minimal); all foreign-key graphs over 3 tables and simulated catalogs, changes and calls replayed with the catalog queries evaluated by SQLite",
)


@plan("S01", rule="all 512 foreign-key graphs over 3 tables x 4 filters with dependencies; random catalogs of up to 9 tables (names with quotes, dots, dashes and case variants; tables and views without columns in Postgres) and 6 views, 5 kinds of foreign keys, changed between calls, 11 filters, failing catalog queries (non-trivial: more than one call)",
      note="Listed tables, views and keys against the specification in three dialects. Assumes TLC, SQLite and the emulation of the system catalogs.", **SCHEMA)
def s01(c):
    c.par(lambda: c.binary(), lambda: c.mc("Catalog", c.q("CatalogMC.cfg", "CatalogMC4.cfg")), lambda: catalog_run(c, "S01"))


@plan("S02", rule="as S01, with 6 kinds of column lists and 6 of index lists for each table",
      note="Known finding: indexed columns with a comma in their names. Columns, indexes, links, primary keys and references of every listed table against the specification. Assumes TLC, SQLite and the emulation of the system catalogs.", **SCHEMA)
def s02(c):
    c.par(lambda: c.binary(), lambda: c.mc("Catalog", c.q("CatalogMC.cfg", "CatalogMC4.cfg")), lambda: catalog_run(c, "S02"),
          lambda: c.replay("TestCatalog", c.gen("Catalog", "CatalogComma.cfg", num=40, depth=20), default_prop="S02"))


# ----------------------------------------------------------------- errors
@plan("R01", technique="TLA+ spec of error chains (identities, text, not-found errors) checked with TLC; all chains of two wrappings (three in the thorough tier) and simulated longer ones built with the real wrappers and the library",
      rule="all chains of 13 leaves and 2 of 21 ways to wrap (3 in the thorough tier), random chains of 9 (non-trivial: not found somewhere)",
      assumptions=["errors.Is and errors.As of the standard library and cockroachdb/errors walk the chain"],
      note="Classification, identities, table and ID after every wrapping. Assumes TLC and the errors packages.")
def r01(c):
    c.par(lambda: c.binary(), lambda: c.mc("ErrChain", "ErrChainMC.cfg"), lambda: c.replay("TestErrChain", c.gen("ErrChain", c.q("ErrChainEnum.cfg", "ErrChainEnum3.cfg")), default_prop="R01"),
          lambda: c.replay("TestErrChain", c.gen("ErrChain", "ErrChainGen.cfg", num=c.q(8000, 80000), depth=30), default_prop="R01"))


@plan("X01", technique="TLA+ spec of models and their merging checked with TLC (idempotent, associative, nothing lost); simulated histories of three models replayed",
      rule="random histories of 12 operations on 3 models with 25 fields of 17 types at 4 levels and 3 maps: making, assigning in 4 ways, copying, merging by pointer or value, refused merges; every field of every model compared after each (non-trivial: more than one merge)",
      assumptions=["what lists, inner lists of maps and pointers refer to may be shared by the models"],
      note="All fields of all models after every operation. Assumes TLC.")
def x01(c):
    c.par(lambda: c.binary(), lambda: c.mc("Merge", "MergeMC.cfg"),
          *[lambda s=s: c.replay("TestMerge", c.gen("Merge", "MergeGen.cfg", num=c.q(1500, 15000), depth=60, salt=s), default_prop="X01") for s in range(4)])


# ----------------------------------------------------------------- values
def ids_run(c, prop):
    c.replay("TestIds", c.gen("Ids", "IdsEnum.cfg", workers=3), default_prop=prop)
    c.replay("TestIds", c.gen("Ids", "IdsGen.cfg", num=c.q(4000, 60000), depth=80), default_prop=prop)
    c.replay("TestIds", c.gen("Ids", "IdsWide.cfg", num=c.q(700, 10000), depth=40), env={"IDS_WIDE": 1}, default_prop=prop)


def bags_run(c, prop):
    c.replay("TestBags", c.gen("ValueBags", "ValueBagsGen.cfg", num=c.q(4000, 60000), depth=80), default_prop=prop)


def values_run(c, prop):
    c.replay("TestValues", c.gen("Values", "ValuesEnum.cfg", workers=3), default_prop=prop)
    c.replay("TestValues", c.gen("Values", "ValuesGen.cfg", num=c.q(4000, 60000), depth=80), default_prop=prop)


@plan("V01", technique="TLA+ spec of nullable values, what each is stored as and what each representation is read as, checked with TLC (reading undoes storing, NULL is zero, integers are read exactly or refused); every value x every representation and simulated histories replayed into the types, directly and through SQLite",
      rule="13 types: every value already in the destination x every representation a driver may return (integers at 16 landmarks from -2^63 to 2^64-1 in 4 kinds, numerics as text, both UUID forms, 8 forms of times, JSON and array text, malformed and out-of-range content); random histories of 30 scans, stores, table round trips, JSON round trips and cross-type integer cells; histories of maps and lists of strings (non-trivial: the destination was used before)",
      assumptions=["a number of 2^63 or more is stored as the 64-bit number with the same bits", "what the destination holds after a refused scan is open", "text times are exact to the millisecond"],
      note="Value, refusal and stored form of every step against the specification; the same through an SQLite table. Assumes TLC and SQLite.")
def v01(c):
    c.par(lambda: c.binary(), lambda: c.mc("Values", "ValuesMC.cfg"), lambda: values_run(c, "V01"), lambda: bags_run(c, "V01"))


@plan("V02", technique="TLA+ spec of IDs, ID lists, maps and lists of strings as pure values (an operation changes its own slot only) checked with TLC; all short and simulated histories replayed on shared storage; read by 8 goroutines under the race detector",
      rule="all histories of 3 operations over 2 IDs and 2 lists, random histories of 24 over 4 IDs and 3 lists sharing storage, random histories of 20 over 3 metadata maps, 3 sets of lists and 3 string lists sharing storage; every slot compared after every operation (non-trivial: lists or maps are combined)",
      assumptions=["sorting a list and writing its elements change what shares its storage", "the lists inside a merged set of lists may be shared", "the race detector finds the races of the interleavings it sees"],
      note="All values after every operation. Assumes TLC and the race detector.")
def v02(c):
    c.par(lambda: c.binary(), lambda: c.binary(True), lambda: c.mc("Ids", "IdsMC.cfg"), lambda: c.mc("ValueBags", "ValueBagsMC.cfg"), lambda: ids_run(c, "V02"), lambda: bags_run(c, "V02"),
          lambda: c.replay("TestIdsPar", c.gen("Ids", "IdsGen.cfg", num=c.q(800, 8000), depth=80, salt=5), race=True, default_prop="V02"))


@plan("V03", technique="TLA+ spec of IDs and ID lists as numbers and duplicate-free lists checked with TLC (set laws); all short and simulated histories replayed, every form of every ID compared",
      rule="all histories of 3 operations, random histories of 24 over 4 IDs and 3 lists: 7 numbers up to 2^64-1, 34 texts through Set, ParseID, TryParseID, MustID, JSON and YAML, 5 round trips, lists made, cut, added to, concatenated, sorted, stored and scanned (non-trivial: lists are combined)",
      assumptions=["the order after concatenating lists is open"],
      note="Number, text, quoted text, JSON, YAML and stored value of every ID; elements, texts, membership, overlap and stored value of every list. Assumes TLC.")
def v03(c):
    c.par(lambda: c.binary(), lambda: c.mc("Ids", "IdsMC.cfg"), lambda: ids_run(c, "V03"))


# -------------------------------------------------------------- migrations
def migrate_run(c, prop):
    c.replay("TestMigrate", c.gen("Migrate", "MigrateEnum.cfg", workers=3), default_prop=prop)
    c.replay("TestMigrate", c.gen("Migrate", "MigrateGen.cfg", num=c.q(2500, 30000), depth=1000), default_prop=prop)


@plan("M01", technique="TLA+ spec of a migration statement by statement, any of which may fail, checked with TLC (exactly the scripts on the way, success means recorded, failure means nothing after it); all single calls with every fault and simulated histories of calls replayed against a database/sql driver emulating the version table",
      rule="one call in two dialects: all script sets over 3 versions, all targets and forced versions, a failure of every statement; random histories of 5 calls over 7 versions (unpadded numbers, version 0, missing up or down scripts) with scripts added or removed between the calls (non-trivial: with a failure or more than one call)",
      assumptions=["golang-migrate reads the scripts of the directory", "an empty directory of scripts is outside the property"],
      note="Result, scripts run and recorded version after every call. Assumes TLC and the emulation of the version table.")
def m01(c):
    c.par(lambda: c.binary(), lambda: c.mc("Migrate", c.q("MigrateMC.cfg", "MigrateMC3.cfg")), lambda: migrate_run(c, "M01"))


# -------------------------------------------------------- nothing left behind
def stmtlife_run(c, prop):
    c.replay("TestStmtLife", c.gen("StmtLife", "StmtLifeEnum3.cfg", workers=3), default_prop=prop)
    c.replay("TestStmtLife", c.gen("StmtLife", "StmtLifeGen.cfg", num=c.q(2500, 30000), depth=60), default_prop=prop)
    c.replay("TestStmtRecycle", c.gen("StmtLife", "StmtLifeEnum2.cfg"), default_prop=prop)


@plan("E02", technique="TLA+ specs of query execution, transactions, catalog readers, migrations and of the statement pool checked with TLC (nothing open after a return, no buffer in two hands, none lost); their behaviours replayed over scripted database/sql drivers that count what is open",
      rule="the scenarios of E01, T01, S01 and M01, with what is left open after every operation; every life of a statement of 3 operations and random histories of 24 over 4 statements made, extended, cloned, run 3 ways with 6 kinds of faults, closed alone or by running; every way to close repeated with memory measured (non-trivial: with a fault)",
      assumptions=["database/sql counts the connections in use", "buffers returned are used again by the pool, or given up by the collector"],
      note="Cursors and connections after every operation; statements taken from the pool afterwards are distinct and whole. Assumes TLC and database/sql.")
def e02(c):
    c.par(lambda: c.binary(), lambda: c.mc("Query", "QueryMC.cfg"), lambda: c.mc("StmtLife", "StmtLifeMC.cfg"), lambda: stmtlife_run(c, "E02"), lambda: query_run(c, "E02"), lambda: tx_run(c, "E02"))
    c.par(lambda: catalog_run(c, "E02"), lambda: migrate_run(c, "E02"), lambda: c.replay("TestDataSource", c.gen("DataSource", "DataSourceGen.cfg", num=c.q(500, 8000), depth=300, salt=7), default_prop="E02"))


# ------------------------------------------------------------ data sources
def source_run(c, prop):
    c.par(lambda: c.replay("TestDataSource", c.gen("DataSource", "DataSourceEnum.cfg"), default_prop=prop),
          *[lambda s=s: c.replay("TestDataSource", c.gen("DataSource", "DataSourceGen.cfg", num=c.q(500, 8000), depth=300, salt=s), default_prop=prop) for s in range(2)])


@plan("C01", technique="TLA+ spec of opening a data source phase by phase, any of which may fail, and of how drivers read a URL, checked with TLC (the server is told what was asked for, nothing stays open); all short and simulated histories replayed against PostgreSQL and SQL Server protocol servers on the loopback network",
      rule="every requested database x database in the path or a parameter (3 spellings for SQL Server), every user x password, every pair of parameters, over 14 classes of reserved characters and 2 escaping styles; 8 ways to give the value and 6 bad values x 7 failures x 6 drivers; random histories of 12 calls over 3 sources opened, used on several connections and closed (non-trivial: another database is requested or several calls)",
      assumptions=["lib/pq and go-mssqldb read a URL as their parsers report", "a source that names two databases while none is requested is outside the property"],
      note="User, password, database and parameters as the server received them, the returned driver and string, connections and pools left. Assumes TLC, the drivers and the protocol servers of the harness.")
def c01(c):
    c.par(lambda: c.binary(), lambda: c.mc("DataSource", "DataSourceMC.cfg"), lambda: source_run(c, "C01"))


# ------------------------------------------------------------ notifier
def notifier_run(c, prop):
    jobs = [lambda: c.replay("TestNotifier", c.gen("Notifier", "NotifierEnum.cfg"), default_prop=prop)]
    for s in range(3):
        jobs.append(lambda s=s: c.replay("TestNotifier", c.gen("Notifier", "NotifierGen.cfg", num=c.q(500, 6000), depth=100, salt=s), race=(s == 0), default_prop=prop))
    jobs.append(lambda: c.replay("TestNotifierIdle", c.gen("Notifier", "NotifierIdle.cfg", num=c.q(60, 400), depth=100), default_prop=prop))
    c.par(*jobs)


@plan("N01", technique="TLA+ specs of a listener shared by several topics (what callers and the database see) and of the pipeline that carries notifications (all interleavings: order, no loss, topics independent, everything ends), checked with TLC; all short and simulated histories replayed against a PostgreSQL protocol server on the loopback network",
      rule="all histories of 4 calls over 2 topics; random histories of 24 calls over 4 topics (names that need quoting, differ by case): listen, listen twice, refused, lost or waiting for a connection, bursts of up to 120 notifications of 12 kinds of payload interleaved between topics, slow callbacks, contexts ended, connections lost, database down, close, several of these at a time (non-trivial: more than 2 calls)",
      assumptions=["what a lost connection had not delivered is not delivered again (PostgreSQL)", "at most 20 notifications pending while a callback does not return (buffers are bounded)"],
      note="Every callback's calls in order with payloads, the topics the database was told, results of Listen, goroutines and connections after Close. Assumes TLC, lib/pq and the protocol server of the harness.")
def n01(c):
    def impl():
        c.mc("NotifierImpl", "NotifierImplSafe.cfg")
        c.mc("NotifierImpl", "NotifierImpl.cfg")
        if not c.quick:
            c.mc("NotifierImpl", "NotifierImplBig.cfg")
    c.par(lambda: c.binary(), lambda: c.binary(True), lambda: c.mc("Notifier", "NotifierMC.cfg"), impl)
    notifier_run(c, "N01")


# ------------------------------------------------------------ code generation
def codegen_run(c, prop):
    c.par(lambda: c.replay("TestCodegen", c.gen("Codegen", "CodegenEnum.cfg"), default_prop=prop),
          *[lambda s=s: c.replay("TestCodegen", c.gen("Codegen", "CodegenGen.cfg", num=c.q(150, 1500), depth=100, salt=s), default_prop=prop, timeout=c.q(400, 800)) for s in range(c.q(2, 4))])


@plan("G01", technique="TLA+ spec of the code generator (which tables a run picks, what it generates from its input and overrides, what a run leaves behind), checked with TLC (each table once, fields distinct and in order, a run depends on its input alone); all short and simulated histories of runs replayed in one process; the generated code is built into a program that uses it and compares",
      rule="all pairs of 28 runs over a small catalog; random histories of 3 runs over catalogs of up to 5 tables and views in 4 schemas with up to 9 columns of 47 database types, keys, indexes, references, filters, dependencies, 5 kinds of override, options, output to files (new or again) or the console (non-trivial: more than one run)",
      assumptions=["unused and missing imports are tidied as goimports does", "names of tables and columns need no quoting"],
      note="Every generated package is compiled; descriptions, field of each scanned column, tags, statements, rows read with sample, limit and NULL values through database/sql, pages, equal text for equal input. Assumes TLC and the Go compiler.")
def g01(c):
    c.par(lambda: c.binary(), lambda: c.mc("Codegen", "CodegenMC.cfg"), lambda: codegen_run(c, "G01"))


def print_run(c, prop):
    c.par(lambda: c.replay("TestPrintCli", c.gen("PrintCli", "PrintCliEnum.cfg"), default_prop=prop),
          *[lambda s=s: c.replay("TestPrintCli", c.gen("PrintCli", "PrintCliGen.cfg", num=c.q(1500, 20000), depth=40, salt=s), default_prop=prop) for s in range(2)])


@plan("P01", technique="TLA+ spec of the printing commands (lists asked of the provider, document printed), checked with TLC (one document, complete, closed under dependencies, fails exactly when a list fails); all commands over small catalogs and simulated histories of commands replayed through the command line parser and the printing package, the output parsed back",
      rule="all commands, formats, filters, flags and failures over 4 small catalogs; random histories of 3 commands over catalogs of up to 5 tables and views with up to 5 columns (non-trivial: a catalog that is not empty)",
      assumptions=["the provider's lists are as S01 and S02 have it", "names have no blanks at their ends and no box-drawing characters, which the table format can not show"],
      note="JSON and YAML are decoded and must hold one document; rows and headers of the table format are compared cell by cell. Assumes TLC, kong and the decoders.")
def p01(c):
    c.par(lambda: c.binary(), lambda: c.mc("PrintCli", "PrintCliMC.cfg"), lambda: print_run(c, "P01"))


def times_run(c, prop):
    c.par(lambda: c.replay("TestTimes", c.gen("Times", "TimesEnum.cfg"), default_prop=prop),
          *[lambda s=s: c.replay("TestTimes", c.gen("Times", "TimesGen.cfg", num=c.q(2000, 30000), depth=30, salt=s), default_prop=prop) for s in range(2)])


@plan("V04", technique="TLA+ spec of time values (calendar, texts in every form and zone, sums, conversions), checked with TLC (calendar and its inverse, texts that tell instants apart, one instant in all zones); all short and simulated histories of conversions replayed, every observable compared after every step",
      rule="all pairs of a constructor at edge instants and a conversion or sum; random histories of 8 operations over all days of the years 1 to 9999, 9 zones, 0 to 9 fraction digits (non-trivial: more than one operation)",
      assumptions=["a refused text leaves the destination open"],
      note="The process's own zone changes between histories. Assumes TLC and Go's time package for reading observables.")
def v04(c):
    c.par(lambda: c.binary(), lambda: c.mc("Times", "TimesMC.cfg"), lambda: times_run(c, "V04"))


# ------------------------------------------------------------ the program
def tool_run(c, prop):
    c.par(lambda: c.replay("TestTool", c.gen("Tool", "ToolEnum.cfg"), default_prop=prop),
          *[lambda s=s: c.replay("TestTool", c.gen("Tool", "ToolGen.cfg", num=c.q(350, 3000), depth=30, salt=s), default_prop=prop, timeout=c.q(400, 800)) for s in range(2)])


@plan("C02", technique="TLA+ spec of the program's run (arguments and environment, source, login, listing, output, exit code), checked with TLC (it ends well exactly when everything asked for succeeded, output and logins as told); all short and simulated sequences of runs replayed with the program built from the code, against two PostgreSQL protocol servers on the loopback network whose catalog queries are evaluated",
      rule="all single runs over 5 commands, help and version, 2 sources in the flag and the environment, 3 databases, formats, filters and failures; random sequences of 4 runs (non-trivial: all)",
      assumptions=["what a run that fails has printed is open", "a login may be tried again"],
      note="Exit code, logins (user, password, database), documents printed, files written, overwritten or left alone. Failures: server away, login refused, a query refused, files that take no data. Assumes TLC, lib/pq and the protocol server of the harness.")
def c02(c):
    c.par(lambda: c.binary(), lambda: c.mc("Tool", "ToolMC.cfg"), lambda: tool_run(c, "C02"))


# ------------------------------------------------------------ table descriptions
def desc_run(c, prop):
    c.par(lambda: c.replay("TestDesc", c.gen("Desc", "DescEnum.cfg"), default_prop=prop),
          *[lambda s=s: c.replay("TestDesc", c.gen("Desc", "DescGen.cfg", num=c.q(2000, 40000), depth=40, salt=s), default_prop=prop) for s in range(2)],
          lambda: c.replay("TestDescShared", c.gen("Desc", "DescShared.cfg", num=c.q(2000, 30000), depth=40, salt=5), race=True, default_prop=prop))


@plan("D01", technique="TLA+ spec of table descriptions and the statements started from them, checked with TLC (columns exact, a statement changes by calls on it alone, a description by its owner alone); all short and simulated histories replayed, and many side by side on shared descriptions under the race detector",
      rule="all histories of 3 calls over 3 descriptions and 2 statements; random histories of 24 calls over 4 statements (select, aliased with prefix and NULL columns, insert, update, delete, further clauses, close, changes of a description); 8 goroutines on shared descriptions (non-trivial: more than 2 calls)",
      assumptions=["white space in a statement is free", "a description is changed by its owner only while nobody uses it"],
      note="Text and arguments of every statement, the descriptions, columns and sets of NULL columns passed in. Assumes TLC and the race detector.")
def d01(c):
    c.par(lambda: c.binary(), lambda: c.binary(True), lambda: c.mc("Desc", "DescMC.cfg"), lambda: desc_run(c, "D01"))
