------------------------------- MODULE Codegen -------------------------------
(***************************************************************************)
(* The code generator: a process generates models and table descriptions   *)
(* from catalogs, once or several times, each time with its own options    *)
(* and overrides.  What a run generates depends on its input alone.        *)
(*                                                                         *)
(* A column is [n, ty, u, null, ml, fk]; a table [s, n, view, cols, pk,    *)
(* idx]; a call also has the filters and options of the command.           *)
(* The generator keeps the overrides in maps of the process: these are     *)
(* modelled (over), to show what a run leaves behind for the next.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Depth, Walk, Record, MaxTables, MaxCols

VARIABLES over,    \* the overrides in force in the process
          last,    \* the last call and what it generated
          ops, n, fin
vars == <<over, last, ops, n, fin>>

SchemaNames == <<"HR", "dbo", "public", "sales_1">>      \* in order
SchemaGo(s) == CASE s = "HR" -> "Hr" [] s = "dbo" -> "Dbo" [] s = "public" -> "Public" [] s = "sales_1" -> "Sales1"
\* table -> its Go name; the name of its description differs for names that start with an underscore
TableGo == [users |-> <<"User", "User">>, org |-> <<"Org", "Org">>, order_items |-> <<"OrderItem", "OrderItem">>,
            addresses |-> <<"Address", "Address">>, people |-> <<"Person", "Person">>, api_keys |-> <<"APIKey", "APIKey">>,
            Transactions |-> <<"Transaction", "Transaction">>, _audit |-> <<"Audit", "Xaudit">>, v_users |-> <<"VUser", "VUser">>,
            user_statuses |-> <<"UserStatus", "UserStatus">>, n9 |-> <<"N9", "N9">>]
TableSeq == <<"users", "org", "order_items", "addresses", "people", "api_keys", "Transactions", "_audit", "v_users", "user_statuses", "n9">>
ColGo == [id |-> "ID", user_id |-> "UserID", name |-> "Name", email |-> "Email", created_at |-> "CreatedAt", org_count |-> "OrgCount",
          tag_ids |-> "TagIds", labels |-> "Labels", type |-> "Type", meta |-> "Meta", ownerId |-> "OwnerID", url |-> "URL",
          api_key |-> "APIKey", is_active |-> "IsActive", price |-> "Price", _rev |-> "Xrev", n1 |-> "N1", col_2 |-> "Col2", parent_ID |-> "ParentID"]
ColSeq == <<"id", "user_id", "name", "email", "created_at", "org_count", "tag_ids", "labels", "type", "meta", "ownerId", "url",
            "api_key", "is_active", "price", "_rev", "n1", "col_2", "parent_ID">>
TextCols == {"name", "email", "api_key"}     \* always text: their types may be overridden
CountCols == {"org_count", "n1"}             \* always an integer
T(ty, u) == <<ty, u>>
PgTypes == {T("bigint", "int8"), T("integer", "int4"), T("smallint", "int2"), T("text", "text"), T("character varying", "varchar"),
            T("character", "bpchar"), T("boolean", "bool"), T("timestamp with time zone", "timestamptz"), T("timestamp without time zone", "timestamp"),
            T("date", "date"), T("jsonb", "jsonb"), T("bytea", "bytea"), T("numeric", "numeric"), T("real", "float4"), T("double precision", "float8"),
            T("uuid", "uuid"), T("inet", "inet"), T("USER-DEFINED", "ltree"), T("ARRAY", "_int8"), T("ARRAY", "_text"), T("ARRAY", "_varchar")}
MsTypes == {T(x, x) : x \in {"bigint", "int", "smallint", "tinyint", "nvarchar", "varchar", "nchar", "char", "text", "bit", "datetime", "datetime2",
                             "date", "decimal", "numeric", "real", "uniqueidentifier"}}
\* another database names only the type
OtherTypes == {T(x, "") : x \in {"bigint", "int", "smallint", "varchar", "text", "boolean", "datetime", "decimal", "numeric"}}
Types(prov) == CASE prov = "postgres" -> PgTypes [] prov = "sqlserver" -> MsTypes [] OTHER -> OtherTypes
TextType(prov) == CASE prov = "postgres" -> T("character varying", "varchar") [] prov = "sqlserver" -> T("nvarchar", "nvarchar") [] OTHER -> T("varchar", "")
IntType(prov) == CASE prov = "postgres" -> T("integer", "int4") [] prov = "sqlserver" -> T("int", "int") [] OTHER -> T("int", "")

Range(q) == {q[i] : i \in 1..Len(q)}
FullName(t) == t.s \o "." \o t.n
Lookup(pairs, k) == LET S == {i \in 1..Len(pairs) : pairs[i][1] = k} IN IF S = {} THEN "" ELSE pairs[CHOOSE i \in S : TRUE][2]
Or(a, b) == IF a # "" THEN a ELSE b

\* overrides: sequences of <<name, value>>, of names
NoDefs == [tables |-> <<>>, fields |-> <<>>, types |-> <<>>, cache |-> <<>>, drop |-> <<>>]

------------------------------------------------------------------------------
\* which tables a run generates
Passes(f, x) == f = <<>> \/ x \in Range(f)
Base(c) == {i \in 1..Len(c.cat) : ~c.cat[i].view /\ Passes(c.schemas, c.cat[i].s) /\ Passes(c.tables, c.cat[i].n)}
Refs(c, S) == S \cup {j \in 1..Len(c.cat) : ~c.cat[j].view /\ \E i \in S : \E k \in 1..Len(c.cat[i].cols) : c.cat[i].cols[k].fk = j}
Picked(c) ==
  (IF c.deps THEN Refs(c, Refs(c, Refs(c, Refs(c, Refs(c, Base(c)))))) ELSE Base(c))
  \cup (IF c.views = <<>> THEN {} ELSE {i \in 1..Len(c.cat) : c.cat[i].view /\ Passes(c.schemas, c.cat[i].s) /\ c.cat[i].n \in Range(c.views)})

\* what a run generates from its call and the overrides in force
TypeOf(d, t, x) ==
  Or(Lookup(d.types, x.n), Or(Lookup(d.types, FullName(t) \o "." \o x.n),
     IF x.u = "int4" /\ ~x.null /\ x.n \in {"org_count"} THEN Lookup(d.types, "_count") ELSE ""))
Kept(d, t) == SelectSeq(t.cols, LAMBDA x : x.n \notin Range(d.drop))
Flags(t, x) == (IF x.null THEN {"null"} ELSE {})
               \cup (IF \E i \in 1..Len(t.idx) : x.n \in Range(t.idx[i].cols) THEN {"index"} ELSE {})
               \cup (IF \E i \in 1..Len(t.idx) : t.idx[i].prim /\ x.n \in Range(t.idx[i].cols) THEN {"primary"} ELSE {})
               \cup (IF x.fk # 0 THEN {"fk"} ELSE {})
Prefix(c, t) == IF c.useschema /\ t.s \notin {"dbo", "public"} THEN SchemaGo(t.s) ELSE ""
Suffix(c) == IF c.suffix = "model" THEN "Model" ELSE ""
GenTable(c, d, t) ==
  LET ren == Lookup(d.tables, FullName(t)) IN
  [s |-> t.s, n |-> t.n, view |-> t.view,
   struct |-> Or(ren, Prefix(c, t) \o TableGo[t.n][1] \o Suffix(c)),
   info |-> Or(ren, TableGo[t.n][2]) \o "TableInfo",
   cols |-> [k \in 1..Len(Kept(d, t)) |->
              LET x == Kept(d, t)[k] IN
              [c |-> x, field |-> Or(Lookup(d.fields, FullName(t) \o "." \o x.n), ColGo[x.n]), type |-> TypeOf(d, t, x), flags |-> Flags(t, x)]],
   pk |-> IF t.pk \in Range(d.drop) THEN "*" ELSE t.pk,
   idx |-> [i \in 1..Len(t.idx) |-> t.idx[i].n],
   cache |-> FullName(t) \in Range(d.cache)]
Generated(c, d) == [t \in {FullName(c.cat[i]) : i \in Picked(c)} |->
                      GenTable(c, d, c.cat[CHOOSE i \in Picked(c) : FullName(c.cat[i]) = t])]
Exp(c) == Generated(c, c.defs)

\* the run: the overrides of the process become those of the call, then everything is generated
Generate(c, again) ==
  /\ over' = c.defs
  /\ last' = [call |-> c, made |-> Generated(c, over')]
  /\ n' = n + 1
  /\ ops' = IF Record THEN Append(ops, c @@ [again |-> again, exp |-> last'.made]) ELSE ops
  /\ UNCHANGED fin
FileSet(c) == {c.cat[i].s : i \in Picked(c)}
\* the same files are written again
CanAgain(c) == /\ last.call.out = "files" /\ c.out = "files" /\ FileSet(c) = FileSet(last.call)
               /\ c.pkgs = last.call.pkgs

------------------------------------------------------------------------------
Pick(S, k) == RandomElement(IF n < 0 \/ k < 0 THEN {} ELSE S)
RandCol(prov, k, base, step, nt, self) ==
  LET nm == ColSeq[((base + k * step) % Len(ColSeq)) + 1]
  IN \* one draw each
     [n |-> nm, t |-> IF nm \in TextCols THEN TextType(prov) ELSE IF nm \in CountCols THEN IntType(prov) ELSE Pick(Types(prov), k),
      null |-> Pick(1..5, k) <= 2, ml |-> Pick({0, 0, 16, 255}, k), fk |-> IF Pick(1..5, k) = 1 THEN Pick(1..nt, k) ELSE 0]
Plain(r) == [n |-> r.n, ty |-> r.t[1], u |-> r.t[2], null |-> r.null, ml |-> r.ml, fk |-> r.fk]
RawTable(prov, i, nt, tb, ts) ==
  LET base == Pick(0..18, i) IN
  [s |-> SchemaNames[Pick(1..4, i)], n |-> TableSeq[((tb + i * ts) % Len(TableSeq)) + 1], view |-> Pick(1..5, i) = 1,
   rc |-> LET st == Pick(1..18, i) IN [k \in 1..Pick(1..MaxCols, i) |-> RandCol(prov, k, Pick({0}, k) + i, st, nt, i)],
   pk |-> Pick(0..3, i), ix |-> Pick(0..2, i)]
Names(rc) == [k \in 1..Len(rc) |-> rc[k].n]
Finish(r) ==
  LET cs == [k \in 1..Len(r.rc) |-> Plain(r.rc[k])]
      pk == IF r.view \/ r.pk = 0 \/ r.pk > Len(cs) THEN "" ELSE cs[r.pk].n IN
  [s |-> r.s, n |-> r.n, view |-> r.view, cols |-> IF r.view THEN [k \in 1..Len(cs) |-> [cs[k] EXCEPT !.fk = 0]] ELSE cs, pk |-> pk,
   idx |-> IF r.view THEN <<>> ELSE
           (IF pk = "" THEN <<>> ELSE <<[n |-> r.n \o "_pkey", prim |-> TRUE, uniq |-> TRUE, cols |-> <<pk>>]>>)
           \o [i \in 1..r.ix |-> [n |-> r.n \o (IF i = 1 THEN "_idx1" ELSE "_idx2"), prim |-> FALSE, uniq |-> i = 2,
                                  cols |-> SubSeq(Names(r.rc), 1, IF i <= Len(cs) THEN i ELSE Len(cs))]]]
NoFkToViews(cat) == [i \in 1..Len(cat) |-> [cat[i] EXCEPT !.cols = [k \in 1..Len(@) |-> IF @[k].fk # 0 /\ cat[@[k].fk].view THEN [@[k] EXCEPT !.fk = 0] ELSE @[k]]]]

Sub(q, k) == SelectSeq(q, LAMBDA x : Pick(1..k, 1) = 1)
AllNames(cat) == [i \in 1..Len(cat) |-> FullName(cat[i])]
Numbered(i) == CASE i = 1 -> "1" [] i = 2 -> "2" [] i = 3 -> "3" [] i = 4 -> "4" [] i = 5 -> "5" [] i = 6 -> "6" [] i = 7 -> "7" [] i = 8 -> "8" [] OTHER -> "9"
RandDefs(cat) ==
  [tables |-> SelectSeq([i \in 1..Len(cat) |-> <<FullName(cat[i]), "Custom" \o Numbered(i)>>], LAMBDA x : Pick(1..4, 1) = 1),
   fields |-> SelectSeq([i \in 1..Len(cat) |-> <<FullName(cat[i]) \o "." \o cat[i].cols[1].n, "Field" \o Numbered(i)>>], LAMBDA x : Pick(1..3, 1) = 1),
   types |-> SelectSeq(<<<<"name", "xdb.NULLString">>, <<"Email", "xdb.Time">>, <<"ID", "xdb.NULLString">>, <<"n1", "xdb.Int64">>, <<"_count", "xdb.Int32">>>>
                       \o [i \in 1..Len(cat) |-> <<FullName(cat[i]) \o ".email", "xdb.NULLString">>], LAMBDA x : Pick(1..3, 1) = 1),
   cache |-> SelectSeq(AllNames(cat), LAMBDA x : Pick(1..4, 1) = 1),
   \* the names of other columns, also ones that differ in case only
   drop |-> SelectSeq(ColSeq, LAMBDA x : Pick(1..9, 1) = 1) \o SelectSeq(<<"ID", "ownerid", "parent_id", "Email", "NAME", "none">>, LAMBDA x : Pick(1..4, 1) = 1)]
\* a table keeps at least one column
Mend(d, cat) == IF \E i \in 1..Len(cat) : Kept(d, cat[i]) = <<>> THEN [d EXCEPT !.drop = <<>>] ELSE d
Opts(cat, prov, d) ==
  [prov |-> prov, db |-> Pick({"testdb", "my_db"}, 1), cat |-> cat, defs |-> Mend(d, cat),
   schemas |-> IF Pick(1..3, 1) = 1 THEN Sub(SchemaNames, 2) ELSE <<>>,
   tables |-> IF Pick(1..3, 1) = 1 THEN Sub([i \in 1..Len(cat) |-> cat[i].n], 2) ELSE <<>>,
   views |-> IF Pick(1..2, 1) = 1 THEN [i \in 1..Len(cat) |-> cat[i].n] ELSE <<>>,
   deps |-> Pick({TRUE, FALSE}, 1), pkgs |-> Pick({"dirs", "names"}, 1), suffix |-> Pick({"", "", "model"}, 1),
   useschema |-> Pick({TRUE, FALSE}, 1), out |-> Pick({"files", "files", "files", "writer"}, 1)]
Drawn == \E prov \in {Pick({"postgres", "postgres", "sqlserver", "mock"}, 1)}, nt \in {Pick(1..MaxTables, 1)}, tb \in {Pick(0..10, 1)}, ts \in {Pick(1..10, 1)} :
         \E raw \in {[i \in 1..nt |-> RawTable(prov, i, nt, tb, ts)]} :
         \E cat \in {NoFkToViews([i \in 1..nt |-> Finish(raw[i])])} :
         \E d \in {IF Pick(1..3, 1) = 1 THEN NoDefs ELSE RandDefs(cat)} :
         \E c \in {Opts(cat, prov, d)} : Generate(c, FALSE)
\* the last catalog with other options, or the same call, possibly over the same files
Varied == \E d \in {IF Pick(1..3, 1) = 1 THEN NoDefs ELSE RandDefs(last.call.cat)} :
          \E c \in {Opts(last.call.cat, last.call.prov, d)} : Generate(c, CanAgain(c) /\ Pick(1..2, 1) = 1)
Repeated == Generate(last.call, CanAgain(last.call) /\ Pick(1..2, 1) = 1)
Step == \E w \in {Pick(1..6, 1)} : IF n = 0 \/ w <= 2 THEN Drawn ELSE IF w <= 5 THEN Varied ELSE Repeated

\* a small catalog with every option, one or two at a time
Col(nm, ty, u, null, fk) == [n |-> nm, ty |-> ty, u |-> u, null |-> null, ml |-> 0, fk |-> fk]
SmallCat == <<
  [s |-> "public", n |-> "users", view |-> FALSE, pk |-> "id",
   cols |-> <<Col("id", "bigint", "int8", FALSE, 0), Col("name", "text", "text", TRUE, 0), Col("org_count", "integer", "int4", FALSE, 0), Col("ownerId", "bigint", "int8", TRUE, 2)>>,
   idx |-> <<[n |-> "users_pkey", prim |-> TRUE, uniq |-> TRUE, cols |-> <<"id">>]>>],
  [s |-> "HR", n |-> "people", view |-> FALSE, pk |-> "",
   cols |-> <<Col("email", "text", "text", FALSE, 0), Col("name", "text", "text", FALSE, 0), Col("id", "bigint", "int8", TRUE, 0)>>, idx |-> <<>>],
  [s |-> "public", n |-> "v_users", view |-> TRUE, pk |-> "",
   cols |-> <<Col("name", "text", "text", TRUE, 0), Col("id", "bigint", "int8", FALSE, 0)>>, idx |-> <<>>]>>
SmallDefs == {NoDefs, [NoDefs EXCEPT !.drop = <<"name">>], [NoDefs EXCEPT !.tables = <<<<"public.users", "Custom1">>>>],
              [NoDefs EXCEPT !.fields = <<<<"public.users.name", "Field1">>>>], [NoDefs EXCEPT !.types = <<<<"name", "xdb.NULLString">>>>],
              [NoDefs EXCEPT !.types = <<<<"_count", "xdb.Int32">>, <<"HR.people.email", "xdb.NULLString">>>>], [NoDefs EXCEPT !.cache = <<"public.users">>]}
SmallCall == [prov |-> "postgres", db |-> "testdb", cat |-> SmallCat, defs |-> NoDefs, schemas |-> <<>>, tables |-> <<>>, views |-> <<>>,
              deps |-> FALSE, pkgs |-> "dirs", suffix |-> "", useschema |-> FALSE, out |-> "files"]
SmallCalls == UNION {{[SmallCall EXCEPT !.defs = d], [SmallCall EXCEPT !.defs = d, !.views = <<"v_users">>],
                      [SmallCall EXCEPT !.defs = d, !.tables = <<"users">>, !.deps = TRUE],
                      [SmallCall EXCEPT !.defs = d, !.schemas = <<"HR">>, !.useschema = TRUE, !.suffix = "model"]} : d \in SmallDefs}
EnumStep == \E c \in SmallCalls : Generate(c, FALSE)

NoCall == [call |-> [SmallCall EXCEPT !.out = "none"], made |-> <<>>]
Init == over = NoDefs /\ last = NoCall /\ ops = <<>> /\ n = 0 /\ fin = FALSE
Next == \/ ~fin /\ n < Depth /\ (IF Walk THEN Step ELSE EnumStep)
        \/ ~fin /\ n = Depth /\ fin' = TRUE /\ (Record => PrintT("BEH " \o ToJson(ops))) /\ UNCHANGED <<over, last, ops, n>>
Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
Made == last.made
Call == last.call
\* every selected table once, with names of its own
Once == n > 0 => /\ DOMAIN Made = {FullName(Call.cat[i]) : i \in Picked(Call)} /\ Cardinality(DOMAIN Made) = Cardinality(Picked(Call))
                 /\ \A a, b \in DOMAIN Made : a # b => Made[a].struct # Made[b].struct /\ Made[a].info # Made[b].info
\* its columns in their order without those dropped, each with a field of its own
Fields == n > 0 => \A a \in DOMAIN Made :
            LET m == Made[a]
                src == Call.cat[CHOOSE i \in Picked(Call) : FullName(Call.cat[i]) = a].cols IN
            /\ \A i, j \in 1..Len(m.cols) : i # j => m.cols[i].field # m.cols[j].field /\ m.cols[i].c.n # m.cols[j].c.n
            /\ {m.cols[i].c : i \in 1..Len(m.cols)} = {x \in Range(src) : x.n \notin Range(Call.defs.drop)}
            /\ \A i, j \in 1..Len(m.cols) : i < j => \E k, l \in 1..Len(src) : k < l /\ src[k] = m.cols[i].c /\ src[l] = m.cols[j].c
\* a run depends on its input alone
Pure == n > 0 => Made = Exp(Call)
=============================================================================
