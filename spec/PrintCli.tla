------------------------------ MODULE PrintCli -------------------------------
(***************************************************************************)
(* The commands that print a schema: columns, tables, views, foreign keys, *)
(* as a table, JSON or YAML; and the printing package itself.              *)
(*                                                                         *)
(* A command asks the provider for what its filters select (tables, then   *)
(* views where they are wanted), fails when a list fails, and otherwise    *)
(* prints one document that has each listed thing once, in order, with     *)
(* all its fields.  What a command prints does not depend on earlier ones. *)
(*                                                                         *)
(* A column is [n, ty, u, null, ml, pos, fk], fk the place of the table    *)
(* its reference goes to (0: none); an object (table or view) is           *)
(* [s, n, ty, view, cols, idx, pk].  Numbers are texts: TLC has 32 bits.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Depth, Walk, Record, MaxObjs, MaxCols

VARIABLES cat,     \* the catalog
          call,    \* the command that runs
          pc,      \* idle, tables, views, keys, print
          got,     \* what the lists gave
          doc,     \* the documents printed
          err,     \* the command failed
          ops, n, fin
vars == <<cat, call, pc, got, doc, err, ops, n, fin>>

SchemaNames == <<"public", "dbo", "HR", "app-x", "1">>
\* names that a format has to quote are names too ("Zz" stands for letters outside ASCII)
ObjNames == <<"users", "orgs", "Order Items", "yes", "null", "0x1f", "k: v", "#c", "Zz_t", "it's", "q\"t", "1e3", "~", "[a]", "users_2">>
ColNames == <<"id", "ID", "full name", "no", "null", "007", "a: b", "# c", "Zz", "don't", "say \"hi\"", "2024-01-02", "~", "{x}", "on", "long_column_name_long_column_name_long_column_name_long_column_name",
              "&<>", "%d", "true", "org_id">>
Types == <<<<"bigint", "int8">>, <<"text", "text">>, <<"timestamp without time zone", "timestamp">>, <<"ARRAY", "_int8">>, <<"USER-DEFINED", "true">>,
           <<"nvarchar", "nvarchar">>, <<"numeric", "">>, <<"null", "1">>>>
Lengths == <<"0", "1", "255", "4294967295">>
Range(q) == {q[i] : i \in 1..Len(q)}
FullName(t) == t.s \o "." \o t.n

------------------------------------------------------------------------------
\* what the lists have
Passes(f, x) == f = <<>> \/ x \in Range(f)
Picks(view, fs, fn) == {i \in 1..Len(cat) : cat[i].view = view /\ Passes(fs, cat[i].s) /\ Passes(fn, cat[i].n)}
Refs(S) == S \cup {j \in 1..Len(cat) : ~cat[j].view /\ \E i \in S : \E k \in 1..Len(cat[i].cols) : cat[i].cols[k].fk = j}
RECURSIVE Ordered(_, _)
Ordered(S, i) == IF i > Len(cat) THEN <<>> ELSE (IF i \in S THEN <<i>> ELSE <<>>) \o Ordered(S, i + 1)
TableList(fs, fn, deps) == LET B == Picks(FALSE, fs, fn) IN Ordered(IF deps THEN Refs(Refs(Refs(Refs(Refs(Refs(B)))))) ELSE B, 1)
ViewList(fs, fn) == Ordered(Picks(TRUE, fs, fn), 1)

\* keys, each the place of its table and column
RECURSIVE KeysOf(_, _)
KeysOf(q, k) == IF q = <<>> THEN <<>>
                ELSE IF k > Len(cat[Head(q)].cols) THEN KeysOf(Tail(q), 1)
                ELSE (IF cat[Head(q)].cols[k].fk # 0 THEN <<<<Head(q), k>>>> ELSE <<>>) \o KeysOf(q, k + 1)
KeyList(fs, fn) == KeysOf(TableList(fs, fn, FALSE), 1)

\* the place a reference goes to: the first column of its table
RefText(x) == IF x.fk = 0 THEN "" ELSE FullName(cat[x.fk]) \o "." \o cat[x.fk].cols[1].n
KeyRow(p) == LET t == cat[p[1]] x == t.cols[p[2]] r == cat[x.fk] IN
             <<"fk_" \o t.n \o "_" \o x.n, t.s, t.n, x.n, r.s, r.n, r.cols[1].n>>

\* printed forms
Yes(b) == IF b THEN "YES" ELSE ""
Indexed(t, x) == \E i \in 1..Len(t.idx) : x.n \in Range(t.idx[i].cols)
ColRow(t, x) == <<x.pos, x.n, x.ty, x.u, Yes(x.null), IF x.ml = "0" THEN "" ELSE x.ml, Yes(Indexed(t, x)), RefText(x)>>
RECURSIVE Joined(_)
Joined(q) == IF q = <<>> THEN "" ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o ", " \o Joined(Tail(q))
IdxRow(d) == <<d.n, Yes(d.pk), Yes(d.uq), Joined(d.cols)>>
ColTable(t) == [s |-> t.s, n |-> t.n, rows |-> [k \in 1..Len(t.cols) |-> ColRow(t, t.cols[k])], idx |-> [i \in 1..Len(t.idx) |-> IdxRow(t.idx[i])]]
\* JSON and YAML have the object itself; references and the indexes of a column are not part of it
Plain(x) == [n |-> x.n, ty |-> x.ty, u |-> x.u, null |-> x.null, ml |-> x.ml, pos |-> x.pos]
ObjDoc(t) == [s |-> t.s, n |-> t.n, ty |-> t.ty, view |-> t.view, idx |-> t.idx,
              cols |-> [k \in 1..Len(t.cols) |-> Plain(t.cols[k])],
              pk |-> IF \E k \in 1..Len(t.cols) : t.cols[k].n = t.pk THEN <<Plain(t.cols[CHOOSE k \in 1..Len(t.cols) : t.cols[k].n = t.pk])>> ELSE <<>>]
Each(q, F(_)) == [i \in 1..Len(q) |-> F(q[i])]
Printed(c, list) ==
  CASE c.kind \in {"fks", "api-fks"} -> Each(list, KeyRow)
    [] c.o # "table" -> Each(list, LAMBDA i : ObjDoc(cat[i]))
    [] c.kind \in {"columns", "api-tables", "api-table"} -> Each(list, LAMBDA i : ColTable(cat[i]))
    [] c.kind = "api-indexes" -> Each(cat[list[1]].idx, IdxRow)
    [] OTHER -> Each(list, LAMBDA i : FullName(cat[i]))

\* what a command is to print, and whether it is to fail
ViewsToo(c) == c.kind \in {"columns", "tables"} /\ c.views
Fails(c) == \/ c.fail = "tables" /\ c.kind \in {"columns", "tables"}
            \/ c.fail = "views" /\ (c.kind = "views" \/ ViewsToo(c))
            \/ c.fail = "keys" /\ c.kind = "fks"
Listed(c) ==
  CASE c.kind = "columns" -> TableList(c.schemas, c.names, c.deps) \o (IF c.views THEN ViewList(c.schemas, c.names) ELSE <<>>)
    [] c.kind = "tables" -> TableList(c.schemas, c.names, TRUE) \o (IF c.views THEN ViewList(c.schemas, c.names) ELSE <<>>)
    [] c.kind = "views" -> ViewList(c.schemas, c.names)
    [] c.kind \in {"fks", "api-fks"} -> KeyList(c.schemas, c.names)
    [] c.kind = "api-tables" -> TableList(c.schemas, c.names, FALSE)
    [] OTHER -> <<1>>                                  \* api-table, api-indexes: of the first object
Want(c) == [fails |-> Fails(c), list |-> IF Fails(c) THEN <<>> ELSE Listed(c), doc |-> IF Fails(c) THEN <<>> ELSE Printed(c, Listed(c))]

------------------------------------------------------------------------------
\* a command, step by step
First(c) == CASE c.kind \in {"columns", "tables", "api-tables"} -> "tables"
              [] c.kind = "views" -> "views"
              [] c.kind \in {"fks", "api-fks"} -> "keys"
              [] OTHER -> "print"
Begin(c) ==
  /\ pc = "idle" /\ call' = c /\ pc' = First(c) /\ doc' = <<>> /\ err' = FALSE
  /\ got' = IF First(c) = "print" THEN <<1>> ELSE <<>>
  /\ n' = n + 1
  /\ ops' = IF Record THEN Append(ops, c @@ [want |-> Want(c)]) ELSE ops
  /\ UNCHANGED <<cat, fin>>
Api == call.kind \in {"api-tables", "api-fks"}
ListTables ==
  /\ pc = "tables"
  /\ IF call.fail = "tables" /\ ~Api
     THEN pc' = "idle" /\ err' = TRUE /\ UNCHANGED got
     ELSE /\ got' = got \o TableList(call.schemas, call.names, call.kind = "tables" \/ (call.kind = "columns" /\ call.deps))
          /\ pc' = IF ViewsToo(call) THEN "views" ELSE "print"
          /\ UNCHANGED err
  /\ UNCHANGED <<cat, call, doc, ops, n, fin>>
ListViews ==
  /\ pc = "views"
  /\ IF call.fail = "views" THEN pc' = "idle" /\ err' = TRUE /\ UNCHANGED got
     ELSE got' = got \o ViewList(call.schemas, call.names) /\ pc' = "print" /\ UNCHANGED err
  /\ UNCHANGED <<cat, call, doc, ops, n, fin>>
ListKeys ==
  /\ pc = "keys"
  /\ IF call.fail = "keys" /\ ~Api THEN pc' = "idle" /\ err' = TRUE /\ UNCHANGED got
     ELSE got' = KeyList(call.schemas, call.names) /\ pc' = "print" /\ UNCHANGED err
  /\ UNCHANGED <<cat, call, doc, ops, n, fin>>
PrintIt == /\ pc = "print" /\ doc' = Append(doc, Printed(call, got)) /\ pc' = "idle" /\ UNCHANGED <<cat, call, got, err, ops, n, fin>>

------------------------------------------------------------------------------
Pick(S, k) == RandomElement(IF n < 0 \/ k < 0 THEN {} ELSE S)
\* the catalog is built before the first command: a draw a step
Building == n = 0 /\ pc = "idle" /\ call.kind = "none"
NameOf(i, b, st) == ObjNames[((b + i * st) % Len(ObjNames)) + 1]
RandCol(k, b, st, nobj, view) ==
  LET ty == Types[Pick(1..Len(Types), k)] IN
  [n |-> ColNames[((b + k * st) % Len(ColNames)) + 1], ty |-> ty[1], u |-> ty[2], null |-> Pick(1..2, k) = 1, ml |-> Lengths[Pick(1..4, k)],
   pos |-> Lengths[Pick(1..3, k)], fk |-> IF view \/ Pick(1..3, k) # 1 THEN 0 ELSE Pick(1..nobj, k)]
ColNamesOf(cs) == [k \in 1..Len(cs) |-> cs[k].n]
RandObj(i, nobj, b, st) ==
  LET view == Pick(1..3, i) = 1 IN
  [s |-> SchemaNames[Pick(1..5, i)], n |-> NameOf(i, b, st), view |-> view, ty |-> IF view THEN "VIEW" ELSE "BASE TABLE",
   cols |-> LET cb == Pick(0..19, i) cst == Pick({1, 3, 7, 9}, i) IN [k \in 1..Pick(1..MaxCols, i) |-> RandCol(k, cb, cst, nobj, view)],
   pk |-> Pick(0..2, i), ix |-> Pick(0..2, i)]
\* indexes and the key from the columns drawn
Finish(r) ==
  LET cs == r.cols pk == IF r.view \/ r.pk = 0 \/ r.pk > Len(cs) THEN "" ELSE cs[r.pk].n IN
  [s |-> r.s, n |-> r.n, view |-> r.view, ty |-> r.ty, cols |-> cs, pk |-> pk,
   idx |-> IF r.view THEN <<>> ELSE
           (IF pk = "" THEN <<>> ELSE <<[n |-> "pk " \o r.n, pk |-> TRUE, uq |-> TRUE, cols |-> <<pk>>]>>)
           \o [i \in 1..r.ix |-> [n |-> "ix" \o (IF i = 1 THEN "1" ELSE "2"), pk |-> FALSE, uq |-> i = 2, cols |-> SubSeq(ColNamesOf(cs), 1, IF i <= Len(cs) THEN i ELSE Len(cs))]]]
\* references go to tables
Mended(q) == [i \in 1..Len(q) |-> [q[i] EXCEPT !.cols = [k \in 1..Len(@) |-> IF @[k].fk # 0 /\ q[@[k].fk].view THEN [@[k] EXCEPT !.fk = 0] ELSE @[k]]]]
Draw == /\ Building
        /\ \E m \in {Pick(0..MaxObjs, 1)}, b \in {Pick(0..14, 1)}, st \in {Pick({1, 2, 4, 7}, 1)} :
           \E raw \in {[i \in 1..m |-> RandObj(i, m, b, st)]} : cat' = Mended([i \in 1..m |-> Finish(raw[i])])
        /\ call' = [call EXCEPT !.kind = "ready"]
        /\ UNCHANGED <<pc, got, doc, err, ops, n, fin>>

Kinds == <<"columns", "columns", "tables", "tables", "views", "fks", "api-tables", "api-fks", "api-table", "api-indexes">>
Sub(q, k) == SelectSeq(q, LAMBDA x : Pick(1..k, 1) = 1)
Dedup(q) == SelectSeq([i \in 1..Len(q) |-> IF \E j \in 1..(i - 1) : q[j] = q[i] THEN "" ELSE q[i]], LAMBDA x : x # "")
NoCall == [kind |-> "none", o |-> "table", schemas |-> <<>>, names |-> <<>>, deps |-> FALSE, views |-> FALSE, fail |-> "none"]
Possible(c) == c.kind \in {"api-table", "api-indexes"} => cat # <<>>
FixKind(k, o) == IF k = "api-table" /\ cat = <<>> THEN "columns" ELSE IF k = "api-indexes" /\ (cat = <<>> \/ o # "table") THEN "tables" ELSE k
RandCall ==
  \E k \in {Kinds[Pick(1..Len(Kinds), 1)]}, o \in {Pick({"table", "json", "yaml"}, 1)} :
  \E c \in {[kind |-> FixKind(k, o), o |-> o,
             schemas |-> IF Pick(1..3, 1) = 1 THEN Dedup(Sub([i \in 1..Len(cat) |-> cat[i].s], 2)) ELSE <<>>,
             names |-> IF Pick(1..3, 1) = 1 THEN Sub([i \in 1..Len(cat) |-> cat[i].n], 2) \o (IF Pick(1..4, 1) = 1 THEN <<"none">> ELSE <<>>) ELSE <<>>,
             deps |-> Pick({TRUE, FALSE}, 1), views |-> Pick({TRUE, FALSE}, 1),
             fail |-> Pick({"none", "none", "none", "tables", "views", "keys"} \cup (IF Pick(1..3, 1) = 1 THEN {} ELSE {"none"}), 1)]} :
  Begin(c)

\* small: two tables, one that refers to the other, and a view; or nothing but a view; or nothing
C(nm, fk) == [n |-> nm, ty |-> "bigint", u |-> "int8", null |-> FALSE, ml |-> "0", pos |-> "1", fk |-> fk]
Obj(s, nm, view, cols, pk, idx) == [s |-> s, n |-> nm, view |-> view, ty |-> IF view THEN "VIEW" ELSE "BASE TABLE", cols |-> cols, pk |-> pk, idx |-> idx]
V1 == Obj("public", "v", TRUE, <<C("id", 0)>>, "", <<>>)
T1 == Obj("public", "users", FALSE, <<C("id", 0), [C("org", 2) EXCEPT !.null = TRUE, !.ml = "255"]>>, "id", <<[n |-> "pk", pk |-> TRUE, uq |-> TRUE, cols |-> <<"id">>]>>)
T2 == Obj("HR", "orgs", FALSE, <<C("no", 0)>>, "", <<>>)
SmallCats == {<<>>, <<V1>>, <<T2>>, <<T1, T2, V1>>}
SmallCalls == {[kind |-> k, o |-> o, schemas |-> fs, names |-> fn, deps |-> d, views |-> v, fail |-> f] :
                 k \in {"columns", "tables", "views", "fks"}, o \in {"table", "json", "yaml"}, fs \in {<<>>, <<"public">>}, fn \in {<<>>, <<"users">>, <<"v">>},
                 d \in BOOLEAN, v \in BOOLEAN, f \in {"none", "tables", "views", "keys"}}

Init == /\ cat \in (IF Walk THEN {<<>>} ELSE SmallCats)
        /\ call = [NoCall EXCEPT !.kind = IF Walk THEN "none" ELSE "ready"]
        /\ pc = "idle" /\ got = <<>> /\ doc = <<>> /\ err = FALSE /\ ops = <<>> /\ n = 0 /\ fin = FALSE
Command == pc = "idle" /\ ~fin /\ n < Depth /\ ~Building /\ (IF Walk THEN RandCall ELSE \E c \in SmallCalls : Begin(c))
Next == \/ Walk /\ Draw
        \/ Command
        \/ ListTables \/ ListViews \/ ListKeys \/ PrintIt
        \/ /\ ~fin /\ pc = "idle" /\ n = Depth /\ fin' = TRUE
           /\ (Record => PrintT("BEH " \o ToJson(<<[kind |-> "cat", cat |-> cat]>> \o ops)))
           /\ UNCHANGED <<cat, call, pc, got, doc, err, ops, n>>
Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
Ended == pc = "idle" /\ n > 0
\* a command prints what it lists as one document, or fails when a list does
OneDocument == Ended => IF err THEN doc = <<>> ELSE doc = <<Printed(call, Listed(call))>>
FailsRight == Ended => err = Fails(call)
\* each thing that the filters select once, nothing else (tables also list what they refer to)
Complete == Ended /\ ~err /\ call.kind \in {"columns", "tables", "views"} =>
  /\ \A i, j \in 1..Len(got) : i # j => got[i] # got[j]
  /\ (call.kind = "views" \/ ViewsToo(call)) => \A i \in 1..Len(cat) : cat[i].view => (i \in Range(got)) = (Passes(call.schemas, cat[i].s) /\ Passes(call.names, cat[i].n))
  /\ call.kind = "views" => \A i \in Range(got) : cat[i].view
  /\ call.kind # "views" => \A i \in 1..Len(cat) : ~cat[i].view /\ Passes(call.schemas, cat[i].s) /\ Passes(call.names, cat[i].n) => i \in Range(got)
  /\ call.kind = "columns" /\ ~call.deps => \A i \in Range(got) : Passes(call.schemas, cat[i].s) /\ Passes(call.names, cat[i].n)
\* with dependencies the list is closed: a reference goes to a listed table
Closed == Ended /\ ~err /\ (call.kind = "tables" \/ (call.kind = "columns" /\ call.deps)) =>
  \A i \in Range(got) : \A k \in 1..Len(cat[i].cols) : cat[i].cols[k].fk # 0 => cat[i].cols[k].fk \in Range(got)
=============================================================================
