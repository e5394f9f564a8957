------------------------------ MODULE Catalog ------------------------------
(***************************************************************************)
(* A database catalog and what listing it must return.  The catalog is     *)
(* what the database stores (columns in any order, nullability spelled in  *)
(* several ways, foreign keys as constraints over lists of columns); a     *)
(* listing is a function of the catalog and the arguments of the call.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Pool,        \* the tables that may exist, as indices of Names
          ViewPool,    \* the views that may exist, as indices of ViewNames
          FkKinds, ColTemplates, IdxTemplates, Filters, Faults, Depth, Walk, Dialects

VARIABLES dialect, present, det, ix, fks, views, ops, snap, fin
vars == <<dialect, present, det, ix, fks, views, ops, snap, fin>>

N(s, sf, n, nf) == [s |-> s, sf |-> sf, n |-> n, nf |-> nf]
Names == <<N("app", "app", "users", "users"), N("app", "app", "orders", "orders"), N("hr", "hr", "users", "users"),
           N("app", "app", "Users", "users"), N("App", "app", "items", "items"), N("hr", "hr", "o'brien \"x\" $1", "o'brien \"x\" $1"),
           N("a.b", "a.b", "c", "c"), N("a", "a", "b.c", "b.c"),
           N("app-x", "app-x", "users", "users")>>
ViewNames == <<N("app", "app", "active", "active"), N("hr", "hr", "orders", "orders"), N("hr", "hr", "Active", "active"), N("a.b", "a.b", "users", "users"), N("a", "a", "b.users", "b.users"),
               N("app-x", "app-x", "active", "active")>>

C(n, t, u, nul, len, p) == [name |-> n, type |-> t, udt |-> u, nul |-> nul, len |-> len, pos |-> p]
\* columns in the order the catalog returns them; len -1 is NULL
Cols == <<
  <<C("id", "bigint", "int8", "NO", -1, 1), C("a", "character varying", "varchar", "YES", 64, 2), C("b", "integer", "int4", "NO", -1, 3), C("<e&f> ", "integer", "int4", "NO", -1, 4), C("c d", "text", "text", "NO", 7, 5)>>,
  <<C("b", "integer", "int4", "YES", -1, 7), C("id", "bigint", "int8", "NO", -1, 2), C("a", "text", "text", "yes", -1, 4), C("c d", "text", "text", "NO", 7, 1), C("<e&f> ", "date", "date", "YES", -1, 9)>>,
  <<C("a", "ARRAY", "_int8", "TRUE", 0, 1), C("b", "bytea", "bytea", "NULL", 2147483647, 300), C("id", "uuid", "uuid", "FALSE", -1, 2), C("z z", "jsonb", "jsonb", "True", -1, 257), C("<e&f> ", "text", "text", "NO", 7, 1600), C("c d", "text", "text", "NO", 7, 6)>>,
  <<C("z", "date", "date", "null", -1, 10), C("y", "date", "date", "NOT NULL", -1, 9), C("id", "int", "int", "", 8, 5), C("b", "int", "int", "N", 4, 3), C("a", "xml", "xml", "Yes", 1, 1), C("cd", "int", "int", "NO", 4, 8), C("c d", "int", "int", "YES", 4, 7), C("e", "int", "int", "YES", 4, 2), C("<e&f> ", "int", "int", "NO", 4, 6)>>,
  <<C("ID", "bigint", "int8", "NO", -1, 4), C("id", "bigint", "int8", "YES", -1, 3), C("A", "text", "text", "NO", -1, 6), C("a", "text", "text", "YES", 5, 5), C("b", "text", "text", "NO", -1, 1), C("<e&f> ", "text", "text", "NO", -1, 12), C("c d", "text", "text", "NO", -1, 11)>>,
  <<>>,   \* Postgres has tables and views without columns
  <<C("id", "bigint", "int8", "NO", -1, 1), C("last, first", "text", "text", "YES", 80, 2)>>>>   \* CatalogComma only
I(n, p, u, c) == [name |-> n, primary |-> p, unique |-> u, cols |-> c]
Idx == <<
  <<>>,
  <<I("pk", TRUE, TRUE, <<"id">>)>>,
  <<I("pk", TRUE, TRUE, <<"id", "a">>), I("ix1", FALSE, FALSE, <<"a">>)>>,
  <<I("ix1", FALSE, TRUE, <<"b", "a">>), I("ix2", FALSE, FALSE, <<"a", "id", "b">>), I("pk", TRUE, TRUE, <<"b">>)>>,
  <<I("only", FALSE, TRUE, <<"id">>), I("u b", FALSE, FALSE, <<"b">>)>>,
  <<I("pk", TRUE, TRUE, <<"c d">>), I("ix1", FALSE, FALSE, <<"<e&f> ", "c d", "a">>), I(" ix ", FALSE, TRUE, <<"<e&f> ">>)>>,
  <<I("pk", TRUE, TRUE, <<"id">>), I("name", FALSE, FALSE, <<"last, first">>)>>>>
\* a foreign key constraint: its columns and the referenced ones, pairwise
Pairs(kind) == CASE kind = "a" -> <<<<"a", "id">>>>
                 [] kind = "b" -> <<<<"b", "id">>>>
                 [] kind = "id" -> <<<<"id", "id">>>>
                 [] kind = "ab" -> <<<<"a", "id">>, <<"b", "a">>>>
                 [] kind = "ba" -> <<<<"b", "a">>, <<"a", "b">>>>

\* ---------------------------------------------------------------- meaning
Nullable(s) == s \in {"YES", "yes", "Yes", "TRUE", "True", "NULL", "null"}
RECURSIVE SortCols(_)
SortCols(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE c \in S : \A d \in S : c.pos <= d.pos IN <<m>> \o SortCols(S \ {m})
NoColumns == 6
Range(q) == {q[i] : i \in DOMAIN q}
Sorted == [d \in 1..Len(Cols) |-> SortCols(Range(Cols[d]))]
\* one record for each pair of columns of each foreign key
FkRows == UNION {{[name |-> "fk_" \o k.kind, from |-> k.from, col |-> p[1], to |-> k.to, ref |-> p[2]] : p \in Range(Pairs(k.kind))} : k \in fks}
Column(t, c, ixs, R) == [name |-> c.name, type |-> c.type, udt |-> c.udt, nullable |-> Nullable(c.nul), len |-> IF c.len = -1 THEN 0 ELSE c.len, pos |-> c.pos,
                      indexes |-> {i.name : i \in {x \in Range(ixs) : c.name \in Range(x.cols)}},
                      refs |-> {r \in R : r.col = c.name}]
Describe(t, d, i) == LET R == IF t = 0 THEN {} ELSE {r \in FkRows : r.from = t} IN
                     [columns |-> [k \in 1..Len(Cols[d]) |-> Column(t, Sorted[d][k], Idx[i], R)], indexes |-> Range(Idx[i]),
                      pk |-> LET P == {x.cols[1] : x \in {y \in Range(Idx[i]) : y.primary /\ Len(y.cols) = 1}} IN IF P = {} THEN "" ELSE CHOOSE x \in P : TRUE]

Match(n, f) == /\ f.s = <<>> \/ n.sf \in {f.s[i][2] : i \in 1..Len(f.s)}
               /\ f.t = <<>> \/ n.nf \in {f.t[i][2] : i \in 1..Len(f.t)}
Listed(f) == {t \in present : Match(Names[t], f)}
Succ(S) == S \cup {k.to : k \in {e \in fks : e.from \in S}}
RECURSIVE Iter(_, _)
Iter(S, n) == IF n = 0 THEN S ELSE Iter(Succ(S), n - 1)
Closure(S) == Iter(S, Cardinality(present))
Tables(f, dep) == IF dep THEN Closure(Listed(f)) ELSE Listed(f)
Views(f) == {v \in views : Match(ViewNames[v], f)}
Keys(f) == {r \in FkRows : Match(Names[r.from], f)}

\* the closure is closed, and everything in it is reachable
ClosureOK == \A f \in Filters : LET L == Listed(f) Z == Closure(L) IN
  /\ L \subseteq Z /\ Succ(Z) = Z
  /\ \A S \in SUBSET present : (L \subseteq S /\ Succ(S) \subseteq S) => Z \subseteq S

\* ------------------------------------------------------------- behaviours
ViewCols(v) == IF dialect = "postgres" THEN (v % 6) + 1 ELSE (v % 5) + 1
Snapshot == [op |-> "catalog", dialect |-> dialect,
             tables |-> {[no |-> t, s |-> Names[t].s, n |-> Names[t].n, cols |-> Cols[det[t]], idx |-> Idx[ix[t]], want |-> Describe(t, det[t], ix[t])] : t \in present},
             views |-> {[no |-> v, s |-> ViewNames[v].s, n |-> ViewNames[v].n, cols |-> Cols[ViewCols(v)], want |-> Describe(0, ViewCols(v), 1)] : v \in views},
             fks |-> {[name |-> "fk_" \o k.kind, from |-> k.from, to |-> k.to, pairs |-> Pairs(k.kind)] : k \in fks}]
Draw(S) == RandomElement(IF Len(ops) < 0 THEN {} ELSE S)
AllFks == [from : Pool, to : Pool, kind : FkKinds]
Init == /\ dialect \in Dialects
        /\ IF Walk THEN /\ present = {} /\ fks = {} /\ views = {} /\ det = [t \in Pool |-> CHOOSE d \in ColTemplates : TRUE] /\ ix = [t \in Pool |-> CHOOSE i \in IdxTemplates : TRUE]
           ELSE /\ present = Pool /\ views = ViewPool
                /\ det = [t \in Pool |-> (t % 5) + 1] /\ ix = [t \in Pool |-> ((2 * t) % 6) + 1]
                /\ fks \in SUBSET AllFks
        /\ ops = <<>> /\ snap = ~Walk /\ fin = FALSE
OneFk == [from |-> Draw(Pool), to |-> Draw(Pool), kind |-> Draw(FkKinds)]
Change == \E some \in {Draw(1..6)}, n \in {Draw(0..7)}, P \in {{t \in Pool : Draw(1..4) > 1}}, V \in {{v \in ViewPool : Draw(1..2) = 1}} :
          \E G \in {{OneFk : i \in {x \in 1..7 : x <= n}} \cup {OneFk}} :
          /\ UNCHANGED <<dialect, ops, fin>>
          /\ present' = IF some = 1 \/ present = {} THEN P ELSE present
          /\ views' = IF some <= 2 THEN V ELSE views
          /\ det' = IF some <= 4 THEN [t \in Pool |-> Draw(IF dialect = "postgres" THEN ColTemplates ELSE ColTemplates \ {NoColumns})] ELSE det
          /\ ix' = [t \in Pool |-> IF det'[t] = NoColumns THEN 1 ELSE IF some <= 5 THEN Draw(IdxTemplates) ELSE ix[t]]
          /\ LET W == {k \in (IF some = 6 THEN fks \cup G ELSE G) : k.from \in present' /\ k.to \in present' /\ det'[k.from] # NoColumns /\ det'[k.to] # NoColumns}
             IN fks' = {k \in W : k = (CHOOSE x \in W : x.from = k.from /\ x.kind = k.kind)}
          /\ snap' = TRUE
Call(kind, f, dep, fault) ==
  /\ ops' = Append(ops, [op |-> kind, schemas |-> [i \in 1..Len(f.s) |-> f.s[i][1]], tables |-> [i \in 1..Len(f.t) |-> f.t[i][1]], dep |-> dep, fault |-> fault,
                         want |-> IF kind = "tables" THEN Tables(f, dep) ELSE IF kind = "views" THEN Views(f) ELSE {},
                         keys |-> IF kind = "keys" THEN Keys(f) ELSE {}])
  /\ UNCHANGED <<dialect, present, det, ix, fks, views, snap, fin>>
Changes == ~snap /\ Walk /\ Len(ops) % 4 = 0
Snap == snap /\ snap' = FALSE /\ ops' = Append(ops, Snapshot) /\ UNCHANGED <<dialect, present, det, ix, fks, views, fin>>
Emit == PrintT("BEH " \o ToJson(ops))
Next == \/ ~fin /\ Len(ops) < Depth /\ (Snap \/ (Changes /\ Change))
        \/ /\ ~fin /\ Len(ops) < Depth /\ ~Changes /\ ~snap
           /\ IF Walk THEN \E w \in {Draw(1..7)}, f \in {Draw(Filters)}, dep \in {Draw(BOOLEAN)}, ft \in {Draw(Faults)} :
                             Call(IF w <= 4 THEN "tables" ELSE IF w = 5 THEN "views" ELSE "keys", f, dep, ft)
              ELSE \E f \in Filters : Call("tables", f, TRUE, [q |-> 0, at |-> 0])
        \/ ~fin /\ Len(ops) = Depth /\ fin' = TRUE /\ Emit /\ UNCHANGED <<dialect, present, det, ix, fks, views, ops, snap>>
Spec == Init /\ [][Next]_vars

F(s, t) == [s |-> s, t |-> t]
SomeFilters == {F(<<>>, <<>>), F(<<<<"app", "app">>>>, <<>>), F(<<<<"APP", "app">>>>, <<<<"users", "users">>>>), F(<<>>, <<<<"USERS", "users">>>>), F(<<>>, <<<<"orders", "orders">>, <<"Items", "items">>>>),
                F(<<<<"hr", "hr">>, <<"a", "a">>>>, <<>>), F(<<<<"none", "none">>>>, <<>>), F(<<>>, <<<<"zz", "zz">>>>), F(<<>>, <<<<"active", "active">>, <<"c", "c">>>>),
                F(<<<<"HR", "hr">>>>, <<<<"O'Brien \"X\" $1", "o'brien \"x\" $1">>, <<"ACTIVE", "active">>>>), F(<<<<"a.b", "a.b">>, <<"hr", "hr">>>>, <<<<"c", "c">>, <<"users", "users">>, <<"b.c", "b.c">>>>)}
FewFilters == {F(<<>>, <<>>), F(<<<<"app", "app">>>>, <<>>), F(<<>>, <<<<"ORDERS", "orders">>>>), F(<<<<"hr", "hr">>>>, <<<<"users", "users">>>>)}
NoFaults == {[q |-> 0, at |-> 0]}
SomeFaults == {[q |-> 0, at |-> 0], [q |-> 0, at |-> 1], [q |-> 0, at |-> 2], [q |-> 0, at |-> 3], [q |-> 0, at |-> 4], [q |-> 0, at |-> 5]}
              \cup {[q |-> i, at |-> j] : i \in 1..6, j \in 0..3}
=============================================================================
