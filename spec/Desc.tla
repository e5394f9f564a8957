-------------------------------- MODULE Desc ---------------------------------
(***************************************************************************)
(* Table descriptions (schema.TableInfo) and the statements started from   *)
(* them.  A description is a value many callers hold: generated code has   *)
(* one variable per table.  A statement is about the table and the columns *)
(* the description had when it was started; nothing a caller does with a   *)
(* statement changes a description or another statement.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Depth, Walk, Record, Changes

VARIABLES d,    \* the descriptions: table, columns, dialect
          s,    \* the statements in the slots
          ops, n, fin
vars == <<d, s, ops, n, fin>>

Ds == 1..3
Slots == 1..(IF Walk THEN 4 ELSE 2)
None == [k |-> "none"]
\* two descriptions of tables with one name, in other schemas and dialects
Start == <<[tab |-> "public.users", cols |-> <<"id", "name", "email">>, dial |-> "postgres"],
           [tab |-> "hr.users", cols |-> <<"id", "\"order\"", "name">>, dial |-> "sqlserver"],
           [tab |-> "public.users", cols |-> <<"name", "zone">>, dial |-> "none"]>>
Names == {"id", "name", "email", "\"order\"", "zone", "NULL_x"}
Prefixes == {"", "t", "u2"}
Range(q) == {q[i] : i \in DOMAIN q}

RECURSIVE Join(_, _)
Join(q, sep) == IF q = <<>> THEN "" ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o sep \o Join(Tail(q), sep)
Map(f(_), q) == [i \in 1..Len(q) |-> f(q[i])]

\* columns as they are selected
Alias(p, nulls, c) == IF c \in nulls THEN "NULL" ELSE IF p = "" THEN c ELSE p \o "." \o c
Aliased(cols, p, nulls) == [i \in 1..Len(cols) |-> Alias(p, nulls, cols[i])]

WhereText(t) == IF t.wh = <<>> THEN "" ELSE " WHERE " \o Join([i \in 1..Len(t.wh) |-> t.wh[i] \o " > ?"], " AND ")
RetText(t) == IF t.ret = <<>> THEN "" ELSE " RETURNING " \o Join(t.ret, ", ")
Text(t) ==
  CASE t.k = "select" -> "SELECT " \o Join(t.list, ", ") \o " FROM " \o t.tab \o WhereText(t)
    [] t.k = "update" -> "UPDATE " \o t.tab \o " SET " \o Join([i \in 1..Len(t.sets) |-> t.sets[i] \o "=?"], ", ") \o WhereText(t) \o RetText(t)
    [] t.k = "insert" -> "INSERT INTO " \o t.tab \o " (" \o Join(t.sets, ", ") \o ") VALUES (" \o Join([i \in 1..Len(t.sets) |-> "?"], ", ") \o ")" \o RetText(t)
    [] t.k = "delete" -> "DELETE FROM " \o t.tab \o WhereText(t) \o RetText(t)
    [] OTHER -> ""
Args(t) == t.sargs \o t.wargs
Whole(t) == t.k # "none" /\ (t.k \in {"update", "insert"} => t.sets # <<>>) /\ (t.k = "select" => t.list # <<>>)

Do(o) == /\ ops' = (IF Record THEN Append(ops, o) ELSE ops) /\ n' = n + 1 /\ UNCHANGED fin
New(x, k, tab, list) == [k |-> k, tab |-> tab, list |-> list, sets |-> <<>>, sargs |-> <<>>, wh |-> <<>>, wargs |-> <<>>, ret |-> <<>>, dial |-> d[x].dial, of |-> x]

\* a statement is started from description x in slot i
Begin(i, x, k, cols, p, nulls) ==
  /\ s[i].k = "none"
  /\ LET L == CASE k = "select" -> IF cols = <<>> THEN d[x].cols ELSE cols
                [] k = "aliased" -> Aliased(d[x].cols, p, nulls)
                [] OTHER -> <<>>
         kk == IF k \in {"from", "aliased"} THEN "select" ELSE k
         tab == IF k = "aliased" /\ p # "" THEN d[x].tab \o " " \o p ELSE d[x].tab
     IN s' = [s EXCEPT ![i] = New(x, kk, tab, L)]
  /\ Do([op |-> "Begin", i |-> i, d |-> x, k |-> k, cols |-> cols, p |-> p, nulls |-> nulls])
  /\ UNCHANGED d
\* it goes on as any other
Go(i, op, c) ==
  LET t == s[i] m == n + 1 IN
  /\ t.k # "none"
  /\ \/ op = "Where" /\ t.k # "insert" /\ s' = [s EXCEPT ![i].wh = Append(@, c), ![i].wargs = Append(@, m)]
     \/ op = "Set" /\ t.k \in {"update", "insert"} /\ s' = [s EXCEPT ![i].sets = Append(@, c), ![i].sargs = Append(@, m)]
     \/ op = "Col" /\ t.k = "select" /\ s' = [s EXCEPT ![i].list = Append(@, c)]
     \/ op = "Ret" /\ t.k # "select" /\ s' = [s EXCEPT ![i].ret = Append(@, c)]
  /\ Do([op |-> op, i |-> i, c |-> c, m |-> m]) /\ UNCHANGED d
Say(i) == /\ Whole(s[i]) /\ Do([op |-> "Text", i |-> i, text |-> Text(s[i]), args |-> Args(s[i]), dial |-> s[i].dial]) /\ UNCHANGED <<d, s>>
Close(i) == /\ s[i].k # "none" /\ s' = [s EXCEPT ![i] = None] /\ Do([op |-> "Close", i |-> i]) /\ UNCHANGED d
\* the lists of columns themselves
Columns(x, p, nulls) == /\ Do([op |-> "Columns", d |-> x, p |-> p, nulls |-> nulls, all |-> Join(d[x].cols, ", "), text |-> Join(Aliased(d[x].cols, p, nulls), ", ")]) /\ UNCHANGED <<d, s>>
\* its owner changes a description
Change(x, how, c) ==
  /\ Changes
  /\ LET e == d[x] IN
     \/ how = "append" /\ Len(e.cols) < 5 /\ c \notin Range(e.cols) /\ d' = [d EXCEPT ![x].cols = Append(@, c)]
     \/ how = "replace" /\ c \notin Range(e.cols) /\ d' = [d EXCEPT ![x].cols[1] = c]
     \/ how = "drop" /\ Len(e.cols) > 1 /\ d' = [d EXCEPT ![x].cols = SubSeq(@, 1, Len(@) - 1)]
     \/ how = "rename" /\ d' = [d EXCEPT ![x].tab = "moved." \o c]
  /\ Do([op |-> "Change", d |-> x, how |-> how, c |-> c]) /\ UNCHANGED s

------------------------------------------------------------------------------
Draw(S) == RandomElement(IF n < 0 THEN {} ELSE S)
SeqOf(k) == [j \in 1..k |-> Draw(Names)]
Kinds == {"select", "aliased", "from", "update", "insert", "delete"}
Free == {i \in Slots : s[i].k = "none"}
Live == {i \in Slots : s[i].k # "none"}
Walkers ==
  \E q \in {Draw(1..12)}, i \in {Draw(Slots)}, x \in {Draw(Ds)}, k \in {Draw(Kinds \cup {"aliased", "select"})}, p \in {Draw(Prefixes)}, c \in {Draw(Names)},
     nn \in {Draw(0..3)}, how \in {Draw({"append", "replace", "drop", "rename"})} :
  \E nulls \in {{Draw(Names) : j \in 1..nn}}, cols \in {IF Draw(1..2) = 1 THEN <<>> ELSE SeqOf(nn)} :
  \E op \in {Draw({"Where", "Set", "Col", "Ret"})} :
    IF Live = {} \/ (q <= 3 /\ Free # {}) THEN \E f \in {Draw(Free)} : Begin(f, x, k, IF k = "select" THEN cols ELSE <<>>, IF k = "aliased" THEN p ELSE "", IF k = "aliased" THEN nulls ELSE {})
    ELSE \E l \in {Draw(Live)} :
      CASE q <= 7 -> Go(l, op, c) \/ ((~ENABLED Go(l, op, c)) /\ Columns(x, p, nulls))
        [] q <= 9 -> IF Whole(s[l]) THEN Say(l) ELSE Go(l, IF s[l].k = "select" THEN "Col" ELSE "Set", c)
        [] q = 10 -> Columns(x, p, nulls)
        [] q = 11 -> Close(l)
        [] OTHER -> (Changes /\ Change(x, how, c)) \/ ((~(Changes /\ ENABLED Change(x, how, c))) /\ Columns(x, p, nulls))
Small ==
  \/ \E i \in Slots, x \in Ds, k \in Kinds, p \in {"", "t"}, nulls \in {{}, {"name"}, {"id", "name"}}, cols \in {<<>>, <<"name", "id">>} :
       (\A f \in Free : f >= i) /\ (k = "aliased" \/ (p = "" /\ nulls = {})) /\ (k = "select" \/ cols = <<>>) /\ Begin(i, x, k, cols, p, nulls)
  \/ \E i \in Slots, op \in {"Where", "Set", "Col"} : Go(i, op, "zone")
  \/ \E i \in Slots : Say(i) \/ Close(i)
  \/ \E x \in Ds, p \in {"", "t"}, nulls \in {{}, {"name"}} : Columns(x, p, nulls)
  \/ \E x \in {1}, how \in {"append", "replace", "drop", "rename"} : Change(x, how, "zone")
\* at the end every statement is asked once more
Left == {i \in Slots : Whole(s[i])}
Last == [op |-> "End", texts |-> [i \in Slots |-> IF i \in Left THEN [text |-> Text(s[i]), args |-> Args(s[i]), dial |-> s[i].dial] ELSE [text |-> "", args |-> <<>>, dial |-> ""]],
         descs |-> [x \in Ds |-> [tab |-> d[x].tab, cols |-> d[x].cols]]]

Init == d = Start /\ s = [i \in Slots |-> None] /\ ops = <<>> /\ n = 0 /\ fin = FALSE
Next == \/ ~fin /\ n < Depth /\ (IF Walk THEN Walkers ELSE Small)
        \/ ~fin /\ n = Depth /\ fin' = TRUE /\ (Record => PrintT("BEH " \o ToJson(Append(ops, Last)))) /\ UNCHANGED <<d, s, ops, n>>
Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
Count(q, x) == Cardinality({i \in DOMAIN q : q[i] = x})
\* what a statement selects are the columns it was started with: each in its place, or NULL in its place
ColumnsRight == \A x \in Ds, p \in {"", "t"}, nulls \in {{}, {"name"}, {"id", "name"}} :
                  LET L == Aliased(d[x].cols, p, nulls) IN
                    /\ Len(L) = Len(d[x].cols)
                    /\ \A i \in 1..Len(L) : L[i] = "NULL" <=> d[x].cols[i] \in nulls
                    /\ \A i, j \in 1..Len(L) : i # j /\ L[i] = L[j] => L[i] = "NULL"
ArgsRight == \A i \in Slots : s[i].k # "none" => Len(Args(s[i])) = Len(s[i].sets) + Len(s[i].wh)
\* a statement changes by a call on it only; a description by its owner only
StmtAlone == [][\A i \in Slots : s[i] # s'[i] => (n' = n + 1 /\ d' = d /\ \A j \in Slots \ {i} : s[j] = s'[j])]_vars
DescAlone == [][d # d' => s = s']_vars
=============================================================================
