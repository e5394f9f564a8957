------------------------------ MODULE StmtLife ------------------------------
(***************************************************************************)
(* The life of statements that share a pool: built, extended, cloned, run  *)
(* any number of times over a database that may fail, closed once, alone   *)
(* or together with running.  Buffers come from a pool and go back to it   *)
(* exactly once.  (What a run takes from the database is in Query.tla.)     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Slots,     \* statements a caller may hold at a time
          Buffers,   \* buffers that may ever be made
          Depth, MaxRows,
          Walk, Record

VARIABLES parts,   \* per slot: what the statement was built from; <<>> when there is none
          buf,     \* per slot: its buffer, 0 for none
          pool,    \* buffers in the pool
          made,    \* buffers made so far
          ops, n, fin
vars == <<parts, buf, pool, made, ops, n, fin>>

Live(i) == parts[i] # <<>>
Hows == {"Query", "QueryRow", "Exec"}
Faults == {"none", "query", "next", "end", "scan", "panic"}
Runs == {[how |-> h, fault |-> f, at |-> a, rows |-> r] : h \in Hows, f \in Faults, a \in 0..MaxRows, r \in 0..MaxRows}
Sensible(o) ==
  CASE o.how = "Exec" -> o.fault \in {"none", "query"} /\ o.at = 0 /\ o.rows = 0
    [] o.fault \in {"none", "query"} -> o.at = 0
    [] o.how = "QueryRow" -> o.at = 0 /\ o.fault \in {"next", "scan"} /\ (o.fault = "scan" => o.rows > 0)
    [] o.fault = "next"  -> o.at <= o.rows
    [] o.fault = "end"   -> o.at = 0
    [] OTHER -> o.at < o.rows
Scenarios == {o \in Runs : Sensible(o)}
\* outcome and the number of rows the statement's destinations received
Outcome(o) ==
  CASE o.fault = "query" -> [res |-> "error", got |-> 0]
    [] o.fault = "next"  -> [res |-> "error", got |-> o.at]
    [] o.fault = "scan"  -> [res |-> "error", got |-> o.at]
    [] o.fault = "end"   -> [res |-> "error", got |-> o.rows]
    [] o.fault = "panic" -> [res |-> "panic", got |-> o.at]
    [] o.how = "QueryRow" -> IF o.rows = 0 THEN [res |-> "norows", got |-> 0] ELSE [res |-> "ok", got |-> 1]
    [] OTHER -> [res |-> "ok", got |-> o.rows]

Log(o) == n' = n + 1 /\ ops' = IF Record THEN Append(ops, o @@ [st |-> parts']) ELSE ops
Op(op, i) == [op |-> op, i |-> i, j |-> i, close |-> FALSE, run |-> [how |-> "", fault |-> "none", at |-> 0, rows |-> 0], out |-> [res |-> "ok", got |-> 0]]

\* the pool may always be empty: it keeps what it likes
Take(b) == \/ b \in pool /\ pool' = pool \ {b} /\ UNCHANGED made
           \/ b = made + 1 /\ b <= Buffers /\ made' = made + 1 /\ UNCHANGED pool
Pick == IF Record THEN {CHOOSE b \in pool \cup {made + 1} : TRUE} ELSE pool \cup {made + 1}
Make(i) ==
  /\ ~Live(i)
  /\ \E b \in Pick : Take(b) /\ buf' = [buf EXCEPT ![i] = b]
  /\ parts' = [parts EXCEPT ![i] = <<n + 1>>] /\ UNCHANGED fin /\ Log(Op("Make", i))
Extend(i) ==
  /\ Live(i)
  /\ parts' = [parts EXCEPT ![i] = Append(@, n + 1)] /\ UNCHANGED <<buf, pool, made, fin>> /\ Log(Op("Extend", i))
Clone(i, j) ==
  /\ Live(i) /\ ~Live(j)
  /\ \E b \in Pick : Take(b) /\ buf' = [buf EXCEPT ![j] = b]
  /\ parts' = [parts EXCEPT ![j] = parts[i]] /\ UNCHANGED fin /\ Log([Op("Clone", i) EXCEPT !.j = j])
Give(i) == pool' = pool \cup {buf[i]} /\ buf' = [buf EXCEPT ![i] = 0] /\ parts' = [parts EXCEPT ![i] = <<>>]
Close(i) == Live(i) /\ Give(i) /\ UNCHANGED <<made, fin>> /\ Log(Op("Close", i))
\* a panic of the caller's function leaves the statement to the collector
Run(i, o, c) ==
  /\ Live(i)
  /\ IF c THEN Give(i) ELSE UNCHANGED <<buf, pool, parts>>
  /\ UNCHANGED <<made, fin>>
  /\ Log([Op("Run", i) EXCEPT !.run = o, !.close = c, !.out = Outcome(o)])

Draw(S) == RandomElement(IF n < 0 THEN {} ELSE S)
Step == \E w \in {Draw(1..12)}, i \in {Draw(Slots)}, j \in {Draw(Slots)}, o \in {Draw(Scenarios)} :
  CASE ~Live(i) -> Make(i)
    [] w = 1 -> Extend(i)
    [] w = 2 /\ ~Live(j) -> Clone(i, j)
    [] w \in {3, 4} -> Close(i)
    [] w \in 5..7 -> Run(i, o, TRUE)
    [] OTHER -> Run(i, o, FALSE)
EnumStep == \E i \in Slots : \/ Make(i) \/ Extend(i) \/ Close(i)
                             \/ \E j \in Slots : Clone(i, j)
                             \/ \E o \in Scenarios, c \in BOOLEAN : Run(i, o, c)
Init == /\ parts = [i \in Slots |-> <<>>] /\ buf = [i \in Slots |-> 0] /\ pool = {} /\ made = 0
        /\ ops = <<>> /\ n = 0 /\ fin = FALSE
Next == \/ ~fin /\ n < Depth /\ (IF Walk THEN Step ELSE EnumStep)
        \/ ~fin /\ n = Depth /\ fin' = TRUE /\ (Record => PrintT("BEH " \o ToJson(ops))) /\ UNCHANGED <<parts, buf, pool, made, ops, n>>
Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
\* no two statements share a buffer, and none is both in use and in the pool
Exclusive == /\ \A i, j \in Slots : i # j /\ Live(i) /\ Live(j) => buf[i] # buf[j]
             /\ \A i \in Slots : Live(i) <=> buf[i] # 0
             /\ \A i \in Slots : buf[i] \notin pool
\* every buffer ever made is held or in the pool
Conserved == Cardinality(pool) + Cardinality({i \in Slots : Live(i)}) = made
\* statements change by being extended only
Stable == [][\A i \in Slots : Live(i) /\ parts'[i] # <<>> => \E k \in 0..1 : SubSeq(parts'[i], 1, Len(parts'[i]) - k) = parts[i]]_vars
=============================================================================
