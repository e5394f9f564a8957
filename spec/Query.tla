------------------------------- MODULE Query -------------------------------
(***************************************************************************)
(* Running queries: list queries, paginated queries, builder queries and   *)
(* single-row queries over a database that can fail at every step, on the  *)
(* executors a caller may pass.  The library takes a connection, opens a   *)
(* cursor, fetches and scans, and gives everything back.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxRows,   \* rows in a result
          BigRows,   \* some larger results
          Fns,       \* kinds of queries
          Execs,     \* executors
          Faults,
          Calls,     \* operations per behaviour
          Random, Record

VARIABLES op,      \* operation in progress
          phase,   \* "idle", "open", "done"
          got,     \* rows handed to the caller
          res,     \* "none", "ok", "norows", "error", "panic"
          cursor, busy,   \* cursors open, connections taken from the pool by the library
          n, hist, fin

vars == <<op, phase, got, res, cursor, busy, n, hist, fin>>

Single == {"QueryRow", "BuilderRow", "BuilderRowAndClose"}
Multi == {"List", "Query", "PageParams", "PageArgs", "Cursor", "CursorArgs", "Builder", "BuilderAndClose"}
Handler == {"Builder", "BuilderAndClose"}   \* the caller's function runs for every row

\* faults: at is the row (0-based) in front of which, or while scanning which, it happens
Scenario ==
  {[fn |-> f, exec |-> x, rows |-> r, fault |-> t, at |-> a] :
     f \in Fns, x \in Execs, r \in 0..MaxRows, t \in Faults, a \in 0..MaxRows}
\* larger results, the fault at their ends
BigScenario ==
  UNION {{[fn |-> f, exec |-> x, rows |-> r, fault |-> t, at |-> a] :
     f \in Fns, x \in Execs, t \in Faults, a \in {0, 1, r - 1, r}} : r \in BigRows}
Sensible(o) ==
  CASE o.fault \in {"none", "query", "end", "columns"} -> o.at = 0
    [] o.fault \in {"next", "cancel"} -> o.at <= o.rows
    [] o.fault = "scan"  -> o.at < o.rows /\ (o.fn \in Single => o.at = 0)
    [] o.fault = "panic" -> o.at < o.rows /\ o.fn \in Handler
    [] o.fault = "close" -> o.at = 0 /\ o.fn \in Single
Scenarios == {o \in Scenario : Sensible(o)}
BigScenarios == {o \in BigScenario : Sensible(o)}
Draw == IF Random /\ n >= 0 THEN {IF BigRows # {} /\ RandomElement(1..40) = 1 THEN RandomElement(BigScenarios) ELSE RandomElement(Scenarios)} ELSE Scenarios \cup BigScenarios

Call(o) ==
  /\ phase = "idle" /\ op' = o /\ got' = 0
  /\ IF o.fault = "query"
     THEN phase' = "done" /\ res' = "error" /\ UNCHANGED <<cursor, busy>>
     ELSE phase' = "open" /\ res' = "none" /\ cursor' = cursor + 1 /\ busy' = busy + 1
  /\ UNCHANGED <<n, hist, fin>>

Done(r) == res' = r /\ phase' = "done" /\ cursor' = cursor - 1 /\ busy' = busy - 1

\* one row, or the end of the result
Fetch ==
  /\ phase = "open"
  /\ UNCHANGED <<op, n, hist, fin>>
  /\ \/ op.fault = "next" /\ op.at = got /\ Done("error") /\ UNCHANGED got
     \* a cancelled query may end at once, or deliver what it has
     \/ op.fault = "cancel" /\ op.at <= got /\ Done("error") /\ UNCHANGED got
     \/ /\ ~(op.fault = "next" /\ op.at = got)
        /\ IF got = op.rows
           THEN /\ UNCHANGED got
                /\ IF op.fn \in Single /\ op.fault # "end" THEN Done("norows")
                   ELSE IF op.fault = "end" THEN Done("error") ELSE Done("ok")
           ELSE IF op.fault \in {"scan", "columns"} /\ op.at = got THEN Done("error") /\ UNCHANGED got
           ELSE IF op.fault = "panic" /\ op.at = got THEN Done("panic") /\ UNCHANGED got
           ELSE IF op.fn \in Single
                THEN got' = got + 1 /\ Done(IF op.fault = "close" THEN "error" ELSE "ok")
                ELSE got' = got + 1 /\ UNCHANGED <<phase, res, cursor, busy>>

\* what the caller may see; cancellation leaves a choice
Outcomes(o) ==
  LET r == IF o.fn \in Single /\ o.rows > 0 THEN 1 ELSE o.rows IN
  CASE o.fault = "none"    -> {[res |-> IF o.fn \in Single /\ o.rows = 0 THEN "norows" ELSE "ok", got |-> r]}
    [] o.fault = "query"   -> {[res |-> "error", got |-> 0]}
    [] o.fault = "next"    -> IF o.fn \in Single /\ o.at > 0 THEN {[res |-> "ok", got |-> 1]} ELSE {[res |-> "error", got |-> o.at]}
    [] o.fault = "end"     -> IF o.fn \in Single /\ o.rows > 0 THEN {[res |-> "ok", got |-> 1]} ELSE {[res |-> "error", got |-> r]}
    [] o.fault = "columns" -> IF o.rows = 0 THEN {[res |-> IF o.fn \in Single THEN "norows" ELSE "ok", got |-> 0]} ELSE {[res |-> "error", got |-> 0]}
    [] o.fault = "scan"    -> {[res |-> "error", got |-> o.at]}
    [] o.fault = "panic"   -> {[res |-> "panic", got |-> o.at]}
    \* the row was read: whether a failing close spoils it is left open
    [] o.fault = "close"   -> {[res |-> "error", got |-> r], [res |-> IF o.rows = 0 THEN "norows" ELSE "ok", got |-> r]}
    [] o.fault = "cancel"  ->
         IF o.fn \in Single THEN {[res |-> "error", got |-> k] : k \in 0..r} \cup {[res |-> IF o.rows = 0 THEN "norows" ELSE "ok", got |-> r]}
         ELSE {[res |-> "error", got |-> k] : k \in o.at..o.rows} \cup {[res |-> "ok", got |-> o.rows]}

Return ==
  /\ phase = "done" /\ phase' = "idle" /\ n' = n + 1
  /\ hist' = IF Record THEN Append(hist, op @@ [allowed |-> Outcomes(op)]) ELSE hist
  /\ UNCHANGED <<op, got, res, cursor, busy, fin>>

Finish ==
  /\ phase = "idle" /\ n > Calls /\ ~fin /\ fin' = TRUE
  /\ Record => PrintT("BEH " \o ToJson(hist))
  /\ UNCHANGED <<op, phase, got, res, cursor, busy, n, hist>>

NoOp == [fn |-> "List", exec |-> "db", rows |-> 0, fault |-> "none", at |-> 0]
Init == op = NoOp /\ phase = "idle" /\ got = 0 /\ res = "none" /\ cursor = 0 /\ busy = 0 /\ n = 1 /\ hist = <<>> /\ fin = FALSE
Next == \/ n <= Calls /\ phase = "idle" /\ \E o \in Draw : Call(o)
        \/ Fetch \/ Return \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Fetch) /\ WF_vars(Return)

------------------------------------------------------------------------------
\* E01
Complete == phase = "done" /\ res = "ok" => got = IF op.fn \in Single THEN 1 ELSE op.rows
NoRows == phase = "done" /\ res = "norows" => op.rows = 0 /\ op.fn \in Single
Consistent == phase = "done" => \E a \in Outcomes(op) : a.res = res /\ (op.fault # "cancel" => a.got = got)
\* E02
Clean == phase \in {"idle", "done"} => cursor = 0 /\ busy = 0
Bounded == cursor <= 1 /\ busy <= 1
\* every call returns
Returns == [](phase = "open" => <>(phase = "done"))
=============================================================================
