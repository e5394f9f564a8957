------------------------------ MODULE Migrate -------------------------------
(***************************************************************************)
(* Migrations as the database sees them: the statements of one call, any   *)
(* of which may fail, and what they leave recorded.  A version is a        *)
(* number, Nil before the first one.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Versions, Foreign, Calls, MaxFault, Walk, Record

VARIABLES dialect, files, ver, dirty, tab,      \* directory and database
          todo, lastv, tx, locked, ran, count, fault, fired, err, call, \* the running call
          ops, n, pc
vars == <<dialect, files, ver, dirty, tab, todo, lastv, tx, locked, ran, count, fault, fired, err, call, ops, n, pc>>
db == <<ver, dirty, tab>>

Nil == -1
None == [c |-> "none", k |-> 0]
Dirs == {"up", "down", "both"}
\* the scripts of a directory: version -> which of the two exist
Present == DOMAIN files
HasUp(v) == files[v] \in {"up", "both"}
HasDown(v) == files[v] \in {"down", "both"}
RECURSIVE Asc(_)
Asc(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Asc(S \ {m})
Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
Max(S) == CHOOSE x \in S : \A y \in S : y <= x

\* statements: what they do to the bookkeeping, v and d for the version they record
St(c) == [c |-> c, v |-> 0, d |-> FALSE, dir |-> ""]
SetVer(v, d) == <<St("begin"), St("truncate"), [St("insert") EXCEPT !.v = v, !.d = d], St("commit")>>
One(v, dir, to, has) == SetVer(to, TRUE) \o (IF has THEN <<[St("script") EXCEPT !.v = v, !.dir = dir]>> ELSE <<>>) \o SetVer(to, FALSE)
RECURSIVE Ups(_)
Ups(q) == IF q = <<>> THEN <<>> ELSE One(q[1], "up", q[1], HasUp(q[1])) \o Ups(Tail(q))
\* down from q[1] to the last of q
RECURSIVE Downs(_)
Downs(q) == IF Len(q) < 2 THEN <<>> ELSE One(q[1], "down", q[2], HasDown(q[1])) \o Downs(Tail(q))
Goal(t) == IF t = 0 THEN IF Present = {} THEN Nil ELSE Max(Present) ELSE t
\* the versions passed on the way from v to target
PathUp(v, t) == Asc({x \in Present : x > v /\ x <= t})
PathDown(v, t) == Rev(Asc({x \in Present : x <= v /\ x >= t}))
Refused(v, d, t) == d \/ (v # Nil /\ v \notin Present) \/ (t # 0 /\ t \notin Present)
Ends(v, t) == IF v <= Goal(t) THEN Ups(PathUp(v, Goal(t))) ELSE IF t = 0 THEN <<>> ELSE Downs(PathDown(v, t))
Scripts(q) == SelectSeq(q, LAMBDA s : s.c = "script")

Ensure == <<St("connect"), St("dbname"), St("schema"), St("lock")>> \o
          (IF dialect = "postgres" THEN <<St("tablecheck")>> \o (IF tab THEN <<>> ELSE <<St("create")>>) ELSE <<St("create")>>) \o <<St("unlock")>>
\* the call plans its scripts when it has read the version under the lock
Seen(c) == IF c \in DOMAIN count THEN count[c] ELSE 0
Class(s) == IF s.c = "plan" THEN "version" ELSE s.c
Step ==
  /\ pc = "run" /\ todo # <<>>
  /\ LET s == Head(todo) c == Class(s) k == Seen(c) + 1
         total == Seen("total") + 1
         bad == fault = total IN
     /\ count' = [x \in DOMAIN count \cup {c, "total"} |-> IF x = c THEN k ELSE IF x = "total" THEN total ELSE count[x]]
     /\ fired' = IF bad THEN [c |-> c, k |-> k] ELSE fired
     /\ ran' = IF s.c = "script" THEN Append(ran, [v |-> s.v, dir |-> s.dir]) ELSE ran
     /\ IF bad
        THEN \* an open transaction is rolled back, the lock given up
          /\ err' = TRUE /\ tx' = None
          /\ todo' = (IF locked /\ c # "unlock" THEN <<St("unlock")>> ELSE <<>>) /\ locked' = FALSE
          /\ UNCHANGED <<ver, dirty, tab, lastv>>
        ELSE
          /\ tx' = (CASE s.c = "insert" -> [c |-> IF s.d THEN "dirty" ELSE "clean", k |-> s.v] [] s.c = "commit" -> None [] OTHER -> tx)
          /\ ver' = (IF s.c = "commit" THEN tx.k ELSE ver)
          /\ dirty' = (IF s.c = "commit" THEN tx.c = "dirty" ELSE dirty)
          /\ tab' = (tab \/ s.c = "create")
          /\ locked' = (CASE s.c = "lock" -> TRUE [] s.c = "unlock" -> FALSE [] OTHER -> locked)
          /\ lastv' = (IF s.c = "plan" THEN ver ELSE lastv)
          /\ IF s.c # "plan" THEN todo' = Tail(todo) /\ UNCHANGED err
             ELSE IF Refused(ver, dirty, call.target) THEN todo' = <<St("unlock")>> /\ err' = TRUE
             ELSE LET e == Ends(ver, call.target) IN todo' = e \o <<St("unlock")>> \o (IF e = <<>> THEN <<>> ELSE <<St("version")>>) /\ UNCHANGED err
  /\ UNCHANGED <<dialect, files, fault, call, ops, n, pc>>
Finish ==
  /\ pc = "run" /\ todo = <<>> /\ pc' = "idle" /\ n' = n + 1
  /\ ops' = IF Record THEN Append(ops, [op |-> "Migrate", dialect |-> dialect, files |-> {[v |-> v, f |-> files[v]] : v \in Present}, force |-> call.force, target |-> call.target,
                                       bad |-> "", fault |-> fired, ok |-> ~err, ran |-> ran, ver |-> ver, dirty |-> dirty]) ELSE ops
  /\ UNCHANGED <<dialect, files, ver, dirty, tab, todo, lastv, tx, locked, ran, count, fault, fired, err, call>>
Draw(S) == RandomElement(IF n < 0 THEN {} ELSE S)
RandFiles == LET k == Draw(1..Cardinality(Versions)) S == {v \in Versions : Draw(1..4) <= 3} IN [v \in (IF S = {} THEN {Draw(Versions)} ELSE S) |-> IF Draw(1..3) = 1 THEN Draw(Dirs) ELSE "both"]
Init == /\ dialect \in {"postgres", "sqlserver"} /\ files = (Max(Versions) :> "both") /\ ver = Nil /\ dirty = FALSE /\ tab = FALSE
        /\ todo = <<>> /\ lastv = Nil /\ tx = None /\ locked = FALSE /\ ran = <<>> /\ count = [c |-> 0] /\ fault = 0 /\ fired = None /\ err = FALSE
        /\ call = [force |-> 0, target |-> 0, v |-> Nil, d |-> FALSE] /\ ops = <<>> /\ n = 0 /\ pc = "new"
\* new or changed scripts, then a call
Choose == /\ pc \in {"new", "idle"} /\ n < Calls
          /\ \E g \in (IF Walk THEN {IF n = 0 \/ Draw(1..3) = 1 THEN RandFiles ELSE files} ELSE IF n = 0 THEN UNION {[S -> {"both", "up"}] : S \in SUBSET Versions \ {{}}} ELSE {files}) :
               files' = g /\ pc' = "ready"
          /\ UNCHANGED <<dialect, ver, dirty, tab, todo, lastv, tx, locked, ran, count, fault, fired, err, call, ops, n>>
Go == /\ pc = "ready"
      /\ \E t \in (IF Walk THEN {IF Draw(1..3) = 1 THEN 0 ELSE Draw(Versions \cup Foreign \cup {0})} ELSE {0} \cup Versions \cup Foreign),
            f \in (IF Walk THEN {IF Draw(1..4) = 1 THEN Draw(Versions \cup Foreign) ELSE 0} ELSE {0} \cup Versions),
            x \in (IF Walk THEN {IF Draw(1..2) = 1 THEN 0 ELSE IF Draw(1..2) = 1 THEN Draw(1..20) ELSE Draw(1..MaxFault)} ELSE 0..MaxFault) :
           /\ todo' = Ensure \o <<St("version")>> \o (IF f > 0 THEN <<St("lock")>> \o SetVer(f, FALSE) \o <<St("unlock")>> ELSE <<>>) \o <<St("lock"), St("plan")>>
           /\ call' = [force |-> f, target |-> t, v |-> ver, d |-> dirty] /\ fault' = x
      /\ pc' = "run" /\ lastv' = ver /\ tx' = None /\ locked' = FALSE /\ ran' = <<>> /\ count' = [c |-> 0] /\ fired' = None /\ err' = FALSE
      /\ UNCHANGED <<dialect, files, ver, dirty, tab, ops, n>>
\* calls that do not get as far as the version: no directory is asked for, it does not exist,
\* the database is not one that can be migrated, or can not be reached
Refusals == {"nodir", "missing", "provider", "refused"}
Refuse == /\ pc \in {"new", "idle"} /\ n < Calls /\ (Walk => Draw(1..4) = 1) /\ pc' = "idle" /\ n' = n + 1
          /\ \E b \in (IF Walk THEN {Draw(Refusals)} ELSE Refusals), f \in (IF Walk THEN {Draw({0} \cup Versions)} ELSE {0} \cup Versions), t \in (IF Walk THEN {Draw({0} \cup Versions)} ELSE {0, Max(Versions)}) :
               ops' = IF Record THEN Append(ops, [op |-> "Migrate", dialect |-> dialect, files |-> {[v |-> v, f |-> files[v]] : v \in Present}, force |-> f, target |-> t,
                                                 bad |-> b, fault |-> None, ok |-> b = "nodir", ran |-> <<>>, ver |-> ver, dirty |-> dirty]) ELSE ops
          /\ UNCHANGED <<dialect, files, ver, dirty, tab, todo, lastv, tx, locked, ran, count, fault, fired, err, call>>
Stop == pc = "idle" /\ n = Calls /\ pc' = "end" /\ (Record => PrintT("BEH " \o ToJson(ops)))
        /\ UNCHANGED <<dialect, files, ver, dirty, tab, todo, lastv, tx, locked, ran, count, fault, fired, err, call, ops, n>>
Next == Refuse \/ Choose \/ Go \/ Step \/ Finish \/ Stop
Spec == Init /\ [][Next]_vars

\* ---- properties, at the end of every call
Done == pc = "run" /\ todo = <<>>
From == IF call.force > 0 THEN call.force ELSE call.v
Whole == IF Refused(From, call.force = 0 /\ call.d, call.target) THEN <<>> ELSE [i \in 1..Len(Scripts(Ends(From, call.target))) |-> LET s == Scripts(Ends(From, call.target))[i] IN [v |-> s.v, dir |-> s.dir]]
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Success == Done /\ ~err => ~dirty /\ ran = Whole /\ (call.target # 0 => ver = call.target) /\ (call.target = 0 => ver = IF From > Goal(0) THEN From ELSE Goal(0))
Failure == Done /\ err => Prefix(ran, Whole) /\ (fired.c = "script" => dirty /\ ran # <<>>)
NoFault == Done /\ fired = None => (err <=> Refused(From, call.force = 0 /\ call.d, call.target))
AnyFault == Done /\ fired # None => err
Unlocked == Done => ~locked
=============================================================================
