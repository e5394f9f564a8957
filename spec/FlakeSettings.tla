--------------------------- MODULE FlakeSettings ---------------------------
(* Acceptance of generator settings: enumerated completely. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Machines
VARIABLES hist, done

Starts == {"default", "past", "now", "epoch", "future_ns", "future"}
Config == [op : {"Settings"}, start : Starts, mid : {"ok", "err", "nil"},
           chk : {"nil", "true", "false"}, m : Machines]

\* A start in the future, a failing machine id or a rejected one is refused.
Expect(c) == IF c.start \in {"future_ns", "future"} \/ c.mid = "err" \/ c.chk = "false"
             THEN "panic" ELSE "ok"

Init == /\ done = FALSE
        /\ \E c \in Config : hist = << [op |-> c.op, start |-> c.start, mid |-> c.mid,
                                        chk |-> c.chk, m |-> c.m, exp |-> Expect(c)] >>
Next == ~done /\ PrintT("BEH " \o ToJson(hist)) /\ done' = TRUE /\ UNCHANGED hist
Spec == Init /\ [][Next]_<<hist, done>>
\* nothing is accepted that would have to wrap or be ambiguous
Sound == hist[1].exp = "ok" => hist[1].start \notin {"future", "future_ns"} /\ hist[1].chk # "false"
=============================================================================
