----------------------------- MODULE FlakeTrace -----------------------------
(***************************************************************************)
(* Validates recorded histories of concurrent NextID calls on one          *)
(* generator.  A call is an interval (inv, ret); the ID is issued at some  *)
(* unlogged moment inside it.  Because the specification issues IDs in     *)
(* increasing order (Flake!Monotone), a history is a behaviour of it       *)
(* exactly if every returned ID is new and greater than every ID returned  *)
(* before the call began.  IDs are replaced by their rank.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACE)
N == Len(Traces)
Trace(i) == Traces[i]

VARIABLES tid, l, lb, top, seen
vars == <<tid, l, lb, top, seen>>

ASSUME \A i \in 1..N : TLCSet(i, 0)

Procs(i) == {Trace(i)[k].p : k \in 1..Len(Trace(i))}

Init == /\ tid \in 1..N
        /\ l = 1
        /\ lb = [p \in Procs(tid) |-> -1]   \* -1: idle
        /\ top = 0
        /\ seen = {}

Ev == Trace(tid)[l]
Is(e) == l <= Len(Trace(tid)) /\ Ev.e = e /\ l' = l + 1 /\ UNCHANGED tid

Inv == /\ Is("inv")
       /\ lb[Ev.p] = -1
       /\ lb' = [lb EXCEPT ![Ev.p] = top]
       /\ UNCHANGED <<top, seen>>

Ret == /\ Is("ret")
       /\ lb[Ev.p] # -1
       /\ Ev.id > lb[Ev.p]          \* greater than all returned before the call
       /\ Ev.id \notin seen         \* distinct
       /\ seen' = seen \cup {Ev.id}
       /\ top' = IF Ev.id > top THEN Ev.id ELSE top
       /\ lb' = [lb EXCEPT ![Ev.p] = -1]

Next == Inv \/ Ret
Spec == Init /\ [][Next]_vars

\* the furthest line of each trace that was matched
Reached == TLCSet(tid, IF l - 1 > TLCGet(tid) THEN l - 1 ELSE TLCGet(tid))
Report == \A i \in 1..N :
            IF TLCGet(i) = Len(Trace(i)) THEN TRUE
            ELSE PrintT("REJECT " \o ToString(i) \o " " \o ToString(TLCGet(i)))
=============================================================================
