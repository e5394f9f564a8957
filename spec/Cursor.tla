------------------------------- MODULE Cursor -------------------------------
(***************************************************************************)
(* The text form of cursors.  Encoding is a one-to-one map from non-empty  *)
(* maps to texts; every other text is rejected.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Keys, Vals, Damages, MaxKeys

VARIABLES map, damage, done
vars == <<map, damage, done>>
\* a value may be placed at the top, in a list, in a map, or deeper
Places == {"top", "list", "map", "lists", "maps"}
Entries == [val : Vals, place : Places]
Maps == UNION {[K -> Entries] : K \in {S \in SUBSET Keys : Cardinality(S) \in 1..MaxKeys}}
Init == map \in Maps /\ damage \in Damages /\ done = FALSE
\* decoding gives the map back exactly when the text is undamaged
Decoded == IF damage = "none" THEN map ELSE <<>>
Next == ~done /\ done' = TRUE /\ UNCHANGED <<map, damage>>
        /\ PrintT("BEH " \o ToJson(<<[entries |-> map, damage |-> damage, ok |-> damage = "none"]>>))
Spec == Init /\ [][Next]_vars
RoundTrip == damage = "none" => Decoded = map
=============================================================================
