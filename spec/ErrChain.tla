------------------------------ MODULE ErrChain ------------------------------
(***************************************************************************)
(* What is known of an error: which errors can be found in its chain (by   *)
(* identity), whether its text has the database's no-rows message, and the *)
(* not-found errors in its chain, outermost first.  Errors are built from  *)
(* leaves by the wrapping styles of Go and by the library.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Leaves, Wraps, Depth, Walk, Tables, Ids

VARIABLES nil, ids, txt, nf, ops, fin
vars == <<nil, ids, txt, nf, ops, fin>>

NoRows == "norows"
Other == {"a", "b", "canceled", "txdone", "badconn", "eof"}
NotFound == ~nil /\ (NoRows \in ids \/ txt \/ nf # <<>>)
IsNoRows == ~nil /\ (NoRows \in ids \/ txt)

Log(o) == ops' = Append(ops, o @@ [nil |-> nil', ids |-> ids', nf |-> nf', found |-> NotFound'])
Leaf(k) ==
  /\ ops = <<>> /\ UNCHANGED fin
  /\ nil' = (k = "nil")
  /\ ids' = (IF k \in Other \cup {NoRows} THEN {k} ELSE IF k = "row-none" THEN {NoRows} ELSE IF k = "row-a" THEN {"a"} ELSE {})
  /\ txt' = (k \in {NoRows, "row-none", "text", "text2"})
  /\ nf' = (IF k = "nf" THEN <<<<"t0", "0">>>> ELSE <<>>)
  /\ Log([op |-> "leaf", how |-> k, table |-> "", id |-> ""])

\* keeps the chain; the texts of the wrapped are kept or hidden
Chained == {"%w", "wrap", "message", "stack", "detail", "%w%w-left", "%w%w-right", "join-left", "join-right", "join2-right", "mark"}
TextOnly == {"%v", "handled"}
Hidden == {"hide", "hide-multi"}
Wrap(w, t, i) ==
  /\ ops # <<>> /\ UNCHANGED fin
  /\ CASE w \in Chained -> /\ ids' = ids \cup (IF w \in {"%w%w-left", "%w%w-right", "join-left", "join-right", "join2-right"} THEN {"b"} ELSE {})
                           /\ ~nil /\ UNCHANGED <<nil, txt, nf>>
       [] w \in TextOnly -> ~nil /\ ids' = {} /\ nf' = <<>> /\ UNCHANGED <<nil, txt>>
       [] w \in Hidden   -> ~nil /\ txt' = FALSE /\ UNCHANGED <<nil, ids, nf>>
       [] w = "secondary" -> ~nil /\ ids' = {"b"} /\ txt' = FALSE /\ nf' = <<>> /\ UNCHANGED nil
       [] w = "check"    -> IF IsNoRows THEN nf' = <<<<t, i>>>> \o nf /\ txt' = FALSE /\ UNCHANGED <<nil, ids>>
                            ELSE UNCHANGED <<nil, ids, txt, nf>>
       \* made by hand: a not-found error with any cause, or none
       [] w = "new"      -> nil' = FALSE /\ nf' = <<<<t, i>>>> \o nf /\ txt' = FALSE /\ UNCHANGED ids
       \* a single-row query, a list query whose driver fails with the error
       [] w \in {"row", "list", "scan"} -> ~nil /\ UNCHANGED <<nil, ids, txt, nf>>
  /\ Log([op |-> "wrap", how |-> w, table |-> t, id |-> i])

Draw(S) == RandomElement(IF Len(ops) < 0 THEN {} ELSE S)
Emit == PrintT("BEH " \o ToJson(ops))
Init == nil = TRUE /\ ids = {} /\ txt = FALSE /\ nf = <<>> /\ ops = <<>> /\ fin = FALSE
Named(w) == w \in {"check", "new"}
Next ==
  \/ ~fin /\ \E k \in Leaves : Leaf(k)
  \/ /\ ~fin /\ ops # <<>> /\ Len(ops) <= Depth
     /\ IF Walk THEN \E w \in {Draw(Wraps)}, t \in {Draw(Tables)}, i \in {Draw(Ids)} : Wrap(w, IF Named(w) THEN t ELSE "", IF Named(w) THEN i ELSE "")
        ELSE \E w \in Wraps : LET k == ToString(Len(ops)) IN Wrap(w, IF Named(w) THEN "t" \o k ELSE "", IF Named(w) THEN k ELSE "")
  \/ Len(ops) = Depth + 1 /\ ~fin /\ fin' = TRUE /\ Emit /\ UNCHANGED <<nil, ids, txt, nf, ops>>
Spec == Init /\ [][Next]_vars

\* a not-found condition is lost only by wrapping that keeps no chain
Last == ops[Len(ops)]
Kept == [][(NotFound /\ ~fin') => (NotFound' \/ Last'.how \in TextOnly \cup {"secondary"} \cup Hidden)]_vars
\* hiding the text loses the condition only if the text was all there was
HiddenOK == [][(ops # <<>> /\ ~fin' /\ Last'.how \in Hidden /\ (NoRows \in ids \/ nf # <<>>)) => NotFound']_vars
\* converting keeps what was reachable, and names the row when there was none
CheckOK == [][(ops # <<>> /\ ~fin' /\ Last'.how = "check") => ids \subseteq ids' /\ NotFound' = NotFound /\ nil' = nil /\ (IsNoRows => nf'[1] = <<Last'.table, Last'.id>>)]_vars
\* converting twice gives what converting once gives, to whoever asks
NilOK == nil => ids = {} /\ nf = <<>> /\ ~txt
=============================================================================
