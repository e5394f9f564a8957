------------------------------- MODULE Merge --------------------------------
(***************************************************************************)
(* Models with single-valued fields (0 is the zero value) and maps.        *)
(* Merging gives each field the source's value when it has one; models are *)
(* independent, whatever was merged before.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Models, Fields, Maps, Keys, Vals, MapVals, Depth, Walk, Record

VARIABLES val, map, ops, n, fin
vars == <<val, map, ops, n, fin>>

None == -1
ZeroVal == [f \in Fields |-> 0]
ZeroMap == [g \in Maps |-> [k \in Keys |-> None]]
Log(o) == n' = n + 1 /\ ops' = IF Record THEN Append(ops, o) ELSE ops
Op(op, m, s) == [op |-> op, m |-> m, s |-> s, how |-> "", field |-> "", v |-> 0, val |-> <<>>, map |-> <<>>]
\* observed after every operation
Snap == [val |-> val', map |-> map']
Assign(m, f, v, how) == val' = [val EXCEPT ![m][f] = v] /\ UNCHANGED <<map, fin>> /\ Log([Op("Assign", m, m) EXCEPT !.field = f, !.v = v, !.how = how] @@ [snap |-> Snap])
Put(m, g, k, v) == map' = [map EXCEPT ![m][g][k] = v] /\ UNCHANGED <<val, fin>> /\ Log([Op("Put", m, m) EXCEPT !.field = g, !.how = k, !.v = v] @@ [snap |-> Snap])
Make(m, V, G) == val' = [val EXCEPT ![m] = V] /\ map' = [map EXCEPT ![m] = G] /\ UNCHANGED fin /\ Log(Op("Make", m, m) @@ [snap |-> Snap])
Merge(m, s, how) == /\ val' = [val EXCEPT ![m] = [f \in Fields |-> IF val[s][f] # 0 THEN val[s][f] ELSE @[f]]]
                    /\ map' = [map EXCEPT ![m] = [g \in Maps |-> [k \in Keys |-> IF map[s][g][k] # None THEN map[s][g][k] ELSE @[g][k]]]]
                    /\ UNCHANGED fin /\ Log([Op("Merge", m, s) EXCEPT !.how = how] @@ [snap |-> Snap])
\* refused: nothing changes
Bad(m, how) == UNCHANGED <<val, map, fin>> /\ Log([Op("Bad", m, m) EXCEPT !.how = how] @@ [snap |-> Snap])
Copy(m, s) == val' = [val EXCEPT ![m] = val[s]] /\ map' = [map EXCEPT ![m] = map[s]] /\ UNCHANGED fin /\ Log(Op("Copy", m, s) @@ [snap |-> Snap])

Hows == {"ptr", "val"}
Draw(S) == RandomElement(IF n < 0 THEN {} ELSE S)
Init == val = [m \in Models |-> ZeroVal] /\ map = [m \in Models |-> ZeroMap] /\ ops = <<>> /\ n = 0 /\ fin = FALSE
RandVal == [f \in Fields |-> Draw(Vals)]
RandMap == [g \in Maps |-> [k \in Keys |-> Draw({None, None} \cup MapVals)]]
Step == IF Walk
  THEN \E w \in {Draw(1..12)}, m \in {Draw(Models)}, s \in {Draw(Models)}, f \in {Draw(Fields)}, v \in {Draw(Vals)}, h \in {Draw({"set", "scan", "new", "json"})}, e \in {Draw(Hows)}, g \in {Draw(Maps)}, k \in {Draw(Keys)}, u \in {Draw(MapVals \cup {None})}, b \in {Draw({"nilsrc", "nildst", "value", "type"})} :
       CASE w <= 2 -> \E V \in {RandVal}, G \in {RandMap} : Make(m, V, G)
         [] w <= 4 -> Assign(m, f, v, h)
         [] w <= 6 -> Put(m, g, k, u)
         [] w <= 10 -> Merge(m, s, e)
         [] w = 11 -> Bad(m, b)
         [] w = 12 -> Copy(m, s)
  ELSE \/ \E m \in Models, f \in Fields, v \in Vals : Assign(m, f, v, "new")
       \/ \E m \in Models, g \in Maps, k \in Keys, v \in MapVals : Put(m, g, k, v)
       \/ \E m, s \in Models, e \in Hows : Merge(m, s, e)
Next == \/ ~fin /\ n < Depth /\ Step
        \/ ~fin /\ n = Depth /\ fin' = TRUE /\ (Record => PrintT("BEH " \o ToJson(ops))) /\ UNCHANGED <<val, map, ops, n>>
Spec == Init /\ [][Next]_vars

Has(x) == [f \in Fields |-> x[f] # 0]
\* merging loses nothing, is idempotent and associative
M(a, b) == [f \in Fields |-> IF b[f] # 0 THEN b[f] ELSE a[f]]
Laws == \A a, b, c \in Models : /\ M(val[a], val[a]) = val[a]
                                /\ M(M(val[a], val[b]), val[b]) = M(val[a], val[b])
                                /\ M(M(val[a], val[b]), val[c]) = M(val[a], M(val[b], val[c]))
                                /\ M(ZeroVal, val[a]) = val[a] /\ M(val[a], ZeroVal) = val[a]
=============================================================================
