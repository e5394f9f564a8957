-------------------------------- MODULE ValueBags --------------------------------
(***************************************************************************)
(* Maps (metadata, sets of lists) and lists of strings as values: merging, *)
(* scanning and decoding into one changes no other, whatever was shared.   *)
(* A map is a partial function (-1 for no entry).                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Maps, Kvs, Lists, Keys, Vals, MaxLen, Depth, Walk, Record

VARIABLES map, list, ops, n, fin
vars == <<map, list, ops, n, fin>>

None == -1
Slots == Maps \cup Kvs
Empty == [k \in Keys |-> None]
Log(o) == n' = n + 1 /\ ops' = IF Record THEN Append(ops, o @@ [map |-> map', list |-> list']) ELSE ops
Op(op, s) == [op |-> op, s |-> s, a |-> s, how |-> "", key |-> "", v |-> 0, m |-> Empty, seq |-> <<>>, ok |-> TRUE]
MapOp(o, s, m) == map' = [map EXCEPT ![s] = m] /\ UNCHANGED <<list, fin>> /\ Log(o)
Make(s, m) == MapOp([Op("Make", s) EXCEPT !.m = m], s, m)
Put(s, k, v) == MapOp([Op("Put", s) EXCEPT !.key = k, !.v = v], s, [map[s] EXCEPT ![k] = v])
Plus(a, b) == [k \in Keys |-> IF b[k] # None THEN b[k] ELSE a[k]]
Same(s, a) == (s \in Maps) = (a \in Maps)
Merge(s, a) == Same(s, a) /\ MapOp([Op("Merge", s) EXCEPT !.a = a], s, Plus(map[s], map[a]))
\* into the slot itself, or into a copy of slot a that shares its storage
Scan(s, a, how, m) == Same(s, a) /\ MapOp([Op("Scan", s) EXCEPT !.a = a, !.how = how, !.m = m], s, m)
\* refused; what the destination holds then is left open, and set again
ScanBad(s, a, how) == Same(s, a) /\ MapOp([Op("ScanBad", s) EXCEPT !.a = a, !.how = how, !.ok = FALSE], s, Empty)
Round(s, a, how) == Same(s, a) /\ MapOp([Op("Round", s) EXCEPT !.a = a, !.how = how], s, map[a])
ListOp(o, l, q) == list' = [list EXCEPT ![l] = q] /\ UNCHANGED <<map, fin>> /\ Log(o)
MakeL(l, q) == ListOp([Op("MakeL", l) EXCEPT !.seq = q], l, q)
AssignL(l, a, k) == ListOp([Op("AssignL", l) EXCEPT !.a = a, !.v = k], l, SubSeq(list[a], 1, IF k > Len(list[a]) THEN Len(list[a]) ELSE k))
ScanL(l, a, how, q) == ListOp([Op("ScanL", l) EXCEPT !.a = a, !.how = how, !.seq = q], l, q)
ScanBadL(l, a, how) == ListOp([Op("ScanBadL", l) EXCEPT !.a = a, !.how = how, !.ok = FALSE], l, <<>>)
RoundL(l, a, how) == ListOp([Op("RoundL", l) EXCEPT !.a = a, !.how = how], l, list[a])

Draw(S) == RandomElement(IF n < 0 THEN {} ELSE S)
RandMap == [k \in Keys |-> Draw({None} \cup Vals)]
Kin(s) == IF s \in Maps THEN Maps ELSE Kvs
Hows == {"string", "bytes"}
Step == \E w \in {Draw(1..15)}, s \in {Draw(Slots)}, k \in {Draw(Keys)}, v \in {Draw(Vals \cup {None})}, h \in {Draw(Hows)}, l \in {Draw(Lists)}, b \in {Draw(Lists)}, z \in {Draw(0..MaxLen)}, e \in {Draw({"text", "type", "json", "number"})} :
  \E a \in {Draw(Kin(s))}, m \in {RandMap}, q \in {[x \in 1..z |-> Draw(Vals)]} :
    CASE w <= 2 -> Make(s, m)
      [] w = 3 -> Put(s, k, v)
      [] w \in 4..6 -> Merge(s, a)
      [] w = 7 -> Scan(s, a, h, m)
      [] w = 8 -> \E x \in {Draw({"nil", "empty"})} : Scan(s, a, x, Empty)
      [] w = 9 -> ScanBad(s, a, e)
      [] w = 10 -> Round(s, a, h)
      [] w = 11 -> MakeL(l, q)
      [] w = 12 -> AssignL(l, b, z)
      [] w = 13 -> ScanL(l, b, h, q)
      [] w = 14 -> \E x \in {Draw({"nil", "empty"})} : ScanL(l, b, x, <<>>)
      [] w = 15 -> IF v = None THEN ScanBadL(l, b, IF e = "type" THEN "text" ELSE e) ELSE RoundL(l, b, h)
EnumStep == \/ \E s \in Slots, a \in Slots, m \in {Empty, [Empty EXCEPT !["k"] = 1]} : Make(s, m) \/ Merge(s, a) \/ Scan(s, a, "string", m)
            \/ \E l, a \in Lists, q \in {<<>>, <<1>>, <<0, 1>>} : MakeL(l, q) \/ AssignL(l, a, 1) \/ ScanL(l, a, "string", q)
Init == map = [s \in Slots |-> Empty] /\ list = [l \in Lists |-> <<>>] /\ ops = <<>> /\ n = 0 /\ fin = FALSE
Next == \/ ~fin /\ n < Depth /\ (IF Walk THEN Step ELSE EnumStep)
        \/ ~fin /\ n = Depth /\ fin' = TRUE /\ (Record => PrintT("BEH " \o ToJson(ops))) /\ UNCHANGED <<map, list, ops, n>>
Spec == Init /\ [][Next]_vars

\* an operation changes its own slot only
Local == [][\E s \in Slots, l \in Lists : (\A j \in Slots \ {s} : map'[j] = map[j]) /\ (\A k \in Lists \ {l} : list'[k] = list[k])]_vars
Laws == \A a, b \in Slots : Plus(Plus(map[a], map[b]), map[b]) = Plus(map[a], map[b]) /\ Plus(Empty, map[a]) = map[a] /\ Plus(map[a], Empty) = map[a]
=============================================================================
